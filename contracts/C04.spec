// C04: completion and fixpoint of the decoder
define dset(d) = elems(d.cs, "dirty")
define dlist(d) = elems(d.dirty, "")
define dirtyTrack(c, was) = c.dirty == (was || 0 - 1 <= c.count && c.count <= 1)
// the worklist holds each newly dirty cell once more
define dirtyList(d) = forall k int {qcnt(dlist(d), len(d.dirty), k)} :: qcnt(dlist(d), len(d.dirty), k) == pre(qcnt(dlist(d), len(d.dirty), k)) + ite(0 <= k && k < len(d.cs), b2i(dset(d)[k]) - b2i(pre(dset(d)[k])), 0)
define dirtyListOld(d) = forall k int {qcnt(dlist(d), len(d.dirty), k)} :: qcnt(dlist(d), len(d.dirty), k) == old(qcnt(dlist(d), len(d.dirty), k)) + ite(0 <= k && k < len(d.cs), b2i(dset(d)[k]) - b2i(old(dset(d)[k])), 0)
// bookkeeping: the worklist from didx on lists every dirty cell once, cells that hold exactly one undecoded
// symbol are dirty, and pending counts the cells that are dirty or hold undecoded symbols
define tracked(d, didx) = (forall k int {dset(d)[k]} :: 0 <= k && k < len(d.cs) ==> qcnt(dlist(d), len(d.dirty), k) - qcnt(dlist(d), didx, k) == b2i(dset(d)[k]))
   && (forall k int {dset(d)[k]} {acnt(RH(), $ra, k, nR())} :: 0 <= k && k < len(d.cs) && holds($ra, $la, k) == 1 ==> dset(d)[k])
   && d.pending == pnum(dset(d), $ra, $la, len(d.cs))
define progress(d, k0) = forall k int {ind(dset(d), $ra, $la, k)} :: 0 <= k && k < len(d.cs) && k != k0 ==> ind(dset(d), $ra, $la, k) == head(ind(dset(d), $ra, $la, k))
define taken(d, didx) = didx < len(d.dirty) ==> dset(d)[d.dirty[didx]]
define listing(d, k0) = forall k int {dset(d)[k]} :: 0 <= k && k < len(d.cs) ==> qcnt(dlist(d), len(d.dirty), k) - head(qcnt(dlist(d), len(d.dirty), k)) == ite(k == k0, 0, b2i(dset(d)[k]) - head(b2i(dset(d)[k])))
// the cell just examined counts as pending exactly when it still holds undecoded symbols
define settled(d, k0) = !dset(d)[k0] && d.pending - head(d.pending) == b2i(ind(dset(d), $ra, $la, k0)) - 1
// no cell holds exactly one undecoded symbol
define stable(d) = forall k int {acnt(RH(), $ra, k, nR())} :: 0 <= k && k < len(d.cs) ==> holds($ra, $la, k) != 1

include riblt_dec.inc
smt pdefs
  (declare-fun ind ((Array Int Bool) (Array Int Bool) (Array Int Bool) Int) Bool)
  (assert (forall ((D (Array Int Bool)) (A (Array Int Bool)) (B (Array Int Bool)) (k Int)) (! (= (ind D A B k) (or (select D k) (> (+ (acnt RH A k nR) (acnt LH B k nL)) 0))) :pattern ((ind D A B k)))))
smt pdefs2
  (declare-fun pnum ((Array Int Bool) (Array Int Bool) (Array Int Bool) Int) Int)
  (assert (forall ((D (Array Int Bool)) (A (Array Int Bool)) (B (Array Int Bool)) (n Int)) (! (= (pnum D A B n) (ite (<= n 0) 0 (+ (pnum D A B (- n 1)) (ite (ind D A B (- n 1)) 1 0)))) :pattern ((pnum D A B n)))))
lemma pnum_nonneg(D bools, A bools, B bools, n int)
  requires n >= 0
  ensures pnum(D, A, B, n) >= 0
  induction n
  trigger pnum(D, A, B, n)
lemma pnum_zero(D bools, A bools, B bools, n int, k int)
  requires 0 <= k && k < n && pnum(D, A, B, n) == 0
  ensures !ind(D, A, B, k)
  induction n
  trigger pnum(D, A, B, n), ind(D, A, B, k)
lemma pnum_ext(D bools, D2 bools, A bools, B bools, n int)
  requires n >= 0
  requires forall k int {D[k]} {D2[k]} :: 0 <= k && k < n ==> D2[k] == D[k]
  ensures pnum(D2, A, B, n) == pnum(D, A, B, n)
  induction n
  noaxiom
lemma pnum_point(D bools, A bools, B bools, D2 bools, A2 bools, B2 bools, n int, k0 int)
  requires n >= 0
  requires forall k int {ind(D, A, B, k)} {ind(D2, A2, B2, k)} :: 0 <= k && k < n && k != k0 ==> ind(D2, A2, B2, k) == ind(D, A, B, k)
  ensures pnum(D2, A2, B2, n) == pnum(D, A, B, n) + ite(0 <= k0 && k0 < n, b2i(ind(D2, A2, B2, k0)) - b2i(ind(D, A, B, k0)), 0)
  induction n
  noaxiom

package riblt
func Decoder.Decoded(d) r
  hide aggdefs symdefs queuedefs queue mpar_* wpar_* mcnt_* wcnt_* qcnt_* apar_* anum_* cntle_* heap_min pnum_ext pdefs2
  requires decS(d)
  requires tracked(d, 0)
  modifies nothing
  exit pnum_nonneg(dset(d), $ra, $la, len(d.cs))
  exit d.pending == 0 && len(d.cs) > 0 ==> !ind(dset(d), $ra, $la, 0) && mapped(1, 0)
  ensures complete: r && len(d.cs) > 0 ==> (forall i int {$ra[i]} :: 0 <= i && i < nR() ==> !$ra[i]) && (forall i int {$la[i]} :: 0 <= i && i < nL() ==> !$la[i])
  ensures listsExact: r && len(d.cs) > 0 ==> (forall i int {RH()[i]} :: 0 <= i && i < nR() ==> qcnt(wH(d.remote), wlen(d.remote), RH()[i]) == 1) && (forall i int {LH()[i]} :: 0 <= i && i < nL() ==> qcnt(wH(d.local), wlen(d.local), LH()[i]) == 1)
  ensures notEarly: r ==> (forall k int {acnt(RH(), $ra, k, nR())} :: 0 <= k && k < len(d.cs) ==> !ind(dset(d), $ra, $la, k) && holds($ra, $la, k) == 0)

func Decoder.Remote(d) r
  modifies nothing
  ensures list: arr(r) == arr(d.remote.symbols) && off(r) == off(d.remote.symbols) && len(r) == len(d.remote.symbols)

func Decoder.Local(d) r
  modifies nothing
  ensures list: arr(r) == arr(d.local.symbols) && off(r) == off(d.local.symbols) && len(r) == len(d.local.symbols)
