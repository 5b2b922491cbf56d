// the rateless decoder; the includer defines the dirty-list and pending bookkeeping (C04) or leaves it out (C03):
//   dirtyTrack(d), pendOk(d), pureDirty(d), tracked(d, didx)
include riblt_win.inc
package riblt

assume every coded symbol given to the decoder is the one the other side's encoder produces at that index for one fixed set, and the decoder's own set is complete before the first one arrives
assume no hash collision among the symbols involved: a combination of undecoded symbols whose count is 1 (-1) and whose data hashes to its hash is a single symbol of the remote (local) side, and one whose count and hash are 0 is empty

// the set difference: RH lists the hashes of remote-only symbols, LH those of local-only ones; hc gives their content
logic RH() ints
logic LH() ints
logic nR() int
logic nL() int
logic hc(int) int
logic idxR(int) int
logic idxL(int) int
// undecoded ones
ghostvar $ra : (Array Int Bool)
ghostvar $la : (Array Int Bool)
smt
  (define-fun ALL () (Array Int Bool) ((as const (Array Int Bool)) true))
  (assert (and (<= 0 nR) (<= 0 nL)))
  (assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i nR)) (and (= (idxR (select RH i)) i) (= (thash (hc (select RH i))) (select RH i)))) :pattern ((select RH i)))))
  (assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i nL)) (and (= (idxL (select LH i)) i) (= (thash (hc (select LH i))) (select LH i)))) :pattern ((select LH i)))))
smt aggdefs
// aggregate of the undecoded symbols mapped to k
  (declare-fun apar ((Array Int Int) (Array Int Bool) Int Int Int) Bool)
  (assert (forall ((H (Array Int Int)) (A (Array Int Bool)) (k Int) (n Int) (b Int))
     (! (= (apar H A k n b) (and (> n 0) (xor (apar H A k (- n 1) b) (and (select A (- n 1)) (reach (select H (- n 1)) 0 k) (sbit (hc (select H (- n 1))) (select H (- n 1)) b))))) :pattern ((apar H A k n b)))))
  (declare-fun acnt ((Array Int Int) (Array Int Bool) Int Int) Int)
  (assert (forall ((H (Array Int Int)) (A (Array Int Bool)) (k Int) (n Int))
     (! (= (acnt H A k n) (ite (<= n 0) 0 (+ (acnt H A k (- n 1)) (ite (and (select A (- n 1)) (reach (select H (- n 1)) 0 k)) 1 0)))) :pattern ((acnt H A k n)))))
  (declare-fun wit ((Array Int Int) (Array Int Bool) Int Int) Int)
  (assert (forall ((H (Array Int Int)) (A (Array Int Bool)) (k Int) (n Int))
     (! (=> (> n 0) (= (wit H A k n) (ite (and (select A (- n 1)) (reach (select H (- n 1)) 0 k)) (- n 1) (wit H A k (- n 1))))) :pattern ((wit H A k n)))))
// number of undecoded symbols
  (declare-fun anum ((Array Int Bool) Int) Int)
  (assert (forall ((A (Array Int Bool)) (n Int)) (! (= (anum A n) (ite (<= n 0) 0 (+ (anum A (- n 1)) (ite (select A (- n 1)) 1 0)))) :pattern ((anum A n)))))

lemma apar_store(H ints, A bools, k int, n int, b int, i int)
  requires n >= 0
  ensures apar(H, upd(A, i, false), k, n, b) == xor(apar(H, A, k, n, b), 0 <= i && i < n && A[i] && mapped(H[i], k) && sbit(hc(H[i]), H[i], b))
  induction n
  trigger apar(H, upd(A, i, false), k, n, b)
lemma acnt_store(H ints, A bools, k int, n int, i int)
  requires n >= 0
  ensures acnt(H, upd(A, i, false), k, n) == acnt(H, A, k, n) - ite(0 <= i && i < n && A[i] && mapped(H[i], k), 1, 0)
  induction n
  trigger acnt(H, upd(A, i, false), k, n)
lemma acnt_nonneg(H ints, A bools, k int, n int)
  requires n >= 0
  ensures acnt(H, A, k, n) >= 0
  induction n
  trigger acnt(H, A, k, n)
lemma acnt_zero(H ints, A bools, k int, n int, i int)
  requires acnt(H, A, k, n) == 0 && 0 <= i && i < n
  ensures !(A[i] && mapped(H[i], k))
  induction n
  trigger acnt(H, A, k, n), A[i]
lemma apar_zero(H ints, A bools, k int, n int, b int)
  requires n >= 0 && acnt(H, A, k, n) == 0
  ensures !apar(H, A, k, n, b)
  induction n
  trigger apar(H, A, k, n, b)
lemma acnt_one(H ints, A bools, k int, n int)
  requires n >= 0 && acnt(H, A, k, n) == 1
  ensures let w := wit(H, A, k, n) :: 0 <= w && w < n && A[w] && mapped(H[w], k)
  ensures let w := wit(H, A, k, n) :: forall b int {apar(H, A, k, n, b)} {sbit(hc(H[w]), H[w], b)} :: apar(H, A, k, n, b) == sbit(hc(H[w]), H[w], b)
  induction n
  noaxiom
lemma anum_nonneg(A bools, n int)
  requires n >= 0
  ensures anum(A, n) >= 0
  induction n
  trigger anum(A, n)
lemma anum_store(A bools, n int, i int)
  requires n >= 0
  ensures anum(upd(A, i, false), n) == anum(A, n) - ite(0 <= i && i < n && A[i], 1, 0)
  induction n
  trigger anum(upd(A, i, false), n)
// lists that agree on their first n entries
// unfolding of the last list entry
lemma last_entry(S ints, T ints, H ints, n int)
  requires n > 0
  ensures forall k int, b int {mpar(S, T, H, k, n, b)} :: mpar(S, T, H, k, n, b) == xor(mpar(S, T, H, k, n - 1, b), mapped(H[n - 1], k) && sbit(cont(T, S[n - 1]), H[n - 1], b))
  ensures forall k int {mcnt(H, k, n)} :: mcnt(H, k, n) == mcnt(H, k, n - 1) + ite(mapped(H[n - 1], k), 1, 0)
  ensures forall v int {qcnt(H, n, v)} :: qcnt(H, n, v) == qcnt(H, n - 1, v) + ite(H[n - 1] == v, 1, 0)
  noaxiom
lemma mpar_ext(S ints, T ints, H ints, S2 ints, T2 ints, H2 ints, n int)
  requires n >= 0
  requires forall j int {S[j]} {S2[j]} {H[j]} {H2[j]} :: 0 <= j && j < n ==> H2[j] == H[j] && cont(T2, S2[j]) == cont(T, S[j])
  ensures forall k int, b int {mpar(S, T, H, k, n, b)} {mpar(S2, T2, H2, k, n, b)} :: mpar(S2, T2, H2, k, n, b) == mpar(S, T, H, k, n, b)
  ensures forall k int {mcnt(H, k, n)} {mcnt(H2, k, n)} :: mcnt(H2, k, n) == mcnt(H, k, n)
  induction n
  noaxiom
lemma qcnt_ext(H ints, H2 ints, n int)
  requires n >= 0
  requires forall j int {H[j]} {H2[j]} :: 0 <= j && j < n ==> H2[j] == H[j]
  ensures forall v int {qcnt(H, n, v)} {qcnt(H2, n, v)} :: qcnt(H2, n, v) == qcnt(H, n, v)
  induction n
  noaxiom
lemma qcnt_last(Q ints, n int)
  ensures forall v int {qcnt(Q, n, v)} :: n >= 1 ==> qcnt(Q, n, v) == qcnt(Q, n - 1, v) + ite(Q[n - 1] == v, 1, 0)
  noaxiom
lemma occ_zero(Q ints, v int)
  ensures qcnt(Q, 0, v) == 0
  trigger qcnt(Q, 0, v)
lemma occ_absent(Q ints, n int, v int)
  requires n >= 0
  requires forall j int {Q[j]} :: 0 <= j && j < n ==> Q[j] != v
  ensures qcnt(Q, n, v) == 0
  induction n
  noaxiom

smt
  (declare-fun aggBits ((Array Int Bool) (Array Int Bool) Int Int) Bool)
  (assert (forall ((A (Array Int Bool)) (B (Array Int Bool)) (k Int) (b Int)) (! (= (aggBits A B k b) (xor (apar RH A k nR b) (apar LH B k nL b))) :pattern ((aggBits A B k b)))))
define aggCount(A, B, k) = acnt(RH(), A, k, nR()) - acnt(LH(), B, k, nL())
define holds(A, B, k) = acnt(RH(), A, k, nR()) + acnt(LH(), B, k, nL())

axiom noCollision(A bools, B bools, k int, c int, h int)
  requires forall b int {sbit(c, h, b)} :: sbit(c, h, b) == aggBits(A, B, k, b)
  requires thash(c) == h
  ensures aggCount(A, B, k) == 1 ==> acnt(RH(), A, k, nR()) == 1 && acnt(LH(), B, k, nL()) == 0
  ensures aggCount(A, B, k) == 0 - 1 ==> acnt(RH(), A, k, nR()) == 0 && acnt(LH(), B, k, nL()) == 1
  noaxiom
  note no hash collision among the symbols involved
axiom noZeroCollision(A bools, B bools, k int, c int)
  requires forall b int {sbit(c, 0, b)} :: sbit(c, 0, b) == aggBits(A, B, k, b)
  requires aggCount(A, B, k) == 0
  ensures holds(A, B, k) == 0
  noaxiom
  note no hash collision among the symbols involved
axiom sameBits(c int, h int, c2 int, h2 int)
  requires forall b int {sbit(c, h, b)} {sbit(c2, h2, b)} :: sbit(c, h, b) == sbit(c2, h2, b)
  ensures c == c2 && h == h2
  noaxiom
  note contents and hashes with equal bits are equal
lemma emptyCell(A bools, B bools, k int, c int, h int)
  requires forall b int {sbit(c, h, b)} :: sbit(c, h, b) == aggBits(A, B, k, b)
  requires holds(A, B, k) == 0
  ensures h == 0
  hint acnt_nonneg(RH(), A, k, nR())
  hint acnt_nonneg(LH(), B, k, nL())
  hint forall b int {sbit(c, h, b)} :: !sbit(c, h, b)
  hint sameBits(c, h, 0, 0)
  noaxiom
lemma occ_mono(Q ints, m int, n int, v int)
  requires 0 <= m && m <= n
  ensures qcnt(Q, m, v) <= qcnt(Q, n, v)
  induction n
  from m
  noaxiom

// ----- invariant of the decoder -----
define sepArr(a, b) = arr(a) == 0 || arr(a) != arr(b)
define sepWin(u, v) = sepArr(u.symbols, v.symbols) && sepArr(u.mappings, v.mappings) && sepArr(u.queue, v.queue)
define foldR(d) = (forall k int, b int {mpar(wS(d.remote), $tc, wH(d.remote), k, wlen(d.remote), b)} {apar(RH(), $ra, k, nR(), b)} :: xor(mpar(wS(d.remote), $tc, wH(d.remote), k, wlen(d.remote), b), apar(RH(), $ra, k, nR(), b)) == apar(RH(), ALL(), k, nR(), b))
   && (forall k int {mcnt(wH(d.remote), k, wlen(d.remote))} {acnt(RH(), $ra, k, nR())} :: mcnt(wH(d.remote), k, wlen(d.remote)) + acnt(RH(), $ra, k, nR()) == acnt(RH(), ALL(), k, nR()))
define foldL(d) = (forall k int, b int {mpar(wS(d.local), $tc, wH(d.local), k, wlen(d.local), b)} {apar(LH(), $la, k, nL(), b)} :: xor(mpar(wS(d.local), $tc, wH(d.local), k, wlen(d.local), b), apar(LH(), $la, k, nL(), b)) == apar(LH(), ALL(), k, nL(), b))
   && (forall k int {mcnt(wH(d.local), k, wlen(d.local))} {acnt(LH(), $la, k, nL())} :: mcnt(wH(d.local), k, wlen(d.local)) + acnt(LH(), $la, k, nL()) == acnt(LH(), ALL(), k, nL()))
// reported symbols: members of their side, with the right data, each at most once
define listR(d) = (forall j in d.remote.symbols :: 0 <= idxR(d.remote.symbols[j].Hash) && idxR(d.remote.symbols[j].Hash) < nR() && d.remote.symbols[j].Hash == RH()[idxR(d.remote.symbols[j].Hash)] && con(d.remote.symbols[j].Symbol) == hc(d.remote.symbols[j].Hash))
   && (forall i int {RH()[i]} {$ra[i]} :: 0 <= i && i < nR() ==> qcnt(wH(d.remote), wlen(d.remote), RH()[i]) == ite($ra[i], 0, 1))
define listL(d) = (forall j in d.local.symbols :: 0 <= idxL(d.local.symbols[j].Hash) && idxL(d.local.symbols[j].Hash) < nL() && d.local.symbols[j].Hash == LH()[idxL(d.local.symbols[j].Hash)] && con(d.local.symbols[j].Symbol) == hc(d.local.symbols[j].Hash))
   && (forall i int {LH()[i]} {$la[i]} :: 0 <= i && i < nL() ==> qcnt(wH(d.local), wlen(d.local), LH()[i]) == ite($la[i], 0, 1))
define notSym(v, w) = v != 0 ==> (forall i in w.symbols :: w.symbols[i].Symbol != v)
define notCell(v, d) = v != 0 ==> (forall k in d.cs :: d.cs[k].sum != v)
define ownCells(d) = forall k in d.cs, j in d.cs :: d.cs[k].sum != 0 && d.cs[k].sum == d.cs[j].sum ==> k == j
define own(d) = ownCells(d)
   && (forall k in d.cs, i in d.remote.symbols :: d.cs[k].sum != 0 ==> d.cs[k].sum != d.remote.symbols[i].Symbol)
   && (forall k in d.cs, i in d.local.symbols :: d.cs[k].sum != 0 ==> d.cs[k].sum != d.local.symbols[i].Symbol)
   && (forall k in d.cs, i in d.window.symbols :: d.cs[k].sum != 0 ==> d.cs[k].sum != d.window.symbols[i].Symbol)
define dcell(d, k, b) = sbit(con(d.cs[k].sum), d.cs[k].checksum, b)
define cellsOk(d) = (forall k in d.cs, b int {dcell(d, k, b)} {aggBits($ra, $la, k, b)} :: dcell(d, k, b) == aggBits($ra, $la, k, b))
   && (forall k in d.cs :: d.cs[k].count == aggCount($ra, $la, k))
define windowsOk(d) = wok(d.window) && wok(d.remote) && wok(d.local)
   && d.window.nextIdx == len(d.cs) && d.remote.nextIdx == len(d.cs) && d.local.nextIdx == len(d.cs)
   && sepWin(d.window, d.remote) && sepWin(d.remote, d.window) && sepWin(d.window, d.local) && sepWin(d.local, d.window) && sepWin(d.remote, d.local) && sepWin(d.local, d.remote)
define dirtyValid(d) = forall j in d.dirty :: 0 <= d.dirty[j] && d.dirty[j] < len(d.cs)
define decS(d) = off(d.cs) == 0 && off(d.dirty) == 0 && windowsOk(d) && foldR(d) && foldL(d) && listR(d) && listL(d) && own(d) && cellsOk(d) && dirtyValid(d)

// the coded symbol of the other side's set at index k
define honest(c, d, k) = (forall b int {cbit(c, b)} {aggBits(ALL(), ALL(), k, b)} :: xor(cbit(c, b), mpar(wS(d.window), $tc, wH(d.window), k, wlen(d.window), b)) == aggBits(ALL(), ALL(), k, b))
   && c.count - mcnt(wH(d.window), k, wlen(d.window)) == aggCount(ALL(), ALL(), k)

func Decoder.AddCodedSymbol(d, c)
  hide queue mapping queuedefs symdefs aggdefs qcnt_* wpar_* wcnt_* apar_* acnt_store acnt_zero anum_* heap_min
  requires decS(d)
  requires tracked(d, 0)
  requires len(d.cs) < maxidx() - 3
  requires honest: honest(c, d, len(d.cs))
  requires notShared: notCell(c.sum, d) && notSym(c.sum, d.window) && notSym(c.sum, d.remote) && notSym(c.sum, d.local)
  modifies d.cs, d.cs[*], d.dirty, d.dirty[*], d.pending, d.window, d.remote, d.local, allelems("riblt.symbolMapping"), allelems("riblt.randomMapping"), $tc
  after applyWindow: mpar_ext(wS(d.window), pre($tc), wH(d.window), wS(d.window), $tc, wH(d.window), wlen(d.window))
  after applyWindow: mpar_ext(wS(d.remote), pre($tc), wH(d.remote), wS(d.remote), $tc, wH(d.remote), wlen(d.remote))
  after applyWindow: mpar_ext(wS(d.local), pre($tc), wH(d.local), wS(d.local), $tc, wH(d.local), wlen(d.local))
  exit forall b int {dcell(d, len(d.cs) - 1, b)} :: dcell(d, len(d.cs) - 1, b) == aggBits($ra, $la, len(d.cs) - 1, b)
  exit forall k in old(d.cs), b int {dcell(d, k, b)} :: dcell(d, k, b) == old(dcell(d, k, b))
  exit noZeroCollision($ra, $la, len(d.cs) - 1, con(d.cs[len(d.cs) - 1].sum))
  exit pnum_ext(old(elems(d.cs, "dirty")), elems(d.cs, "dirty"), $ra, $la, old(len(d.cs)))
  exit qcnt_ext(old(elems(d.dirty, "")), elems(d.dirty, ""), old(len(d.dirty)))
  exit occ_absent(old(elems(d.dirty, "")), old(len(d.dirty)), old(len(d.cs)))
  exit qcnt_last(elems(d.dirty, ""), len(d.dirty))
  ensures added: len(d.cs) == old(len(d.cs)) + 1
  ensures state: decS(d)
  ensures tracking: tracked(d, 0)

func Decoder.applyNewSymbol(d, t, direction) r
  requires decBase: off(d.cs) == 0 && off(d.dirty) == 0 && ownCells(d) && dirtyValid(d) && notCell(t.Symbol, d)
  modifies d.cs[*], d.dirty, d.dirty[*], $tc, $ra, $la
  local m riblt.randomMapping
  loop 1
    invariant 0 <= m.lastIdx && m.lastIdx <= maxidx()
    invariant forall k int {reach(m.prng, m.lastIdx, k)} {reach(t.Hash, 0, k)} :: k >= m.lastIdx && k <= maxidx() - 1 ==> (reach(m.prng, m.lastIdx, k) <==> mapped(t.Hash, k))
    invariant forall k int {reach(t.Hash, 0, k)} :: k >= len(d.cs) && k < m.lastIdx ==> !mapped(t.Hash, k)
    invariant off(d.dirty) == 0 && ownCells(d) && dirtyValid(d) && notCell(t.Symbol, d)
    invariant len(d.dirty) >= pre(len(d.dirty))
    invariant forall i in pre(d.dirty) :: d.dirty[i] == pre(d.dirty[i])
    invariant arr(d.dirty) == pre(arr(d.dirty)) || fresh(d.dirty)
    invariant forall i in d.cs :: d.cs[i].sum == pre(d.cs[i].sum) || fresh(d.cs[i].sum)
    invariant forall i in d.cs :: i >= m.lastIdx || !mapped(t.Hash, i) ==> d.cs[i] == pre(d.cs[i]) && con(d.cs[i].sum) == pre(con(d.cs[i].sum))
    invariant forall i in d.cs, b int {dcell(d, i, b)} :: i < m.lastIdx && mapped(t.Hash, i) ==> dcell(d, i, b) == xor(pre(dcell(d, i, b)), sbitOf(t, b))
    invariant forall i in d.cs :: i < m.lastIdx && mapped(t.Hash, i) ==> d.cs[i].count == pre(d.cs[i].count) + direction && dirtyTrack(d.cs[i], pre(d.cs[i].dirty))
    invariant dirtyList(d)
    invariant forall v int {$tc[v]} :: v != 0 && !fresh(v) && pre(notCell(v, d)) ==> $tc[v] == pre($tc[v])
    decreases len(d.cs) - m.lastIdx
  end
  ghost $ra := ite(direction == 0 - 1, upd($ra, idxR(t.Hash), false), $ra)
  ghost $la := ite(direction == 1, upd($la, idxL(t.Hash), false), $la)
  ensures remoteDone: $ra == ite(direction == 0 - 1, upd(old($ra), idxR(t.Hash), false), old($ra))
  ensures localDone: $la == ite(direction == 1, upd(old($la), idxL(t.Hash), false), old($la))
  ensures base: off(d.dirty) == 0 && ownCells(d) && dirtyValid(d)
  ensures dirtyGrows: len(d.dirty) >= old(len(d.dirty))
  ensures dirtyKept: forall i in old(d.dirty) :: d.dirty[i] == old(d.dirty[i])
  ensures dirtyArray: arr(d.dirty) == old(arr(d.dirty)) || fresh(d.dirty)
  ensures sums: forall i in d.cs :: d.cs[i].sum == old(d.cs[i].sum) || fresh(d.cs[i].sum)
  ensures others: forall i in d.cs :: !mapped(t.Hash, i) ==> d.cs[i] == old(d.cs[i]) && con(d.cs[i].sum) == old(con(d.cs[i].sum))
  ensures bits: forall i in d.cs, b int {dcell(d, i, b)} :: mapped(t.Hash, i) ==> dcell(d, i, b) == xor(old(dcell(d, i, b)), old(sbitOf(t, b)))
  ensures counts: forall i in d.cs :: mapped(t.Hash, i) ==> d.cs[i].count == old(d.cs[i].count) + direction && dirtyTrack(d.cs[i], old(d.cs[i].dirty))
  ensures dirty: dirtyListOld(d)
  ensures onlySums: forall v int {$tc[v]} :: v != 0 && !fresh(v) && old(notCell(v, d)) ==> $tc[v] == old($tc[v])
  ensures mappingNext: r.lastIdx >= len(d.cs) && r.lastIdx <= maxidx()
  ensures mappingAgrees: forall k int {reach(r.prng, r.lastIdx, k)} {reach(t.Hash, 0, k)} :: k >= len(d.cs) && k <= maxidx() - 1 ==> (reach(r.prng, r.lastIdx, k) <==> mapped(t.Hash, k))

func Decoder.TryDecode(d)
  hide queue mapping aggdefs symdefs queuedefs heap_min wpar_* wcnt_* cntle_* qcnt_headonly qcnt_store
  requires decS(d)
  requires tracked(d, 0)
  modifies d.cs[*], d.dirty, d.dirty[*], d.pending, d.remote, d.local, allelems("riblt.HashedSymbol[T]"), allelems("riblt.symbolMapping"), allelems("riblt.randomMapping"), $tc, $ra, $la
  local didx int
  loop 1
    invariant 0 <= didx && didx <= len(d.dirty)
    invariant arr(d.dirty) == pre(arr(d.dirty)) || fresh(d.dirty)
    invariant decS(d)
    invariant tracked(d, didx)
    head noCollision($ra, $la, d.dirty[didx], con(d.cs[d.dirty[didx]].sum), d.cs[d.dirty[didx]].checksum)
    head noZeroCollision($ra, $la, d.dirty[didx], con(d.cs[d.dirty[didx]].sum))
    head acnt_one(RH(), $ra, d.dirty[didx], nR())
    head acnt_one(LH(), $la, d.dirty[didx], nL())
    head sameBits(con(d.cs[d.dirty[didx]].sum), d.cs[d.dirty[didx]].checksum, hc(RH()[wit(RH(), $ra, d.dirty[didx], nR())]), RH()[wit(RH(), $ra, d.dirty[didx], nR())])
    head sameBits(con(d.cs[d.dirty[didx]].sum), d.cs[d.dirty[didx]].checksum, hc(LH()[wit(LH(), $la, d.dirty[didx], nL())]), LH()[wit(LH(), $la, d.dirty[didx], nL())])
    head qcnt_last(elems(d.dirty, ""), didx + 1)
    head occ_mono(elems(d.dirty, ""), didx + 1, len(d.dirty), d.dirty[didx])
    head emptyCell($ra, $la, d.dirty[didx], con(d.cs[d.dirty[didx]].sum), d.cs[d.dirty[didx]].checksum)
    head taken(d, didx)
    back qcnt_ext(head(elems(d.dirty, "")), elems(d.dirty, ""), head(didx) + 1)
    back listing(d, head(d.dirty[didx]))
    back mpar_ext(head(wS(d.remote)), head($tc), head(wH(d.remote)), wS(d.remote), $tc, wH(d.remote), head(wlen(d.remote)))
    back mpar_ext(head(wS(d.local)), head($tc), head(wH(d.local)), wS(d.local), $tc, wH(d.local), head(wlen(d.local)))
    back qcnt_ext(head(wH(d.remote)), wH(d.remote), head(wlen(d.remote)))
    back qcnt_ext(head(wH(d.local)), wH(d.local), head(wlen(d.local)))
    back last_entry(wS(d.remote), $tc, wH(d.remote), wlen(d.remote))
    back last_entry(wS(d.local), $tc, wH(d.local), wlen(d.local))
    back wlen(d.remote) > head(wlen(d.remote)) ==> (let w := head(wit(RH(), $ra, d.dirty[didx], nR())) :: $ra == upd(head($ra), w, false) && head($ra[w]) && idxR(RH()[w]) == w)
    back wlen(d.remote) > head(wlen(d.remote)) ==> (let w := head(wit(RH(), $ra, d.dirty[didx], nR())) :: forall k int, b int {apar(RH(), $ra, k, nR(), b)} :: apar(RH(), $ra, k, nR(), b) == xor(apar(RH(), head($ra), k, nR(), b), mapped(RH()[w], k) && sbit(hc(RH()[w]), RH()[w], b)))
    back wlen(d.remote) > head(wlen(d.remote)) ==> (let w := head(wit(RH(), $ra, d.dirty[didx], nR())) :: forall k in d.cs, b int {dcell(d, k, b)} :: dcell(d, k, b) == xor(head(dcell(d, k, b)), mapped(RH()[w], k) && sbit(hc(RH()[w]), RH()[w], b)))
    back wlen(d.local) > head(wlen(d.local)) ==> (let w := head(wit(LH(), $la, d.dirty[didx], nL())) :: $la == upd(head($la), w, false) && head($la[w]) && idxL(LH()[w]) == w)
    back wlen(d.local) > head(wlen(d.local)) ==> (let w := head(wit(LH(), $la, d.dirty[didx], nL())) :: forall k int, b int {apar(LH(), $la, k, nL(), b)} :: apar(LH(), $la, k, nL(), b) == xor(apar(LH(), head($la), k, nL(), b), mapped(LH()[w], k) && sbit(hc(LH()[w]), LH()[w], b)))
    back wlen(d.local) > head(wlen(d.local)) ==> (let w := head(wit(LH(), $la, d.dirty[didx], nL())) :: forall k in d.cs, b int {dcell(d, k, b)} :: dcell(d, k, b) == xor(head(dcell(d, k, b)), mapped(LH()[w], k) && sbit(hc(LH()[w]), LH()[w], b)))
    back progress(d, head(d.dirty[didx]))
    back settled(d, head(d.dirty[didx]))
    back pnum_point(head(elems(d.cs, "dirty")), head($ra), head($la), elems(d.cs, "dirty"), $ra, $la, len(d.cs), head(d.dirty[didx]))
    decreases anum($ra, nR()) + anum($la, nL())
    decreases len(d.dirty) - didx
  end
  ensures state: decS(d)
  ensures tracking: tracked(d, 0)
  ensures noneDirty: len(d.dirty) == 0
  ensures fixpoint: stable(d)
