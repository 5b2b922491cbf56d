// symbols, coded symbols, coding windows
include riblt_map.inc
package riblt

assume fewer than 2^63-1 coded symbols are produced or received by one window
include sym.inc
// bit b of a 64-bit hash
logic hbit(int, int) bool
logic thash(int) int
smt
  (assert (forall ((b Int)) (! (not (hbit 0 b)) :pattern ((hbit 0 b)))))
  (assert (forall ((x Int) (y Int) (b Int)) (! (= (hbit (bxor x y) b) (xor (hbit x b) (hbit y b))) :pattern ((hbit (bxor x y) b)))))

extern T Hash(a) h
  ensures h == thash(con(a))

logic reach(int, int, int) bool
smt
  (assert (forall ((p Int) (l Int) (k Int)) (! (=> (>= l k) (= (reach p l k) (= l k))) :pattern ((reach p l k)))))
  (assert (forall ((p Int) (l Int) (k Int)) (! (=> (and (< l k) (< l 9223372036854775807)) (= (reach p l k) (reach (nprng p) (nidx p l) k))) :pattern ((reach p l k) (nidx p l)))))
// mapped(h, k): the index mapping of hash h contains k
define mapped(h, k) = reach(h, 0, k)

// bit b of (content c, hash h): data bits for b >= 0, hash bits for b < 0
smt
  (declare-fun sbit (Int Int Int) Bool)
  (assert (forall ((c Int) (h Int) (b Int)) (! (= (sbit c h b) (ite (>= b 0) (tbit c b) (hbit h (- (- 1) b)))) :pattern ((sbit c h b)))))
  (define-fun selw ((H (Array Int Int)) (L (Array Int Int)) (N Int) (i Int)) Bool (and (reach (select H i) 0 N) (> (select L i) N)))

smt symdefs
// parity of bit b and number of the first n symbols whose mapping contains N and whose next index is past N
  (declare-fun wpar ((Array Int Int) (Array Int Int) (Array Int Int) (Array Int Int) Int Int Int) Bool)
  (assert (forall ((S (Array Int Int)) (T (Array Int Int)) (H (Array Int Int)) (L (Array Int Int)) (N Int) (n Int) (b Int))
     (! (= (wpar S T H L N n b) (and (> n 0) (xor (wpar S T H L N (- n 1) b) (and (selw H L N (- n 1)) (sbit (cont T (select S (- n 1))) (select H (- n 1)) b)))))
        :pattern ((wpar S T H L N n b)))))
  (declare-fun wcnt ((Array Int Int) (Array Int Int) Int Int) Int)
  (assert (forall ((H (Array Int Int)) (L (Array Int Int)) (N Int) (n Int))
     (! (= (wcnt H L N n) (ite (<= n 0) 0 (+ (wcnt H L N (- n 1)) (ite (selw H L N (- n 1)) 1 0)))) :pattern ((wcnt H L N n)))))
// the same over all symbols whose mapping contains k
  (declare-fun mpar ((Array Int Int) (Array Int Int) (Array Int Int) Int Int Int) Bool)
  (assert (forall ((S (Array Int Int)) (T (Array Int Int)) (H (Array Int Int)) (k Int) (n Int) (b Int))
     (! (= (mpar S T H k n b) (and (> n 0) (xor (mpar S T H k (- n 1) b) (and (reach (select H (- n 1)) 0 k) (sbit (cont T (select S (- n 1))) (select H (- n 1)) b)))))
        :pattern ((mpar S T H k n b)))))
  (declare-fun mcnt ((Array Int Int) Int Int) Int)
  (assert (forall ((H (Array Int Int)) (k Int) (n Int))
     (! (= (mcnt H k n) (ite (<= n 0) 0 (+ (mcnt H k (- n 1)) (ite (reach (select H (- n 1)) 0 k) 1 0)))) :pattern ((mcnt H k n)))))
  (declare-fun cntle ((Array Int Int) Int Int) Int)
  (assert (forall ((L (Array Int Int)) (k Int) (n Int)) (! (= (cntle L k n) (ite (<= n 0) 0 (+ (cntle L k (- n 1)) (ite (<= (select L (- n 1)) k) 1 0)))) :pattern ((cntle L k n)))))

lemma cntle_nonneg(L ints, k int, n int)
  requires n >= 0
  ensures cntle(L, k, n) >= 0
  induction n
  trigger cntle(L, k, n)
lemma cntle_store(L ints, k int, n int, i int, v int)
  requires n >= 0
  ensures cntle(upd(L, i, v), k, n) == cntle(L, k, n) + ite(0 <= i && i < n, ite(v <= k, 1, 0) - ite(L[i] <= k, 1, 0), 0)
  induction n
  trigger cntle(upd(L, i, v), k, n)

lemma wpar_store(S ints, T ints, H ints, L ints, N int, n int, b int, i int, v int)
  requires n >= 0
  requires L[i] <= N && v > N && reach(H[i], 0, N)
  ensures wpar(S, T, H, upd(L, i, v), N, n, b) == xor(wpar(S, T, H, L, N, n, b), 0 <= i && i < n && sbit(cont(T, S[i]), H[i], b))
  induction n
  trigger wpar(S, T, H, upd(L, i, v), N, n, b)
lemma wcnt_store(H ints, L ints, N int, n int, i int, v int)
  requires n >= 0
  requires L[i] <= N && v > N && reach(H[i], 0, N)
  ensures wcnt(H, upd(L, i, v), N, n) == wcnt(H, L, N, n) + ite(0 <= i && i < n, 1, 0)
  induction n
  trigger wcnt(H, upd(L, i, v), N, n)
// contents of the listed symbols are all that matters
lemma wpar_content(S ints, T ints, T2 ints, H ints, L ints, N int, n int, b int)
  requires n >= 0
  requires forall i int {S[i]} :: 0 <= i && i < n ==> T[S[i]] == T2[S[i]]
  ensures wpar(S, T2, H, L, N, n, b) == wpar(S, T, H, L, N, n, b)
  induction n
  trigger wpar(S, T, H, L, N, n, b), wpar(S, T2, H, L, N, n, b)
// nothing applied yet
lemma wpar_zero(S ints, T ints, H ints, L ints, N int, n int, b int)
  requires forall i int {L[i]} :: 0 <= i && i < n ==> !selw(H, L, N, i)
  ensures !wpar(S, T, H, L, N, n, b)
  induction n
  trigger wpar(S, T, H, L, N, n, b)
lemma wcnt_zero(H ints, L ints, N int, n int)
  requires forall i int {L[i]} :: 0 <= i && i < n ==> !selw(H, L, N, i)
  ensures wcnt(H, L, N, n) == 0
  induction n
  trigger wcnt(H, L, N, n)
// everything applied
lemma wpar_full(S ints, T ints, H ints, L ints, N int, n int, b int)
  requires forall i int {L[i]} :: 0 <= i && i < n ==> L[i] > N
  ensures wpar(S, T, H, L, N, n, b) == mpar(S, T, H, N, n, b)
  induction n
  trigger wpar(S, T, H, L, N, n, b)
  trigger mpar(S, T, H, N, n, b)
lemma wcnt_full(H ints, L ints, N int, n int)
  requires forall i int {L[i]} :: 0 <= i && i < n ==> L[i] > N
  ensures wcnt(H, L, N, n) == mcnt(H, N, n)
  induction n
  trigger wcnt(H, L, N, n)
lemma mpar_content(S ints, T ints, T2 ints, H ints, k int, n int, b int)
  requires n >= 0
  requires forall i int {S[i]} :: 0 <= i && i < n ==> T[S[i]] == T2[S[i]]
  ensures mpar(S, T2, H, k, n, b) == mpar(S, T, H, k, n, b)
  induction n
  trigger mpar(S, T, H, k, n, b), mpar(S, T2, H, k, n, b)

define sgn(d, x) = ite(d == 1, x, 0 - x)
define sbitOf(sym, b) = sbit(con(sym.Symbol), sym.Hash, b)
define cbit(c, b) = sbit(con(c.sum), c.checksum, b)

func CodedSymbol.apply(c, s, direction) r
  modifies $tc
  ensures bits: forall b int {cbit(r, b)} :: cbit(r, b) == xor(old(cbit(c, b)), old(sbitOf(s, b)))
  ensures count: r.count == c.count + direction
  ensures onlySum: forall v int {$tc[v]} :: v != c.sum && !fresh(v) ==> $tc[v] == old($tc[v])
  ensures owned: r.sum != 0 && (r.sum == c.sum || fresh(r.sum))

