include hash.inc
include sym.inc
// position of every hash in the window
ghostvar $wi : (Array Int Int)
// the last random draw and its bound
ghostvar $draw : Int
ghostvar $bound : Int
assume rand.Intn(n) returns an arbitrary number in [0, n)
extern math/rand Rand.Intn(r, n) v
  requires positive: n > 0
  modifies $draw, $bound
  ensures 0 <= v && v < n
  ensures $draw == v && $bound == n
smt permdefs
  (define-fun swp ((i Int) (r Int) (p Int)) Int (ite (= p i) r (ite (= p r) i p)))
// where the entry that is at p after i swaps was before them
  (declare-fun perm ((Array Int Int) Int Int Int) Int)
  (assert (forall ((R (Array Int Int)) (o Int) (i Int) (p Int)) (! (= (perm R o i p) (ite (<= i 0) p (perm R o (- i 1) (swp (- i 1) (select R (+ o (- i 1))) p)))) :pattern ((perm R o i p)))))
// parity of bit b over the data of the first n members
  (declare-fun mbits ((Array Int Int) (Array Int Int) (Array Int Int) Int (Array Int Int) Int Int) Bool)
  (assert (forall ((M (Array Int Int)) (W (Array Int Int)) (D (Array Int Int)) (o Int) (T (Array Int Int)) (n Int) (b Int))
    (! (= (mbits M W D o T n b) (and (> n 0) (xor (mbits M W D o T (- n 1) b) (tbit (cont T (select D (+ o (select W (select M (- n 1)))))) b)))) :pattern ((mbits M W D o T n b)))))
lemma perm_ext(R ints, R2 ints, o int, o2 int, i int)
  requires i >= 0
  requires forall j int {R[j]} :: o <= j && j < o + i ==> R2[j - o + o2] == R[j]
  ensures forall p int {perm(R2, o2, i, p)} {perm(R, o, i, p)} :: perm(R2, o2, i, p) == perm(R, o, i, p)
  induction i
  noaxiom
lemma perm_zero()
  ensures forall R ints, o int, p int {perm(R, o, 0, p)} :: perm(R, o, 0, p) == p
  noaxiom
lemma perm_step(R ints, o int, i int)
  requires i >= 1
  ensures forall p int {perm(R, o, i, p)} :: perm(R, o, i, p) == perm(R, o, i - 1, swp(i - 1, R[o + i - 1], p))
  noaxiom
lemma perm_back(R ints, o int, i int)
  requires i >= 1
  ensures forall p int {perm(R, o, i - 1, p)} :: perm(R, o, i - 1, p) == perm(R, o, i, swp(i - 1, R[o + i - 1], p))
  noaxiom
lemma perm_range(R ints, o int, i int, n int, p int)
  requires 0 <= i && i <= n && 0 <= p && p < n
  requires forall j int {R[j]} :: o <= j && j < o + i ==> 0 <= R[j] && R[j] < n
  ensures 0 <= perm(R, o, i, p) && perm(R, o, i, p) < n
  induction i
  generalize p
  noaxiom
lemma perm_inj(R ints, o int, i int)
  requires i >= 0
  ensures forall p int, q int {perm(R, o, i, p), perm(R, o, i, q)} :: perm(R, o, i, p) == perm(R, o, i, q) ==> p == q
  induction i
  noaxiom
lemma mbits_zero(M ints, W ints, D ints, o int, T ints)
  ensures forall b int {mbits(M, W, D, o, T, 0, b)} :: !mbits(M, W, D, o, T, 0, b)
  noaxiom
lemma mbits_step(M ints, W ints, D ints, o int, T ints, n int)
  requires n >= 1
  ensures forall b int {mbits(M, W, D, o, T, n, b)} :: mbits(M, W, D, o, T, n, b) == xor(mbits(M, W, D, o, T, n - 1, b), tbit(cont(T, D[o + W[M[n - 1]]]), b))
  noaxiom
lemma mbits_ext(M ints, M2 ints, W ints, D ints, o int, T ints, n int)
  requires n >= 0
  requires forall j int {M[j]} {M2[j]} :: 0 <= j && j < n ==> M2[j] == M[j]
  ensures forall b int {mbits(M2, W, D, o, T, n, b)} {mbits(M, W, D, o, T, n, b)} :: mbits(M2, W, D, o, T, n, b) == mbits(M, W, D, o, T, n, b)
  induction n
  noaxiom
define wh(e) = elems(e.window, "saltedHash")
define wd(e) = elems(e.window, "Transaction.data")
define wo(e) = off(e.window)
define want(e, deg) = ite(deg > len(e.window), len(e.window), deg)
define hist(e) = elems(e.shuffleHistory, "")
define memb(c) = elems(c.members, "")
