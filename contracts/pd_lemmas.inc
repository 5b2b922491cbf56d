// occurrences in lists of links and sums over the transactions they stand for
smt cntdefs
  (declare-fun cnt ((Array Int Int) Int Int Int) Int)
  (assert (forall ((A (Array Int Int)) (o Int) (n Int) (v Int)) (! (= (cnt A o n v) (ite (<= n 0) 0 (+ (cnt A o (- n 1) v) (ite (= (select A (+ o (- n 1))) v) 1 0)))) :pattern ((cnt A o n v)))))
// parity of bit b over the first n members; S gives the hash of a member
  (declare-fun xs ((Array Int Int) Int Int (Array Int Int) Int) Bool)
  (assert (forall ((A (Array Int Int)) (o Int) (n Int) (S (Array Int Int)) (b Int)) (! (= (xs A o n S b) (and (> n 0) (xor (xs A o (- n 1) S b) (hb (select S (select A (+ o (- n 1)))) b)))) :pattern ((xs A o n S b)))))
// the same for a list of hashes
  (declare-fun rx ((Array Int Int) Int Int Int) Bool)
  (assert (forall ((A (Array Int Int)) (o Int) (n Int) (b Int)) (! (= (rx A o n b) (and (> n 0) (xor (rx A o (- n 1) b) (hb (select A (+ o (- n 1))) b)))) :pattern ((rx A o n b)))))
lemma cnt_zero(A ints, o int)
  ensures forall v int {cnt(A, o, 0, v)} :: cnt(A, o, 0, v) == 0
  noaxiom
lemma cnt_step(A ints, o int, n int)
  requires n >= 1
  ensures forall v int {cnt(A, o, n, v)} {cnt(A, o, n - 1, v)} :: cnt(A, o, n, v) == cnt(A, o, n - 1, v) + ite(A[o + n - 1] == v, 1, 0)
  noaxiom
lemma cnt_nonneg(A ints, o int, n int, v int)
  requires n >= 0
  ensures cnt(A, o, n, v) >= 0
  induction n
  trigger cnt(A, o, n, v)
lemma cnt_ext(A ints, B ints, o int, p int, n int)
  requires n >= 0
  requires forall x int {A[x]} :: o <= x && x < o + n ==> B[x - o + p] == A[x]
  ensures forall v int {cnt(A, o, n, v)} {cnt(B, p, n, v)} :: cnt(B, p, n, v) == cnt(A, o, n, v)
  induction n
  noaxiom
lemma cnt_upd(A ints, B ints, o int, n int, i int)
  requires 0 <= i && i <= n
  requires forall x int {A[x]} {B[x]} :: o <= x && x < o + n && x != o + i ==> B[x] == A[x]
  ensures forall v int {cnt(A, o, n, v)} {cnt(B, o, n, v)} :: cnt(B, o, n, v) == cnt(A, o, n, v) + ite(i < n, ite(B[o + i] == v, 1, 0) - ite(A[o + i] == v, 1, 0), 0)
  induction n
  from i
  hint cnt_ext(A, B, o, o, i)
  noaxiom
lemma cnt_has(A ints, o int, n int, i int)
  requires 0 <= i && i < n
  ensures cnt(A, o, n, A[o + i]) >= 1
  induction n
  from i + 1
  noaxiom
lemma cnt_front(A ints, o int, n int)
  requires n >= 1
  ensures forall v int {cnt(A, o, n, v)} {cnt(A, o + 1, n - 1, v)} :: cnt(A, o, n, v) == cnt(A, o + 1, n - 1, v) + ite(A[o] == v, 1, 0)
  induction n
  from 1
  noaxiom
lemma cnt_absent(A ints, o int, n int, v int)
  requires n >= 0
  requires forall x int {A[x]} :: o <= x && x < o + n ==> A[x] != v
  ensures cnt(A, o, n, v) == 0
  induction n
  noaxiom
// removal of entry i by moving the last one there
lemma cnt_swaprm(A ints, B ints, o int, n int, i int)
  requires 0 <= i && i < n
  requires forall x int {A[x]} {B[x]} :: o <= x && x < o + n - 1 && x != o + i ==> B[x] == A[x]
  requires i < n - 1 ==> B[o + i] == A[o + n - 1]
  ensures forall v int {cnt(A, o, n, v)} {cnt(B, o, n - 1, v)} :: cnt(B, o, n - 1, v) == cnt(A, o, n, v) - ite(A[o + i] == v, 1, 0)
  hint cnt_step(A, o, n)
  hint cnt_upd(A, B, o, n - 1, i)
  noaxiom
lemma xs_zero(A ints, o int, S ints)
  ensures forall b int {xs(A, o, 0, S, b)} :: !xs(A, o, 0, S, b)
  noaxiom
lemma xs_step(A ints, o int, n int, S ints)
  requires n >= 1
  ensures forall b int {xs(A, o, n, S, b)} {xs(A, o, n - 1, S, b)} :: xs(A, o, n, S, b) == xor(xs(A, o, n - 1, S, b), hb(S[A[o + n - 1]], b))
  noaxiom
lemma xs_ext(A ints, B ints, o int, p int, n int, S ints, T ints)
  requires n >= 0
  requires forall x int {A[x]} :: o <= x && x < o + n ==> B[x - o + p] == A[x] && T[A[x]] == S[A[x]]
  ensures forall b int {xs(A, o, n, S, b)} {xs(B, p, n, T, b)} :: xs(B, p, n, T, b) == xs(A, o, n, S, b)
  induction n
  noaxiom
lemma xs_upd(A ints, B ints, o int, n int, i int, S ints)
  requires 0 <= i && i <= n
  requires forall x int {A[x]} {B[x]} :: o <= x && x < o + n && x != o + i ==> B[x] == A[x]
  ensures forall b int {xs(A, o, n, S, b)} {xs(B, o, n, S, b)} :: xs(B, o, n, S, b) == xor(xs(A, o, n, S, b), i < n && xor(hb(S[A[o + i]], b), hb(S[B[o + i]], b)))
  induction n
  from i
  hint xs_ext(A, B, o, o, i, S, S)
  noaxiom
lemma xs_swaprm(A ints, B ints, o int, n int, i int, S ints)
  requires 0 <= i && i < n
  requires forall x int {A[x]} {B[x]} :: o <= x && x < o + n - 1 && x != o + i ==> B[x] == A[x]
  requires i < n - 1 ==> B[o + i] == A[o + n - 1]
  ensures forall b int {xs(A, o, n, S, b)} {xs(B, o, n - 1, S, b)} :: xs(B, o, n - 1, S, b) == xor(xs(A, o, n, S, b), hb(S[A[o + i]], b))
  hint xs_step(A, o, n, S)
  hint xs_upd(A, B, o, n - 1, i, S)
  noaxiom
lemma rx_zero(A ints, o int)
  ensures forall b int {rx(A, o, 0, b)} :: !rx(A, o, 0, b)
  noaxiom
lemma rx_step(A ints, o int, n int)
  requires n >= 1
  ensures forall b int {rx(A, o, n, b)} {rx(A, o, n - 1, b)} :: rx(A, o, n, b) == xor(rx(A, o, n - 1, b), hb(A[o + n - 1], b))
  noaxiom
// the hash of a transaction that is no member does not matter
lemma xs_other(A ints, o int, n int, S ints, r int, h int, b int)
  requires n >= 0
  requires forall x int {A[x]} :: o <= x && x < o + n ==> A[x] != r
  ensures xs(A, o, n, upd(S, r, h), b) == xs(A, o, n, S, b)
  induction n
  trigger xs(A, o, n, upd(S, r, h), b)
