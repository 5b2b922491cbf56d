include hash.inc
// number of entries with hash v among H[lo..hi)
smt occdefs
  (declare-fun occ ((Array Int Int) Int Int Int) Int)
  (assert (forall ((H (Array Int Int)) (lo Int) (hi Int) (v Int)) (! (= (occ H lo hi v) (ite (<= hi lo) 0 (+ (occ H lo (- hi 1) v) (ite (= (select H (- hi 1)) v) 1 0)))) :pattern ((occ H lo hi v)))))
lemma occ_nonneg(H ints, lo int, hi int, v int)
  requires lo <= hi
  ensures occ(H, lo, hi, v) >= 0
  induction hi
  from lo
  trigger occ(H, lo, hi, v)
lemma occ_front(H ints, lo int, hi int)
  requires lo < hi
  ensures forall v int {occ(H, lo, hi, v)} {occ(H, lo + 1, hi, v)} :: occ(H, lo, hi, v) == occ(H, lo + 1, hi, v) + ite(H[lo] == v, 1, 0)
  induction hi
  from lo + 1
  noaxiom
lemma occ_ext(H ints, H2 ints, lo int, n int, lo2 int)
  requires n >= 0
  requires forall j int {H[j]} :: lo <= j && j < lo + n ==> H2[j - lo + lo2] == H[j]
  ensures forall v int {occ(H2, lo2, lo2 + n, v)} {occ(H, lo, lo + n, v)} :: occ(H2, lo2, lo2 + n, v) == occ(H, lo, lo + n, v)
  induction n
  noaxiom
lemma occ_has(H ints, lo int, hi int, j int)
  requires lo <= j && j < hi
  ensures occ(H, lo, hi, H[j]) >= 1
  induction hi
  from j + 1
  noaxiom
define wh(e) = elems(e.window, "saltedHash")
define wo(e) = off(e.window)
define inWindow(e, v) = occ(wh(e), wo(e), wo(e) + len(e.window), v)
// the membership map holds exactly the hashes in the window, no hash occurs twice
define encW(e) = e.hashes != 0 && (forall v int {dom(e.hashes)[v]} {inWindow(e, v)} :: inWindow(e, v) == b2i(dom(e.hashes)[v]))
