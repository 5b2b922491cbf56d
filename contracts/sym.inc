// contents of symbols and their combination
assume XOR returns its receiver updated in place or a newly created value with the bitwise XOR of the two contents and changes nothing else; the default value of the symbol type has all-zero content; Hash is a function of the content (the documented contract of the symbol interfaces)

// bit b of a symbol content; content 0 is the all-zero one
logic tbit(int, int) bool
// content of every symbol value, by identity
ghostvar $tc : (Array Int Int)
smt
  (assert (forall ((b Int)) (! (not (tbit 0 b)) :pattern ((tbit 0 b)))))
smt
  (declare-fun cont ((Array Int Int) Int) Int)
  (assert (forall ((T (Array Int Int)) (v Int)) (! (= (cont T v) (ite (= v 0) 0 (select T v))) :pattern ((cont T v)))))
define con(v) = cont($tc, v)

extern T XOR(a, b) r
  modifies $tc
  ensures r != 0
  ensures inPlaceOrNew: (r == a && a != 0) || fresh(r)
  ensures forall v int {$tc[v]} :: (v != a || v == 0) && v != r ==> $tc[v] == old($tc[v])
  ensures forall k int {tbit($tc[r], k)} :: tbit($tc[r], k) == xor(tbit(old(con(a)), k), tbit(old(con(b)), k))
  ensures defaultIsNeutral: old(con(a)) == 0 ==> $tc[r] == old(con(b))
