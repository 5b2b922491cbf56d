// who may be overwritten: contents are only combined into memory the codecs own
assume XOR returns its receiver updated in place or a newly created value and changes nothing else (the documented contract of the symbol interfaces); combining the default value with an element copies the element
// content of every symbol value, by identity
ghostvar $tc : (Array Int Int)
// values owned by the codecs: sums of coded symbols and codewords under construction. Everything
// else (elements the caller added, elements reported) must keep its content
ghostvar $own : (Array Int Bool)
extern T XOR(a, b) r
  requires notAnElement: a == 0 || $own[a]
  modifies $tc, $own
  ensures r != 0
  ensures inPlaceOrNew: (r == a && a != 0) || fresh(r)
  ensures forall v int {$tc[v]} :: (v != a || v == 0) && v != r ==> $tc[v] == old($tc[v])
  ensures $own == upd(old($own), r, true)
  ensures copied: a == 0 ==> $tc[r] == old($tc[b])
extern T Hash(a) r
// a sum: none yet, or existing and owned
define sumOk(v) = v == 0 || ($own[v] && 0 < v && v < alloc())
// nothing that is not owned has changed or has become owned
define kept() = (forall v int {$tc[v]} :: !fresh(v) && !old($own[v]) ==> $tc[v] == old($tc[v])) && (forall v int {$own[v]} :: !fresh(v) && $own[v] ==> old($own[v]))
// nothing at all has changed
define untouched() = (forall v int {$tc[v]} :: !fresh(v) ==> $tc[v] == old($tc[v])) && (forall v int {$own[v]} :: !fresh(v) ==> ($own[v] <==> old($own[v])))
// what was owned stays owned
define lasting() = forall v int {$own[v]} :: !fresh(v) && old($own[v]) ==> $own[v]
extern math/rand Rand.Intn(r, n) v
  modifies
  ensures 0 <= v && v < n
extern bytes Equal(a, b) r
  modifies
extern lt DegreeDistribution.Uint64(d) v
  modifies
extern iblt DegreeDistribution.Uint64(d) v
  modifies
