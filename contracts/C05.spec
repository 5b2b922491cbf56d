// C05: fixed-size sketch
include riblt_sym.inc
include riblt_swap.inc
package riblt

// each cell owns its sum
define ownSums(s) = forall i in s, j in s :: s[i].sum != 0 && s[i].sum == s[j].sum ==> i == j
define notIn(v, s) = v != 0 ==> (forall i in s :: s[i].sum != v)
define cellBit(s, i, b) = sbit(con(s[i].sum), s[i].checksum, b)

func Sketch.AddHashedSymbol(s, t)
  requires ownSums(s)
  requires notIn(t.Symbol, s)
  modifies s[*], $tc
  local m riblt.randomMapping
  loop 1
    invariant 0 <= m.lastIdx && m.lastIdx <= maxidx()
    invariant forall k int {reach(m.prng, m.lastIdx, k)} {reach(t.Hash, 0, k)} :: k >= m.lastIdx && k <= maxidx() - 1 ==> (reach(m.prng, m.lastIdx, k) <==> mapped(t.Hash, k))
    invariant ownSums(s) && notIn(t.Symbol, s)
    invariant forall i in s :: s[i].sum == pre(s[i].sum) || fresh(s[i].sum)
    invariant forall i in s :: i >= m.lastIdx || !mapped(t.Hash, i) ==> s[i] == pre(s[i]) && con(s[i].sum) == pre(con(s[i].sum))
    invariant forall i in s, b int {cellBit(s, i, b)} :: i < m.lastIdx && mapped(t.Hash, i) ==> cellBit(s, i, b) == xor(pre(cellBit(s, i, b)), sbitOf(t, b))
    invariant forall i in s :: i < m.lastIdx && mapped(t.Hash, i) ==> s[i].count == pre(s[i].count) + 1
    invariant forall v int {$tc[v]} :: v != 0 && !fresh(v) && pre(notIn(v, s)) ==> $tc[v] == pre($tc[v])
    decreases len(s) - m.lastIdx
  end
  ensures own: ownSums(s)
  ensures mappedCells: forall i in s, b int {cellBit(s, i, b)} :: mapped(t.Hash, i) ==> cellBit(s, i, b) == xor(old(cellBit(s, i, b)), old(sbitOf(t, b))) && s[i].count == old(s[i].count) + 1
  ensures otherCells: forall i in s :: !mapped(t.Hash, i) ==> s[i] == old(s[i]) && con(s[i].sum) == old(con(s[i].sum))
  ensures onlySums: forall v int {$tc[v]} :: v != 0 && !fresh(v) && old(notIn(v, s)) ==> $tc[v] == old($tc[v])

func Sketch.AddSymbol(s, t)
  requires ownSums(s)
  requires notIn(t, s)
  modifies s[*], $tc
  ensures own: ownSums(s)
  ensures mappedCells: let h := old(thash(con(t))) :: forall i in s, b int {cellBit(s, i, b)} :: mapped(h, i) ==> cellBit(s, i, b) == xor(old(cellBit(s, i, b)), old(sbit(con(t), thash(con(t)), b))) && s[i].count == old(s[i].count) + 1
  ensures otherCells: let h := old(thash(con(t))) :: forall i in s :: !mapped(h, i) ==> s[i] == old(s[i]) && con(s[i].sum) == old(con(s[i].sum))
  ensures onlySums: forall v int {$tc[v]} :: v != 0 && !fresh(v) && old(notIn(v, s)) ==> $tc[v] == old($tc[v])

// adding symbols one after the other builds the aggregate an encoder produces
lemma aggregateStep(S ints, T ints, H ints, k int, n int, b int)
  requires n >= 0
  ensures mpar(S, T, H, k, n + 1, b) == xor(mpar(S, T, H, k, n, b), mapped(H[n], k) && sbit(cont(T, S[n]), H[n], b))
  ensures mcnt(H, k, n + 1) == mcnt(H, k, n) + ite(mapped(H[n], k), 1, 0)
  noaxiom

func Sketch.Subtract(s, s2) r
  requires ownSums(s)
  requires apart: arr(s) != arr(s2) && (forall i in s, j in s2 :: s[i].sum != 0 ==> s[i].sum != s2[j].sum)
  panics len(s) != len(s2)
  modifies s[*], $tc
  loop 1
    invariant ownSums(s)
    invariant forall i in s, j in s2 :: s[i].sum != 0 ==> s[i].sum != s2[j].sum
    invariant forall i in s :: s[i].sum == pre(s[i].sum) || fresh(s[i].sum)
    invariant forall i in s :: i >= $k ==> s[i] == pre(s[i]) && con(s[i].sum) == pre(con(s[i].sum))
    invariant forall i in s2 :: con(s2[i].sum) == pre(con(s2[i].sum))
    invariant forall i in s, b int {cellBit(s, i, b)} :: i < $k ==> cellBit(s, i, b) == xor(pre(cellBit(s, i, b)), pre(cellBit(s2, i, b)))
    invariant forall i in s :: i < $k ==> s[i].count == pre(s[i].count) - s2[i].count
    invariant forall v int {$tc[v]} :: v != 0 && !fresh(v) && pre(notIn(v, s)) ==> $tc[v] == pre($tc[v])
  end
  ensures refused: len(s) == len(s2)
  ensures same: r == s
  ensures own: ownSums(s)
  ensures bits: forall i in s, b int {cellBit(s, i, b)} :: cellBit(s, i, b) == xor(old(cellBit(s, i, b)), old(cellBit(s2, i, b)))
  ensures counts: forall i in s :: s[i].count == old(s[i].count) - old(s2[i].count)
  ensures onlySums: forall v int {$tc[v]} :: v != 0 && !fresh(v) && old(notIn(v, s)) ==> $tc[v] == old($tc[v])

// decoding: the calls made on the decoder, recorded by ghost state
//   $fed: number of coded symbols given so far, all to decoder $dec; $fs/$fc/$fh: what they were; $tried: how many had been given at the last decode attempt
ghostvar $fed : Int
ghostvar $dec : Int
ghostvar $tried : Int
ghostvar $fs : (Array Int Int)
ghostvar $fc : (Array Int Int)
ghostvar $fh : (Array Int Int)
func Decoder.AddCodedSymbol(d, c)
  note only records the call here; its own behaviour is proved in C03 and C04
  noverify
  requires freshDecoder: $fed == 0 ==> cleared(d)
  requires oneDecoder: $fed > 0 ==> d == $dec
  modifies d.cs, d.local, d.window, d.remote, d.dirty, d.pending, $fed, $fs, $fc, $fh, $dec
  ensures $fed == old($fed) + 1 && $dec == ref(d)
  ensures $fs == upd(old($fs), old($fed), c.sum) && $fc == upd(old($fc), old($fed), c.count) && $fh == upd(old($fh), old($fed), c.checksum)
func Decoder.TryDecode(d)
  note only records the call here; its own behaviour is proved in C03 and C04
  noverify
  requires freshDecoder: $fed == 0 ==> cleared(d)
  requires oneDecoder: $fed > 0 ==> d == $dec
  modifies d.cs, d.local, d.window, d.remote, d.dirty, d.pending, $tried, $dec
  ensures $tried == $fed && $dec == ref(d)

func Sketch.Decode(s) remote, local, done
  requires noHistory: $fed == 0 && $tried == 0 - 1
  modifies $fed, $fs, $fc, $fh, $tried, $dec
  local dec riblt.Decoder[T]
  loop 1
    invariant $fed == $k && ($k == 0 ==> cleared(dec)) && ($k > 0 ==> ref(&dec) == $dec)
    invariant forall i in s :: i < $k ==> $fs[i] == s[i].sum && $fc[i] == s[i].count && $fh[i] == s[i].checksum
  end
  ensures tried: $tried == len(s) && $fed == len(s)
  ensures inOrder: forall i in s :: $fs[i] == s[i].sum && $fc[i] == s[i].count && $fh[i] == s[i].checksum
  ensures cellsKept: forall i in s :: s[i] == old(s[i])
  ensures remote: remote == at($dec, "*riblt.Decoder[T]").remote.symbols
  ensures local: local == at($dec, "*riblt.Decoder[T]").local.symbols
  ensures done: done <==> at($dec, "*riblt.Decoder[T]").pending == 0
