// ownership in the rateless codec
package riblt
define cellHeap() = elemheap("riblt.receivedSymbol[T]", "CodedSymbol.sum")
define sketchHeap() = elemheap("riblt.CodedSymbol[T]", "sum")
define cellsOk() = forall a int, i int {cellHeap()[a][i]} :: sumOk(cellHeap()[a][i])
define sketchOk() = forall a int, i int {sketchHeap()[a][i]} :: sumOk(sketchHeap()[a][i])
define notCell(v) = forall a int, i int {cellHeap()[a][i]} :: cellHeap()[a][i] != v || v == 0

define sy(w) = elems(w.symbols, "Symbol")
define so(w) = off(w.symbols)
func randomMapping.nextIndex(s) r
  modifies s.prng, s.lastIdx
func mappingHeap.fixHead(m)
  noterm
  modifies m[*]
  loop 1
  end
func mappingHeap.fixTail(m)
  noterm
  modifies m[*]
  loop 1
  end
func CodedSymbol.apply(c, s, direction) r
  requires owned: sumOk(c.sum)
  modifies $tc, $own
  ensures kept: kept() && lasting()
  ensures onlySum: forall v int {$tc[v]} :: (v != c.sum || v == 0) && !fresh(v) ==> $tc[v] == old($tc[v])
  ensures owned: sumOk(r.sum) && (alias(r.sum, c.sum) || r.sum == 0 && c.sum == 0 || fresh(r.sum))
// an element that enters a window is never owned again
func codingWindow.addHashedSymbolWithMapping(e, t, m)
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*], $own
  ghost $own := upd(old($own), t.Symbol, false)
  ensures element: $own == upd(old($own), t.Symbol, false)
  ensures stored: len(e.symbols) == old(len(e.symbols)) + 1 && sy(e)[so(e) + len(e.symbols) - 1] == t.Symbol
  ensures others: forall x int {sy(e)[x]} :: so(e) <= x && x < so(e) + old(len(e.symbols)) ==> sy(e)[x] == old(sy(e))[x - so(e) + old(so(e))]
  ensures present: arr(e.symbols) != 0
  ensures arrays: (arr(e.symbols) == old(arr(e.symbols)) || fresh(e.symbols)) && (arr(e.mappings) == old(arr(e.mappings)) || fresh(e.mappings)) && (arr(e.queue) == old(arr(e.queue)) || fresh(e.queue))
func codingWindow.applyWindow(e, cw, direction) r
  noterm
  requires owned: sumOk(cw.sum)
  modifies e.nextIdx, e.mappings[*], e.queue[*], $tc, $own
  local cw riblt.CodedSymbol[T]
  loop 1
    invariant kept: kept() && lasting()
    invariant onlySum: forall v int {$tc[v]} :: (v != old(cw.sum) || v == 0) && !fresh(v) ==> $tc[v] == old($tc[v])
    invariant owned: sumOk(cw.sum) && (alias(cw.sum, old(cw.sum)) || cw.sum == 0 && old(cw.sum) == 0 || fresh(cw.sum))
  end
  ensures kept: kept() && lasting()
  ensures onlySum: forall v int {$tc[v]} :: (v != cw.sum || v == 0) && !fresh(v) ==> $tc[v] == old($tc[v])
  ensures owned: sumOk(r.sum) && (alias(r.sum, cw.sum) || r.sum == 0 && cw.sum == 0 || fresh(r.sum))

func Encoder.AddSymbol(e, s)
  requires element: !$own[s]
  ensures untouched: untouched()
func Encoder.AddHashedSymbol(e, s)
  requires element: !$own[s.Symbol]
  ensures untouched: untouched()
func Encoder.ProduceNextCodedSymbol(e) r
  ensures untouched: untouched()
  ensures independent: sumOk(r.sum) && (r.sum == 0 || fresh(r.sum))
func Encoder.Reset(e)
  ensures untouched: untouched()

func Decoder.AddSymbol(d, s)
  requires owned: cellsOk()
  requires element: !$own[s]
  ensures untouched: untouched()
  ensures owned: cellsOk()
func Decoder.AddHashedSymbol(d, s)
  requires owned: cellsOk()
  requires element: !$own[s.Symbol]
  modifies d.window.symbols, d.window.mappings, d.window.queue, d.window.symbols[*], d.window.mappings[*], d.window.queue[*], $own
  ensures untouched: untouched()
  ensures owned: cellsOk()
func Decoder.AddCodedSymbol(d, c)
  modifies d.cs, d.cs[*], d.dirty, d.dirty[*], d.pending, d.window.nextIdx, d.remote.nextIdx, d.local.nextIdx, d.window.mappings[*], d.remote.mappings[*], d.local.mappings[*], d.window.queue[*], d.remote.queue[*], d.local.queue[*], $tc, $own
  requires owned: cellsOk()
  requires handedOver: sumOk(c.sum)
  ensures kept: kept() && lasting()
  ensures arrays: (arr(d.cs) == old(arr(d.cs)) || fresh(d.cs)) && (arr(d.dirty) == old(arr(d.dirty)) || fresh(d.dirty))
  ensures owned: cellsOk()
func Decoder.applyNewSymbol(d, t, direction) r
  noterm
  requires owned: cellsOk()
  requires apart: notCell(t.Symbol) && t.Symbol < alloc()
  modifies d.cs[*], d.dirty, d.dirty[*], $tc, $own
  local m riblt.randomMapping
  loop 1
    invariant arr(d.dirty) == pre(arr(d.dirty)) || fresh(d.dirty)
    invariant lasting: lasting()
    invariant owned: cellsOk() && notCell(t.Symbol)
    invariant onlyCells: forall v int {$tc[v]} :: !fresh(v) && !(old($own[v]) && v != old(t.Symbol)) ==> $tc[v] == old($tc[v])
    invariant kept: forall v int {$own[v]} :: !fresh(v) && $own[v] ==> old($own[v])
  end
  ensures kept: kept() && lasting()
  ensures element: $tc[t.Symbol] == old($tc[t.Symbol]) && notCell(t.Symbol)
  ensures owned: cellsOk()
  ensures dirtyArray: arr(d.dirty) == old(arr(d.dirty)) || fresh(d.dirty)
define inList(w, n, x) = so(w) + n <= x && x < so(w) + len(w.symbols)
define copies(w, n) = forall x int {sy(w)[x]} :: inList(w, n, x) ==> let v := sy(w)[x] :: fresh(v) && v < alloc() && !$own[v]
define oneEach(w, n) = forall x int, y int {sy(w)[x], sy(w)[y]} :: inList(w, n, x) && inList(w, n, y) && x < y ==> sy(w)[x] < sy(w)[y]
define apartFrom(w, n, u, m) = forall x int, y int {sy(w)[x], sy(u)[y]} :: inList(w, n, x) && inList(u, m, y) ==> sy(w)[x] != sy(u)[y]
define twoLists(d) = (arr(d.remote.symbols) == 0 || arr(d.remote.symbols) != arr(d.local.symbols)) && (arr(d.remote.symbols) != 0 || len(d.remote.symbols) == 0) && (arr(d.local.symbols) != 0 || len(d.local.symbols) == 0)
func Decoder.TryDecode(d)
  noterm
  requires owned: cellsOk()
  requires apart: twoLists(d)
  modifies d.cs[*], d.dirty, d.dirty[*], d.pending, d.remote.symbols, d.remote.mappings, d.remote.queue, d.local.symbols, d.local.mappings, d.local.queue, $tc, $own
  modifies d.remote.symbols[*], d.remote.mappings[*], d.remote.queue[*], d.local.symbols[*], d.local.mappings[*], d.local.queue[*]
  loop 1
    invariant twoLists(d)
    invariant arr(d.dirty) == pre(arr(d.dirty)) || fresh(d.dirty)
    invariant (arr(d.remote.symbols) == pre(arr(d.remote.symbols)) || fresh(d.remote.symbols)) && (arr(d.remote.mappings) == pre(arr(d.remote.mappings)) || fresh(d.remote.mappings)) && (arr(d.remote.queue) == pre(arr(d.remote.queue)) || fresh(d.remote.queue))
    invariant (arr(d.local.symbols) == pre(arr(d.local.symbols)) || fresh(d.local.symbols)) && (arr(d.local.mappings) == pre(arr(d.local.mappings)) || fresh(d.local.mappings)) && (arr(d.local.queue) == pre(arr(d.local.queue)) || fresh(d.local.queue))
    invariant kept: kept() && lasting()
    invariant owned: cellsOk()
    invariant grows: len(d.remote.symbols) >= old(len(d.remote.symbols)) && len(d.local.symbols) >= old(len(d.local.symbols))
    invariant copies: copies(d.remote, old(len(d.remote.symbols))) && copies(d.local, old(len(d.local.symbols)))
    invariant distinct: oneEach(d.remote, old(len(d.remote.symbols))) && oneEach(d.local, old(len(d.local.symbols)))
    invariant apart: apartFrom(d.remote, old(len(d.remote.symbols)), d.local, old(len(d.local.symbols)))
    back unchanged: let a := head(alloc()) :: let o := head($own) :: let t := head($tc) :: forall v int {$tc[v]} :: v < a && !o[v] ==> $tc[v] == t[v] && !$own[v]
  end
  ensures kept: kept() && lasting()
  ensures owned: cellsOk()
  ensures copies: copies(d.remote, old(len(d.remote.symbols))) && copies(d.local, old(len(d.local.symbols)))
  ensures distinct: oneEach(d.remote, old(len(d.remote.symbols))) && oneEach(d.local, old(len(d.local.symbols)))
  ensures apart: apartFrom(d.remote, old(len(d.remote.symbols)), d.local, old(len(d.local.symbols)))
func Decoder.Reset(d)
  requires owned: cellsOk()
  ensures untouched: untouched()
  ensures owned: cellsOk()

func Sketch.AddHashedSymbol(s, t)
  noterm
  modifies s[*], $tc, $own
  requires owned: sketchOk()
  requires element: !$own[t.Symbol]
  local m riblt.randomMapping
  loop 1
    invariant kept: kept()
    invariant owned: sketchOk()
  end
  ensures kept: kept()
  ensures owned: sketchOk()
func Sketch.AddSymbol(s, t)
  noterm
  requires owned: sketchOk()
  requires element: !$own[t]
  ensures kept: kept()
  ensures owned: sketchOk()
func Sketch.Subtract(s, s2) r
  noterm
  requires owned: sketchOk()
  loop 1
    invariant kept: kept()
    invariant owned: sketchOk()
  end
  ensures kept: kept()
  ensures owned: sketchOk()
func Sketch.Decode(s) rem, loc, ok
  local dec *riblt.Decoder[T]
  noterm
  requires owned: cellsOk() && sketchOk()
  loop 1
    invariant kept: kept()
    invariant owned: cellsOk() && sketchOk()
  end
  ensures kept: kept()
