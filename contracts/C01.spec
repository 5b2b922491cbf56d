// C01: the rateless encoder
include riblt_win.inc
include riblt_swap.inc
package riblt

define win(e) = typed(ref(e), "*riblt.codingWindow[T]")

func Encoder.ProduceNextCodedSymbol(e) r
  requires wok(e)
  modifies e.nextIdx, e.mappings[*], e.queue[*], $tc
  ensures advanced: e.nextIdx == old(e.nextIdx) + 1
  ensures window: old(e.nextIdx) < maxidx() - 2 ==> wok(e)
  ensures aggregate: forall b int {cbit(r, b)} :: cbit(r, b) == mpar(wS(e), old($tc), wH(e), old(e.nextIdx), wlen(e), b)
  ensures count: r.count == mcnt(wH(e), old(e.nextIdx), wlen(e))
  ensures contentsKept: forall v int {$tc[v]} :: v != 0 && !fresh(v) ==> $tc[v] == old($tc[v])

func Encoder.AddSymbol(e, s)
  requires wok(e)
  requires notStarted: e.nextIdx == 0
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures window: wok(e) && e.nextIdx == old(e.nextIdx)
  ensures appended: let n := old(len(e.symbols)) :: len(e.symbols) == n + 1 && e.symbols[n].Symbol == s && e.symbols[n].Hash == thash(con(s))
  ensures others: forall i in old(e.symbols) :: e.symbols[i] == old(e.symbols[i])

func Encoder.AddHashedSymbol(e, s)
  requires wok(e)
  requires notStarted: e.nextIdx == 0
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures window: wok(e) && e.nextIdx == old(e.nextIdx)
  ensures appended: len(e.symbols) == old(len(e.symbols)) + 1 && e.symbols[old(len(e.symbols))] == s
  ensures others: forall i in old(e.symbols) :: e.symbols[i] == old(e.symbols[i])
