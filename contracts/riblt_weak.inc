// the rateless encoder as used by the simulators: which symbols are in it, and that its queue
// stays well-formed; coding windows are verified with their full contracts
include riblt_win.inc
include riblt_swap.inc
package riblt

func Encoder.AddHashedSymbol(e, s)
  requires wok(e)
  requires notStarted: e.nextIdx == 0
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures window: wok(e) && e.nextIdx == old(e.nextIdx)
  ensures appended: len(e.symbols) == old(len(e.symbols)) + 1 && e.symbols[old(len(e.symbols))] == s
  ensures others: forall i in old(e.symbols) :: e.symbols[i] == old(e.symbols[i])
  ensures arrays: (arr(e.symbols) == old(arr(e.symbols)) || fresh(e.symbols)) && (arr(e.mappings) == old(arr(e.mappings)) || fresh(e.mappings)) && (arr(e.queue) == old(arr(e.queue)) || fresh(e.queue))

ghostvar $madeSum : Int
ghostvar $madeCount : Int
func Encoder.ProduceNextCodedSymbol(e) r
  requires wok(e)
  modifies e.nextIdx, e.mappings[*], e.queue[*], $tc, $madeSum, $madeCount
  ghost $madeSum := r.checksum
  ghost $madeCount := r.count
  ensures advanced: e.nextIdx == old(e.nextIdx) + 1
  ensures made: $madeSum == r.checksum && $madeCount == r.count
  ensures window: old(e.nextIdx) < maxidx() - 2 ==> wok(e)

func Encoder.Reset(e)
  requires wok(e)
  modifies e.symbols, e.mappings, e.queue, e.nextIdx
  ensures emptied: len(e.symbols) == 0 && e.nextIdx == 0
  ensures window: wok(e)
  ensures arrays: (arr(e.symbols) == old(arr(e.symbols)) || fresh(e.symbols) || arr(e.symbols) == 0) && (arr(e.mappings) == old(arr(e.mappings)) || fresh(e.mappings) || arr(e.mappings) == 0) && (arr(e.queue) == old(arr(e.queue)) || fresh(e.queue) || arr(e.queue) == 0)
