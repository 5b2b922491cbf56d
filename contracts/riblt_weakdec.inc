// the decoder as used by the simulators: which symbols are in it, when it is clean, and that its
// bookkeeping stays well-formed whatever it receives
include riblt_weak.inc
package riblt
ghostvar $nremote : Int
ghostvar $nlocal : Int
ghostvar $ncs : Int
ghostvar $npending : Int
ghostvar $tries : Int

define sepArr(a, b) = arr(a) == 0 || arr(a) != arr(b)
define sepWin(u, v) = sepArr(u.symbols, v.symbols) && sepArr(u.mappings, v.mappings) && sepArr(u.queue, v.queue)
define windowsOk(d) = wok(d.window) && wok(d.remote) && wok(d.local)
   && d.window.nextIdx == len(d.cs) && d.remote.nextIdx == len(d.cs) && d.local.nextIdx == len(d.cs)
   && sepWin(d.window, d.remote) && sepWin(d.remote, d.window) && sepWin(d.window, d.local) && sepWin(d.local, d.window) && sepWin(d.remote, d.local) && sepWin(d.local, d.remote)
define dirtyValid(d) = forall j in d.dirty :: 0 <= d.dirty[j] && d.dirty[j] < len(d.cs)
define ownCells(d) = forall k in d.cs, j in d.cs :: alias(d.cs[k].sum, d.cs[j].sum) ==> k == j
define ownWin(d, w) = forall k in d.cs, i in w.symbols :: !alias(d.cs[k].sum, w.symbols[i].Symbol)
define own(d) = ownCells(d) && ownWin(d, d.remote) && ownWin(d, d.local) && ownWin(d, d.window)
define notSym(v, w) = forall i in w.symbols :: !alias(v, w.symbols[i].Symbol)
define notCell(v, d) = forall k in d.cs :: !alias(v, d.cs[k].sum)
define wdec(d) = off(d.cs) == 0 && off(d.dirty) == 0 && windowsOk(d) && own(d) && dirtyValid(d)
define clean(d) = len(d.cs) == 0 && len(d.dirty) == 0 && d.pending == 0 && len(d.window.symbols) == 0 && len(d.remote.symbols) == 0 && len(d.local.symbols) == 0
define winArrays(w, v) = (arr(w.symbols) == arr(v.symbols) || fresh(w.symbols)) && (arr(w.mappings) == arr(v.mappings) || fresh(w.mappings)) && (arr(w.queue) == arr(v.queue) || fresh(w.queue))

func Decoder.AddHashedSymbol(d, s)
  requires wdec(d)
  requires notStarted: len(d.cs) == 0
  modifies d.window.symbols, d.window.mappings, d.window.queue, d.window.symbols[*], d.window.mappings[*], d.window.queue[*]
  ensures state: wdec(d)
  ensures appended: len(d.window.symbols) == old(len(d.window.symbols)) + 1 && d.window.symbols[old(len(d.window.symbols))] == s
  ensures others: forall i in old(d.window.symbols) :: d.window.symbols[i] == old(d.window.symbols[i])
  ensures arrays: (arr(d.window.symbols) == old(arr(d.window.symbols)) || fresh(d.window.symbols)) && (arr(d.window.mappings) == old(arr(d.window.mappings)) || fresh(d.window.mappings)) && (arr(d.window.queue) == old(arr(d.window.queue)) || fresh(d.window.queue))

func Decoder.AddCodedSymbol(d, c)
  hide queue mapping queuedefs symdefs qcnt_* wpar_* wcnt_* heap_min
  requires wdec(d)
  requires len(d.cs) < maxidx() - 3
  requires notShared: notCell(c.sum, d) && notSym(c.sum, d.window) && notSym(c.sum, d.remote) && notSym(c.sum, d.local)
  modifies d.cs, d.cs[*], d.dirty, d.dirty[*], d.pending, d.window.nextIdx, d.remote.nextIdx, d.local.nextIdx, d.window.mappings[*], d.remote.mappings[*], d.local.mappings[*], d.window.queue[*], d.remote.queue[*], d.local.queue[*], $tc
  ensures added: len(d.cs) == old(len(d.cs)) + 1
  ensures state: wdec(d)
  ensures arrays: (arr(d.cs) == old(arr(d.cs)) || fresh(d.cs)) && (arr(d.dirty) == old(arr(d.dirty)) || fresh(d.dirty))

func Decoder.applyNewSymbol(d, t, direction) r
  requires decBase: off(d.cs) == 0 && off(d.dirty) == 0 && ownCells(d) && dirtyValid(d) && notCell(t.Symbol, d)
  modifies d.cs[*], d.dirty, d.dirty[*], $tc
  local m riblt.randomMapping
  loop 1
    invariant 0 <= m.lastIdx && m.lastIdx <= maxidx()
    invariant forall k int {reach(m.prng, m.lastIdx, k)} {reach(t.Hash, 0, k)} :: k >= m.lastIdx && k <= maxidx() - 1 ==> (reach(m.prng, m.lastIdx, k) <==> mapped(t.Hash, k))
    invariant forall k int {reach(t.Hash, 0, k)} :: k >= len(d.cs) && k < m.lastIdx ==> !mapped(t.Hash, k)
    invariant off(d.dirty) == 0 && ownCells(d) && dirtyValid(d) && notCell(t.Symbol, d)
    invariant len(d.dirty) >= pre(len(d.dirty))
    invariant arr(d.dirty) == pre(arr(d.dirty)) || fresh(d.dirty)
    invariant forall i in d.cs :: d.cs[i].sum == pre(d.cs[i].sum) || fresh(d.cs[i].sum)
    decreases len(d.cs) - m.lastIdx
  end
  ensures base: off(d.dirty) == 0 && ownCells(d) && dirtyValid(d)
  ensures dirtyGrows: len(d.dirty) >= old(len(d.dirty))
  ensures dirtyArray: arr(d.dirty) == old(arr(d.dirty)) || fresh(d.dirty)
  ensures sums: forall i in d.cs :: d.cs[i].sum == old(d.cs[i].sum) || fresh(d.cs[i].sum)
  ensures mappingNext: r.lastIdx >= len(d.cs) && r.lastIdx <= maxidx()
  ensures mappingAgrees: forall k int {reach(r.prng, r.lastIdx, k)} {reach(t.Hash, 0, k)} :: k >= len(d.cs) && k <= maxidx() - 1 ==> (reach(r.prng, r.lastIdx, k) <==> mapped(t.Hash, k))

func Decoder.TryDecode(d)
  hide queue mapping symdefs queuedefs heap_min wpar_* wcnt_* cntle_* qcnt_headonly qcnt_store
  noterm
  note that peeling terminates is part of C03; it needs coded symbols of a set difference
  requires wdec(d)
  modifies d.cs[*], d.dirty, d.dirty[*], d.pending, d.remote.symbols, d.remote.mappings, d.remote.queue, d.local.symbols, d.local.mappings, d.local.queue, $tc, $nremote, $nlocal, $ncs, $npending, $tries
  modifies d.remote.symbols[*], d.remote.mappings[*], d.remote.queue[*], d.local.symbols[*], d.local.mappings[*], d.local.queue[*]
  local didx int
  loop 1
    invariant 0 <= didx && didx <= len(d.dirty)
    invariant arr(d.dirty) == pre(arr(d.dirty)) || fresh(d.dirty)
    invariant (arr(d.remote.symbols) == pre(arr(d.remote.symbols)) || fresh(d.remote.symbols)) && (arr(d.remote.mappings) == pre(arr(d.remote.mappings)) || fresh(d.remote.mappings)) && (arr(d.remote.queue) == pre(arr(d.remote.queue)) || fresh(d.remote.queue))
    invariant (arr(d.local.symbols) == pre(arr(d.local.symbols)) || fresh(d.local.symbols)) && (arr(d.local.mappings) == pre(arr(d.local.mappings)) || fresh(d.local.mappings)) && (arr(d.local.queue) == pre(arr(d.local.queue)) || fresh(d.local.queue))
    invariant wdec(d)
  end
  ghost $nremote := len(d.remote.symbols)
  ghost $nlocal := len(d.local.symbols)
  ghost $ncs := len(d.cs)
  ghost $npending := d.pending
  ghost $tries := old($tries) + 1
  ensures state: wdec(d)
  ensures sizes: $nremote == len(d.remote.symbols) && $nlocal == len(d.local.symbols) && $ncs == len(d.cs) && $npending == d.pending && $tries == old($tries) + 1
  ensures arraysR: (arr(d.remote.symbols) == old(arr(d.remote.symbols)) || fresh(d.remote.symbols)) && (arr(d.remote.mappings) == old(arr(d.remote.mappings)) || fresh(d.remote.mappings)) && (arr(d.remote.queue) == old(arr(d.remote.queue)) || fresh(d.remote.queue))
  ensures arraysL: (arr(d.local.symbols) == old(arr(d.local.symbols)) || fresh(d.local.symbols)) && (arr(d.local.mappings) == old(arr(d.local.mappings)) || fresh(d.local.mappings)) && (arr(d.local.queue) == old(arr(d.local.queue)) || fresh(d.local.queue))

func codingWindow.reset(e)
  requires wok(e)
  modifies e.symbols, e.mappings, e.queue, e.nextIdx
  ensures emptied: len(e.symbols) == 0 && e.nextIdx == 0
  ensures window: wok(e)
  ensures arrays: (arr(e.symbols) == old(arr(e.symbols)) || fresh(e.symbols) || arr(e.symbols) == 0) && (arr(e.mappings) == old(arr(e.mappings)) || fresh(e.mappings) || arr(e.mappings) == 0) && (arr(e.queue) == old(arr(e.queue)) || fresh(e.queue) || arr(e.queue) == 0)

func Decoder.Reset(d)
  requires wdec(d)
  modifies d.cs, d.dirty, d.pending, d.window, d.remote, d.local
  ensures emptied: clean(d)
  ensures state: wdec(d)
  ensures arrays: (arr(d.window.symbols) == old(arr(d.window.symbols)) || fresh(d.window.symbols) || arr(d.window.symbols) == 0) && (arr(d.remote.symbols) == old(arr(d.remote.symbols)) || fresh(d.remote.symbols) || arr(d.remote.symbols) == 0) && (arr(d.local.symbols) == old(arr(d.local.symbols)) || fresh(d.local.symbols) || arr(d.local.symbols) == 0)
