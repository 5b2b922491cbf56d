// C02: the index mapping and the loops driven by it
include riblt_map.inc
package riblt

assume fewer than 2^63-1 coded symbols are produced or received by one window
assume the XOR and Hash methods of the symbol type return and do not touch the coding window

extern T XOR(a, b) r
extern T Hash(a) r

// how many of the first n mappings are still at or before stream index k
smt
  (declare-fun cntle ((Array Int Int) Int Int) Int)
  (assert (forall ((L (Array Int Int)) (k Int) (n Int)) (! (= (cntle L k n) (ite (<= n 0) 0 (+ (cntle L k (- n 1)) (ite (<= (select L (- n 1)) k) 1 0)))) :pattern ((cntle L k n)))))

lemma cntle_nonneg(L ints, k int, n int)
  requires n >= 0
  ensures cntle(L, k, n) >= 0
  induction n
  trigger cntle(L, k, n)
lemma cntle_store(L ints, k int, n int, i int, v int)
  requires n >= 0
  ensures cntle(upd(L, i, v), k, n) == cntle(L, k, n) + ite(0 <= i && i < n, ite(v <= k, 1, 0) - ite(L[i] <= k, 1, 0), 0)
  induction n
  trigger cntle(upd(L, i, v), k, n)

define distinctSrc(q) = forall i in q, j in q :: q[i].sourceIdx == q[j].sourceIdx ==> i == j

func mappingHeap.fixHead(m)
  requires distinctSrc(m)
  modifies m[*]
  local curr int
  loop 1
    invariant 0 <= curr
    invariant distinctSrc(m)
    invariant forall i in m :: exists j in m :: m[i] == pre(m[j])
    decreases len(m) - curr
  end
  ensures distinctSrc(m)
  ensures sameEntries: forall i in m :: exists j in m :: m[i] == old(m[j])

func mappingHeap.fixTail(m)
  requires distinctSrc(m)
  modifies m[*]
  local curr int
  loop 1
    invariant curr < len(m) && (len(m) > 0 ==> 0 <= curr) && (len(m) == 0 ==> curr == 0 - 1)
    invariant distinctSrc(m)
    invariant forall i in m :: exists j in m :: m[i] == pre(m[j])
    decreases curr + 1
  end
  ensures distinctSrc(m)
  ensures sameEntries: forall i in m :: exists j in m :: m[i] == old(m[j])

define wok(e) = off(e.symbols) == 0 && off(e.mappings) == 0 && len(e.symbols) == len(e.mappings) && len(e.queue) == len(e.mappings)
   && arr(e.mappings) < alloc()
   && 0 <= e.nextIdx && e.nextIdx < maxidx() - 1
   && (forall i in e.mappings :: e.mappings[i].lastIdx <= maxidx())
   && (forall j in e.queue :: 0 <= e.queue[j].sourceIdx && e.queue[j].sourceIdx < len(e.mappings) && e.queue[j].codedIdx == e.mappings[e.queue[j].sourceIdx].lastIdx)
   && distinctSrc(e.queue)
   && (forall i in e.mappings :: onpath(e.symbols[i].Hash, e.mappings[i].prng, e.mappings[i].lastIdx))

func codingWindow.addHashedSymbolWithMapping(e, t, m)
  requires wok(e)
  requires m.lastIdx <= maxidx()
  requires onpath(t.Hash, m.prng, m.lastIdx)
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures wok(e)
  ensures len(e.symbols) == old(len(e.symbols)) + 1 && e.symbols[old(len(e.symbols))] == t && e.mappings[old(len(e.symbols))] == m

func codingWindow.addHashedSymbol(e, t)
  requires wok(e) && e.nextIdx == 0
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures wok(e)
  ensures startsAtZero: let n := old(len(e.symbols)) :: e.symbols[n] == t && e.mappings[n].prng == t.Hash && e.mappings[n].lastIdx == 0

func codingWindow.applyWindow(e, cw, direction) r
  requires wok(e)
  modifies e.nextIdx, e.mappings[*], e.queue[*]
  ensures e.nextIdx == old(e.nextIdx) + 1
  ensures allPast: old(e.nextIdx) < maxidx() - 2 ==> wok(e)
  loop 1
    invariant len(e.queue) > 0
    invariant wok(e) && e.nextIdx == pre(e.nextIdx)
    decreases cntle(elems(e.mappings, "lastIdx"), e.nextIdx, len(e.mappings))
  end

func Sketch.AddHashedSymbol(s, t)
  modifies s[*]
  local m riblt.randomMapping
  loop 1
    invariant m.lastIdx <= maxidx() && onpath(t.Hash, m.prng, m.lastIdx)
    decreases len(s) - m.lastIdx
  end

func Decoder.applyNewSymbol(d, t, direction) r
  modifies *d, allelems("riblt.receivedSymbol[T]"), allelems("int")
  local m riblt.randomMapping
  loop 1
    invariant len(d.cs) == pre(len(d.cs)) && m.lastIdx <= maxidx() && onpath(t.Hash, m.prng, m.lastIdx)
    decreases len(d.cs) - m.lastIdx
  end
  ensures beyond: r.lastIdx >= len(d.cs) && r.lastIdx <= maxidx() && onpath(t.Hash, r.prng, r.lastIdx)
