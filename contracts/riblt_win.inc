// coding windows
include riblt_sym.inc
package riblt

// heap order: the head is minimal
lemma heap_min(Q ints, o int, n int, m int)
  requires 0 <= m && m < n
  requires forall i int {Q[i]} :: o < i && i < o + n ==> Q[o + (i - o - 1) / 2] <= Q[i]
  ensures forall j int {Q[j]} :: o <= j && j <= o + m ==> Q[o] <= Q[j]
  induction m
  noaxiom

// the queue: q lists source indices, c their next coded index; occurrence counts and the link to the mappings
smt queuedefs
  (declare-fun qcnt ((Array Int Int) Int Int) Int)
  (assert (forall ((Q (Array Int Int)) (n Int) (v Int)) (! (= (qcnt Q n v) (ite (<= n 0) 0 (+ (qcnt Q (- n 1) v) (ite (= (select Q (- n 1)) v) 1 0)))) :pattern ((qcnt Q n v)))))
  (declare-fun linked ((Array Int Int) (Array Int Int) Int (Array Int Int) Int) Bool)
  (assert (forall ((Q (Array Int Int)) (C (Array Int Int)) (n Int) (L (Array Int Int)) (m Int))
     (! (= (linked Q C n L m) (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (and (<= 0 (select Q j)) (< (select Q j) m) (= (select C j) (select L (select Q j))))) :pattern ((select Q j)) :pattern ((select C j)))))
        :pattern ((linked Q C n L m)))))
lemma qcnt_nonneg(Q ints, n int, v int)
  requires n >= 0
  ensures qcnt(Q, n, v) >= 0
  induction n
  trigger qcnt(Q, n, v)
lemma qcnt_store(Q ints, n int, v int, i int, w int)
  requires n >= 0
  ensures qcnt(upd(Q, i, w), n, v) == qcnt(Q, n, v) + ite(0 <= i && i < n, ite(w == v, 1, 0) - ite(Q[i] == v, 1, 0), 0)
  induction n
  trigger qcnt(upd(Q, i, w), n, v)
lemma qcnt_pos(Q ints, n int, v int)
  requires n >= 0 && qcnt(Q, n, v) > 0
  ensures exists j int {Q[j]} :: 0 <= j && j < n && Q[j] == v
  induction n
  trigger qcnt(Q, n, v)
lemma qcnt_has(Q ints, n int, i int)
  requires 0 <= i && i < n
  ensures qcnt(Q, n, Q[i]) >= 1
  induction n
  noaxiom
lemma qcnt_uniq(Q ints, n int, i int, j int)
  requires 0 <= i && i < j && j < n && Q[i] == Q[j]
  ensures qcnt(Q, n, Q[i]) >= 2
  induction n
  hint qcnt_has(Q, n - 1, i)
  noaxiom
lemma qcnt_headonly(Q ints, n int, j int)
  requires 0 < j && j < n && qcnt(Q, n, Q[0]) == 1
  ensures Q[j] != Q[0]
  hint qcnt_uniq(Q, n, 0, j)
  trigger qcnt(Q, n, Q[0]), Q[j]

define heapok(q) = forall i in q :: i > 0 ==> q[(i - 1) / 2].codedIdx <= q[i].codedIdx
define qsrc(q) = elems(q, "sourceIdx")
define qcod(q) = elems(q, "codedIdx")

func mappingHeap.fixHead(m)
  requires off(m) == 0
  requires onlyHead: forall i in m :: i > 2 ==> m[(i - 1) / 2].codedIdx <= m[i].codedIdx
  modifies m[*]
  local curr int
  loop 1
    invariant 0 <= curr && (len(m) > 0 ==> curr < len(m))
    invariant forall v int {qcnt(qsrc(m), len(m), v)} {qcnt(pre(qsrc(m)), len(m), v)} :: qcnt(qsrc(m), len(m), v) == qcnt(pre(qsrc(m)), len(m), v)
    invariant forall L ints, k int {linked(qsrc(m), qcod(m), len(m), L, k)} {linked(pre(qsrc(m)), pre(qcod(m)), len(m), L, k)} :: linked(pre(qsrc(m)), pre(qcod(m)), len(m), L, k) ==> linked(qsrc(m), qcod(m), len(m), L, k)
    invariant forall i in m :: i > 0 && (i - 1) / 2 != curr ==> m[(i - 1) / 2].codedIdx <= m[i].codedIdx
    invariant forall i in m :: i > 0 && (i - 1) / 2 == curr && curr > 0 ==> m[(curr - 1) / 2].codedIdx <= m[i].codedIdx
    decreases len(m) - curr
  end
  ensures heapOrder: heapok(m)
  ensures sameSources: forall v int {qcnt(qsrc(m), len(m), v)} {qcnt(old(qsrc(m)), len(m), v)} :: qcnt(qsrc(m), len(m), v) == qcnt(old(qsrc(m)), len(m), v)
  ensures sameLinks: forall L ints, k int {linked(qsrc(m), qcod(m), len(m), L, k)} {linked(old(qsrc(m)), old(qcod(m)), len(m), L, k)} :: linked(old(qsrc(m)), old(qcod(m)), len(m), L, k) ==> linked(qsrc(m), qcod(m), len(m), L, k)

func mappingHeap.fixTail(m)
  requires off(m) == 0
  requires onlyTail: forall i in m :: i > 0 && i < len(m) - 1 ==> m[(i - 1) / 2].codedIdx <= m[i].codedIdx
  modifies m[*]
  local curr int
  loop 1
    invariant curr < len(m) && (len(m) > 0 ==> 0 <= curr) && (len(m) == 0 ==> curr == 0 - 1)
    invariant forall v int {qcnt(qsrc(m), len(m), v)} {qcnt(pre(qsrc(m)), len(m), v)} :: qcnt(qsrc(m), len(m), v) == qcnt(pre(qsrc(m)), len(m), v)
    invariant forall L ints, k int {linked(qsrc(m), qcod(m), len(m), L, k)} {linked(pre(qsrc(m)), pre(qcod(m)), len(m), L, k)} :: linked(pre(qsrc(m)), pre(qcod(m)), len(m), L, k) ==> linked(qsrc(m), qcod(m), len(m), L, k)
    invariant forall i in m :: i > 0 && i != curr ==> m[(i - 1) / 2].codedIdx <= m[i].codedIdx
    invariant forall i in m :: i > 0 && (i - 1) / 2 == curr && curr > 0 ==> m[(curr - 1) / 2].codedIdx <= m[i].codedIdx
    decreases curr + 1
  end
  ensures heapOrder: heapok(m)
  ensures sameSources: forall v int {qcnt(qsrc(m), len(m), v)} {qcnt(old(qsrc(m)), len(m), v)} :: qcnt(qsrc(m), len(m), v) == qcnt(old(qsrc(m)), len(m), v)
  ensures sameLinks: forall L ints, k int {linked(qsrc(m), qcod(m), len(m), L, k)} {linked(old(qsrc(m)), old(qcod(m)), len(m), L, k)} :: linked(old(qsrc(m)), old(qcod(m)), len(m), L, k) ==> linked(qsrc(m), qcod(m), len(m), L, k)

define wlen(e) = len(e.symbols)
// well-formed window whose next coded index is N
define wshape(e) = off(e.symbols) == 0 && off(e.mappings) == 0 && off(e.queue) == 0
   && len(e.symbols) == len(e.mappings) && len(e.queue) == len(e.mappings)
define wbase(e) = wshape(e) && 0 <= e.nextIdx && e.nextIdx < maxidx() - 1
// the queue: a heap by next coded index that holds every source once
smt queue
  (declare-fun qok ((Array Int Int) (Array Int Int) Int (Array Int Int)) Bool)
  (assert (forall ((Q (Array Int Int)) (C (Array Int Int)) (n Int) (L (Array Int Int)))
     (! (= (qok Q C n L) (and (linked Q C n L n)
          (forall ((v Int)) (! (=> (and (<= 0 v) (< v n)) (= (qcnt Q n v) 1)) :pattern ((qcnt Q n v))))
          (forall ((i Int)) (! (=> (and (< 0 i) (< i n)) (<= (select C (div (- i 1) 2)) (select C i))) :pattern ((select C i))))))
        :pattern ((qok Q C n L)))))
smt
  (assert (forall ((Q (Array Int Int)) (C (Array Int Int)) (n Int) (L (Array Int Int))) (! (=> (<= n 0) (qok Q C n L)) :pattern ((qok Q C n L)))))
// mapping i (state P[i], next index L[i]) yields, from N on, the indices of the hash H[i]
smt mapping
  (declare-fun mapok ((Array Int Int) (Array Int Int) (Array Int Int) Int Int) Bool)
  (assert (forall ((P (Array Int Int)) (L (Array Int Int)) (H (Array Int Int)) (n Int) (N Int))
     (! (= (mapok P L H n N) (and
          (forall ((i Int)) (! (=> (and (<= 0 i) (< i n)) (and (<= N (select L i)) (<= (select L i) 9223372036854775807))) :pattern ((select L i))))
          (forall ((i Int) (k Int)) (! (=> (and (<= 0 i) (< i n) (>= k N) (<= k 9223372036854775806)) (= (reach (select P i) (select L i) k) (reach (select H i) 0 k)))
             :pattern ((reach (select P i) (select L i) k)) :pattern ((reach (select H i) 0 k))))))
        :pattern ((mapok P L H n N)))))
smt
  (assert (forall ((P (Array Int Int)) (L (Array Int Int)) (H (Array Int Int)) (n Int) (N Int)) (! (=> (<= n 0) (mapok P L H n N)) :pattern ((mapok P L H n N)))))
define wqueue(e) = qok(qsrc(e.queue), qcod(e.queue), len(e.queue), wlast(e))
define wmap(e, N) = mapok(elems(e.mappings, "prng"), wlast(e), wH(e), len(e.mappings), N)
// while index N is being applied
define wmapAt(e, N) = (forall i in e.mappings :: N <= e.mappings[i].lastIdx && e.mappings[i].lastIdx <= maxidx() && (e.mappings[i].lastIdx == N ==> mapped(e.symbols[i].Hash, N)))
   && (forall i in e.mappings, k int {reach(e.mappings[i].prng, e.mappings[i].lastIdx, k)} {reach(e.symbols[i].Hash, 0, k)} :: k > N && k <= maxidx() - 1 ==> (reach(e.mappings[i].prng, e.mappings[i].lastIdx, k) <==> mapped(e.symbols[i].Hash, k)))
define wok(e) = wbase(e) && wqueue(e) && wmap(e, e.nextIdx)

define wlast(e) = elems(e.mappings, "lastIdx")
define wS(e) = elems(e.symbols, "Symbol")
define wH(e) = elems(e.symbols, "Hash")

func codingWindow.addHashedSymbolWithMapping(e, t, m)
  requires wok(e)
  requires m.lastIdx >= e.nextIdx && m.lastIdx <= maxidx()
  requires agrees: forall k int {reach(m.prng, m.lastIdx, k)} {reach(t.Hash, 0, k)} :: k >= e.nextIdx && k <= maxidx() - 1 ==> (reach(m.prng, m.lastIdx, k) <==> mapped(t.Hash, k))
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures base: wbase(e)
  ensures queue: wqueue(e)
  ensures map: wmap(e, e.nextIdx)
  ensures appended: len(e.symbols) == old(len(e.symbols)) + 1 && e.symbols[old(len(e.symbols))] == t
  ensures others: forall i in old(e.symbols) :: e.symbols[i] == old(e.symbols[i])
  ensures arrays: (arr(e.symbols) == old(arr(e.symbols)) || fresh(e.symbols)) && (arr(e.mappings) == old(arr(e.mappings)) || fresh(e.mappings)) && (arr(e.queue) == old(arr(e.queue)) || fresh(e.queue))
  ensures index: e.nextIdx == old(e.nextIdx)

// note: symbols may only be added while nextIdx is 0 (before production starts)
func codingWindow.addHashedSymbol(e, t)
  requires wok(e)
  requires notStarted: e.nextIdx == 0
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures window: wok(e) && e.nextIdx == old(e.nextIdx)
  ensures appended: len(e.symbols) == old(len(e.symbols)) + 1 && e.symbols[old(len(e.symbols))] == t
  ensures others: forall i in old(e.symbols) :: e.symbols[i] == old(e.symbols[i])
  ensures arrays: (arr(e.symbols) == old(arr(e.symbols)) || fresh(e.symbols)) && (arr(e.mappings) == old(arr(e.mappings)) || fresh(e.mappings)) && (arr(e.queue) == old(arr(e.queue)) || fresh(e.queue))

func codingWindow.addSymbol(e, t)
  requires wok(e)
  requires notStarted: e.nextIdx == 0
  modifies e.symbols, e.mappings, e.queue, e.symbols[*], e.mappings[*], e.queue[*]
  ensures window: wok(e) && e.nextIdx == old(e.nextIdx)
  ensures appended: let n := old(len(e.symbols)) :: len(e.symbols) == n + 1 && e.symbols[n].Symbol == t && e.symbols[n].Hash == thash(con(t))
  ensures others: forall i in old(e.symbols) :: e.symbols[i] == old(e.symbols[i])

// the sum of the coded symbol is not shared with a symbol of the window
define private(c, e) = c.sum != 0 ==> (forall i in e.symbols :: e.symbols[i].Symbol != c.sum)

func codingWindow.applyWindow(e, cw, direction) r
  requires wok(e)
  requires unit: direction == 1 || direction == 0 - 1
  requires notShared: private(cw, e)
  modifies e.nextIdx, e.mappings[*], e.queue[*], $tc
  local cw riblt.CodedSymbol[T]
  loop 1
    invariant wshape(e) && e.nextIdx == pre(e.nextIdx)
    invariant private(cw, e)
    invariant cw.sum == pre(cw.sum) || fresh(cw.sum)
    invariant forall v int {$tc[v]} :: v != pre(cw.sum) && !fresh(v) ==> $tc[v] == pre($tc[v])
    invariant forall b int {cbit(cw, b)} :: cbit(cw, b) == xor(pre(cbit(cw, b)), wpar(wS(e), pre($tc), wH(e), wlast(e), old(e.nextIdx), wlen(e), b))
    invariant cw.count == pre(cw.count) + sgn(direction, wcnt(wH(e), wlast(e), old(e.nextIdx), wlen(e)))
    invariant wqueue(e)
    invariant wmapAt(e, old(e.nextIdx))
    head len(e.queue) > 0 ==> qcnt(qsrc(e.queue), len(e.queue), e.queue[0].sourceIdx) == 1
    head let s := e.queue[0].sourceIdx :: len(e.queue) > 0 ==> 0 <= s && s < wlen(e) && wlast(e)[s] == e.queue[0].codedIdx && (e.queue[0].codedIdx == old(e.nextIdx) ==> mapped(wH(e)[s], old(e.nextIdx)))
    decreases cntle(wlast(e), old(e.nextIdx), wlen(e))
  end
  exit forall i int {wlast(e)[i]} :: 0 <= i && i < len(e.queue) ==> qcnt(qsrc(e.queue), len(e.queue), i) == 1
  exit heap_min(elems(e.queue, "codedIdx"), 0, len(e.queue), len(e.queue) - 1)
  ensures advanced: e.nextIdx == old(e.nextIdx) + 1
  ensures base: old(e.nextIdx) < maxidx() - 2 ==> wbase(e)
  ensures queue: wqueue(e)
  ensures map: wmap(e, e.nextIdx)
  ensures aggregate: forall b int {cbit(r, b)} :: cbit(r, b) == xor(old(cbit(cw, b)), mpar(wS(e), old($tc), wH(e), old(e.nextIdx), wlen(e), b))
  ensures count: r.count == cw.count + sgn(direction, mcnt(wH(e), old(e.nextIdx), wlen(e)))
  ensures onlySum: forall v int {$tc[v]} :: v != cw.sum && !fresh(v) ==> $tc[v] == old($tc[v])
  ensures owned: r.sum == cw.sum || fresh(r.sum)
