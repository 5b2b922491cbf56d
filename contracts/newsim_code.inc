// the shards: n intervals of the 64-bit space, the last one reaching over its end
smt
  (define-fun ssize ((n Int)) Int (div 18446744073709551615 n))
smt shards
  (declare-fun between (Int Int Int) Bool)
  (assert (forall ((s Int) (e Int) (h Int)) (! (= (between s e h) (or (and (< s e) (<= s h) (< h e)) (and (>= s e) (or (<= s h) (< h e))))) :pattern ((between s e h)))))
  (define-fun inShard ((i Int) (n Int) (h Int)) Bool (between (* i (ssize n)) (* (ite (= (+ i 1) n) 0 (+ i 1)) (ssize n)) h))

define U64() = 18446744073709551616

lemma size_fits(n int)
  requires 1 <= n && n < U64()
  ensures ssize(n) >= 1 && n * ssize(n) < U64() && n * ssize(n) >= 0
  noaxiom
lemma mul_mono(a int, b int, c int)
  requires a <= b && c >= 0
  ensures a * c <= b * c
  noaxiom
lemma mod_next(i int, n int)
  requires 0 <= i && i < n
  ensures (i + 1) % n == ite(i + 1 == n, 0, i + 1)
  noaxiom
lemma div_bounds(h int, s int)
  requires s >= 1 && h >= 0
  ensures (h / s) * s <= h && h < (h / s + 1) * s && h / s >= 0
  noaxiom
define shardOf(n, h) = ite(h / ssize(n) >= n - 1, n - 1, h / ssize(n))
// every hash belongs to a shard
lemma shard_exists(n int, h int)
  requires 1 <= n && n < U64() && 0 <= h && h < U64()
  ensures 0 <= shardOf(n, h) && shardOf(n, h) < n && inShard(shardOf(n, h), n, h)
  hint size_fits(n)
  hint div_bounds(h, ssize(n))
  hint mul_mono(n - 1, h / ssize(n), ssize(n))
  hint mul_mono(1, h / ssize(n), ssize(n))
  noaxiom
// and to no other one
lemma shard_unique(n int, h int, i int, j int)
  requires 1 <= n && n < U64() && 0 <= h && h < U64()
  requires 0 <= i && i < j && j < n && inShard(i, n, h) && inShard(j, n, h)
  ensures false
  hint size_fits(n)
  hint mul_mono(i + 1, j, ssize(n))
  hint mul_mono(1, i + 1, ssize(n))
  noaxiom

package newsim
ghostvar $blocks : Int
ghostvar $bp : (Array Int Int)
ghostvar $wp : (Array Int Int)
ghostvar $inv : (Array Int Int)
ghostvar $from : Int
ghostvar $rH : (Array Int Int)
ghostvar $rI : (Array Int Int)
ghostvar $rT : (Array Int Int)
ghostvar $lH : (Array Int Int)
ghostvar $lI : (Array Int Int)
ghostvar $lT : (Array Int Int)
ghostvar $dH : (Array Int Int)
ghostvar $dI : (Array Int Int)
ghostvar $dT : (Array Int Int)
ghostvar $to : Int
smt
  (declare-fun ident () (Array Int Int))
  (assert (forall ((i Int)) (! (= (select ident i) i) :pattern ((select ident i)))))

// the value that decides the shard of a transaction
define skey(h, rnd) = (h * rnd) % U64()
define nsh(n) = len(n.shardSchedule)
define curShard(n) = n.shardSchedule[n.nextShard]
define schedOK(n) = nsh(n) >= 1 && 0 <= n.nextShard && n.nextShard < nsh(n)
   && (forall i in n.shardSchedule :: 0 <= n.shardSchedule[i] && n.shardSchedule[i] < nsh(n))

define arrOf(s, o) = arr(s) == o || fresh(s) || arr(s) == 0
define sameOrFresh(n) = arrOf(n.Encoder.symbols, pre(arr(n.Encoder.symbols))) && arrOf(n.Encoder.mappings, pre(arr(n.Encoder.mappings))) && arrOf(n.Encoder.queue, pre(arr(n.Encoder.queue)))
define apart(n) = arr(n.buffer) == 0 || arr(n.buffer) != arr(n.Encoder.symbols)

// Where the transaction at position i of the old buffer is now: $inv[i] is its new position, or
// -1-k when it is number k of the symbols in the encoder. $bp and $wp are the way back.
smt inverse
  (declare-fun located ((Array Int Int) (Array Int Int) (Array Int Int) Int Int Int) Bool)
  (assert (forall ((I (Array Int Int)) (B (Array Int Int)) (W (Array Int Int)) (n Int) (nb Int) (nw Int))
    (! (= (located I B W n nb nw) (and
        (forall ((i Int)) (! (=> (and (<= 0 i) (< i n)) (ite (>= (select I i) 0)
             (and (< (select I i) nb) (= (select B (select I i)) i))
             (and (< (- (- 1) (select I i)) nw) (= (select W (- (- 1) (select I i))) i)))) :pattern ((select I i))))
        (forall ((j Int)) (! (=> (and (<= 0 j) (< j nb)) (and (<= 0 (select B j)) (< (select B j) n) (= (select I (select B j)) j))) :pattern ((select B j))))
        (forall ((k Int)) (! (=> (and (<= 0 k) (< k nw)) (and (<= 0 (select W k)) (< (select W k) n) (= (select I (select W k)) (- (- 1) k)))) :pattern ((select W k))))))
      :pattern ((located I B W n nb nw)))))
// the n values of A from oa on are those of A0 at the positions P (from o0 on)
  (declare-fun copied ((Array Int Int) Int (Array Int Int) Int (Array Int Int) Int) Bool)
  (assert (forall ((A (Array Int Int)) (oa Int) (P (Array Int Int)) (n Int) (A0 (Array Int Int)) (o0 Int))
    (! (= (copied A oa P n A0 o0) (forall ((q Int)) (! (=> (and (<= oa q) (< q (+ oa n))) (= (select A q) (select A0 (+ o0 (select P (- q oa)))))) :pattern ((select A q)))))
      :pattern ((copied A oa P n A0 o0)))))
// the hashes at the first n of the positions P are all inside (outside) the interval
  (declare-fun inside ((Array Int Int) Int Int (Array Int Int) Int Int Int) Bool)
  (assert (forall ((H (Array Int Int)) (o Int) (r Int) (P (Array Int Int)) (n Int) (s Int) (e Int))
    (! (= (inside H o r P n s e) (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (between s e (mod (* (select H (+ o (select P j))) r) 18446744073709551616))) :pattern ((select P j)))))
      :pattern ((inside H o r P n s e)))))
  (declare-fun outside ((Array Int Int) Int Int (Array Int Int) Int Int Int) Bool)
  (assert (forall ((H (Array Int Int)) (o Int) (r Int) (P (Array Int Int)) (n Int) (s Int) (e Int))
    (! (= (outside H o r P n s e) (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (not (between s e (mod (* (select H (+ o (select P j))) r) 18446744073709551616)))) :pattern ((select P j)))))
      :pattern ((outside H o r P n s e)))))

lemma between_def(s int, e int, h int)
  ensures between(s, e, h) == ((s < e && s <= h && h < e) || (s >= e && (s <= h || h < e)))
  noaxiom
lemma start_all(A (Array Int Int), o int, n int)
  requires 0 <= n
  ensures copied(A, o, ident(), n, A, o)
  noaxiom
lemma start_none(W (Array Int Int), n int, A (Array Int Int), o int, B (Array Int Int), o2 int, r int, s int, e int)
  requires 0 <= n
  ensures located(ident(), ident(), W, n, n, 0) && copied(A, o, W, 0, B, o2) && inside(B, o2, r, W, 0, s, e) && outside(B, o2, r, ident(), 0, s, e)
  noaxiom
// the transaction at position t moves into coding, the last one takes its place
lemma located_step(I (Array Int Int), B (Array Int Int), W (Array Int Int), n int, nb int, nw int, t int)
  requires located(I, B, W, n, nb, nw) && 0 <= t && t < nb && 0 <= nw
  ensures located(upd(upd(I, B[nb - 1], t), B[t], 0 - 1 - nw), upd(B, t, B[nb - 1]), upd(W, nw, B[t]), n, nb - 1, nw + 1)
  noaxiom
lemma copied_fill(A (Array Int Int), o int, B (Array Int Int), n int, A0 (Array Int Int), o0 int, t int)
  requires copied(A, o, B, n, A0, o0) && 0 <= t && t < n
  ensures copied(upd(A, o + t, A[o + n - 1]), o, upd(B, t, B[n - 1]), n - 1, A0, o0)
  noaxiom
lemma copied_add(A (Array Int Int), A2 (Array Int Int), W (Array Int Int), n int, A0 (Array Int Int), o0 int, p int)
  requires copied(A, 0, W, n, A0, o0) && 0 <= n
  requires forall i int {A2[i]} :: 0 <= i && i < n ==> A2[i] == A[i]
  requires A2[n] == A0[o0 + p]
  ensures copied(A2, 0, upd(W, n, p), n + 1, A0, o0)
  noaxiom
lemma inside_add(H (Array Int Int), o int, r int, W (Array Int Int), n int, s int, e int, p int)
  requires inside(H, o, r, W, n, s, e) && 0 <= n && between(s, e, (H[o + p] * r) % U64())
  ensures inside(H, o, r, upd(W, n, p), n + 1, s, e)
  noaxiom
lemma outside_next(H (Array Int Int), o int, r int, B (Array Int Int), n int, s int, e int)
  requires outside(H, o, r, B, n, s, e) && 0 <= n && !between(s, e, (H[o + B[n]] * r) % U64())
  ensures outside(H, o, r, B, n + 1, s, e)
  noaxiom
lemma outside_fill(H (Array Int Int), o int, r int, B (Array Int Int), n int, s int, e int, p int)
  requires outside(H, o, r, B, n, s, e) && 0 <= n
  ensures outside(H, o, r, upd(B, n, p), n, s, e)
  noaxiom
lemma copied_at(A (Array Int Int), o int, B (Array Int Int), n int, A0 (Array Int Int), o0 int, t int)
  requires copied(A, o, B, n, A0, o0) && 0 <= t && t < n
  ensures A[o + t] == A0[o0 + B[t]]
  noaxiom

define bH(n) = elems(n.buffer, "Hash")
define bI(n) = elems(n.buffer, "Symbol.idx")
define bT(n) = elems(n.buffer, "Symbol.ts")
define sH(e) = elems(e.symbols, "Hash")
define sI(e) = elems(e.symbols, "Symbol.idx")
define sT(e) = elems(e.symbols, "Symbol.ts")
define copied3(H, I, T, o, P, m, H0, I0, T0, o0) = copied(H, o, P, m, H0, o0) && copied(I, o, P, m, I0, o0) && copied(T, o, P, m, T0, o0)
define kept(n, B) = copied3(bH(n), bI(n), bT(n), off(n.buffer), B, len(n.buffer), old(bH(n)), old(bI(n)), old(bT(n)), old(off(n.buffer)))
define moved(n, W) = copied3(sH(n.Encoder), sI(n.Encoder), sT(n.Encoder), 0, W, len(n.Encoder.symbols), old(bH(n)), old(bI(n)), old(bT(n)), old(off(n.buffer)))

func sender.tryProduceCodeword(n) cw, ok, burst
  nilable
  hide inverse shards queuedefs queue mapping
  requires n != nil ==> n.Encoder != nil && schedOK(n) && wok(n.Encoder) && apart(n)
  modifies n.buffer, n.buffer[*], n.nextShard, n.encodingCurrentBlock, n.sendWindow, n.currentBlockAckCount, n.inFlight
  modifies n.Encoder.symbols, n.Encoder.mappings, n.Encoder.queue, n.Encoder.nextIdx, n.Encoder.symbols[*], n.Encoder.mappings[*], n.Encoder.queue[*]
  modifies $bp, $wp, $inv, $tc, $from, $to, $blocks, $madeSum, $madeCount
  local tidx int
  local word codeword
  ghost $blocks := old($blocks) + ite(n != nil && !old(n.encodingCurrentBlock), 1, 0)
  [shards] before Reset: start_all(bH(n), off(n.buffer), len(n.buffer))
  [shards] before Reset: start_all(bI(n), off(n.buffer), len(n.buffer))
  [shards] before Reset: start_all(bT(n), off(n.buffer), len(n.buffer))
  [shards] before Reset: size_fits(nsh(n))
  [shards] before Reset: mod_next(n.shardSchedule[n.nextShard], nsh(n))
  [shards] before Reset: mul_mono(n.shardSchedule[n.nextShard] + 1, nsh(n), ssize(nsh(n)))
  [shards] before Reset: word.startHash == old(curShard(n)) * ssize(nsh(n))
  [shards] before Reset: word.endHash == ite(old(curShard(n)) + 1 == nsh(n), 0, old(curShard(n)) + 1) * ssize(nsh(n))
  loop 1
    [shards] ghost $bp := ident()
    [shards] ghost $inv := ident()
    [shards] ghost $from := word.startHash
    [shards] ghost $to := word.endHash
    [shards] start start_none($wp, len(n.buffer), sH(n.Encoder), 0, bH(n), off(n.buffer), n.shardRandomizer, $from, $to)
    [shards] start start_none($wp, len(n.buffer), sI(n.Encoder), 0, bI(n), off(n.buffer), n.shardRandomizer, $from, $to)
    [shards] start start_none($wp, len(n.buffer), sT(n.Encoder), 0, bT(n), off(n.buffer), n.shardRandomizer, $from, $to)
    [shards] invariant word.startHash == $from && word.endHash == $to
    invariant 0 <= tidx && tidx <= len(n.buffer)
    invariant sameOrFresh(n)
    invariant arr(n.buffer) == pre(arr(n.buffer)) && off(n.buffer) == pre(off(n.buffer)) && len(n.buffer) <= pre(len(n.buffer))
    invariant wok(n.Encoder) && n.Encoder.nextIdx == 0
    [shards] invariant located($inv, $bp, $wp, old(len(n.buffer)), len(n.buffer), len(n.Encoder.symbols))
    [shards] invariant kept(n, $bp)
    [shards] invariant moved(n, $wp)
    [shards] invariant inside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $wp, len(n.Encoder.symbols), $from, $to)
    [shards] invariant outside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $bp, tidx, $from, $to)
    [shards] backghost $wp := ite(len(n.buffer) < head(len(n.buffer)), upd($wp, head(len(n.Encoder.symbols)), $bp[head(tidx)]), $wp)
    [shards] backghost $inv := ite(len(n.buffer) < head(len(n.buffer)), upd(upd($inv, $bp[len(n.buffer)], head(tidx)), $bp[head(tidx)], 0 - 1 - head(len(n.Encoder.symbols))), $inv)
    [shards] backghost $bp := ite(len(n.buffer) < head(len(n.buffer)), upd($bp, head(tidx), $bp[len(n.buffer)]), $bp)
    decreases len(n.buffer) - tidx
    [shards] back between_def($from, $to, head(skey(n.buffer[tidx].Hash, n.shardRandomizer)))
    [shards] back copied_at(head(bH(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bH(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_at(head(bI(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bI(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_at(head(bT(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bT(n)), old(off(n.buffer)), head(tidx))
    [shards] back located_step(head($inv), head($bp), head($wp), old(len(n.buffer)), head(len(n.buffer)), head(len(n.Encoder.symbols)), head(tidx))
    [shards] back copied_fill(head(bH(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bH(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_fill(head(bI(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bI(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_fill(head(bT(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bT(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_add(head(sH(n.Encoder)), sH(n.Encoder), head($wp), head(len(n.Encoder.symbols)), old(bH(n)), old(off(n.buffer)), head($bp[tidx]))
    [shards] back copied_add(head(sI(n.Encoder)), sI(n.Encoder), head($wp), head(len(n.Encoder.symbols)), old(bI(n)), old(off(n.buffer)), head($bp[tidx]))
    [shards] back copied_add(head(sT(n.Encoder)), sT(n.Encoder), head($wp), head(len(n.Encoder.symbols)), old(bT(n)), old(off(n.buffer)), head($bp[tidx]))
    [shards] back inside_add(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, head($wp), head(len(n.Encoder.symbols)), $from, $to, head($bp[tidx]))
    [shards] back outside_next(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, head($bp), head(tidx), $from, $to)
    [shards] back outside_fill(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, head($bp), head(tidx), $from, $to, head($bp[len(n.buffer) - 1]))
  end
  ensures state: n != nil ==> schedOK(n) && apart(n)
  [acks] ensures sends: n != nil ==> (ok <==> real(n.inFlight) < n.sendWindow)
  [acks] ensures inFlight: n != nil ==> n.inFlight == ite(cw.newBlock, 0, old(n.inFlight))
  [acks] ensures window: n != nil && !cw.newBlock ==> n.sendWindow == old(n.sendWindow) && n.currentBlockAckCount == old(n.currentBlockAckCount)
  [acks] ensures freshWindow: n != nil && cw.newBlock ==> n.sendWindow >= real(1) && n.currentBlockAckCount == 0 && (let w := real(old(n.currentBlockAckCount)) * n.controlOverhead :: n.sendWindow == ite(w < real(1), real(1), w))
  [acks] ensures burst: n != nil && cw.newBlock && old(n.currentBlockAckCount) >= 0 ==> burst == old(n.currentBlockAckCount) * 2 / 3
  [acks] ensures symbol: n != nil && ok ==> cw.CodedSymbol.checksum == $madeSum && cw.CodedSymbol.count == $madeCount
  [acks] ensures next: n != nil ==> n.Encoder.nextIdx == ite(cw.newBlock, 0, old(n.Encoder.nextIdx)) + ite(ok, 1, 0)
  ensures none: n == nil ==> !ok
  ensures counted: $blocks == old($blocks) + ite(n != nil && cw.newBlock, 1, 0)
  ensures announced: n != nil && cw.newBlock ==> ok
  ensures noBurst: n != nil && !cw.newBlock ==> burst == 0
  ensures windowKept: n != nil ==> (old(n.Encoder.nextIdx) < maxidx() - 2 || cw.newBlock ==> wok(n.Encoder)) && n.Encoder == old(n.Encoder)
  ensures ghostsKept: n == nil || !cw.newBlock ==> $inv == old($inv) && $bp == old($bp) && $wp == old($wp)
  ensures bufferArray: n != nil ==> arr(n.buffer) == old(arr(n.buffer))
  ensures encoderArrays: n != nil ==> arrOf(n.Encoder.symbols, old(arr(n.Encoder.symbols))) && arrOf(n.Encoder.mappings, old(arr(n.Encoder.mappings))) && arrOf(n.Encoder.queue, old(arr(n.Encoder.queue)))
  ensures newBlock: n != nil ==> cw.newBlock == !old(n.encodingCurrentBlock) && n.encodingCurrentBlock
  [shards] ensures interval: n != nil && cw.newBlock ==> cw.startHash == old(curShard(n)) * ssize(nsh(n)) && cw.endHash == ite(old(curShard(n)) + 1 == nsh(n), 0, old(curShard(n)) + 1) * ssize(nsh(n))
  [shards] ensures inTurn: n != nil && cw.newBlock ==> n.nextShard == ite(old(n.nextShard) + 1 == nsh(n), 0, old(n.nextShard) + 1)
  [shards] ensures partition: n != nil && cw.newBlock ==> located($inv, $bp, $wp, old(len(n.buffer)), len(n.buffer), len(n.Encoder.symbols))
  [shards] ensures kept: n != nil && cw.newBlock ==> kept(n, $bp) && outside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $bp, len(n.buffer), cw.startHash, cw.endHash)
  [shards] ensures moved: n != nil && cw.newBlock ==> moved(n, $wp) && inside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $wp, len(n.Encoder.symbols), cw.startHash, cw.endHash)
  ensures same: n != nil && !cw.newBlock ==> n.nextShard == old(n.nextShard) && n.buffer == old(n.buffer) && n.Encoder.symbols == old(n.Encoder.symbols)
  ensures sameContent: n != nil && !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
  ensures sameBlock: n != nil && !cw.newBlock && len(n.Encoder.symbols) > 0 ==> sH(n.Encoder) == old(sH(n.Encoder)) && sI(n.Encoder) == old(sI(n.Encoder)) && sT(n.Encoder) == old(sT(n.Encoder))

// ----- the receiving side -----
define list3(s, H, I, T) = copied3(elems(s, "Hash"), elems(s, "Symbol.idx"), elems(s, "Symbol.ts"), 0, ident(), len(s), H, I, T, 0)
define sepFrom(s, n) = arr(s) == 0 || (arr(s) != arr(n.Decoder.window.symbols) && arr(s) != arr(n.Decoder.remote.symbols) && arr(s) != arr(n.Decoder.local.symbols) && arr(s) != arr(n.buffer))
define sameRows(n) = bH(n) == pre(bH(n)) && bI(n) == pre(bI(n)) && bT(n) == pre(bT(n)) && sI(n.Decoder.window) == pre(sI(n.Decoder.window)) && sT(n.Decoder.window) == pre(sT(n.Decoder.window)) && sI(n.Decoder.local) == pre(sI(n.Decoder.local)) && sT(n.Decoder.local) == pre(sT(n.Decoder.local)) && sI(n.Decoder.remote) == pre(sI(n.Decoder.remote)) && sT(n.Decoder.remote) == pre(sT(n.Decoder.remote))
lemma copied_start(A (Array Int Int), A0 (Array Int Int))
  ensures copied(A, 0, ident(), 0, A0, 0)
  noaxiom
lemma copied_next(A (Array Int Int), A2 (Array Int Int), n int, A0 (Array Int Int))
  requires copied(A, 0, ident(), n, A0, 0) && 0 <= n
  requires forall i int {A2[i]} :: 0 <= i && i < n ==> A2[i] == A[i]
  requires A2[n] == A0[n]
  ensures copied(A2, 0, ident(), n + 1, A0, 0)
  noaxiom
lemma copied_all(A (Array Int Int), A0 (Array Int Int), n int)
  requires forall i int {A[i]} :: 0 <= i && i < n ==> A[i] == A0[i]
  ensures copied(A, 0, ident(), n, A0, 0)
  noaxiom
lemma copied_same(A (Array Int Int), A2 (Array Int Int), o int, P (Array Int Int), n int, A0 (Array Int Int), o0 int)
  requires copied(A, o, P, n, A0, o0) && (n <= 0 || A2 == A)
  ensures copied(A2, o, P, n, A0, o0)
  noaxiom
define movedN(n, W, m) = copied3($dH, $dI, $dT, 0, W, m, old(bH(n)), old(bI(n)), old(bT(n)), old(off(n.buffer)))
define movedD(n, W) = copied3(sH(n.Decoder.window), sI(n.Decoder.window), sT(n.Decoder.window), 0, W, len(n.Decoder.window.symbols), old(bH(n)), old(bI(n)), old(bT(n)), old(off(n.buffer)))
define clean0(d) = len(d.cs) == 0 && len(d.dirty) == 0 && d.pending == 0 && len(d.remote.symbols) == 0 && len(d.local.symbols) == 0
define sameOrFreshD(n) = (arr(n.Decoder.window.symbols) == pre(arr(n.Decoder.window.symbols)) || fresh(n.Decoder.window.symbols)) && (arr(n.Decoder.window.mappings) == pre(arr(n.Decoder.window.mappings)) || fresh(n.Decoder.window.mappings)) && (arr(n.Decoder.window.queue) == pre(arr(n.Decoder.window.queue)) || fresh(n.Decoder.window.queue))
define apartOf(n, w) = arr(n.buffer) == 0 || arr(n.buffer) != arr(w.symbols)
define apartD(n) = apartOf(n, n.Decoder.window) && apartOf(n, n.Decoder.remote) && apartOf(n, n.Decoder.local)
define rcvOK(n) = n.Decoder != nil && wdec(n.Decoder) && apartD(n) && off(n.outbox) == 0

define skips(n, cw) = old(n.currentBlockReceived) && !cw.newBlock
define lastAck(n) = as(n.outbox[old(len(n.outbox))], "newsim.ack")
func receiver.onCodeword(n, cw) res, decoded
  nilable
  hide inverse shards queuedefs queue mapping
  requires n != nil ==> rcvOK(n) && len(n.Decoder.cs) < maxidx() - 3
  requires freshBlock: n != nil && cw.newBlock ==> clean(n.Decoder)
  modifies n.buffer, n.buffer[*], n.outbox, n.outbox[*], n.currentBlockReceived, n.currentBlockCount
  modifies n.Decoder.cs, n.Decoder.dirty, n.Decoder.pending, n.Decoder.window, n.Decoder.remote, n.Decoder.local, n.Decoder.cs[*], n.Decoder.dirty[*]
  modifies n.Decoder.window.symbols[*], n.Decoder.window.mappings[*], n.Decoder.window.queue[*]
  modifies n.Decoder.remote.symbols[*], n.Decoder.remote.mappings[*], n.Decoder.remote.queue[*]
  modifies n.Decoder.local.symbols[*], n.Decoder.local.mappings[*], n.Decoder.local.queue[*]
  modifies $bp, $wp, $inv, $tc, $from, $to, $nremote, $nlocal, $ncs, $npending, $tries, $rH, $rI, $rT, $lH, $lI, $lT, $dH, $dI, $dT
  local tidx int
  loop 1
    [shards] ghost $bp := ident()
    [shards] ghost $inv := ident()
    [shards] ghost $from := cw.startHash
    [shards] ghost $dH := sH(n.Decoder.window)
    [shards] ghost $dI := sI(n.Decoder.window)
    [shards] ghost $dT := sT(n.Decoder.window)
    [shards] ghost $to := cw.endHash
    [shards] start start_all(bH(n), off(n.buffer), len(n.buffer))
    [shards] start start_all(bI(n), off(n.buffer), len(n.buffer))
    [shards] start start_all(bT(n), off(n.buffer), len(n.buffer))
    [shards] start start_none($wp, len(n.buffer), sH(n.Decoder.window), 0, bH(n), off(n.buffer), n.shardRandomizer, $from, $to)
    [shards] start start_none($wp, len(n.buffer), sI(n.Decoder.window), 0, bI(n), off(n.buffer), n.shardRandomizer, $from, $to)
    [shards] start start_none($wp, len(n.buffer), sT(n.Decoder.window), 0, bT(n), off(n.buffer), n.shardRandomizer, $from, $to)
    invariant 0 <= tidx && tidx <= len(n.buffer)
    invariant sameOrFreshD(n)
    invariant arr(n.buffer) == pre(arr(n.buffer)) && off(n.buffer) == pre(off(n.buffer)) && len(n.buffer) <= pre(len(n.buffer))
    invariant wdec(n.Decoder) && clean0(n.Decoder)
    invariant len(n.Decoder.window.symbols) == old(len(n.buffer)) - len(n.buffer)
    [shards] invariant located($inv, $bp, $wp, old(len(n.buffer)), len(n.buffer), len(n.Decoder.window.symbols))
    [shards] invariant kept(n, $bp)
    [shards] invariant movedD(n, $wp)
    [shards] invariant inside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $wp, len(n.Decoder.window.symbols), $from, $to)
    [shards] invariant outside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $bp, tidx, $from, $to)
    [shards] invariant $dH == sH(n.Decoder.window) && $dI == sI(n.Decoder.window) && $dT == sT(n.Decoder.window)
    [shards] backghost $dH := sH(n.Decoder.window)
    [shards] backghost $dI := sI(n.Decoder.window)
    [shards] backghost $dT := sT(n.Decoder.window)
    [shards] backghost $wp := ite(len(n.buffer) < head(len(n.buffer)), upd($wp, head(len(n.Decoder.window.symbols)), $bp[head(tidx)]), $wp)
    [shards] backghost $inv := ite(len(n.buffer) < head(len(n.buffer)), upd(upd($inv, $bp[len(n.buffer)], head(tidx)), $bp[head(tidx)], 0 - 1 - head(len(n.Decoder.window.symbols))), $inv)
    [shards] backghost $bp := ite(len(n.buffer) < head(len(n.buffer)), upd($bp, head(tidx), $bp[len(n.buffer)]), $bp)
    decreases len(n.buffer) - tidx
    [shards] back between_def($from, $to, head(skey(n.buffer[tidx].Hash, n.shardRandomizer)))
    [shards] back copied_at(head(bH(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bH(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_at(head(bI(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bI(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_at(head(bT(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bT(n)), old(off(n.buffer)), head(tidx))
    [shards] back located_step(head($inv), head($bp), head($wp), old(len(n.buffer)), head(len(n.buffer)), head(len(n.Decoder.window.symbols)), head(tidx))
    [shards] back copied_fill(head(bH(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bH(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_fill(head(bI(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bI(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_fill(head(bT(n)), off(n.buffer), head($bp), head(len(n.buffer)), old(bT(n)), old(off(n.buffer)), head(tidx))
    [shards] back copied_add(head(sH(n.Decoder.window)), sH(n.Decoder.window), head($wp), head(len(n.Decoder.window.symbols)), old(bH(n)), old(off(n.buffer)), head($bp[tidx]))
    [shards] back copied_add(head(sI(n.Decoder.window)), sI(n.Decoder.window), head($wp), head(len(n.Decoder.window.symbols)), old(bI(n)), old(off(n.buffer)), head($bp[tidx]))
    [shards] back copied_add(head(sT(n.Decoder.window)), sT(n.Decoder.window), head($wp), head(len(n.Decoder.window.symbols)), old(bT(n)), old(off(n.buffer)), head($bp[tidx]))
    [shards] back inside_add(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, head($wp), head(len(n.Decoder.window.symbols)), $from, $to, head($bp[tidx]))
    [shards] back outside_next(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, head($bp), head(tidx), $from, $to)
    [shards] back outside_fill(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, head($bp), head(tidx), $from, $to, head($bp[len(n.buffer) - 1]))
  end
  [shards] before AddCodedSymbol: cw.newBlock ==> $dH == sH(n.Decoder.window) && $dI == sI(n.Decoder.window) && $dT == sT(n.Decoder.window) && len(n.Decoder.window.symbols) == old(len(n.buffer)) - len(n.buffer)
  after AddCodedSymbol: cw.newBlock ==> old(len(n.buffer)) - len(n.buffer) == len(n.Decoder.window.symbols)
  [shards] after AddCodedSymbol: cw.newBlock ==> kept(n, $bp)
  [shards] after AddCodedSymbol: cw.newBlock ==> movedN(n, $wp, old(len(n.buffer)) - len(n.buffer))
  after AddCodedSymbol: !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
  [shards] after TryDecode: copied_same(pre(bH(n)), bH(n), off(n.buffer), $bp, len(n.buffer), old(bH(n)), old(off(n.buffer)))
  [shards] after TryDecode: copied_same(pre(bI(n)), bI(n), off(n.buffer), $bp, len(n.buffer), old(bI(n)), old(off(n.buffer)))
  [shards] after TryDecode: copied_same(pre(bT(n)), bT(n), off(n.buffer), $bp, len(n.buffer), old(bT(n)), old(off(n.buffer)))
  [shards] after TryDecode: cw.newBlock ==> kept(n, $bp)
  [shards] after TryDecode: cw.newBlock ==> movedN(n, $wp, old(len(n.buffer)) - len(n.buffer))
  after TryDecode: !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
  [shards] after Reset: cw.newBlock ==> kept(n, $bp)
  [shards] after Reset: cw.newBlock ==> movedN(n, $wp, old(len(n.buffer)) - len(n.buffer))
  after Reset: !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
  callghost Reset: $rH := sH(n.Decoder.remote)
  callghost Reset: $rI := sI(n.Decoder.remote)
  callghost Reset: $rT := sT(n.Decoder.remote)
  callghost Reset: $lH := sH(n.Decoder.local)
  callghost Reset: $lI := sI(n.Decoder.local)
  callghost Reset: $lT := sT(n.Decoder.local)
  local a ack
  local out []HashedSymbol[transaction]
  loop 2
    [acks] start copied_start(elems(a.txs, "Hash"), sH(n.Decoder.local))
    [acks] start copied_start(elems(a.txs, "Symbol.idx"), sI(n.Decoder.local))
    [acks] start copied_start(elems(a.txs, "Symbol.ts"), sT(n.Decoder.local))
    invariant arr(a.txs) == 0 || fresh(a.txs)
    invariant sepFrom(a.txs, n)
    [shards] invariant cw.newBlock ==> kept(n, $bp)
    [shards] invariant cw.newBlock ==> movedN(n, $wp, old(len(n.buffer)) - len(n.buffer))
    invariant !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
    invariant sH(n.Decoder.window) == pre(sH(n.Decoder.window)) && sH(n.Decoder.remote) == pre(sH(n.Decoder.remote)) && sH(n.Decoder.local) == pre(sH(n.Decoder.local))
    invariant sameRows(n)
    invariant off(a.txs) == 0 && len(a.txs) == $k
    [acks] invariant a.ackBlock && (a.ackStart <==> cw.newBlock)
    [acks] invariant list3(a.txs, sH(n.Decoder.local), sI(n.Decoder.local), sT(n.Decoder.local))
    [acks] back copied_next(head(elems(a.txs, "Hash")), elems(a.txs, "Hash"), head(len(a.txs)), sH(n.Decoder.local))
    [acks] back copied_next(head(elems(a.txs, "Symbol.idx")), elems(a.txs, "Symbol.idx"), head(len(a.txs)), sI(n.Decoder.local))
    [acks] back copied_next(head(elems(a.txs, "Symbol.ts")), elems(a.txs, "Symbol.ts"), head(len(a.txs)), sT(n.Decoder.local))
  end
  loop 3
    [acks] start copied_start(elems(out, "Hash"), sH(n.Decoder.remote))
    [acks] start copied_start(elems(out, "Symbol.idx"), sI(n.Decoder.remote))
    [acks] start copied_start(elems(out, "Symbol.ts"), sT(n.Decoder.remote))
    invariant arr(out) == 0 || fresh(out)
    invariant sepFrom(out, n)
    [shards] invariant cw.newBlock ==> kept(n, $bp)
    [shards] invariant cw.newBlock ==> movedN(n, $wp, old(len(n.buffer)) - len(n.buffer))
    invariant !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
    invariant sH(n.Decoder.window) == pre(sH(n.Decoder.window)) && sH(n.Decoder.remote) == pre(sH(n.Decoder.remote)) && sH(n.Decoder.local) == pre(sH(n.Decoder.local))
    invariant sameRows(n)
    invariant off(out) == 0 && len(out) == $k
    [acks] invariant arr(out) == 0 || arr(out) != arr(a.txs)
    [acks] invariant len(a.txs) > 0 ==> list3(a.txs, sH(n.Decoder.local), sI(n.Decoder.local), sT(n.Decoder.local))
    [acks] invariant list3(out, sH(n.Decoder.remote), sI(n.Decoder.remote), sT(n.Decoder.remote))
    [acks] back copied_next(head(elems(out, "Hash")), elems(out, "Hash"), head(len(out)), sH(n.Decoder.remote))
    [acks] back copied_next(head(elems(out, "Symbol.idx")), elems(out, "Symbol.idx"), head(len(out)), sI(n.Decoder.remote))
    [acks] back copied_next(head(elems(out, "Symbol.ts")), elems(out, "Symbol.ts"), head(len(out)), sT(n.Decoder.remote))
  end
  [acks] exit copied_all(elems(lastAck(n).txs, "Hash"), $lH, len(lastAck(n).txs))
  [acks] exit copied_all(elems(lastAck(n).txs, "Symbol.idx"), $lI, len(lastAck(n).txs))
  [acks] exit copied_all(elems(lastAck(n).txs, "Symbol.ts"), $lT, len(lastAck(n).txs))
  [acks] exit copied_all(elems(res, "Hash"), $rH, len(res))
  [acks] exit copied_all(elems(res, "Symbol.idx"), $rI, len(res))
  [acks] exit copied_all(elems(res, "Symbol.ts"), $rT, len(res))
  ensures state: n != nil ==> rcvOK(n)
  ensures none: n == nil ==> !decoded
  [shards] ensures partition: n != nil && cw.newBlock ==> located($inv, $bp, $wp, old(len(n.buffer)), len(n.buffer), old(len(n.buffer)) - len(n.buffer))
  [shards] ensures kept: n != nil && cw.newBlock ==> kept(n, $bp) && outside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $bp, len(n.buffer), cw.startHash, cw.endHash)
  [shards] ensures moved: n != nil && cw.newBlock ==> movedN(n, $wp, old(len(n.buffer)) - len(n.buffer)) && inside(old(bH(n)), old(off(n.buffer)), n.shardRandomizer, $wp, old(len(n.buffer)) - len(n.buffer), cw.startHash, cw.endHash)
  ensures same: n != nil && !cw.newBlock ==> n.buffer == old(n.buffer)
  ensures sameContent: n != nil && !cw.newBlock && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
  [acks] before AddCodedSymbol: arg1 == cw.CodedSymbol && len(n.Decoder.cs) == ite(cw.newBlock, 0, old(len(n.Decoder.cs)))
  [acks] before TryDecode: len(n.Decoder.cs) == ite(cw.newBlock, 0, old(len(n.Decoder.cs))) + 1
  [acks] ensures leftover: n != nil && skips(n, cw) ==> !decoded && len(res) == 0 && n.outbox == old(n.outbox) && n.currentBlockReceived && n.Decoder.cs == old(n.Decoder.cs) && n.Decoder.pending == old(n.Decoder.pending)
  [acks] ensures ackEach: n != nil && !skips(n, cw) ==> len(n.outbox) == old(len(n.outbox)) + 1 && is(n.outbox[old(len(n.outbox))], "newsim.ack")
  [acks] ensures ackStart: n != nil && !skips(n, cw) ==> (lastAck(n).ackStart <==> cw.newBlock)
  [acks] ensures ackBlock: n != nil && !skips(n, cw) ==> (lastAck(n).ackBlock <==> decoded)
  [acks] ensures others: n != nil ==> forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
  [acks] ensures fed: n != nil && !skips(n, cw) ==> $ncs == ite(cw.newBlock, 0, old(len(n.Decoder.cs))) + 1 && $tries == old($tries) + 1
  [acks] ensures completion: n != nil && !skips(n, cw) ==> (decoded <==> $npending == 0)
  [acks] ensures acked: n != nil && decoded ==> off(lastAck(n).txs) == 0 && len(lastAck(n).txs) == $nlocal && ($nlocal > 0 ==> list3(lastAck(n).txs, $lH, $lI, $lT))
  [acks] ensures handedUp: n != nil && decoded ==> off(res) == 0 && len(res) == $nremote && ($nremote > 0 ==> list3(res, $rH, $rI, $rT))
  [acks] ensures nothing: n != nil && !decoded ==> len(res) == 0 && (!skips(n, cw) ==> len(lastAck(n).txs) == 0)
  [acks] ensures clean: n != nil && decoded ==> clean(n.Decoder) && n.currentBlockReceived
  [acks] ensures continues: n != nil && !decoded && !skips(n, cw) ==> !n.currentBlockReceived && len(n.Decoder.cs) == $ncs

// ----- the sender's other entry points: every way into a block goes through the buffer
assume a sender produces fewer than 2^62 coded symbols in one block
define sndOK(n) = n.Encoder != nil && schedOK(n) && wok(n.Encoder) && apart(n)
define movedBlock(n) = located($inv, $bp, $wp, old(len(n.buffer)), len(n.buffer), len(n.Encoder.symbols)) && kept(n, $bp) && moved(n, $wp)
define startsBlock(n, cw) = cw.newBlock && cw.startHash == old(curShard(n)) * ssize(nsh(n)) && cw.endHash == ite(old(curShard(n)) + 1 == nsh(n), 0, old(curShard(n)) + 1) * ssize(nsh(n))
lemma copied_base(A (Array Int Int), o int, P (Array Int Int), n int, A0 (Array Int Int), A1 (Array Int Int), o0 int)
  requires copied(A, o, P, n, A0, o0) && (n <= 0 || A1 == A0)
  ensures copied(A, o, P, n, A1, o0)
  noaxiom
lemma located_len(I (Array Int Int), B (Array Int Int), W (Array Int Int), n int, nb int, nw int)
  requires located(I, B, W, n, nb, nw) && n <= 0
  ensures nb <= 0 && nw <= 0
  noaxiom
func sender.tryFillSendWindow(n)
  nilable
  hide inverse shards queuedefs queue mapping
  requires n != nil ==> sndOK(n) && n.Encoder.nextIdx < maxidx() - 3 && off(n.outbox) == 0
  modifies n.buffer, n.buffer[*], n.nextShard, n.encodingCurrentBlock, n.sendWindow, n.currentBlockAckCount, n.inFlight, n.outbox, n.outbox[*]
  modifies n.Encoder.symbols, n.Encoder.mappings, n.Encoder.queue, n.Encoder.nextIdx, n.Encoder.symbols[*], n.Encoder.mappings[*], n.Encoder.queue[*]
  modifies $bp, $wp, $inv, $tc, $from, $to, $blocks, $madeSum, $madeCount
  noterm
  grant tryProduceCodeword: n != nil ==> n.Encoder.nextIdx < maxidx() - 3
  [shards] after tryProduceCodeword: located_len($inv, $bp, $wp, pre(len(n.buffer)), len(n.buffer), len(n.Encoder.symbols))
  [shards] after tryProduceCodeword: copied_base(bH(n), off(n.buffer), $bp, len(n.buffer), pre(bH(n)), old(bH(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_base(sH(n.Encoder), 0, $wp, len(n.Encoder.symbols), pre(bH(n)), old(bH(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_same(pre(bH(n)), bH(n), off(n.buffer), $bp, len(n.buffer), old(bH(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_same(pre(sH(n.Encoder)), sH(n.Encoder), 0, $wp, len(n.Encoder.symbols), old(bH(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_base(bI(n), off(n.buffer), $bp, len(n.buffer), pre(bI(n)), old(bI(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_base(sI(n.Encoder), 0, $wp, len(n.Encoder.symbols), pre(bI(n)), old(bI(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_same(pre(bI(n)), bI(n), off(n.buffer), $bp, len(n.buffer), old(bI(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_same(pre(sI(n.Encoder)), sI(n.Encoder), 0, $wp, len(n.Encoder.symbols), old(bI(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_base(bT(n), off(n.buffer), $bp, len(n.buffer), pre(bT(n)), old(bT(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_base(sT(n.Encoder), 0, $wp, len(n.Encoder.symbols), pre(bT(n)), old(bT(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_same(pre(bT(n)), bT(n), off(n.buffer), $bp, len(n.buffer), old(bT(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: copied_same(pre(sT(n.Encoder)), sT(n.Encoder), 0, $wp, len(n.Encoder.symbols), old(bT(n)), old(off(n.buffer)))
  [shards] after tryProduceCodeword: $blocks != old($blocks) ==> movedBlock(n)
  grant ProduceNextCodedSymbol: n.Encoder.nextIdx < maxidx() - 3
  loop 1
    invariant n != nil
    invariant n.Encoder == old(n.Encoder) && sndOK(n) && n.Encoder.nextIdx < maxidx() - 3
    invariant sameOrFresh(n)
    invariant arr(n.buffer) == old(arr(n.buffer))
    invariant arr(n.outbox) == old(arr(n.outbox)) || fresh(n.outbox)
    invariant off(n.outbox) == 0
    invariant len(n.outbox) >= old(len(n.outbox))
    invariant $blocks >= old($blocks) && ($blocks == old($blocks) ==> (n.encodingCurrentBlock <==> old(n.encodingCurrentBlock)))
    invariant $blocks != old($blocks) ==> $blocks == old($blocks) + 1 && n.encodingCurrentBlock && !old(n.encodingCurrentBlock)
    invariant len(n.outbox) > old(len(n.outbox)) ==> n.encodingCurrentBlock
    [acks] invariant inFlight: n.inFlight == ite($blocks == old($blocks), old(n.inFlight), 0) + len(n.outbox) - old(len(n.outbox))
    [acks] invariant symbols: n.Encoder.nextIdx == ite($blocks == old($blocks), old(n.Encoder.nextIdx), 0) + len(n.outbox) - old(len(n.outbox))
    [acks] invariant window: $blocks == old($blocks) ==> n.sendWindow == old(n.sendWindow) && n.currentBlockAckCount == old(n.currentBlockAckCount)
    [acks] invariant newWindow: $blocks != old($blocks) ==> n.sendWindow >= real(1) && n.currentBlockAckCount == 0
    [shards] invariant inTurn: $blocks != old($blocks) ==> n.nextShard == ite(old(n.nextShard) + 1 == nsh(n), 0, old(n.nextShard) + 1)
    [shards] invariant moved: $blocks != old($blocks) ==> movedBlock(n)
    invariant first: $blocks != old($blocks) ==> len(n.outbox) > old(len(n.outbox)) && is(n.outbox[old(len(n.outbox))], "newsim.codeword")
    [shards] invariant announced: $blocks != old($blocks) ==> let cw := as(n.outbox[old(len(n.outbox))], "newsim.codeword") :: startsBlock(n, cw)
    invariant same: $blocks == old($blocks) ==> n.nextShard == old(n.nextShard) && n.buffer == old(n.buffer) && n.Encoder.symbols == old(n.Encoder.symbols)
    invariant rows: $blocks == old($blocks) && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
    invariant kept: forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
    back kept: forall j in head(n.outbox) :: n.outbox[j] == head(n.outbox[j])
    back headOnly: head(len(n.outbox)) > old(len(n.outbox)) ==> $blocks == head($blocks)
    back word: is(n.outbox[head(len(n.outbox))], "newsim.codeword") && (as(n.outbox[head(len(n.outbox))], "newsim.codeword").newBlock <==> $blocks != head($blocks))
    back rest: forall j in n.outbox :: j > head(len(n.outbox)) ==> is(n.outbox[j], "newsim.codeword") && !as(n.outbox[j], "newsim.codeword").newBlock
    invariant codewords: forall j in n.outbox :: j > old(len(n.outbox)) ==> is(n.outbox[j], "newsim.codeword")
    invariant onlyFirst: forall j in n.outbox :: j > old(len(n.outbox)) ==> !as(n.outbox[j], "newsim.codeword").newBlock
  end
  loop 2
    invariant n.Encoder == old(n.Encoder) && sndOK(n) && n.Encoder.nextIdx < maxidx() - 3
    invariant sameOrFresh(n)
    invariant arr(n.outbox) == old(arr(n.outbox)) || fresh(n.outbox)
    invariant off(n.outbox) == 0
    invariant len(n.outbox) >= pre(len(n.outbox))
    [acks] invariant counted: n.inFlight == pre(n.inFlight) + len(n.outbox) - pre(len(n.outbox))
    [acks] invariant produced: n.Encoder.nextIdx == pre(n.Encoder.nextIdx) + len(n.outbox) - pre(len(n.outbox))
    invariant kept: forall j in pre(n.outbox) :: n.outbox[j] == pre(n.outbox[j])
    invariant notNew: forall j in n.outbox :: j >= pre(len(n.outbox)) ==> is(n.outbox[j], "newsim.codeword") && !as(n.outbox[j], "newsim.codeword").newBlock
  end
  ensures state: n != nil ==> sndOK(n) && off(n.outbox) == 0
  ensures oneBlock: n != nil ==> $blocks == old($blocks) + ite(old(n.encodingCurrentBlock), 0, 1)
  [shards] ensures moved: n != nil && $blocks != old($blocks) ==> movedBlock(n)
  [shards] ensures inTurn: n != nil && $blocks != old($blocks) ==> n.nextShard == ite(old(n.nextShard) + 1 == nsh(n), 0, old(n.nextShard) + 1)
  ensures announced: n != nil && $blocks != old($blocks) ==> len(n.outbox) > old(len(n.outbox)) && is(n.outbox[old(len(n.outbox))], "newsim.codeword")
     [shards] && (let cw := as(n.outbox[old(len(n.outbox))], "newsim.codeword") :: startsBlock(n, cw))
  ensures onlyFirst: n != nil ==> forall j in n.outbox :: j > old(len(n.outbox)) ==> is(n.outbox[j], "newsim.codeword") && !as(n.outbox[j], "newsim.codeword").newBlock
  ensures same: n != nil && $blocks == old($blocks) ==> n.nextShard == old(n.nextShard) && n.buffer == old(n.buffer) && n.Encoder.symbols == old(n.Encoder.symbols)
  ensures rows: n != nil && $blocks == old($blocks) && len(n.buffer) > 0 ==> bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n))
  [acks] ensures inFlight: n != nil ==> n.inFlight == ite(old(n.encodingCurrentBlock), old(n.inFlight), 0) + len(n.outbox) - old(len(n.outbox))
  [acks] ensures symbols: n != nil ==> n.Encoder.nextIdx == ite(old(n.encodingCurrentBlock), old(n.Encoder.nextIdx), 0) + len(n.outbox) - old(len(n.outbox))
  [acks] ensures filled: n != nil ==> n.encodingCurrentBlock && real(n.inFlight) >= n.sendWindow
  [acks] ensures window: n != nil && old(n.encodingCurrentBlock) ==> n.sendWindow == old(n.sendWindow) && n.currentBlockAckCount == old(n.currentBlockAckCount)
  [acks] ensures newWindow: n != nil && !old(n.encodingCurrentBlock) ==> n.sendWindow >= real(1) && n.currentBlockAckCount == 0
  [acks] ensures earlier: n != nil ==> forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])


include newsim_tx.inc
define appended(n, tx) = len(n.buffer) == old(len(n.buffer)) + 1 && txEq(n.buffer[old(len(n.buffer))], tx) && (forall i in old(n.buffer) :: let v := old(n.buffer[i]) :: txEq(n.buffer[i], v))
func sender.onTransaction(n, tx)
  nilable
  hide inverse shards queuedefs queue mapping
  requires n != nil ==> sndOK(n) && n.Encoder.nextIdx < maxidx() - 3 && off(n.outbox) == 0
  modifies n.buffer, n.buffer[*], n.nextShard, n.encodingCurrentBlock, n.sendWindow, n.currentBlockAckCount, n.inFlight, n.outbox, n.outbox[*]
  modifies n.Encoder.symbols, n.Encoder.mappings, n.Encoder.queue, n.Encoder.nextIdx, n.Encoder.symbols[*], n.Encoder.mappings[*], n.Encoder.queue[*]
  modifies $bp, $wp, $inv, $tc, $from, $to, $blocks, $madeSum, $madeCount
  before tryFillSendWindow: appended(n, tx)
  before tryFillSendWindow: n.nextShard == old(n.nextShard) && (n.encodingCurrentBlock <==> old(n.encodingCurrentBlock)) && n.Encoder.symbols == old(n.Encoder.symbols) && n.outbox == old(n.outbox)
  ensures state: n != nil ==> sndOK(n) && off(n.outbox) == 0
  ensures buffered: n != nil && $blocks == old($blocks) ==> appended(n, tx)
  ensures oneBlock: n != nil ==> $blocks == old($blocks) + ite(old(n.encodingCurrentBlock), 0, 1)

define counts(n, ack) = ack.ackStart || (old(n.receivingCurrentBlock) && !ack.ackBlock)
func sender.onAck(n, ack) res
  nilable
  hide inverse shards queuedefs queue mapping
  requires n != nil ==> sndOK(n) && n.Encoder.nextIdx < maxidx() - 3 && off(n.outbox) == 0
  modifies n.buffer, n.buffer[*], n.nextShard, n.encodingCurrentBlock, n.sendWindow, n.currentBlockAckCount, n.inFlight, n.outbox, n.outbox[*], n.receivingCurrentBlock
  modifies n.Encoder.symbols, n.Encoder.mappings, n.Encoder.queue, n.Encoder.nextIdx, n.Encoder.symbols[*], n.Encoder.mappings[*], n.Encoder.queue[*]
  modifies $bp, $wp, $inv, $tc, $from, $to, $blocks, $madeSum, $madeCount
  before tryFillSendWindow: n.nextShard == old(n.nextShard) && n.buffer == old(n.buffer) && n.Encoder.symbols == old(n.Encoder.symbols) && n.outbox == old(n.outbox)
  before tryFillSendWindow: bH(n) == old(bH(n)) && bI(n) == old(bI(n)) && bT(n) == old(bT(n)) && (n.encodingCurrentBlock <==> old(n.encodingCurrentBlock) && !ack.ackBlock)
  ensures state: n != nil ==> sndOK(n) && off(n.outbox) == 0
  ensures oneBlock: n != nil ==> $blocks == old($blocks) + ite(old(n.encodingCurrentBlock) && !ack.ackBlock, 0, 1)
  [acks] before tryFillSendWindow: n.inFlight == old(n.inFlight) - ite(counts(n, ack), 1, 0) && n.currentBlockAckCount == ite(ack.ackStart, 0, old(n.currentBlockAckCount)) + ite(counts(n, ack), 1, 0) && (n.receivingCurrentBlock <==> counts(n, ack))
  [acks] before tryFillSendWindow: n.sendWindow == ite(counts(n, ack), ite(old(n.sendWindow) + n.controlOverhead < real(1), real(1), old(n.sendWindow) + n.controlOverhead), old(n.sendWindow))
  [acks] ensures handedUp: n != nil ==> res == ack.txs
  [acks] ensures none: n == nil ==> len(res) == 0
  [acks] ensures inFlight: n != nil ==> n.inFlight == ite(old(n.encodingCurrentBlock) && !ack.ackBlock, old(n.inFlight) - ite(counts(n, ack), 1, 0), 0) + len(n.outbox) - old(len(n.outbox))
  [acks] ensures earlier: n != nil ==> forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])

func receiver.onTransaction(n, tx)
  nilable
  requires n != nil ==> rcvOK(n)
  modifies n.buffer, n.buffer[*]
  ensures state: n != nil ==> rcvOK(n)
  ensures buffered: n != nil ==> appended(n, tx)

// both ends of a link agree on the shards
extern math/rand Rand.Uint64(r) v
  requires r != nil
  modifies
extern math/rand Rand.Perm(r, n) p
  requires r != nil && n >= 0
  modifies
  ensures fresh(p) && len(p) == n
  ensures forall i in p :: 0 <= p[i] && p[i] < n
  ensures forall i in p :: forall j in p :: i != j ==> p[i] != p[j]
func connectCodingServers(a, b, delay, config)
  requires a != nil && b != nil && a != b && a.handlers != 0 && b.handlers != 0 && a.handlers != b.handlers && config.numShards >= 1 && global("newsim.RNG") != 0
  ensures ends: dom(a.handlers)[iface(b)] && dom(b.handlers)[iface(a)] && is(vals(a.handlers, "algorithm")[iface(b)], "newsim.coding") && is(vals(b.handlers, "algorithm")[iface(a)], "newsim.coding")
  [shards] ensures agree: let s := as(vals(a.handlers, "algorithm")[iface(b)], "newsim.coding").sender :: let r := as(vals(b.handlers, "algorithm")[iface(a)], "newsim.coding").receiver ::
     [shards] s != nil && r != nil && s.shardRandomizer == r.shardRandomizer && r.Decoder != nil
  ensures ready: let s := as(vals(a.handlers, "algorithm")[iface(b)], "newsim.coding").sender :: s != nil && sndOK(s) && s.Encoder.nextIdx == 0 && off(s.outbox) == 0 && s.nextShard == 0 && nsh(s) == config.numShards && !s.encodingCurrentBlock && len(s.buffer) == 0 && s.numShards == config.numShards
  [shards] ensures permutation: let s := as(vals(a.handlers, "algorithm")[iface(b)], "newsim.coding").sender :: forall i in s.shardSchedule :: forall j in s.shardSchedule :: i != j ==> s.shardSchedule[i] != s.shardSchedule[j]
