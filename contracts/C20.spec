// C20: fountain-code simulator: blocks, acknowledgements, rate limit
load simulator lt
logic flt_div(Flt, Flt) Flt
logic flt_mul(Flt, Flt) Flt
logic i2f(int) Flt
logic f2i_int(Flt) int
// ---- the codecs as the simulator uses them
assume the lt contracts used here only say which objects a call may touch; what the calls compute is C07 to C11
package lt
// the encoder's input since its last reset: number of transactions offered, their identities (hash slices), which were accepted
ghostvar $ws : Int
ghostvar $noff : Int
ghostvar $off : (Array Int Int)
ghostvar $nacc : Int
ghostvar $acc : (Array Int Int)
ghostvar $resets : Int
ghostvar $made : Int
// how often each sender was given a transaction, and the last call
ghostvar $given : (Array Int Int)
ghostvar $fills : (Array Int Int)
ghostvar $acked : (Array Int Int)
ghostvar $heard : (Array Int Int)
func Encoder.Reset(e, dist, ws)
  trusted
  modifies $ws, $noff, $nacc, $resets
  ensures $ws == ws && $noff == 0 && $nacc == 0 && $resets == old($resets) + 1
func Encoder.AddTransaction(e, t) r
  trusted
  modifies $noff, $off, $nacc, $acc
  ensures $noff == old($noff) + 1 && $off == upd(old($off), old($noff), arr(t.hash))
  ensures r ==> $nacc == old($nacc) + 1 && $acc == upd(old($acc), old($nacc), old($noff))
  ensures !r ==> $nacc == old($nacc) && $acc == old($acc)
func Encoder.ProduceCodeword(e) c
  trusted
  modifies $made
  ensures $made == old($made) + 1
func Decoder.AddCodeword(p, c) stub, txs
  trusted
  modifies all("lt.PendingCodeword"), $fed
  ensures stub != 0 && $fed == old($fed) + 1 && arr(txs) == $txsArr && off(txs) == $txsOff && len(txs) == $txsLen
ghostvar $fed : Int
ghostvar $txsArr : Int
ghostvar $txsOff : Int
ghostvar $txsLen : Int
func Decoder.AddTransaction(p, t) txs
  trusted
  modifies all("lt.PendingCodeword")
func NewTransaction(d) t
  trusted
  modifies
  ensures t.data == d
extern math/rand Rand.ExpFloat64(r) f
  nilable
extern github.com/yangl1996/soliton NewRobustSoliton(r, k, c, d) s
  ensures fresh(s)
package simulator
define apart(n) = arr(n.currentBlock) == 0 || arr(n.currentBlock) != arr(n.buffer)
define minBlock(n) = f2i_int(flt_div(i2f(n.detectThreshold), n.controlOverhead))
func sender.tryProduceCodeword(n, may) cw, yes
  requires n.Encoder != 0 && apart(n)
  modifies n.sendWindow, n.encodingCurrentBlock, n.currentBlock, n.currentBlock[*], n.buffer, $ws, $noff, $off, $nacc, $acc, $resets, $made
  loop 1
    invariant $noff == $k && $k <= len(n.buffer) && n.buffer == old(n.buffer)
    invariant 0 <= $nacc && $nacc <= $k && len(n.currentBlock) == $nacc
    invariant $ws == old(len(n.buffer)) && $resets == old($resets) + 1 && $made == old($made)
    invariant arr(n.currentBlock) == old(arr(n.currentBlock)) || fresh(n.currentBlock)
    invariant apart(n)
    invariant forall j in n.buffer :: n.buffer[j] == old(n.buffer[j])
    invariant forall j int {$off[j]} :: 0 <= j && j < $k ==> $off[j] == old(arr(n.buffer[j].hash))
    invariant forall j int {$acc[j]} :: 0 <= j && j < $nacc ==> 0 <= $acc[j] && $acc[j] < $k
    invariant forall j in n.currentBlock :: let p := $acc[j] :: n.currentBlock[j] == old(n.buffer[p])
  end
  ensures newBlockOnlyWhen: cw.newBlock <==> may && !old(n.encodingCurrentBlock) && old(len(n.buffer)) >= minBlock(n)
  ensures produced: yes <==> old(n.encodingCurrentBlock) || cw.newBlock
  ensures encoding: n.encodingCurrentBlock <==> old(n.encodingCurrentBlock) || cw.newBlock
  ensures elements: !cw.newBlock ==> (forall j in n.buffer :: n.buffer[j] == old(n.buffer[j]))
  ensures oneCodeword: $made == old($made) + ite(yes, 1, 0)
  ensures emptied: len(n.buffer) == ite(cw.newBlock, 0, old(len(n.buffer)))
  ensures kept: !cw.newBlock ==> n.buffer == old(n.buffer) && n.sendWindow == old(n.sendWindow) && $resets == old($resets) && $noff == old($noff) && $off == old($off) && $ws == old($ws)
  ensures wholeBuffer: cw.newBlock ==> $resets == old($resets) + 1 && $ws >= old(len(n.buffer)) && $noff == old(len(n.buffer)) && (forall j int {$off[j]} :: 0 <= j && j < $noff ==> $off[j] == old(arr(n.buffer[j].hash)))
  ensures block: cw.newBlock ==> len(n.currentBlock) == $nacc && (forall j in n.currentBlock :: let p := $acc[j] :: n.currentBlock[j] == old(n.buffer[p]))
  ensures apart: apart(n)
  ensures arrays: (arr(n.buffer) == old(arr(n.buffer))) && (arr(n.currentBlock) == old(arr(n.currentBlock)) || fresh(n.currentBlock))

// either no block was started, or one was, with exactly the transactions buffered before
define noBlock(n) = $resets == old($resets) ==> n.buffer == old(n.buffer) && (forall j in n.buffer :: n.buffer[j] == old(n.buffer[j]))
define tookBlock(n, may) = $resets != old($resets) ==> $resets == old($resets) + 1 && !old(n.encodingCurrentBlock) && may && old(len(n.buffer)) >= minBlock(n) && len(n.buffer) == 0
define offered(n) = $resets != old($resets) ==> $ws >= old(len(n.buffer)) && $noff == old(len(n.buffer)) && (forall j int {$off[j]} :: 0 <= j && j < $noff ==> $off[j] == old(arr(n.buffer[j].hash)))
func sender.tryFillSendWindow(n, may)
  requires n.Encoder != 0 && apart(n)
  modifies $fills
  ghost $fills := upd(old($fills), ref(n), old($fills)[ref(n)] + 1)
  ensures calls: $fills == upd(old($fills), ref(n), old($fills)[ref(n)] + 1)
  modifies n.sendWindow, n.encodingCurrentBlock, n.currentBlock, n.currentBlock[*], n.buffer, n.inFlight, n.outbox, n.outbox[*], $ws, $noff, $off, $nacc, $acc, $resets, $made
  noterm
  loop 1
    invariant apart(n) && n.Encoder == old(n.Encoder)
    invariant arr(n.currentBlock) == old(arr(n.currentBlock)) || fresh(n.currentBlock)
    invariant arr(n.outbox) == old(arr(n.outbox)) || fresh(n.outbox)
    invariant arr(n.buffer) == old(arr(n.buffer))
    invariant queued: len(n.outbox) - old(len(n.outbox)) == $made - old($made) && $made >= old($made)
    invariant inFlight: n.inFlight - old(n.inFlight) == $made - old($made)
    invariant oneBlock: tookBlock(n, may)
    invariant noBlock(n)
    invariant offered(n)
    invariant n.encodingCurrentBlock <==> old(n.encodingCurrentBlock) || $resets != old($resets)
    invariant kept: forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
    invariant codewords: forall j in n.outbox :: j >= old(len(n.outbox)) ==> is(n.outbox[j], "simulator.codeword")
  end
  before tryProduceCodeword: n.inFlight < n.sendWindow
  ensures queued: len(n.outbox) - old(len(n.outbox)) == $made - old($made)
  ensures inFlight: n.inFlight - old(n.inFlight) == $made - old($made)
  ensures oneBlock: tookBlock(n, may)
  ensures noBlock: noBlock(n)
  ensures wholeBuffer: offered(n)
  ensures bufferArray: arr(n.buffer) == old(arr(n.buffer))
  ensures blockArray: arr(n.currentBlock) == old(arr(n.currentBlock)) || fresh(n.currentBlock)
  ensures encoding: n.encodingCurrentBlock <==> old(n.encodingCurrentBlock) || $resets != old($resets)
  ensures filled: n.inFlight >= n.sendWindow || !n.encodingCurrentBlock && !(may && len(n.buffer) >= minBlock(n))
  ensures kept: forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
  ensures codewords: forall j in n.outbox :: j >= old(len(n.outbox)) ==> is(n.outbox[j], "simulator.codeword")
  ensures apart: apart(n)

func sender.onAck(n, ack, may)
  requires n.Encoder != 0 && apart(n)
  modifies $fills, $acked
  ghost $acked := upd(old($acked), ref(n), old($acked)[ref(n)] + 1)
  ensures calls: $acked == upd(old($acked), ref(n), old($acked)[ref(n)] + 1)
  modifies n.sendWindow, n.encodingCurrentBlock, n.currentBlock, n.currentBlock[*], n.buffer, n.inFlight, n.outbox, n.outbox[*], $ws, $noff, $off, $nacc, $acc, $resets, $made
  ensures inFlight: n.inFlight - old(n.inFlight) == $made - old($made) - 1
  ensures queued: len(n.outbox) - old(len(n.outbox)) == $made - old($made)
  ensures blockOnlyAfterAck: $resets != old($resets) ==> $resets == old($resets) + 1 && (ack.ackBlock || !old(n.encodingCurrentBlock)) && may && old(len(n.buffer)) >= minBlock(n)
  ensures wholeBuffer: $resets != old($resets) ==> len(n.buffer) == 0 && $noff == old(len(n.buffer)) && (forall j int {$off[j]} :: 0 <= j && j < $noff ==> $off[j] == old(arr(n.buffer[j].hash)))
  ensures bufferKept: $resets == old($resets) ==> n.buffer == old(n.buffer) && (forall j in n.buffer :: n.buffer[j] == old(n.buffer[j]))
  ensures encoding: n.encodingCurrentBlock <==> old(n.encodingCurrentBlock) && !ack.ackBlock || $resets != old($resets)
  ensures filled: n.inFlight >= n.sendWindow || !n.encodingCurrentBlock && !(may && len(n.buffer) >= minBlock(n))
  ensures kept: forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
  ensures codewords: forall j in n.outbox :: j >= old(len(n.outbox)) ==> is(n.outbox[j], "simulator.codeword")
  ensures apart: apart(n)
func sender.onTransaction(n, tx, may)
  requires n.Encoder != 0 && apart(n)
  modifies $fills, $given
  ghost $given := upd(old($given), ref(n), old($given)[ref(n)] + 1)
  ensures calls: $given == upd(old($given), ref(n), old($given)[ref(n)] + 1)
  modifies n.sendWindow, n.encodingCurrentBlock, n.currentBlock, n.currentBlock[*], n.buffer, n.buffer[*], n.inFlight, n.outbox, n.outbox[*], $ws, $noff, $off, $nacc, $acc, $resets, $made
  ensures inFlight: n.inFlight - old(n.inFlight) == $made - old($made)
  ensures queued: len(n.outbox) - old(len(n.outbox)) == $made - old($made)
  ensures block: $resets != old($resets) ==> $resets == old($resets) + 1 && !old(n.encodingCurrentBlock) && may && old(len(n.buffer)) + 1 >= minBlock(n)
  ensures wholeBuffer: $resets != old($resets) ==> len(n.buffer) == 0 && $noff == old(len(n.buffer)) + 1 && $off[old(len(n.buffer))] == arr(tx.hash) && (forall j int {$off[j]} :: 0 <= j && j < $noff - 1 ==> $off[j] == old(arr(n.buffer[j].hash)))
  ensures appended: $resets == old($resets) ==> len(n.buffer) == old(len(n.buffer)) + 1 && n.buffer[old(len(n.buffer))] == tx && (forall j in old(n.buffer) :: n.buffer[j] == old(n.buffer[j]))
  ensures encoding: n.encodingCurrentBlock <==> old(n.encodingCurrentBlock) || $resets != old($resets)
  ensures filled: n.inFlight >= n.sendWindow || !n.encodingCurrentBlock && !(may && len(n.buffer) >= minBlock(n))
  ensures kept: forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
  ensures codewords: forall j in n.outbox :: j >= old(len(n.outbox)) ==> is(n.outbox[j], "simulator.codeword")
  ensures apart: apart(n)

// ---- receiver
smt undecoded
  // undecoded codewords among the first n of a slice
  (declare-fun nundec ((Array Int Bool) (Array Int Int) Int Int) Int)
  (assert (forall ((D (Array Int Bool)) (S (Array Int Int)) (o Int) (n Int)) (! (= (nundec D S o n) (ite (<= n 0) 0 (+ (nundec D S o (- n 1)) (ite (select D (select S (+ o (- n 1)))) 0 1)))) :pattern ((nundec D S o n)))))
define decoded() = heapof("lt.PendingCodeword[simulator.transaction]", "decoded")
define waiting(n) = nundec(decoded(), elems(n.curCodewords, ""), off(n.curCodewords), len(n.curCodewords))
define lossTarget(n) = f2i_int(flt_mul(i2f(len(n.curCodewords)), n.targetCodewordLoss))
define stubs(n) = forall j in n.curCodewords :: n.curCodewords[j] != 0
func receiver.onCodeword(n, cw) txs
  requires n.Decoder != 0 && stubs(n)
  modifies $heard
  ghost $heard := upd(old($heard), ref(n), old($heard)[ref(n)] + 1)
  ensures calls: $heard == upd(old($heard), ref(n), old($heard)[ref(n)] + 1)
  modifies n.curCodewords, n.curCodewords[*], n.currentBlockReceived, n.outbox, n.outbox[*], all("lt.PendingCodeword"), $fed
  local notDecoded int
  loop 1
    invariant notDecoded == nundec(decoded(), elems(n.curCodewords, ""), off(n.curCodewords), $k) && stubs(n)
  end
  ensures fed: $fed == old($fed) + 1 && arr(txs) == $txsArr && off(txs) == $txsOff && len(txs) == $txsLen
  ensures stubs: stubs(n)
  ensures block: len(n.curCodewords) == ite(cw.newBlock, 0, old(len(n.curCodewords))) + 1
  ensures oneAck: len(n.outbox) == old(len(n.outbox)) + 1 && is(n.outbox[old(len(n.outbox))], "simulator.ack")
  ensures ackBlock: let a := as(n.outbox[old(len(n.outbox))], "simulator.ack") :: a.ackBlock <==> (cw.newBlock || !old(n.currentBlockReceived)) && len(n.curCodewords) > n.receiverConfig.detectThreshold && waiting(n) <= lossTarget(n)
  ensures received: n.currentBlockReceived <==> !cw.newBlock && old(n.currentBlockReceived) || as(n.outbox[old(len(n.outbox))], "simulator.ack").ackBlock
  ensures kept: forall j in old(n.outbox) :: n.outbox[j] == old(n.outbox[j])
// ---- rate limiter
func server.scheduleForwardingTransactions(s, out, txs, ts) r
  requires s.forwardRateLimiter.minInterval >= 0
  modifies s.forwardRateLimiter.lastScheduled, out[*]
  local nextSlot time.Duration
  local out []des.OutgoingMessage
  loop 1
    invariant len(out) == old(len(out)) + $k && (arr(out) == old(arr(out)) || fresh(out))
    invariant s.forwardRateLimiter.minInterval == old(s.forwardRateLimiter.minInterval)
    invariant nextSlot >= ts && nextSlot >= old(s.forwardRateLimiter.lastScheduled) + s.forwardRateLimiter.minInterval
    invariant $k > 0 ==> nextSlot == s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval && s.forwardRateLimiter.lastScheduled == ts + out[old(len(out)) + $k - 1].Delay
    invariant $k == 0 ==> s.forwardRateLimiter.lastScheduled == old(s.forwardRateLimiter.lastScheduled)
    invariant forall j in old(out) :: out[j] == old(out[j])
    invariant inOrder: forall j in out :: j >= old(len(out)) ==> out[j].To == nil && is(out[j].Payload, "simulator.loopback") && as(out[j].Payload, "simulator.loopback").tx == txs[j - old(len(out))]
    invariant notPast: forall j in out :: j >= old(len(out)) ==> out[j].Delay >= 0 && ts + out[j].Delay >= old(s.forwardRateLimiter.lastScheduled) + s.forwardRateLimiter.minInterval
    invariant spaced: forall j in out :: j > old(len(out)) ==> out[j].Delay - out[j - 1].Delay >= s.forwardRateLimiter.minInterval
  end
  ensures all: len(r) == old(len(out)) + len(txs)
  ensures kept: forall j in old(out) :: r[j] == old(out[j])
  ensures inOrder: forall j in r :: j >= old(len(out)) ==> r[j].To == nil && is(r[j].Payload, "simulator.loopback") && as(r[j].Payload, "simulator.loopback").tx == txs[j - old(len(out))]
  ensures notPast: forall j in r :: j >= old(len(out)) ==> r[j].Delay >= 0 && ts + r[j].Delay >= old(s.forwardRateLimiter.lastScheduled) + s.forwardRateLimiter.minInterval
  ensures spaced: forall j in r :: j > old(len(out)) ==> r[j].Delay - r[j - 1].Delay >= s.forwardRateLimiter.minInterval
  ensures remembered: s.forwardRateLimiter.lastScheduled == ite(len(txs) == 0, old(s.forwardRateLimiter.lastScheduled), ts + r[len(r) - 1].Delay)
// ---- server: every queued message leaves, once, for the peer it was queued for
define hnd(s) = vals(s.handlers, "handler")
define HD(r) = at(r, "*simulator.handler")
define links(s) = s.handlers != 0 && (forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> hnd(s)[k] != 0 && HD(hnd(s)[k]).sender != 0 && HD(hnd(s)[k]).receiver != 0)
func server.collectOutgoingMessages(s, outbox) r
  requires links(s)
  modifies all("simulator.sender", "outbox"), all("simulator.receiver", "outbox"), outbox[*]
  local outbox []des.OutgoingMessage
  local peer des.Module
  loop 1
    invariant links(s) && len(outbox) >= old(len(outbox)) && (arr(outbox) == old(arr(outbox)) || fresh(outbox))
    invariant kept: forall j in old(outbox) :: outbox[j] == old(outbox[j])
    invariant emptied: forall k Iface {$visited[k]} :: $visited[k] ==> len(HD(hnd(s)[k]).sender.outbox) == 0 && len(HD(hnd(s)[k]).receiver.outbox) == 0
    invariant addressed: forall j in outbox :: j >= old(len(outbox)) ==> dom(s.handlers)[outbox[j].To] && outbox[j].Delay == vals(s.handlers, "delay")[outbox[j].To]
    back sent: let p := peer :: len(outbox) == head(len(outbox)) + head(len(HD(hnd(s)[p]).sender.outbox)) + head(len(HD(hnd(s)[p]).receiver.outbox))
    back fromSender: let p := peer :: let h := head(len(outbox)) :: forall j in outbox :: h <= j && j < h + head(len(HD(hnd(s)[p]).sender.outbox)) ==> outbox[j].To == p && outbox[j].Payload == head(HD(hnd(s)[p]).sender.outbox[j - h])
    back fromReceiver: let p := peer :: let h := head(len(outbox)) + head(len(HD(hnd(s)[p]).sender.outbox)) :: forall j in outbox :: h <= j ==> outbox[j].To == p && outbox[j].Payload == head(HD(hnd(s)[p]).receiver.outbox[j - h])
  end
  loop 2
    invariant len(outbox) == pre(len(outbox)) + $k && (arr(outbox) == old(arr(outbox)) || fresh(outbox))
    invariant addressed: forall j in outbox :: j >= old(len(outbox)) ==> dom(s.handlers)[outbox[j].To] && outbox[j].Delay == vals(s.handlers, "delay")[outbox[j].To]
    invariant forall j in pre(outbox) :: outbox[j] == pre(outbox[j])
    invariant forall j in outbox :: j >= pre(len(outbox)) ==> outbox[j].To == peer && outbox[j].Payload == HD(hnd(s)[peer]).sender.outbox[j - pre(len(outbox))] && outbox[j].Delay == vals(s.handlers, "delay")[peer]
  end
  loop 3
    invariant len(outbox) == pre(len(outbox)) + $k && (arr(outbox) == old(arr(outbox)) || fresh(outbox))
    invariant addressed: forall j in outbox :: j >= old(len(outbox)) ==> dom(s.handlers)[outbox[j].To] && outbox[j].Delay == vals(s.handlers, "delay")[outbox[j].To]
    invariant forall j in pre(outbox) :: outbox[j] == pre(outbox[j])
    invariant let p := peer :: let h := outerhead(len(outbox)) :: forall j in outbox :: h <= j && j < pre(len(outbox)) ==> outbox[j].To == p && outbox[j].Payload == outerhead(HD(hnd(s)[p]).sender.outbox[j - h])
    invariant forall j in outbox :: j >= pre(len(outbox)) ==> outbox[j].To == peer && outbox[j].Payload == HD(hnd(s)[peer]).receiver.outbox[j - pre(len(outbox))] && outbox[j].Delay == vals(s.handlers, "delay")[peer]
  end
  ensures all: len(r) >= old(len(outbox))
  ensures kept: forall j in old(outbox) :: r[j] == old(outbox[j])
  ensures keptToo: forall j in r :: j < old(len(outbox)) ==> r[j] == old(outbox[j])
  ensures emptied: forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> len(HD(hnd(s)[k]).sender.outbox) == 0 && len(HD(hnd(s)[k]).receiver.outbox) == 0
  ensures addressed: forall j in r :: j >= old(len(outbox)) ==> dom(s.handlers)[r[j].To] && r[j].Delay == vals(s.handlers, "delay")[r[j].To]

define SND(s, k) = HD(hnd(s)[k]).sender
define RCV(s, k) = HD(hnd(s)[k]).receiver
define ready(s) = links(s) && (forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> SND(s, k).Encoder != 0 && apart(SND(s, k)))
define distinct(s) = forall k Iface, l Iface {dom(s.handlers)[k], dom(s.handlers)[l]} :: dom(s.handlers)[k] && dom(s.handlers)[l] && k != l ==> ref(SND(s, k)) != ref(SND(s, l)) && ref(RCV(s, k)) != ref(RCV(s, l))
func server.forwardTransaction(s, tx)
  requires ready(s) && distinct(s)
  modifies all("simulator.sender"), allelems("lt.Transaction[simulator.transaction]"), allelems("any"), $ws, $noff, $off, $nacc, $acc, $resets, $made, $fills, $given
  loop 1
    invariant ready(s) && distinct(s)
    invariant forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> $given[ref(SND(s, k))] == old($given[ref(SND(s, k))]) + b2i($visited[k])
  end
  before onTransaction: arg1 == tx && (arg2 <==> s.forceSynchronize == 0)
  ensures everyPeerOnce: forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> $given[ref(SND(s, k))] == old($given[ref(SND(s, k))]) + 1
  ensures ready: ready(s) && distinct(s)
func distributionSketch.recordTxLatency(t, tx, tp)
  trusted
  nilable
  modifies
define isNew(m, id, ts) = isLoop(m) && as(m.Payload, "simulator.loopback").tx.data.idx == id && as(m.Payload, "simulator.loopback").tx.data.ts == ts
define isLoop(m) = m.To == nil && is(m.Payload, "simulator.loopback")
func server.HandleMessage(s, payload, from, ts) r
  requires ready(s) && distinct(s) && s.forwardRateLimiter.minInterval >= 0
  requires sender: (is(payload, "simulator.codeword") || is(payload, "simulator.ack")) ==> dom(s.handlers)[from] && RCV(s, from).Decoder != 0 && stubs(RCV(s, from))
  requires set: s.rng != 0 && s.decoder != 0 && s.received != 0 && global("simulator.txgen") != 0
  requires noStatistics: s.overlapSketch == nil
  requires numbers: is(payload, "simulator.blockArrival") ==> global("simulator.txgen").next + as(payload, "simulator.blockArrival").n < 18446744073709551616
  panics true
  local txs []lt.Transaction[transaction]
  before onAck: ref(arg0) == ref(SND(s, from)) && arg1 == as(payload, "simulator.ack") && (arg2 <==> s.forceSynchronize == 0)
  before onCodeword: ref(arg0) == ref(RCV(s, from)) && arg1 == as(payload, "simulator.codeword")
  before forwardTransaction: arg1 == as(payload, "simulator.loopback").tx
  before tryFillSendWindow: arg1
  before scheduleForwardingTransactions: is(payload, "simulator.blockArrival") ==> len(arg1) == 0 && (as(payload, "simulator.blockArrival").n >= 0 ==> len(arg2) == as(payload, "simulator.blockArrival").n) && (forall j in arg2 :: arg2[j].data.idx == old(global("simulator.txgen").next) + j && arg2[j].data.ts == ts)
  after scheduleForwardingTransactions: is(payload, "simulator.blockArrival") ==> len(result) == ite(as(payload, "simulator.blockArrival").n >= 0, as(payload, "simulator.blockArrival").n, 0) && (forall j in result :: isNew(result[j], old(global("simulator.txgen").next) + j, ts))
  before collectOutgoingMessages: is(payload, "simulator.blockArrival") ==> forall j in arg1 :: j < len(arg1) - 1 ==> isNew(arg1[j], old(global("simulator.txgen").next) + j, ts)
  after collectOutgoingMessages: is(payload, "simulator.blockArrival") && as(payload, "simulator.blockArrival").n >= 0 ==> len(result) > as(payload, "simulator.blockArrival").n
  after collectOutgoingMessages: is(payload, "simulator.blockArrival") && as(payload, "simulator.blockArrival").n >= 0 ==> forall j in result :: j < as(payload, "simulator.blockArrival").n ==> isLoop(result[j])
  after collectOutgoingMessages: is(payload, "simulator.blockArrival") && as(payload, "simulator.blockArrival").n >= 0 ==> forall j in result :: j < as(payload, "simulator.blockArrival").n ==> as(result[j].Payload, "simulator.loopback").tx.data.ts == ts
  after collectOutgoingMessages: is(payload, "simulator.blockArrival") && as(payload, "simulator.blockArrival").n >= 0 ==> forall j in result :: j < as(payload, "simulator.blockArrival").n ==> as(result[j].Payload, "simulator.loopback").tx.data.idx == old(global("simulator.txgen").next) + j
  after collectOutgoingMessages: is(payload, "simulator.blockArrival") && as(payload, "simulator.blockArrival").n >= 0 ==> forall j in result :: j < as(payload, "simulator.blockArrival").n ==> isNew(result[j], old(global("simulator.txgen").next) + j, ts)
  before collectOutgoingMessages: is(payload, "simulator.codeword") ==> len(arg1) >= $txsLen
  before collectOutgoingMessages: is(payload, "simulator.codeword") ==> let d := sliceat("lt.Transaction[simulator.transaction]", $txsArr, $txsOff, $txsLen) :: forall j in d :: isLoop(arg1[j])
  before collectOutgoingMessages: is(payload, "simulator.codeword") ==> let d := sliceat("lt.Transaction[simulator.transaction]", $txsArr, $txsOff, $txsLen) :: forall j in d :: as(arg1[j].Payload, "simulator.loopback").tx == d[j]
  loop 1
    noterm
    invariant $k <= as(payload, "simulator.blockArrival").n || $k == 0
    invariant off(txs) == 0 && len(txs) == $k && fresh(txs) && global("simulator.txgen").next == old(global("simulator.txgen").next) + $k
    invariant forall j in txs :: txs[j].data.idx == old(global("simulator.txgen").next) + j && txs[j].data.ts == ts
  end
  loop 2
    invariant ready(s) && distinct(s)
    invariant forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> $fills[ref(SND(s, k))] == old($fills[ref(SND(s, k))]) + b2i($visited[k])
  end
  ensures allSent: forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> len(SND(s, k).outbox) == 0 && len(RCV(s, k).outbox) == 0
  ensures forwarded: is(payload, "simulator.loopback") ==> forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> $given[ref(SND(s, k))] == old($given[ref(SND(s, k))]) + 1
  ensures tick: is(payload, "simulator.createNewBlock") ==> forall k Iface {dom(s.handlers)[k]} :: dom(s.handlers)[k] ==> $fills[ref(SND(s, k))] == old($fills[ref(SND(s, k))]) + 1
  ensures nextTick: is(payload, "simulator.createNewBlock") ==> len(r) > 0 && is(r[0].Payload, "simulator.createNewBlock") && r[0].To == nil && r[0].Delay == s.forceSynchronize
  ensures ackOnce: is(payload, "simulator.ack") ==> $acked == old(upd($acked, ref(SND(s, from)), $acked[ref(SND(s, from))] + 1)) && $heard == old($heard) && $given == old($given)
  ensures codewordOnce: is(payload, "simulator.codeword") ==> $heard == old(upd($heard, ref(RCV(s, from)), $heard[ref(RCV(s, from))] + 1)) && $acked == old($acked) && $given == old($given)
  ensures passedOn: is(payload, "simulator.codeword") ==> len(r) >= $txsLen && (let d := sliceat("lt.Transaction[simulator.transaction]", $txsArr, $txsOff, $txsLen) :: forall j in d :: isLoop(r[j]) && as(r[j].Payload, "simulator.loopback").tx == d[j])
  ensures generated: is(payload, "simulator.blockArrival") && as(payload, "simulator.blockArrival").n >= 0 ==> let n := as(payload, "simulator.blockArrival").n :: len(r) > n && (forall j in r :: j < n ==> isNew(r[j], old(global("simulator.txgen").next) + j, ts))
  ensures counted: is(payload, "simulator.codeword") ==> s.receivedCodewords == old(s.receivedCodewords) + 1
  ensures nothingElse: !is(payload, "simulator.codeword") ==> $heard == old($heard)
  ensures nextArrival: is(payload, "simulator.blockArrival") ==> exists j int {r[j].Payload} :: 0 <= j && j < len(r) && r[j].To == nil && is(r[j].Payload, "simulator.blockArrival")

// ---- building the network
extern lt NewEncoder(r, salt, dist, ws) e
  modifies
  ensures fresh(e)
func server.newHandler(a) h
  modifies
  ensures ends: fresh(h) && fresh(h.sender) && fresh(h.receiver)
  ensures newSender: h.sender.Encoder != 0 && h.sender.inFlight == 0 && !h.sender.encodingCurrentBlock && len(h.sender.buffer) == 0 && len(h.sender.outbox) == 0 && apart(h.sender)
  ensures window: h.sender.sendWindow == a.senderConfig.detectThreshold && h.sender.senderConfig == a.senderConfig
  ensures newReceiver: h.receiver.Decoder == a.decoder && !h.receiver.currentBlockReceived && len(h.receiver.curCodewords) == 0 && len(h.receiver.outbox) == 0 && h.receiver.receiverConfig == a.receiverConfig
define haslink(a, b, delay) = dom(a.handlers)[iface(b)] && vals(a.handlers, "delay")[iface(b)] == delay && hnd(a)[iface(b)] != 0 && HD(hnd(a)[iface(b)]).receiver.Decoder == a.decoder
define otherlinks(a, b) = a.handlers == old(a.handlers) && (forall k Iface {dom(a.handlers)[k]} :: k != iface(b) ==> dom(a.handlers)[k] == old(dom(a.handlers)[k]) && vals(a.handlers, "delay")[k] == old(vals(a.handlers, "delay")[k]) && hnd(a)[k] == old(hnd(a)[k]))
define inUse(s, r) = exists k Iface :: dom(s.handlers)[k] && hnd(s)[k] == r
func connectServers(a, b, delay)
  requires a != nil && b != nil && a != b && a.handlers != 0 && b.handlers != 0 && a.handlers != b.handlers
  requires ready(a) && ready(b) && distinct(a) && distinct(b)
  ensures linked: haslink(a, b, delay) && haslink(b, a, delay) && otherlinks(a, b) && otherlinks(b, a)
  ensures ready: ready(a) && ready(b)
  ensures distinct: distinct(a) && distinct(b)
