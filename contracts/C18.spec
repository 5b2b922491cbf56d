// C18: gossip servers forward each new transaction once and account for all of them
load newsim riblt
logic txhash(int) int
logic flt_div(Flt, Flt) Flt
assume the protocol at the other end of the algorithm interface does not touch the server it serves and does not write to the transaction lists it handed out (the implementations' own contracts are below and in C17 and C19)
assume every peer of a server is listed once, has a handler, and no two peers share one (connectCodingServers and connectPullServers build them so; C19)

package newsim
ghostvar $given : (Array Iface Int)
ghostvar $what : (Array Iface Int)
ghostvar $whash : (Array Iface Int)
ghostvar $queue : (Array Iface Int)
ghostvar $qmsgs : (Array Iface (Array Int Iface))
ghostvar $fwd : (Array Int Int)
ghostvar $excl : (Array Int Iface)
ghostvar $hash : (Array Int Int)
ghostvar $total : Int
ghostvar $handled : Int
ghostvar $res : Int
ghostvar $nres : Int
// each handler: how often it was given a transaction, how many messages are queued in it and which
extern newsim algorithm.forwardTransaction(a, tx)
  modifies $given, $queue, $qmsgs, $what, $whash
  ensures $given == upd(old($given), iface(a), old($given[iface(a)]) + 1)
  ensures $what == upd(old($what), iface(a), tx.Symbol.idx) && $whash == upd(old($whash), iface(a), tx.Hash)
extern newsim algorithm.handleMessage(a, msg) r
  modifies $queue, $qmsgs, $handled, $res, $nres
  ensures $handled == old($handled) + 1
  ensures arr(r) == $res && len(r) == $nres && off(r) == 0
extern newsim algorithm.collectOutgoingMessages(a, peer, delay, outbox) r
  modifies $queue, outbox[*]
  ensures $queue == upd(old($queue), iface(a), 0)
  ensures (arr(r) == arr(outbox) || fresh(r)) && len(r) == len(outbox) + old($queue[iface(a)]) && len(r) >= len(outbox) && off(r) == off(outbox)
  ensures forall j in old(outbox) :: r[j] == old(outbox[j])
  ensures forall j in r :: j >= len(outbox) ==> r[j].To == peer && r[j].Delay == delay && r[j].Payload == old($qmsgs[iface(a)][j - len(outbox)])

smt
  (define-fun there ((x Iface)) Bool (not (= x nil_iface)))
define alg(s, k) = vals(s.handlers, "algorithm")[k]
define linkDelay(s, k) = vals(s.handlers, "delay")[k]
define wired(s) = s.handlers != 0 && (forall i in s.peers :: dom(s.handlers)[iface(s.peers[i])] && s.peers[i] != nil && there(alg(s, iface(s.peers[i]))))
   && (forall i in s.peers :: forall j in s.peers :: i != j ==> s.peers[i] != s.peers[j] && alg(s, iface(s.peers[i])) != alg(s, iface(s.peers[j])))
func server.forwardTransaction(s, tx, exclude)
  requires wired(s)
  modifies $given, $queue, $qmsgs, $what, $whash, $fwd, $total, $excl, $hash
  ghost $excl := upd(old($excl), tx.Symbol.idx, iface(exclude))
  ghost $hash := upd(old($hash), tx.Symbol.idx, tx.Hash)
  ghost $fwd := upd(old($fwd), tx.Symbol.idx, old($fwd[tx.Symbol.idx]) + 1)
  ghost $total := old($total) + 1
  loop 1
    invariant forall i in s.peers :: $given[alg(s, iface(s.peers[i]))] == old($given[alg(s, iface(s.peers[i]))]) + ite(i < $k && s.peers[i] != old(exclude), 1, 0)
    invariant forall i in s.peers :: i < $k && s.peers[i] != old(exclude) ==> $what[alg(s, iface(s.peers[i]))] == old(tx.Symbol.idx) && $whash[alg(s, iface(s.peers[i]))] == old(tx.Hash)
  end
  ensures same: forall i in s.peers :: s.peers[i] != exclude ==> $what[alg(s, iface(s.peers[i]))] == tx.Symbol.idx && $whash[alg(s, iface(s.peers[i]))] == tx.Hash
  ensures everyOther: forall i in s.peers :: $given[alg(s, iface(s.peers[i]))] == old($given[alg(s, iface(s.peers[i]))]) + ite(s.peers[i] != exclude, 1, 0)
  ensures logged: $fwd == upd(old($fwd), tx.Symbol.idx, old($fwd[tx.Symbol.idx]) + 1) && $total == old($total) + 1
  ensures to: $excl == upd(old($excl), tx.Symbol.idx, iface(exclude)) && $hash == upd(old($hash), tx.Symbol.idx, tx.Hash)

func server.collectOutgoingMessages(s, outbox) r
  requires wired(s)
  modifies $queue, outbox[*]
  local outbox []des.OutgoingMessage
  local peer des.Module
  loop 1
    invariant len(outbox) >= old(len(outbox)) && off(outbox) == old(off(outbox)) && (arr(outbox) == old(arr(outbox)) || fresh(outbox))
    invariant kept: forall j in old(outbox) :: outbox[j] == old(outbox[j])
    invariant emptied: forall i in s.peers :: $queue[alg(s, iface(s.peers[i]))] == ite(i < $k, 0, old($queue[alg(s, iface(s.peers[i]))]))
    invariant addressed: forall j in outbox :: j >= old(len(outbox)) ==> dom(s.handlers)[iface(outbox[j].To)] && outbox[j].Delay == linkDelay(s, iface(outbox[j].To))
    back sent: let p := iface(s.peers[$k]) :: len(outbox) == head(len(outbox)) + old($queue[alg(s, p)])
    back right: let p := iface(s.peers[$k]) :: let h := head(len(outbox)) :: forall j in outbox :: j >= h ==> iface(outbox[j].To) == p && outbox[j].Payload == $qmsgs[alg(s, p)][j - h]
  end
  ensures kept: forall j in old(outbox) :: r[j] == old(outbox[j])
  ensures all: len(r) >= old(len(outbox)) && (arr(r) == old(arr(outbox)) || fresh(r)) && off(r) == old(off(outbox))
  ensures emptied: forall i in s.peers :: $queue[alg(s, iface(s.peers[i]))] == 0
  ensures addressed: forall j in r :: j >= old(len(outbox)) ==> dom(s.handlers)[iface(r[j].To)] && r[j].Delay == linkDelay(s, iface(r[j].To))

func distributionSketch.recordTxLatency(t, tx, tp)
  trusted
  nilable
  modifies
extern newsim message.size(m) n
  modifies
extern math/rand Rand.ExpFloat64(r) f
  modifies
define counted(s) = s.receivedTransactions - old(s.receivedTransactions) == s.decodedTransactions - old(s.decodedTransactions) && s.receivedTransactions - old(s.receivedTransactions) == $total - old($total)
define onceEach(s) = forall id int {$fwd[id]} {dom(s.received)[id]} :: $fwd[id] == old($fwd[id]) + ite(dom(s.received)[id] && !old(dom(s.received)[id]), 1, 0)
define notBack(s, x) = forall id int {$excl[id]} {dom(s.received)[id]} :: dom(s.received)[id] && !old(dom(s.received)[id]) ==> $excl[id] == iface(x)
define ownHash(s) = forall id int {$hash[id]} {dom(s.received)[id]} :: dom(s.received)[id] && !old(dom(s.received)[id]) ==> $hash[id] == txhash(id)
define gained(s) = forall id int {dom(s.received)[id]} :: old(dom(s.received)[id]) ==> dom(s.received)[id]
define isBA(payload) = is(payload, "newsim.blockArrival")
define isIB(payload) = is(payload, "newsim.initialBroadcast")
define isFlood(s, m, p) = iface(m.To) == iface(p) && is(m.Payload, "newsim.initialBroadcast") && as(m.Payload, "newsim.initialBroadcast").payload.Symbol.idx == global("newsim.txgen").last && as(m.Payload, "newsim.initialBroadcast").payload.Hash == txhash(global("newsim.txgen").last) && m.Delay == linkDelay(s, iface(p))
func server.HandleMessage(s, payload, from, timestamp) r
  requires wired(s) && s.received != 0 && s.rng != 0 && global("newsim.txgen") != 0
  requires known: !isBA(payload) && !isIB(payload) ==> dom(s.handlers)[iface(from)] && there(alg(s, iface(from)))
  requires message: !isBA(payload) ==> is(payload, "newsim.message")
  requires numbers: isBA(payload) ==> global("newsim.txgen").last + as(payload, "newsim.blockArrival").n < 18446744073709551616 && (forall id int {dom(s.received)[id]} :: dom(s.received)[id] ==> 0 <= id && id <= global("newsim.txgen").last)
  panics true
  local outbox []des.OutgoingMessage
  local decoded []riblt.HashedSymbol[transaction]
  local i int
  loop 1
    invariant wired(s)
    invariant 0 <= i && (i <= as(payload, "newsim.blockArrival").n || i == 0)
    invariant s.receivedTransactions == old(s.receivedTransactions) + i
    invariant $total == old($total) + ite(s.initialFlood, 0, i)
    invariant s.duplicateTransactions == old(s.duplicateTransactions) && s.decodedTransactions == old(s.decodedTransactions)
    invariant last: global("newsim.txgen").last == old(global("newsim.txgen").last) + i
    invariant own: forall id int {dom(s.received)[id]} :: dom(s.received)[id] <==> old(dom(s.received)[id]) || (old(global("newsim.txgen").last) < id && id <= global("newsim.txgen").last)
    invariant once: !s.initialFlood ==> onceEach(s) && notBack(s, nil) && ownHash(s)
    invariant flood: s.initialFlood ==> $fwd == old($fwd)
    invariant off(outbox) == 0 && (s.initialFlood || len(outbox) == 0)
    back flooded: s.initialFlood ==> len(outbox) == head(len(outbox)) + len(s.peers)
    back toEach: let h := head(len(outbox)) :: s.initialFlood ==> forall j in outbox :: j >= h ==> isFlood(s, outbox[j], s.peers[j - h])
    decreases as(payload, "newsim.blockArrival").n - i
  end
  loop 2
    invariant wired(s)
    invariant len(outbox) == pre(len(outbox)) + $k && off(outbox) == 0
    invariant let h := pre(len(outbox)) :: forall j in outbox :: j >= h ==> isFlood(s, outbox[j], s.peers[j - h])
  end
  loop 3
    invariant wired(s)
    invariant once: onceEach(s)
    invariant notBack: notBack(s, old(from))
    invariant gained: gained(s)
    invariant counted: counted(s)
    invariant all: s.duplicateTransactions - old(s.duplicateTransactions) + s.receivedTransactions - old(s.receivedTransactions) == $k
    invariant known: forall j in decoded :: j < $k ==> dom(s.received)[decoded[j].Symbol.idx]
  end
  ensures onceEach: !isBA(payload) ==> onceEach(s) && gained(s)
  ensures notBack: !isBA(payload) ==> notBack(s, from)
  ensures counted: !isBA(payload) ==> counted(s)
  ensures account: !isBA(payload) ==> s.duplicateTransactions - old(s.duplicateTransactions) + s.receivedTransactions - old(s.receivedTransactions) == ite(isIB(payload), 1, $nres)
  ensures whole: isIB(payload) ==> let p := as(payload, "newsim.initialBroadcast").payload :: !old(dom(s.received)[p.Symbol.idx]) ==> $hash[p.Symbol.idx] == p.Hash
  ensures broadcast: isIB(payload) ==> dom(s.received)[as(payload, "newsim.initialBroadcast").payload.Symbol.idx]
  ensures allSent: forall i in s.peers :: $queue[alg(s, iface(s.peers[i]))] == 0
  ensures own: isBA(payload) ==> forall id int {dom(s.received)[id]} :: dom(s.received)[id] <==> old(dom(s.received)[id]) || (old(global("newsim.txgen").last) < id && id <= global("newsim.txgen").last)
  ensures ownOnce: isBA(payload) && !s.initialFlood ==> onceEach(s) && notBack(s, nil) && ownHash(s)
  ensures ownFlood: isBA(payload) && s.initialFlood ==> $fwd == old($fwd)
  ensures again: isBA(payload) && !s.initialFlood ==> len(r) > 0 && r[0].To == nil && is(r[0].Payload, "newsim.blockArrival") && as(r[0].Payload, "newsim.blockArrival").n == s.blockArrivalBurst
  ensures knownAll: !isBA(payload) && !isIB(payload) ==> let d := sliceat("riblt.HashedSymbol[transaction]", $res, 0, $nres) :: forall j in d :: dom(s.received)[d[j].Symbol.idx]
  ensures generated: isBA(payload) && as(payload, "newsim.blockArrival").n >= 0 ==> s.receivedTransactions == old(s.receivedTransactions) + as(payload, "newsim.blockArrival").n && $total == old($total) + ite(s.initialFlood, 0, as(payload, "newsim.blockArrival").n)
assume siphash.Hash is a function of its keys and of the bytes it is given
logic sip8(int, int, int, int, int, int, int, int, int, int) int
extern encoding/binary littleEndian.PutUint64(e, b, v)
  requires len(b) >= 8
  modifies b[*]
  ensures b[0] == v % 256 && b[1] == v / 256 % 256 && b[2] == v / 65536 % 256 && b[3] == v / 16777216 % 256
  ensures b[4] == v / 4294967296 % 256 && b[5] == v / 1099511627776 % 256 && b[6] == v / 281474976710656 % 256 && b[7] == v / 72057594037927936 % 256
  ensures forall j in b :: j >= 8 ==> b[j] == old(b[j])
extern github.com/dchest/siphash Hash(k0, k1, p) r
  modifies
  ensures len(p) == 8 ==> r == sip8(k0, k1, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
func transaction.Hash(d) r
  modifies
  functional d.idx => r
  defines r == txhash(d.idx)

// ---- the implementations behind the interface
assume a link's two outboxes do not share an array with each other or with the list the messages are collected in
ghostvar $tosnd : (Array Int Int)
ghostvar $torcv : (Array Int Int)
func sender.onTransaction(n, tx)
  trusted
  nilable
  modifies all("newsim.sender"), allelems("any"), $tosnd
  ensures $tosnd == upd(old($tosnd), ref(n), old($tosnd[ref(n)]) + 1)
func receiver.onTransaction(n, tx)
  trusted
  nilable
  modifies all("newsim.receiver"), $torcv
  ensures $torcv == upd(old($torcv), ref(n), old($torcv[ref(n)]) + 1)
func coding.forwardTransaction(c, tx)
  before onTransaction: arg1 == tx
  ensures toSender: $tosnd == upd(old($tosnd), ref(c.sender), old($tosnd[ref(c.sender)]) + 1)
  ensures toReceiver: $torcv == upd(old($torcv), ref(c.receiver), old($torcv[ref(c.receiver)]) + 1)
define sndq(c) = ite(c.sender == nil, 0, old(len(c.sender.outbox)))
define rcvq(c) = ite(c.receiver == nil, 0, old(len(c.receiver.outbox)))
func coding.collectOutgoingMessages(c, peer, delay, outbox) r
  modifies c.sender.outbox, c.receiver.outbox, outbox[*]
  local outbox []des.OutgoingMessage
  loop 1
    invariant len(outbox) == old(len(outbox)) + $k && (arr(outbox) == old(arr(outbox)) || fresh(outbox)) && off(outbox) == old(off(outbox))
    invariant forall j in old(outbox) :: outbox[j] == old(outbox[j])
    invariant forall j in outbox :: j >= old(len(outbox)) ==> outbox[j].To == peer && outbox[j].Delay == delay && outbox[j].Payload == old(c.sender.outbox[j - len(outbox)])
  end
  loop 2
    invariant len(outbox) == pre(len(outbox)) + $k && (arr(outbox) == old(arr(outbox)) || fresh(outbox)) && off(outbox) == old(off(outbox))
    invariant forall j in old(outbox) :: outbox[j] == old(outbox[j])
    invariant forall j in pre(outbox) :: j >= old(len(outbox)) ==> outbox[j].To == peer && outbox[j].Delay == delay && outbox[j].Payload == old(c.sender.outbox[j - len(outbox)])
    invariant let h := pre(len(outbox)) :: forall j in outbox :: j >= h ==> outbox[j].To == peer && outbox[j].Delay == delay && outbox[j].Payload == old(c.receiver.outbox[j - h])
  end
  ensures all: len(r) == old(len(outbox)) + sndq(c) + rcvq(c)
  ensures kept: forall j in old(outbox) :: r[j] == old(outbox[j])
  ensures addressed: forall j in r :: j >= old(len(outbox)) ==> r[j].To == peer && r[j].Delay == delay
  ensures fromSender: forall j in r :: j >= old(len(outbox)) && j < old(len(outbox)) + sndq(c) ==> r[j].Payload == old(c.sender.outbox[j - len(outbox)])
  ensures fromReceiver: let h := old(len(outbox)) + sndq(c) :: forall j in r :: j >= h ==> r[j].Payload == old(c.receiver.outbox[j - h])
  ensures emptied: (c.sender != nil ==> len(c.sender.outbox) == 0) && (c.receiver != nil ==> len(c.receiver.outbox) == 0)
func connectCodingServers(a, b, delay, config)
  requires a != nil && b != nil && a != b && a.handlers != 0 && b.handlers != 0 && a.handlers != b.handlers && config.numShards >= 1 && global("newsim.RNG") != 0
  requires arr(a.peers) == 0 || arr(a.peers) != arr(b.peers)
  ensures linked: bothLinked(a, b, delay)
extern math/rand Rand.Perm(r, n) p
  modifies
extern math/rand Rand.Uint64(r) v
  modifies
func pull.collectOutgoingMessages(c, peer, delay, outbox) r
  modifies c.outbox, outbox[*]
  local outbox []des.OutgoingMessage
  loop 1
    invariant len(outbox) == old(len(outbox)) + $k && (arr(outbox) == old(arr(outbox)) || fresh(outbox)) && off(outbox) == old(off(outbox))
    invariant forall j in old(outbox) :: outbox[j] == old(outbox[j])
    invariant forall j in outbox :: j >= old(len(outbox)) ==> outbox[j].To == peer && outbox[j].Delay == delay && outbox[j].Payload == old(c.outbox[j - len(outbox)])
    invariant ($k == 0 ==> c.outbox == old(c.outbox)) && ($k > 0 ==> len(c.outbox) == 0)
  end
  ensures all: len(r) == old(len(outbox)) + old(len(c.outbox))
  ensures kept: forall j in old(outbox) :: r[j] == old(outbox[j])
  ensures addressed: forall j in r :: j >= old(len(outbox)) ==> r[j].To == peer && r[j].Delay == delay && r[j].Payload == old(c.outbox[j - len(outbox)])
  ensures emptied: len(c.outbox) == 0
include newsim_pull.inc
