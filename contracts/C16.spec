// C16: the discrete event simulator.
load des
package des
// the number of a message is the value of the sequence counter before it is raised, or (alternative
// "preraised") after it
option alternatives preraised
[!preraised] define number(q) = q
[preraised] define number(q) = q + 1

assume modules never return an outgoing message with a negative delay and do not touch the simulator except through the messages they return
assume container/heap keeps the heap order and permutes its elements when Less, Swap, Push, Pop and Len satisfy their contracts (which are proved here for priorityQueue)

// ghost record of every message ever scheduled, by sequence number
ghostvar $live : (Array Int Bool)
ghostvar $arr : (Array Int Int)
ghostvar $from : (Array Int Iface)
ghostvar $to : (Array Int Iface)
ghostvar $pay : (Array Int Iface)
// ghost log of deliveries
ghostvar $nd : Int
ghostvar $dTo : (Array Int Iface)
ghostvar $dFrom : (Array Int Iface)
ghostvar $dPay : (Array Int Iface)
ghostvar $dTime : (Array Int Int)
ghostvar $last : Int
// positions before/after a heap operation
ghostvar $perm : (Array Int Int)
ghostvar $inv : (Array Int Int)

define before(a1, s1, a2, s2) = a1 < a2 || (a1 == a2 && s1 < s2)
define heapok(q) = forall i in q :: i > 0 ==> !before(q[i].arrival, q[i].seq, q[(i-1)/2].arrival, q[(i-1)/2].seq)
define pq(h) = as(h, "*des.priorityQueue")
define qm(v) = as(v, "des.queuedMessage")

define qok(s) = heapok(s.mq) && s.seq >= 0 && len(s.mq) <= s.seq
   && (forall i in s.mq :: 0 <= s.mq[i].seq && s.mq[i].seq < number(s.seq) && $live[s.mq[i].seq]
        && s.mq[i].arrival == $arr[s.mq[i].seq] && iface(s.mq[i].from) == $from[s.mq[i].seq]
        && iface(s.mq[i].to) == $to[s.mq[i].seq] && iface(s.mq[i].payload) == $pay[s.mq[i].seq] && s.mq[i].to != nil)
   && (forall i in s.mq, j in s.mq :: s.mq[i].seq == s.mq[j].seq ==> i == j)
   && (forall k int {$live[k]} :: $live[k] ==> 0 <= k && k < number(s.seq) && (exists i in s.mq :: s.mq[i].seq == k))
define timeok(s) = forall i in s.mq :: s.mq[i].arrival >= s.time

extern container/heap Push(h, v)
  requires isQueue: is(h, "*des.priorityQueue") && is(v, "des.queuedMessage")
  requires heapOrder: heapok(*pq(h))
  modifies *pq(h), allelems("des.queuedMessage"), $perm, $inv
  ensures len(*pq(h)) == old(len(*pq(h))) + 1
  ensures heapok(*pq(h))
  ensures forall j in old(*pq(h)) :: 0 <= $inv[j] && $inv[j] < len(*pq(h)) && $perm[$inv[j]] == j && (*pq(h))[$inv[j]] == old((*pq(h))[j])
  ensures 0 <= $inv[old(len(*pq(h)))] && $inv[old(len(*pq(h)))] < len(*pq(h)) && (*pq(h))[$inv[old(len(*pq(h)))]] == qm(v)
  ensures forall i in *pq(h) :: 0 <= $perm[i] && $perm[i] <= old(len(*pq(h))) && $inv[$perm[i]] == i
      && (let p := $perm[i] :: (*pq(h))[i] == ite(p == old(len(*pq(h))), qm(v), old((*pq(h))[p])))

extern container/heap Pop(h) res
  requires isQueue: is(h, "*des.priorityQueue")
  requires heapOrder: heapok(*pq(h))
  requires nonempty: len(*pq(h)) > 0
  modifies *pq(h), allelems("des.queuedMessage"), $perm, $inv, $live, $last
  ensures is(res, "des.queuedMessage")
  ensures $last == qm(res).seq && $live == upd(old($live), $last, false)
  ensures len(*pq(h)) == old(len(*pq(h))) - 1
  ensures heapok(*pq(h))
  ensures 0 <= $inv[0 - 1] && $inv[0 - 1] <= len(*pq(h)) && (let m := $inv[0 - 1] :: qm(res) == old((*pq(h))[m]))
  ensures forall j in old(*pq(h)) :: !before(old((*pq(h))[j].arrival), old((*pq(h))[j].seq), qm(res).arrival, qm(res).seq)
  ensures forall j in old(*pq(h)) :: j != $inv[0 - 1] ==> 0 <= $inv[j] && $inv[j] < len(*pq(h)) && (*pq(h))[$inv[j]] == old((*pq(h))[j])
  ensures forall i in *pq(h) :: 0 <= $perm[i] && $perm[i] <= len(*pq(h)) && $perm[i] != $inv[0 - 1] && $inv[$perm[i]] == i
      && (let p := $perm[i] :: (*pq(h))[i] == old((*pq(h))[p]))

extern des Module.HandleMessage(m, payload, from, timestamp) out
  modifies $nd, $dTo, $dFrom, $dPay, $dTime
  ensures $nd == old($nd) + 1
  ensures $dTo == upd(old($dTo), old($nd), iface(m)) && $dFrom == upd(old($dFrom), old($nd), iface(from))
  ensures $dPay == upd(old($dPay), old($nd), iface(payload)) && $dTime == upd(old($dTime), old($nd), timestamp)
  ensures forall i in out :: out[i].Delay >= 0

func priorityQueue.Len(pq) n
  ensures n == len(pq)

func priorityQueue.Less(pq, i, j) r
  requires 0 <= i && i < len(pq) && 0 <= j && j < len(pq)
  ensures timeThenSequence: r <==> before(pq[i].arrival, pq[i].seq, pq[j].arrival, pq[j].seq)
  modifies nothing

func priorityQueue.Swap(pq, i, j)
  requires 0 <= i && i < len(pq) && 0 <= j && j < len(pq)
  modifies pq[*]
  ensures swapped: pq[i] == old(pq[j]) && pq[j] == old(pq[i])
  ensures others: forall k in pq :: k != i && k != j ==> pq[k] == old(pq[k])

func priorityQueue.Push(pq, x)
  requires is(x, "des.queuedMessage")
  modifies *pq, (*pq)[*]
  ensures longer: len(*pq) == old(len(*pq)) + 1
  ensures last: (*pq)[old(len(*pq))] == as(x, "des.queuedMessage")
  ensures kept: forall i in old(*pq) :: (*pq)[i] == old((*pq)[i])

func priorityQueue.Pop(pq) r
  requires len(*pq) > 0
  modifies *pq, (*pq)[*]
  ensures shorter: len(*pq) == old(len(*pq)) - 1
  ensures last: is(r, "des.queuedMessage") && as(r, "des.queuedMessage") == old((*pq)[len(*pq) - 1])
  ensures kept: forall i in *pq :: (*pq)[i] == old((*pq)[i])

func Simulator.EventsQueued(s) n
  ensures n == len(s.mq)
  modifies nothing

func Simulator.EventsDelivered(s) n
  ensures n == s.seq - len(s.mq)
  modifies nothing

func Simulator.Drained(s) r
  ensures r <==> len(s.mq) == 0
  modifies nothing

func Simulator.Time(s) t
  ensures t == s.time
  modifies nothing

func Simulator.ScheduleMessage(s, msg, from)
  requires qok(s)
  requires recipient: msg.To != nil || from != nil
  modifies s.mq, s.seq, allelems("des.queuedMessage"), $perm, $inv, $live, $arr, $from, $to, $pay
  ghost $live := upd($live, number(old(s.seq)), true)
  ghost $arr := upd($arr, number(old(s.seq)), old(s.time) + msg.Delay)
  ghost $from := upd($from, number(old(s.seq)), iface(from))
  ghost $to := upd($to, number(old(s.seq)), ite(msg.To == nil, iface(from), iface(msg.To)))
  ghost $pay := upd($pay, number(old(s.seq)), iface(msg.Payload))
  ensures sequence: s.seq == old(s.seq) + 1
  ensures one: len(s.mq) == old(len(s.mq)) + 1
  ensures queued: qok(s)
  ensures recorded: $live == upd(old($live), number(old(s.seq)), true) && $arr == upd(old($arr), number(old(s.seq)), s.time + msg.Delay)
      && $from == upd(old($from), number(old(s.seq)), iface(from)) && $pay == upd(old($pay), number(old(s.seq)), iface(msg.Payload))
      && $to == upd(old($to), number(old(s.seq)), ite(msg.To == nil, iface(from), iface(msg.To)))
  ensures onTime: old(timeok(s)) && msg.Delay >= 0 ==> timeok(s)

func Simulator.deliverNextMessage(s)
  requires qok(s) && timeok(s)
  requires len(s.mq) > 0
  modifies s.mq, s.seq, s.time, allelems("des.queuedMessage"), $perm, $inv, $live, $arr, $from, $to, $pay, $nd, $dTo, $dFrom, $dPay, $dTime, $last
  loop 1
    invariant qok(s) && timeok(s)
    invariant s.time == pre(s.time)
    invariant s.seq == pre(s.seq) + $k && len(s.mq) == pre(len(s.mq)) + $k
    invariant forall k int {$live[k]} :: k < number(pre(s.seq)) ==> ($live[k] <==> pre($live[k]))
    invariant forall k int {$arr[k]} :: k < number(pre(s.seq)) ==> $arr[k] == pre($arr[k])
    invariant forall k int {$to[k]} :: k < number(pre(s.seq)) ==> $to[k] == pre($to[k])
    invariant forall k int {$from[k]} :: k < number(pre(s.seq)) ==> $from[k] == pre($from[k])
    invariant forall k int {$pay[k]} :: k < number(pre(s.seq)) ==> $pay[k] == pre($pay[k])
  end
  ensures earliest: let d := $last :: old($live[d]) && (forall k int {old($live[k])} :: old($live[k]) ==> !before(old($arr[k]), k, old($arr[d]), d))
  ensures clock: let d := $last :: s.time == old($arr[d]) && s.time >= old(s.time)
  ensures deliveredOnce: $nd == old($nd) + 1 && (let d := $last :: let n := old($nd) :: $dTo[n] == old($to[d]) && $dPay[n] == old($pay[d])
      && $dFrom[n] == old($from[d]) && $dTime[n] == old($arr[d]))
  ensures logKept: forall i int {$dTo[i]} :: i < old($nd) ==> $dTo[i] == old($dTo[i])
  ensures removed: forall k int {$live[k]} :: k < number(old(s.seq)) ==> ($live[k] <==> old($live[k]) && k != $last)
  ensures kept: forall k int {$arr[k]} :: k < number(old(s.seq)) ==> $arr[k] == old($arr[k])
  ensures queued: qok(s) && timeok(s) && s.seq >= old(s.seq)
  ensures accounted: s.seq - len(s.mq) == old(s.seq - len(s.mq)) + 1

func Simulator.RunUntil(s, t)
  requires qok(s) && timeok(s)
  noterm
  modifies s.mq, s.seq, s.time, allelems("des.queuedMessage"), $perm, $inv, $live, $arr, $from, $to, $pay, $nd, $dTo, $dFrom, $dPay, $dTime, $last
  loop 1
    invariant qok(s) && timeok(s) && s.time >= pre(s.time)
    invariant pre(s.time) > t ==> s.time == pre(s.time) && s.seq == pre(s.seq)
    back $nd > head($nd)
  end
  ensures queued: qok(s) && timeok(s) && s.time >= old(s.time)
  ensures noneDue: forall k int {$live[k]} :: $live[k] ==> $arr[k] > t
  ensures stopsAfter: old(s.time) > t ==> s.time == old(s.time) && s.seq == old(s.seq)

func Simulator.Run(s)
  requires qok(s) && timeok(s)
  noterm
  modifies s.mq, s.seq, s.time, allelems("des.queuedMessage"), $perm, $inv, $live, $arr, $from, $to, $pay, $nd, $dTo, $dFrom, $dPay, $dTime, $last
  loop 1
    invariant qok(s) && timeok(s) && s.time >= pre(s.time)
    back $nd > head($nd)
  end
  ensures drained: len(s.mq) == 0 && (forall k int {$live[k]} :: !$live[k])
