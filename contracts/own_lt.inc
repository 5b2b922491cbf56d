// ownership in the fountain codecs (lt and iblt)
// the symbols of all codewords being decoded are owned by the codec, and differ from v
define pendOk() = forall c int {heapof("PendingCodeword", "symbol")[c]} :: sumOk(heapof("PendingCodeword", "symbol")[c])

func NewTransaction(d) tx
  modifies $tc, $own
  ghost $own := upd($own, tx.data, false)
  ensures untouched: untouched()
  ensures copy: fresh(tx.data) && tx.data != 0 && !$own[tx.data]
  ensures content: $tc[tx.data] == old($tc[d])

func Encoder.AddTransaction(e, t) r
  noterm
  loop 1
    invariant untouched()
  end
  ensures untouched: untouched()
func Encoder.Reset(e, dist, ws)
  noterm
  loop 1
    invariant untouched()
  end
  ensures untouched: untouched()
func Encoder.produceCodeword(e, deg) c
  noterm
  modifies e.window[*], e.shuffleHistory, e.shuffleHistory[*], $tc, $own
  local e *Encoder
  loop 1
    invariant fresh(c.members)
    invariant arr(e.shuffleHistory) == pre(arr(e.shuffleHistory)) || fresh(e.shuffleHistory)
    invariant untouched: untouched()
    invariant mine: sumOk(c.symbol) && (c.symbol == 0 || fresh(c.symbol))
  end
  loop 2
    invariant untouched: untouched()
  end
  ensures untouched: untouched()
  ensures independent: sumOk(c.symbol) && (c.symbol == 0 || fresh(c.symbol))
func Encoder.ProduceCodeword(e) c
  noterm
  ensures untouched: untouched()
  ensures independent: sumOk(c.symbol) && (c.symbol == 0 || fresh(c.symbol))

func PendingCodeword.peelTransaction(cw, stub, d)
  noterm
  requires owned: pendOk()
  modifies cw.members, cw.members[*], cw.symbol, $tc, $own
  loop 1
    invariant untouched() && pendOk()
  end
  ensures kept: kept() && lasting()
  ensures owned: pendOk()
func PendingCodeword.failToDecode(cw) h, t, gone
  noterm
  requires owned: pendOk()
  modifies all("PendingCodeword", "members"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword")
  loop 1
    invariant untouched() && pendOk()
  end
  ensures owned: pendOk()
func pendingTransaction.markDecoded(tx, d, queue) q
  noterm
  requires owned: pendOk()
  modifies tx.blocking[*], queue[*], all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), allelems("*pendingTransaction"), $tc, $own
  local queue []*PendingCodeword
  loop 1
    invariant arr(queue) == old(arr(queue)) || fresh(queue)
    invariant kept: kept() && lasting()
    invariant owned: pendOk()
  end
  ensures kept: kept() && lasting()
  ensures owned: pendOk()
  ensures where: arr(q) == arr(queue) || fresh(q)
func Decoder.storeNewTransaction(p, h, t)
  noterm
  modifies mapof(p.receivedTransactions), p.recentTransactions, p.recentTransactions[*]
  loop 1
    invariant arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
  end
  ensures where: arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
// each recovered transaction has a copy of its own, which nothing else refers to
define ownCopies(l) = forall i int {elems(l, "data")[i]} :: off(l) <= i && i < off(l) + len(l) ==> let v := elems(l, "data")[i] :: fresh(v) && !$own[v] && v < alloc()
define distinctCopies(l) = forall i int, j int {elems(l, "data")[i], elems(l, "data")[j]} :: off(l) <= i && i < j && j < off(l) + len(l) ==> elems(l, "data")[i] < elems(l, "data")[j]
func Decoder.decodeCodewords(p, queue) out
  noterm
  requires owned: pendOk()
  local nt []Transaction
  modifies queue[*], mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), all("pendingTransaction", "blocking"), allelems("*pendingTransaction"), allelems("*PendingCodeword"), $tc, $own
  loop 1
    invariant kept: kept()
    invariant owned: pendOk()
    invariant fresh(nt)
    invariant arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
    invariant arr(queue) == old(arr(queue)) || fresh(queue)
    invariant copies: ownCopies(nt)
    invariant distinct: distinctCopies(nt)
    back unchanged: let a := head(alloc()) :: let o := head($own) :: let t := head($tc) :: forall v int {$tc[v]} :: v < a && !o[v] ==> $tc[v] == t[v] && !$own[v]
  end
  ensures kept: kept()
  ensures owned: pendOk()
  ensures copies: ownCopies(out)
  ensures distinct: distinctCopies(out)
func Decoder.AddTransaction(p, t) out
  noterm
  requires owned: pendOk()
  requires element: !$own[t.data]
  ensures kept: kept()
  ensures owned: pendOk()
  ensures copies: ownCopies(out)
  ensures distinct: distinctCopies(out)
func Decoder.AddCodeword(p, raw) cw, out
  noterm
  requires owned: pendOk()
  requires handedOver: sumOk(raw.symbol)
  loop 1
    invariant kept: kept()
    invariant owned: pendOk()
  end
  ensures kept: kept()
  ensures owned: pendOk()
  ensures copies: ownCopies(out)
  ensures distinct: distinctCopies(out)
