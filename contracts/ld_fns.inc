func PendingCodeword.peelTransaction(cw, stub, preimage)
  hide cntdefs
  requires linked: mcnt(ref(cw), ref(stub)) >= 1
  requires present(preimage)
  modifies cw.members, cw.members[*], cw.symbol
  loop 1
    invariant forall x int {elems(cw.members, "")[x]} :: off(cw.members) <= x && x < off(cw.members) + $k ==> elems(cw.members, "")[x] != ref(stub)
    head cnt_absent(elems(cw.members, ""), off(cw.members), $k, ref(stub))
  end
  exit cnt_swaprm(old(mem(ref(cw))), mem(ref(cw)), off(cw.members), old(len(cw.members)), $k)
  exit xs_swaprm(old(mem(ref(cw))), mem(ref(cw)), off(cw.members), old(len(cw.members)), $k, SH())
  ensures shrunk: len(cw.members) == old(len(cw.members)) - 1 && off(cw.members) == old(off(cw.members)) && arr(cw.members) == old(arr(cw.members))
  ensures oneLinkLess: forall t int {mcnt(ref(cw), t)} :: mcnt(ref(cw), t) == old(mcnt(ref(cw), t)) - ite(t == ref(stub), 1, 0)
  ensures sum: forall b int {mxs(ref(cw), b)} :: mxs(ref(cw), b) == xor(old(mxs(ref(cw), b)), hb(stub.saltedHash, b))
  ensures peeled: forall b int {abit(cw.symbol, b)} :: abit(cw.symbol, b) == xor(old(abit(cw.symbol, b)), txb(ref(preimage), b))
func PendingCodeword.failToDecode(cw) h, gone
  hide cntdefs
  requires len(cw.members) == 1 && cw.members[0] != nil && !$tp[ref(cw.members[0])]
  requires linked: bcnt(ref(cw.members[0]), ref(cw)) >= 1
  modifies cw.members, cw.members[*], cw.members[0].blocking, cw.members[0].blocking[*], $tp
  loop 1
    invariant forall x int {old(elems(cw.members[0].blocking, ""))[x]} :: old(off(cw.members[0].blocking)) <= x && x < old(off(cw.members[0].blocking)) + $k ==> old(elems(cw.members[0].blocking, ""))[x] != ref(cw)
    head cnt_absent(old(elems(cw.members[0].blocking, "")), old(off(cw.members[0].blocking)), $k, ref(cw))
  end
  exit cnt_swaprm(old(blk(ref(cw.members[0]))), blk(old(ref(cw.members[0]))), old(off(cw.members[0].blocking)), old(len(cw.members[0].blocking)), $k)
  ensures emptied: len(cw.members) == 0 && arr(cw.members) == old(arr(cw.members)) && off(cw.members) == old(off(cw.members))
  ensures one: let m := old(ref(cw.members[0])) :: len(PT(m).blocking) == old(len(cw.members[0].blocking)) - 1 && off(PT(m).blocking) == old(off(cw.members[0].blocking)) && arr(PT(m).blocking) == old(arr(cw.members[0].blocking))
  ensures oneLinkLess: let m := old(ref(cw.members[0])) :: forall c int {bcnt(m, c)} :: bcnt(m, c) == old(bcnt(ref(cw.members[0]), c)) - ite(c == ref(cw), 1, 0)
  ensures result: let m := old(ref(cw.members[0])) :: gone == (len(PT(m).blocking) == 0) && (gone ==> h == PT(m).saltedHash)
  ensures pool: $tp == ite(gone, upd(old($tp), old(ref(cw.members[0])), true), old($tp))
func pendingTransaction.markDecoded(tx, preimage, queue) q
  hide cntdefs
  requires linked: forall c int {mcnt(c, ref(tx))} {bcnt(ref(tx), c)} :: $cws[c] ==> mcnt(c, ref(tx)) == bcnt(ref(tx), c)
  requires onlyOurs: forall c int {bcnt(ref(tx), c)} :: bcnt(ref(tx), c) >= 1 ==> $cws[c]
  requires memApart() && !$tp[ref(tx)]
  requires present(preimage)
  requires apart: arr(queue) != arr(tx.blocking)
  requires queueOK(queue)
  modifies tx.blocking[*], queue[*], all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), allelems("*pendingTransaction"), $tp
  loop 1
    invariant arr(queue) != arr(tx.blocking) && (arr(queue) == old(arr(queue)) || fresh(queue))
    head cnt_front(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k)
    head $k < len(tx.blocking) ==> let c := blk(ref(tx))[off(tx.blocking) + $k] :: cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c) >= 1 && $cws[c] && mcnt(c, ref(tx)) >= 1
    invariant forall x int {blk(ref(tx))[x]} :: off(tx.blocking) + $k <= x && x < off(tx.blocking) + len(tx.blocking) ==> blk(ref(tx))[x] == old(blk(ref(tx)))[x]
    invariant linked: forall c int {mcnt(c, ref(tx))} :: $cws[c] ==> mcnt(c, ref(tx)) == cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c)
    invariant onlyOurs: forall c int {cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c)} :: cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c) >= 1 ==> $cws[c]
    invariant memApart()
    invariant sums: honest(tx, preimage) ==> (forall c int, b int {mxs(c, b)} {abit(CW(c).symbol, b)} :: $cws[c] ==> residual(c, b) == old(residual(c, b)))
    invariant rest: forall c int, t int {mcnt(c, t)} :: $cws[c] && t != ref(tx) ==> mcnt(c, t) == old(mcnt(c, t))
    invariant length: forall c int {len(CW(c).members)} :: $cws[c] ==> len(CW(c).members) - mcnt(c, ref(tx)) == old(len(CW(c).members) - mcnt(c, ref(tx)))
    invariant queueOK(queue)
    invariant kept: forall c int {CW(c).queued} :: $cws[c] && old(CW(c).queued) ==> CW(c).queued
    invariant pushed: forall c int {qcnt(queue, c)} {CW(c).queued} :: $cws[c] ==> qcnt(queue, c) == old(qcnt(queue, c)) + ite(CW(c).queued && !old(CW(c).queued), 1, 0)
    back cnt_ext(head(elems(queue, "")), elems(queue, ""), head(off(queue)), off(queue), head(len(queue)))
    back cnt_step(elems(queue, ""), off(queue), head(len(queue)) + 1)
    back forall c int {qcnt(queue, c)} {head(qcnt(queue, c))} :: qcnt(queue, c) == head(qcnt(queue, c)) + ite(len(queue) > head(len(queue)) && elems(queue, "")[off(queue) + len(queue) - 1] == c, 1, 0)
  end
  exit cnt_zero(old(blk(ref(tx))), off(tx.blocking) + len(tx.blocking))
  exit $k == len(tx.blocking)
  ensures unlinked: forall c int {mcnt(c, ref(tx))} :: $cws[c] ==> mcnt(c, ref(tx)) == 0
  ensures rest: forall c int, t int {mcnt(c, t)} :: $cws[c] && t != ref(tx) ==> mcnt(c, t) == old(mcnt(c, t))
  ensures length: forall c int {len(CW(c).members)} :: $cws[c] ==> len(CW(c).members) == old(len(CW(c).members) - mcnt(c, ref(tx)))
  ensures memApart()
  ensures sums: honest(tx, preimage) ==> (forall c int, b int {mxs(c, b)} {abit(CW(c).symbol, b)} :: $cws[c] ==> residual(c, b) == old(residual(c, b)))
  ensures queue: queueOK(q) && (arr(q) == arr(queue) || fresh(q))
  ensures kept: forall c int {CW(c).queued} :: $cws[c] && old(CW(c).queued) ==> CW(c).queued
  ensures pushed: forall c int {qcnt(q, c)} {CW(c).queued} :: $cws[c] ==> qcnt(q, c) == old(qcnt(queue, c)) + ite(CW(c).queued && !old(CW(c).queued), 1, 0)
  ensures pool: $tp == upd(old($tp), ref(tx), true)
func Decoder.storeNewTransaction(p, hash, t)
  requires p.receivedTransactions != nil && p.numTransactionsMemorized >= 0
  requires remembered(p)
  modifies mapof(p.receivedTransactions), p.recentTransactions, p.recentTransactions[*], p.numTransactionsDecoded
  loop 1
    start forall x int {old(rh(p))[x]} :: old(off(p.recentTransactions)) <= x && x < old(off(p.recentTransactions) + len(p.recentTransactions)) ==> rh(p)[x - old(off(p.recentTransactions)) + off(p.recentTransactions)] == old(rh(p))[x] && rd(p)[x - old(off(p.recentTransactions)) + off(p.recentTransactions)] == old(rd(p))[x]
    start forall x int {rh(p)[x]} :: off(p.recentTransactions) <= x && x < old(len(p.recentTransactions)) + off(p.recentTransactions) ==> rh(p)[x] == old(rh(p))[x + old(off(p.recentTransactions)) - off(p.recentTransactions)] && rd(p)[x] == old(rd(p))[x + old(off(p.recentTransactions)) - off(p.recentTransactions)]
    start let n := off(p.recentTransactions) + len(p.recentTransactions) - 1 :: rh(p)[n] == old(hash) && rd(p)[n] == ref(old(t))
    invariant len(p.recentTransactions) <= pre(len(p.recentTransactions)) && off(p.recentTransactions) == pre(off(p.recentTransactions)) + pre(len(p.recentTransactions)) - len(p.recentTransactions)
    invariant arr(p.recentTransactions) == pre(arr(p.recentTransactions))
    invariant MEM() ==> len(p.recentTransactions) >= p.numTransactionsMemorized || len(p.recentTransactions) == pre(len(p.recentTransactions))
    invariant remembered(p)
    invariant forall g int {rdom(p)[g]} :: rdom(p)[g] ==> pre(rdom(p)[g]) && p.receivedTransactions[g] == pre(p.receivedTransactions[g])
    invariant MEM() && old(forall x int {rh(p)[x]} :: inRange(p.recentTransactions, x) ==> rh(p)[x] != hash) && p.numTransactionsMemorized >= 1 ==> rdom(p)[old(hash)]
    invariant oldestFirst: MEM() ==> forall g int {rdom(p)[g]} :: pre(rdom(p)[g]) && !rdom(p)[g] ==> (exists x int {rh(p)[x]} :: pre(off(p.recentTransactions)) <= x && x < off(p.recentTransactions) && rh(p)[x] == g)
    decreases len(p.recentTransactions)
  end
  ensures oldestFirst: MEM() ==> forall g int {rdom(p)[g]} :: old(rdom(p)[g]) && g != hash && !rdom(p)[g] ==> (exists x int {old(rh(p))[x]} :: old(off(p.recentTransactions)) <= x && x < old(off(p.recentTransactions) + len(p.recentTransactions)) + 1 - len(p.recentTransactions) && old(rh(p))[x] == g)
  ensures order: MEM() ==> forall x int {rh(p)[x]} :: off(p.recentTransactions) <= x && x < off(p.recentTransactions) + len(p.recentTransactions) - 1 ==> (let y := x - off(p.recentTransactions) :: let c := ite(old(len(p.recentTransactions)) + 1 > p.numTransactionsMemorized, old(len(p.recentTransactions)) + 1 - p.numTransactionsMemorized, 0) :: rh(p)[x] == old(rh(p)[y + c + off(p.recentTransactions)]) && rd(p)[x] == old(rd(p)[y + c + off(p.recentTransactions)]))
  ensures last: MEM() && len(p.recentTransactions) > 0 ==> p.recentTransactions[len(p.recentTransactions) - 1].hash == hash && p.recentTransactions[len(p.recentTransactions) - 1].ptr == old(t)
  ensures counted: p.numTransactionsDecoded == old(p.numTransactionsDecoded) + 1
  ensures size: MEM() ==> len(p.recentTransactions) == ite(old(len(p.recentTransactions)) + 1 > p.numTransactionsMemorized, p.numTransactionsMemorized, old(len(p.recentTransactions)) + 1)
  ensures remembered: remembered(p)
  ensures arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
  ensures taken: MEM() && p.numTransactionsMemorized >= 1 && (forall x int {old(rh(p))[x]} :: old(inRange(p.recentTransactions, x)) ==> old(rh(p))[x] != hash) ==> rdom(p)[hash] && p.receivedTransactions[hash] == old(t)
  ensures stored: forall g int {rdom(p)[g]} :: rdom(p)[g] ==> (g == hash && p.receivedTransactions[g] == old(t) || g != hash && old(rdom(p)[g]) && p.receivedTransactions[g] == old(p.receivedTransactions[g]))
func Decoder.decodeCodewords(p, queue) out
  hide cntdefs
  local nt []DecodedTransaction
  requires setup(p)
  requires state(p)
  requires stored(p, queue)
  modifies queue[*], mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword"), $tp, $cp, $cws, $oi, $oc, p.numTransactionsDecoded
  loop 1
    decreases len(p.pendingTransactions)
    decreases len(queue)
    invariant pendOK(p)
    invariant links(p)
    invariant linksOurs(p)
    invariant memApart()
    invariant pooled()
    invariant remembered(p)
    invariant recvOK(p)
    invariant recvHonest(p)
    invariant sumsOK()
    invariant MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized
    invariant recycled()
    invariant keptForCaller: forall c int {$cws[c]} {old($cws[c])} :: old($cws[c]) && !CW(c).freed ==> $cws[c]
    invariant lifecycle: forall c int {$cws[c]} {old($cws[c])} {$cp[c]} :: old($cws[c]) ==> $cws[c] || $cp[c]
    invariant once(queue)
    invariant queueOK(queue)
    invariant waiting(queue)
    invariant qApart(p, queue)
    invariant arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
    invariant fresh(nt)
    invariant outRef: forall x int {od(nt)[x]} :: off(nt) <= x && x < off(nt) + len(nt) ==> od(nt)[x] < alloc() && od(nt)[x] != 0
    invariant expired: forall x int {elems(nt, "Expired")[x]} :: inRange(nt, x) ==> (elems(nt, "Expired")[x] <==> CW($oc[x - off(nt)]).freed)
    invariant outHash: forall x int {od(nt)[x]} :: OUT() && off(nt) <= x && x < off(nt) + len(nt) ==> (let key := keyT(p, od(nt)[x]) :: old(pdom(p)[key]))
    invariant outData: forall x int, b int {od(nt)[x], hb(keyT(p, od(nt)[x]), b)} :: OUT() && HONEST() && off(nt) <= x && x < off(nt) + len(nt) ==> txb(od(nt)[x], b) == hb(keyT(p, od(nt)[x]), b)
    invariant released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) ==> 0 <= $oi[h] && $oi[h] < len(nt) && keyT(p, od(nt)[off(nt) + $oi[h]]) == h
    invariant allDecoded: forall c int {CW(c).decoded} :: $cws[c] && old(CW(c).decoded) ==> CW(c).decoded
    invariant named: forall h int {pdom(p)[h]} :: pdom(p)[h] ==> old(pdom(p)[h])
    head cnt_has(elems(queue, ""), off(queue), len(queue), len(queue) - 1)
    head cnt_step(elems(queue, ""), off(queue), len(queue))
    head cnt_zero(elems(queue, ""), off(queue))
    head len(queue) > 0 ==> $cws[top(queue)] && CW(top(queue)).queued && top(queue) != 0
    head cnt_step(mem(top(queue)), off(CW(top(queue)).members), 1)
    head cnt_zero(mem(top(queue)), off(CW(top(queue)).members))
    head xs_step(mem(top(queue)), off(CW(top(queue)).members), 1, SH())
    head xs_zero(mem(top(queue)), off(CW(top(queue)).members), SH())
    head single: len(queue) > 0 && len(CW(top(queue)).members) == 1 ==> (let m := m1(top(queue)) :: mcnt(top(queue), m) == 1 && live(p, m) && bcnt(m, top(queue)) == 1)
    back forall x int {head(od(nt))[x]} :: head(off(nt)) <= x && x < head(off(nt) + len(nt)) ==> od(nt)[x - head(off(nt)) + off(nt)] == head(od(nt))[x]
    back forall x int {elems(nt, "Expired")[x]} :: off(nt) <= x && x < off(nt) + head(len(nt)) ==> od(nt)[x] == head(od(nt))[x - off(nt) + head(off(nt))] && (elems(nt, "Expired")[x] <==> head(elems(nt, "Expired"))[x - off(nt) + head(off(nt))])
    back len(nt) > head(len(nt)) ==> (let n := off(nt) + len(nt) - 1 :: keyT(p, od(nt)[n]) == head(PT(m1(top(queue))).saltedHash))
    back len(nt) > head(len(nt)) ==> (let n := od(nt)[off(nt) + len(nt) - 1] :: forall b int {txb(n, b)} :: txb(n, b) == head(abit(CW(top(queue)).symbol, b)))
    back forall h int {rdom(p)[h]} :: rdom(p)[h] ==> head(rdom(p)[h]) || len(nt) > head(len(nt)) && h == head(PT(m1(top(queue))).saltedHash)
    backghost $oc := ite(len(nt) > head(len(nt)), upd($oc, len(nt) - 1, head(top(queue))), $oc)
    backghost $oi := ite(len(nt) > head(len(nt)), upd($oi, head(PT(m1(top(queue))).saltedHash), len(nt) - 1), $oi)
    back cnt_zero(mem(head(top(queue))), off(CW(head(top(queue))).members))
    back cnt_zero(blk(head(m1(top(queue)))), off(PT(head(m1(top(queue)))).blocking))
  end
  ensures outRef: forall x int {od(out)[x]} :: off(out) <= x && x < off(out) + len(out) ==> od(out)[x] != 0
  ensures expired: forall x int {elems(out, "Expired")[x]} :: inRange(out, x) ==> (elems(out, "Expired")[x] <==> CW($oc[x - off(out)]).freed)
  ensures outHash: forall x int {od(out)[x]} :: OUT() && off(out) <= x && x < off(out) + len(out) ==> (let key := keyT(p, od(out)[x]) :: old(pdom(p)[key]))
  ensures outData: forall x int, b int {od(out)[x], hb(keyT(p, od(out)[x]), b)} :: OUT() && HONEST() && off(out) <= x && x < off(out) + len(out) ==> txb(od(out)[x], b) == hb(keyT(p, od(out)[x]), b)
  ensures released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) ==> 0 <= $oi[h] && $oi[h] < len(out) && keyT(p, od(out)[off(out) + $oi[h]]) == h
  ensures keptForCaller: forall c int {$cws[c]} {old($cws[c])} :: old($cws[c]) && !CW(c).freed ==> $cws[c]
  ensures lifecycle: forall c int {$cws[c]} {old($cws[c])} {$cp[c]} :: old($cws[c]) ==> $cws[c] || $cp[c]
  ensures settled: settled(p)
  ensures pend: pendOK(p)
  ensures links: links(p)
  ensures linksOurs: linksOurs(p)
  ensures memApart()
  ensures pooled()
  ensures remembered(p)
  ensures recvOK(p)
  ensures recvHonest(p)
  ensures sumsOK()
  ensures recycled: recycled()
  ensures size: MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized
func NewDecoder(salt, memory) p
  requires memory >= 0
  requires first: forall c int {$cws[c]} :: !$cws[c]
  requires pools: memApart() && pooled()
  modifies $hs
  ensures fresh(p)
  ensures setup: setup(p) && p.numTransactionsMemorized == memory && p.numTransactionsDecoded == 0 && hempty(p.hasher) == hkey(bytesOf(salt, 0, 16))
  ensures empty: (forall h int {rdom(p)[h]} :: !rdom(p)[h]) && (forall h int {pdom(p)[h]} :: !pdom(p)[h]) && len(p.recentTransactions) == 0
  ensures state(p)
  ensures settled(p)
func PendingCodeword.Decoded(cw) r
  ensures r == cw.decoded
func Decoder.AddTransaction(p, t) out
  hide cntdefs
  before markDecoded: cnt_zero(elems(arg2, ""), off(arg2))
  requires setup(p)
  requires state(p)
  requires settled(p)
  requires size: MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized
  requires present(t)
  requires honest: HONEST() ==> (forall b int {hb(keyed(p.hasher, t.hash), b)} :: txb(ref(t), b) == hb(keyed(p.hasher, t.hash), b))
  modifies mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword"), $tp, $cp, $cws, $oi, $oc, p.numTransactionsDecoded
  ensures outRef: forall x int {od(out)[x]} :: inRange(out, x) ==> od(out)[x] != 0
  ensures expired: forall x int {elems(out, "Expired")[x]} :: inRange(out, x) ==> (elems(out, "Expired")[x] <==> CW($oc[x - off(out)]).freed)
  ensures outHash: forall x int {od(out)[x]} :: OUT() && inRange(out, x) ==> (let key := keyT(p, od(out)[x]) :: old(pdom(p)[key]))
  ensures outData: forall x int, b int {od(out)[x], hb(keyT(p, od(out)[x]), b)} :: OUT() && HONEST() && inRange(out, x) ==> txb(od(out)[x], b) == hb(keyT(p, od(out)[x]), b)
  ensures released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) && h != keyed(p.hasher, old(t.hash)) ==> 0 <= $oi[h] && $oi[h] < len(out) && keyT(p, od(out)[off(out) + $oi[h]]) == h
  ensures keptForCaller: forall c int {$cws[c]} {old($cws[c])} :: old($cws[c]) && !CW(c).freed ==> $cws[c]
  ensures lifecycle: forall c int {$cws[c]} {old($cws[c])} {$cp[c]} :: old($cws[c]) ==> $cws[c] || $cp[c]
  ensures settled: settled(p)
  ensures pend: pendOK(p)
  ensures links: links(p)
  ensures linksOurs: linksOurs(p)
  ensures memApart()
  ensures pooled()
  ensures remembered(p)
  ensures recvOK(p)
  ensures recvHonest(p)
  ensures sumsOK()
  ensures recycled: recycled()
  ensures size: MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized
  ensures taken: let key := keyed(p.hasher, old(t.hash)) :: MEM() && p.numTransactionsMemorized >= 1 && !old(pdom(p)[keyed(p.hasher, t.hash)]) && (forall x int {old(rh(p))[x]} :: old(inRange(p.recentTransactions, x)) ==> old(rh(p))[x] != key) ==> rdom(p)[key]
  ensures known: MEM() && old(let key := keyed(p.hasher, t.hash) :: rdom(p)[key] && p.receivedTransactions[key].serialized == t.serialized) ==> len(out) == 0 && p.recentTransactions == old(p.recentTransactions) && rdom(p) == old(rdom(p)) && pdom(p) == old(pdom(p))
func Decoder.AddCodeword(p, raw) cw, out
  hide cntdefs
  local w *PendingCodeword
  before decodeCodewords: cnt_zero(elems(arg1, ""), off(arg1))
  before decodeCodewords: cnt_step(elems(arg1, ""), off(arg1), 1)
  requires setup(p) && present(raw)
  requires state(p)
  requires settled(p)
  requires size: MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized
  requires honest: HONEST() ==> (forall b int {rx(elems(raw.Members, ""), off(raw.Members), len(raw.Members), b)} :: abit(raw.Symbol, b) == rx(elems(raw.Members, ""), off(raw.Members), len(raw.Members), b))
  modifies mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword"), $tp, $cp, $cws, $oi, $oc, p.numTransactionsDecoded, $cws, $mo, $bo, all("PendingCodeword", "freed"), all("pendingTransaction", "saltedHash")
  loop 1
    ghost $cws := upd($cws, ref(w), true)
    invariant pendOK(p)
    invariant links(p)
    invariant linksOurs(p)
    invariant memApart()
    invariant pooled()
    invariant recvOK(p)
    invariant recvHonest(p)
    invariant namedHere: forall h int {pdom(p)[h]} :: pdom(p)[h] ==> old(pdom(p)[h]) || (exists y int {elems(raw.Members, "")[y]} :: off(raw.Members) <= y && y < off(raw.Members) + $k && elems(raw.Members, "")[y] == h)
    invariant new: !w.queued && !w.decoded
    invariant forall c int {CW(c).decoded} :: $cws[c] && c != ref(w) ==> CW(c).queued == CW(c).decoded && ite(CW(c).decoded, len(CW(c).members) == 0, len(CW(c).members) >= 2)
    invariant sums: forall c int, b int {mxs(c, b)} {abit(CW(c).symbol, b)} :: HONEST() && $cws[c] && !CW(c).decoded && c != ref(w) ==> !residual(c, b)
    invariant sum: HONEST() ==> (forall b int {mxs(ref(w), b)} {abit(w.symbol, b)} :: residual(ref(w), b) == xor(old(abit(raw.Symbol, b)), rx(elems(raw.Members, ""), off(raw.Members), $k, b)))
    start cnt_zero(mem(ref(w)), off(w.members))
    start xs_zero(mem(ref(w)), off(w.members), SH())
    start rx_zero(elems(raw.Members, ""), off(raw.Members))
    backghost $mo := ite(arr(w.members) == 0, $mo, upd($mo, arr(w.members), ref(w)))
    backghost $bo := ite(pdom(p)[mh(raw, head($k))], upd($bo, arr(PT(pnd(p, mh(raw, head($k)))).blocking), pnd(p, mh(raw, head($k)))), $bo)
    back head(rdom(p)[mh(raw, $k)]) ==> (let x := head(rcv(p, mh(raw, $k))) :: forall b int {abit(w.symbol, b)} :: abit(w.symbol, b) == xor(head(abit(w.symbol, b)), txb(x, b)))
    back !head(rdom(p)[mh(raw, $k)]) ==> (forall b int {abit(w.symbol, b)} :: abit(w.symbol, b) == head(abit(w.symbol, b)))
    back cnt_ext(head(mem(ref(w))), mem(ref(w)), head(off(w.members)), off(w.members), head(len(w.members)))
    back cnt_step(mem(ref(w)), off(w.members), head(len(w.members)) + 1)
    back xs_ext(head(mem(ref(w))), mem(ref(w)), head(off(w.members)), off(w.members), head(len(w.members)), SH(), SH())
    back forall b int {xs(head(mem(ref(w))), head(off(w.members)), head(len(w.members)), SH(), b)} :: xs(head(mem(ref(w))), head(off(w.members)), head(len(w.members)), SH(), b) == head(mxs(ref(w), b))
    back xs_step(mem(ref(w)), off(w.members), head(len(w.members)) + 1, SH())
    back rx_step(elems(raw.Members, ""), off(raw.Members), head($k) + 1)
    back cnt_ext(head(blk(pnd(p, mh(raw, $k)))), blk(pnd(p, mh(raw, head($k)))), head(off(PT(pnd(p, mh(raw, $k))).blocking)), off(PT(pnd(p, mh(raw, head($k)))).blocking), head(len(PT(pnd(p, mh(raw, $k))).blocking)))
    back cnt_step(blk(pnd(p, mh(raw, head($k)))), off(PT(pnd(p, mh(raw, head($k)))).blocking), len(PT(pnd(p, mh(raw, head($k)))).blocking))
    back cnt_zero(blk(pnd(p, mh(raw, head($k)))), off(PT(pnd(p, mh(raw, head($k)))).blocking))
    back forall c int, t int {mcnt(c, t)} :: $cws[c] && c != ref(w) ==> mcnt(c, t) == head(mcnt(c, t))
    back let m := pnd(p, mh(raw, head($k))) :: forall t int {mcnt(ref(w), t)} :: mcnt(ref(w), t) == head(mcnt(ref(w), t)) + ite(pdom(p)[mh(raw, head($k))] && t == m, 1, 0)
    back let m := pnd(p, mh(raw, head($k))) :: forall t int, c int {bcnt(t, c)} :: live(p, t) && t != m ==> head(live(p, t)) && bcnt(t, c) == head(bcnt(t, c))
  end
  ensures outRef: forall x int {od(out)[x]} :: inRange(out, x) ==> od(out)[x] != 0
  ensures expired: forall x int {elems(out, "Expired")[x]} :: inRange(out, x) ==> (elems(out, "Expired")[x] <==> CW($oc[x - off(out)]).freed)
  ensures outHash: forall x int {od(out)[x]} :: OUT() && inRange(out, x) ==> (let key := keyT(p, od(out)[x]) :: old(pdom(p)[key]) || (exists y int {elems(raw.Members, "")[y]} :: inRange(raw.Members, y) && elems(raw.Members, "")[y] == key))
  ensures outData: forall x int, b int {od(out)[x], hb(keyT(p, od(out)[x]), b)} :: OUT() && HONEST() && inRange(out, x) ==> txb(od(out)[x], b) == hb(keyT(p, od(out)[x]), b)
  ensures released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) ==> 0 <= $oi[h] && $oi[h] < len(out) && keyT(p, od(out)[off(out) + $oi[h]]) == h
  ensures handedOut: $cws[ref(cw)] && !cw.freed && !old($cws[ref(cw)])
  ensures keepsFreed: forall c int {CW(c).freed} :: old($cws[c]) ==> CW(c).freed == old(CW(c).freed)
  ensures keptForCaller: forall c int {$cws[c]} {old($cws[c])} :: old($cws[c]) && !CW(c).freed ==> $cws[c]
  ensures lifecycle: forall c int {$cws[c]} {old($cws[c])} {$cp[c]} :: old($cws[c]) ==> $cws[c] || $cp[c]
  ensures settled: settled(p)
  ensures pend: pendOK(p)
  ensures links: links(p)
  ensures linksOurs: linksOurs(p)
  ensures memApart()
  ensures pooled()
  ensures remembered(p)
  ensures recvOK(p)
  ensures recvHonest(p)
  ensures sumsOK()
  ensures recycled: recycled()
  ensures size: MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized
func Decoder.NumTransactionsReceived(p) r
  ensures r == p.numTransactionsDecoded
