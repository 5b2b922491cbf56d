func PendingCodeword.peelTransaction(cw, stub, data)
  hide cntdefs
  requires linked: mcnt(ref(cw), ref(stub)) >= 1
  requires cw.symbol == 0 || $so[cw.symbol] == ref(cw)
  modifies cw.members, cw.members[*], cw.symbol, $tc, $so
  ghost $so := upd($so, cw.symbol, ref(cw))
  loop 1
    invariant forall x int {elems(cw.members, "")[x]} :: off(cw.members) <= x && x < off(cw.members) + $k ==> elems(cw.members, "")[x] != ref(stub)
    head cnt_absent(elems(cw.members, ""), off(cw.members), $k, ref(stub))
  end
  exit cnt_swaprm(old(mem(ref(cw))), mem(ref(cw)), off(cw.members), old(len(cw.members)), $k)
  exit xs_swaprm(old(mem(ref(cw))), mem(ref(cw)), off(cw.members), old(len(cw.members)), $k, SH())
  ensures shrunk: len(cw.members) == old(len(cw.members)) - 1 && off(cw.members) == old(off(cw.members)) && arr(cw.members) == old(arr(cw.members))
  ensures oneLinkLess: forall t int {mcnt(ref(cw), t)} :: mcnt(ref(cw), t) == old(mcnt(ref(cw), t)) - ite(t == ref(stub), 1, 0)
  ensures sum: forall b int {mxs(ref(cw), b)} :: mxs(ref(cw), b) == xor(old(mxs(ref(cw), b)), hb(stub.saltedHash, b))
  ensures symbol: cw.symbol != 0 && (cw.symbol == old(cw.symbol) || fresh(cw.symbol))
  ensures peeled: forall b int {tbit(con(cw.symbol), b)} :: tbit(con(cw.symbol), b) == xor(old(tbit(con(cw.symbol), b)), old(tbit(con(data), b)))
  ensures others: forall v int {$tc[v]} :: (v != old(cw.symbol) || v == 0) && v != cw.symbol ==> $tc[v] == old($tc[v])
  ensures $so == upd(old($so), cw.symbol, ref(cw))
func PendingCodeword.failToDecode(cw) h, t, gone
  hide cntdefs
  requires len(cw.members) == 1 && cw.members[0] != nil
  requires linked: bcnt(ref(cw.members[0]), ref(cw)) >= 1
  modifies cw.members, cw.members[*], cw.members[0].blocking, cw.members[0].blocking[*]
  loop 1
    invariant forall x int {old(elems(cw.members[0].blocking, ""))[x]} :: old(off(cw.members[0].blocking)) <= x && x < old(off(cw.members[0].blocking)) + $k ==> old(elems(cw.members[0].blocking, ""))[x] != ref(cw)
    head cnt_absent(old(elems(cw.members[0].blocking, "")), old(off(cw.members[0].blocking)), $k, ref(cw))
  end
  exit let m := old(ref(cw.members[0])) :: let B := old(blk(ref(cw.members[0]))) :: true
  exit cnt_swaprm(old(blk(ref(cw.members[0]))), blk(old(ref(cw.members[0]))), old(off(cw.members[0].blocking)), old(len(cw.members[0].blocking)), $k)
  ensures emptied: len(cw.members) == 0 && arr(cw.members) == old(arr(cw.members)) && off(cw.members) == old(off(cw.members))
  ensures one: let m := old(ref(cw.members[0])) :: len(PT(m).blocking) == old(len(cw.members[0].blocking)) - 1 && off(PT(m).blocking) == old(off(cw.members[0].blocking)) && arr(PT(m).blocking) == old(arr(cw.members[0].blocking))
  ensures oneLinkLess: let m := old(ref(cw.members[0])) :: forall c int {bcnt(m, c)} :: bcnt(m, c) == old(bcnt(ref(cw.members[0]), c)) - ite(c == ref(cw), 1, 0)
  ensures result: let m := old(ref(cw.members[0])) :: gone == (len(PT(m).blocking) == 0) && (gone ==> h == PT(m).saltedHash && ref(t) == m)
func pendingTransaction.markDecoded(tx, data, queue) q
  hide cntdefs
  requires linked: forall c int {mcnt(c, ref(tx))} {bcnt(ref(tx), c)} :: $cws[c] ==> mcnt(c, ref(tx)) == bcnt(ref(tx), c)
  requires onlyOurs: forall c int {bcnt(ref(tx), c)} :: bcnt(ref(tx), c) >= 1 ==> $cws[c]
  requires memApart() && symApart()
  requires apart(data)
  requires apart: arr(queue) != arr(tx.blocking)
  requires queueOK(queue)
  modifies tx.blocking[*], queue[*], all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), allelems("*pendingTransaction"), $tc, $so
  loop 1
    invariant arr(queue) != arr(tx.blocking) && (arr(queue) == old(arr(queue)) || fresh(queue))
    head cnt_front(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k)
    head $k < len(tx.blocking) ==> let c := blk(ref(tx))[off(tx.blocking) + $k] :: cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c) >= 1 && $cws[c] && mcnt(c, ref(tx)) >= 1
    invariant forall x int {blk(ref(tx))[x]} :: off(tx.blocking) + $k <= x && x < off(tx.blocking) + len(tx.blocking) ==> blk(ref(tx))[x] == old(blk(ref(tx)))[x]
    invariant linked: forall c int {mcnt(c, ref(tx))} :: $cws[c] ==> mcnt(c, ref(tx)) == cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c)
    invariant onlyOurs: forall c int {cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c)} :: cnt(old(blk(ref(tx))), off(tx.blocking) + $k, len(tx.blocking) - $k, c) >= 1 ==> $cws[c]
    invariant memApart()
    invariant symApart()
    invariant forall v int {$so[v]} :: v < old(alloc()) ==> $so[v] == old($so[v])
    invariant content: forall v int {$tc[v]} :: v < old(alloc()) && apart(v) ==> $tc[v] == old($tc[v])
    invariant sums: honest(tx, data) ==> (forall c int, b int {mxs(c, b)} {tbit(con(CW(c).symbol), b)} :: $cws[c] ==> residual(c, b) == old(residual(c, b)))
    invariant rest: forall c int, t int {mcnt(c, t)} :: $cws[c] && t != ref(tx) ==> mcnt(c, t) == old(mcnt(c, t))
    invariant length: forall c int {len(CW(c).members)} :: $cws[c] ==> len(CW(c).members) - mcnt(c, ref(tx)) == old(len(CW(c).members) - mcnt(c, ref(tx)))
    invariant queueOK(queue)
    invariant kept: forall c int {CW(c).queued} :: $cws[c] && old(CW(c).queued) ==> CW(c).queued
    invariant pushed: forall c int {qcnt(queue, c)} {CW(c).queued} :: $cws[c] ==> qcnt(queue, c) == old(qcnt(queue, c)) + ite(CW(c).queued && !old(CW(c).queued), 1, 0)
    back cnt_ext(head(elems(queue, "")), elems(queue, ""), head(off(queue)), off(queue), head(len(queue)))
    back cnt_step(elems(queue, ""), off(queue), head(len(queue)) + 1)
    back forall c int {qcnt(queue, c)} {head(qcnt(queue, c))} :: qcnt(queue, c) == head(qcnt(queue, c)) + ite(len(queue) > head(len(queue)) && elems(queue, "")[off(queue) + len(queue) - 1] == c, 1, 0)
  end
  exit cnt_zero(old(blk(ref(tx))), off(tx.blocking) + len(tx.blocking))
  exit $k == len(tx.blocking)
  ensures unlinked: forall c int {mcnt(c, ref(tx))} :: $cws[c] ==> mcnt(c, ref(tx)) == 0
  ensures rest: forall c int, t int {mcnt(c, t)} :: $cws[c] && t != ref(tx) ==> mcnt(c, t) == old(mcnt(c, t))
  ensures length: forall c int {len(CW(c).members)} :: $cws[c] ==> len(CW(c).members) == old(len(CW(c).members) - mcnt(c, ref(tx)))
  ensures memApart() && symApart()
  ensures forall v int {$so[v]} :: v < old(alloc()) ==> $so[v] == old($so[v])
  ensures content: forall v int {$tc[v]} :: v < old(alloc()) && apart(v) ==> $tc[v] == old($tc[v])
  ensures sums: old(honest(tx, data)) ==> (forall c int, b int {mxs(c, b)} {tbit(con(CW(c).symbol), b)} :: $cws[c] ==> residual(c, b) == old(residual(c, b)))
  ensures queue: queueOK(q) && (arr(q) == arr(queue) || fresh(q))
  ensures kept: forall c int {CW(c).queued} :: $cws[c] && old(CW(c).queued) ==> CW(c).queued
  ensures pushed: forall c int {qcnt(q, c)} {CW(c).queued} :: $cws[c] ==> qcnt(q, c) == old(qcnt(queue, c)) + ite(CW(c).queued && !old(CW(c).queued), 1, 0)
func Decoder.storeNewTransaction(p, saltedHash, t)
  requires p.receivedTransactions != nil && p.memory >= 0
  requires remembered(p)
  modifies mapof(p.receivedTransactions), p.recentTransactions, p.recentTransactions[*]
  loop 1
    start forall x int {old(rh(p))[x]} :: old(off(p.recentTransactions)) <= x && x < old(off(p.recentTransactions) + len(p.recentTransactions)) ==> rh(p)[x - old(off(p.recentTransactions)) + off(p.recentTransactions)] == old(rh(p))[x] && rd(p)[x - old(off(p.recentTransactions)) + off(p.recentTransactions)] == old(rd(p))[x]
    start forall x int {rh(p)[x]} :: off(p.recentTransactions) <= x && x < old(len(p.recentTransactions)) + off(p.recentTransactions) ==> rh(p)[x] == old(rh(p))[x + old(off(p.recentTransactions)) - off(p.recentTransactions)] && rd(p)[x] == old(rd(p))[x + old(off(p.recentTransactions)) - off(p.recentTransactions)]
    start let n := off(p.recentTransactions) + len(p.recentTransactions) - 1 :: rh(p)[n] == old(saltedHash) && rd(p)[n] == old(t.data)
    invariant len(p.recentTransactions) <= pre(len(p.recentTransactions)) && off(p.recentTransactions) == pre(off(p.recentTransactions)) + pre(len(p.recentTransactions)) - len(p.recentTransactions)
    invariant arr(p.recentTransactions) == pre(arr(p.recentTransactions))
    invariant MEM() ==> len(p.recentTransactions) >= p.memory || len(p.recentTransactions) == pre(len(p.recentTransactions))
    invariant remembered(p)
    invariant forall g int {rdom(p)[g]} :: rdom(p)[g] ==> pre(rdom(p)[g]) && p.receivedTransactions[g] == pre(p.receivedTransactions[g])
    invariant MEM() && old(forall x int {rh(p)[x]} :: inRange(p.recentTransactions, x) ==> rh(p)[x] != saltedHash) && p.memory >= 1 ==> rdom(p)[old(saltedHash)]
    invariant oldestFirst: MEM() ==> forall g int {rdom(p)[g]} :: pre(rdom(p)[g]) && !rdom(p)[g] ==> (exists x int {rh(p)[x]} :: pre(off(p.recentTransactions)) <= x && x < off(p.recentTransactions) && rh(p)[x] == g)
    decreases len(p.recentTransactions)
  end
  ensures oldestFirst: MEM() ==> forall g int {rdom(p)[g]} :: old(rdom(p)[g]) && g != saltedHash && !rdom(p)[g] ==> (exists x int {old(rh(p))[x]} :: old(off(p.recentTransactions)) <= x && x < old(off(p.recentTransactions) + len(p.recentTransactions)) + 1 - len(p.recentTransactions) && old(rh(p))[x] == g)
  ensures order: MEM() ==> forall x int {rh(p)[x]} :: off(p.recentTransactions) <= x && x < off(p.recentTransactions) + len(p.recentTransactions) - 1 ==> (let y := x - off(p.recentTransactions) :: let c := ite(old(len(p.recentTransactions)) + 1 > p.memory, old(len(p.recentTransactions)) + 1 - p.memory, 0) :: rh(p)[x] == old(rh(p)[y + c + off(p.recentTransactions)]) && rd(p)[x] == old(rd(p)[y + c + off(p.recentTransactions)]))
  ensures last: MEM() && len(p.recentTransactions) > 0 ==> p.recentTransactions[len(p.recentTransactions) - 1].saltedHash == saltedHash && p.recentTransactions[len(p.recentTransactions) - 1].Transaction == old(t)
  ensures size: MEM() ==> len(p.recentTransactions) == ite(old(len(p.recentTransactions)) + 1 > p.memory, p.memory, old(len(p.recentTransactions)) + 1)
  ensures remembered: remembered(p)
  ensures arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
  ensures taken: MEM() && p.memory >= 1 && (forall x int {old(rh(p))[x]} :: old(inRange(p.recentTransactions, x)) ==> old(rh(p))[x] != saltedHash) ==> rdom(p)[saltedHash] && p.receivedTransactions[saltedHash] == old(t)
  ensures stored: forall g int {rdom(p)[g]} :: rdom(p)[g] ==> (g == saltedHash && p.receivedTransactions[g] == old(t) || g != saltedHash && old(rdom(p)[g]) && p.receivedTransactions[g] == old(p.receivedTransactions[g]))
func Decoder.decodeCodewords(p, queue) out
  hide cntdefs
  local nt []Transaction
  requires setup(p)
  requires state(p)
  requires stored(p, queue)
  modifies queue[*], mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword"), $tc, $so, $oi
  loop 1
    decreases len(p.pendingTransactions)
    decreases len(queue)
    invariant pendOK(p)
    invariant links(p)
    invariant linksOurs(p)
    invariant memApart()
    invariant symApart()
    invariant remembered(p)
    invariant recvOK(p)
    invariant recvHonest(p)
    invariant sumsOK()
    invariant MEM() ==> len(p.recentTransactions) <= p.memory
    invariant queueOK(queue)
    invariant waiting(queue)
    invariant qApart(p, queue)
    invariant arr(p.recentTransactions) == old(arr(p.recentTransactions)) || fresh(p.recentTransactions)
    invariant fresh(nt)
    invariant outSep: forall x int {od(nt)[x]} :: off(nt) <= x && x < off(nt) + len(nt) ==> apart(od(nt)[x]) && od(nt)[x] < alloc() && od(nt)[x] != 0
    invariant outHash: forall x int {od(nt)[x]} :: OUT() && off(nt) <= x && x < off(nt) + len(nt) ==> (let key := keyOf(p, con(od(nt)[x])) :: old(pdom(p)[key]))
    invariant outData: forall x int, b int {od(nt)[x], hb(keyOf(p, con(od(nt)[x])), b)} :: OUT() && HONEST() && off(nt) <= x && x < off(nt) + len(nt) ==> tbit(con(od(nt)[x]), b) == hb(keyOf(p, con(od(nt)[x])), b)
    invariant released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) ==> 0 <= $oi[h] && $oi[h] < len(nt) && keyOf(p, con(od(nt)[off(nt) + $oi[h]])) == h
    invariant allDecoded: forall c int {CW(c).decoded} :: $cws[c] && old(CW(c).decoded) ==> CW(c).decoded
    invariant named: forall h int {pdom(p)[h]} :: pdom(p)[h] ==> old(pdom(p)[h])
    head cnt_has(elems(queue, ""), off(queue), len(queue), len(queue) - 1)
    head cnt_step(elems(queue, ""), off(queue), len(queue))
    head cnt_zero(elems(queue, ""), off(queue))
    head len(queue) > 0 ==> $cws[top(queue)] && CW(top(queue)).queued && top(queue) != 0
    head cnt_step(mem(top(queue)), off(CW(top(queue)).members), 1)
    head cnt_zero(mem(top(queue)), off(CW(top(queue)).members))
    head xs_step(mem(top(queue)), off(CW(top(queue)).members), 1, SH())
    head xs_zero(mem(top(queue)), off(CW(top(queue)).members), SH())
    head single: len(queue) > 0 && len(CW(top(queue)).members) == 1 ==> (let m := m1(top(queue)) :: mcnt(top(queue), m) == 1 && live(p, m) && bcnt(m, top(queue)) == 1)
    back forall x int {head(od(nt))[x]} :: head(off(nt)) <= x && x < head(off(nt) + len(nt)) ==> od(nt)[x - head(off(nt)) + off(nt)] == head(od(nt))[x] && con(od(nt)[x - head(off(nt)) + off(nt)]) == head(con(od(nt)[x]))
    back len(nt) > head(len(nt)) ==> (let n := off(nt) + len(nt) - 1 :: keyOf(p, con(od(nt)[n])) == head(PT(m1(top(queue))).saltedHash))
    back forall h int {rdom(p)[h]} :: rdom(p)[h] ==> head(rdom(p)[h]) || len(nt) > head(len(nt)) && h == head(PT(m1(top(queue))).saltedHash)
    backghost $oi := ite(len(nt) > head(len(nt)), upd($oi, head(PT(m1(top(queue))).saltedHash), len(nt) - 1), $oi)
    back cnt_zero(mem(head(top(queue))), off(CW(head(top(queue))).members))
    back cnt_zero(blk(head(m1(top(queue)))), off(PT(head(m1(top(queue)))).blocking))
  end
  ensures outSep: forall x int {od(out)[x]} :: off(out) <= x && x < off(out) + len(out) ==> apart(od(out)[x]) && od(out)[x] != 0
  ensures outHash: forall x int {od(out)[x]} :: OUT() && off(out) <= x && x < off(out) + len(out) ==> (let key := keyOf(p, con(od(out)[x])) :: old(pdom(p)[key]))
  ensures outData: forall x int, b int {od(out)[x], hb(keyOf(p, con(od(out)[x])), b)} :: OUT() && HONEST() && off(out) <= x && x < off(out) + len(out) ==> tbit(con(od(out)[x]), b) == hb(keyOf(p, con(od(out)[x])), b)
  ensures released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) ==> 0 <= $oi[h] && $oi[h] < len(out) && keyOf(p, con(od(out)[off(out) + $oi[h]])) == h
  ensures settled: settled(p)
  ensures pend: pendOK(p)
  ensures links: links(p)
  ensures linksOurs: linksOurs(p)
  ensures memApart()
  ensures symApart()
  ensures remembered(p)
  ensures recvOK(p)
  ensures recvHonest(p)
  ensures sumsOK()
  ensures size: MEM() ==> len(p.recentTransactions) <= p.memory
func NewDecoder(salt, memory) p
  requires memory >= 0
  requires fresh: (forall c int {$cws[c]} :: !$cws[c]) && (forall v int {$so[v]} :: $so[v] == 0)
  modifies $hs
  ensures fresh(p)
  ensures setup: setup(p) && p.memory == memory && hempty(p.hasher) == hkey(bytesOf(salt, 0, 16))
  ensures empty: (forall h int {rdom(p)[h]} :: !rdom(p)[h]) && (forall h int {pdom(p)[h]} :: !pdom(p)[h]) && len(p.recentTransactions) == 0
  ensures state(p)
  ensures settled(p)
func PendingCodeword.Decoded(cw) r
  ensures r == cw.decoded
func Decoder.AddTransaction(p, t) out
  hide cntdefs
  before markDecoded: cnt_zero(elems(arg2, ""), off(arg2))
  requires setup(p)
  requires state(p)
  requires settled(p)
  requires size: MEM() ==> len(p.recentTransactions) <= p.memory
  requires apart(t.data)
  requires honest: HONEST() ==> (forall b int {hb(keyed(p.hasher, t.hash), b)} :: tbit(con(t.data), b) == hb(keyed(p.hasher, t.hash), b))
  modifies mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword"), $tc, $so, $oi
  ensures outSep: forall x int {od(out)[x]} :: inRange(out, x) ==> apart(od(out)[x]) && od(out)[x] != 0
  ensures outHash: forall x int {od(out)[x]} :: OUT() && inRange(out, x) ==> (let key := keyOf(p, con(od(out)[x])) :: old(pdom(p)[key]))
  ensures outData: forall x int, b int {od(out)[x], hb(keyOf(p, con(od(out)[x])), b)} :: OUT() && HONEST() && inRange(out, x) ==> tbit(con(od(out)[x]), b) == hb(keyOf(p, con(od(out)[x])), b)
  ensures released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) && h != keyed(p.hasher, old(t.hash)) ==> 0 <= $oi[h] && $oi[h] < len(out) && keyOf(p, con(od(out)[off(out) + $oi[h]])) == h
  ensures settled: settled(p)
  ensures pend: pendOK(p)
  ensures links: links(p)
  ensures linksOurs: linksOurs(p)
  ensures memApart()
  ensures symApart()
  ensures remembered(p)
  ensures recvOK(p)
  ensures recvHonest(p)
  ensures sumsOK()
  ensures size: MEM() ==> len(p.recentTransactions) <= p.memory
  ensures taken: let key := keyed(p.hasher, old(t.hash)) :: MEM() && p.memory >= 1 && !old(pdom(p)[keyed(p.hasher, t.hash)]) && (forall x int {old(rh(p))[x]} :: old(inRange(p.recentTransactions, x)) ==> old(rh(p))[x] != key) ==> rdom(p)[key]
  ensures known: MEM() && old(let key := keyed(p.hasher, t.hash) :: rdom(p)[key] && bytesOf(elems(p.receivedTransactions[key].hash, ""), off(p.receivedTransactions[key].hash), len(p.receivedTransactions[key].hash)) == bytesOf(elems(t.hash, ""), off(t.hash), len(t.hash))) ==> len(out) == 0 && p.recentTransactions == old(p.recentTransactions) && rdom(p) == old(rdom(p)) && pdom(p) == old(pdom(p))
func Decoder.AddCodeword(p, raw) cw, out
  hide cntdefs
  local w *PendingCodeword
  before decodeCodewords: cnt_zero(elems(arg1, ""), off(arg1))
  before decodeCodewords: cnt_step(elems(arg1, ""), off(arg1), 1)
  requires setup(p)
  requires state(p)
  requires settled(p)
  requires size: MEM() ==> len(p.recentTransactions) <= p.memory
  requires ownSymbol: raw.symbol == 0 || apart(raw.symbol) && (forall h int {rdom(p)[h]} :: rdom(p)[h] ==> p.receivedTransactions[h].data != raw.symbol)
  requires honest: HONEST() ==> (forall b int {rx(elems(raw.members, ""), off(raw.members), len(raw.members), b)} :: tbit(con(raw.symbol), b) == rx(elems(raw.members, ""), off(raw.members), len(raw.members), b))
  modifies mapof(p.receivedTransactions), mapof(p.pendingTransactions), p.recentTransactions, p.recentTransactions[*], $hs, all("PendingCodeword", "members"), all("PendingCodeword", "symbol"), all("PendingCodeword", "queued"), all("PendingCodeword", "decoded"), allelems("*pendingTransaction"), all("pendingTransaction", "blocking"), allelems("*PendingCodeword"), $tc, $so, $oi, $cws, $mo, $bo
  loop 1
    ghost $cws := upd($cws, ref(w), true)
    ghost $so := ite(w.symbol == 0, $so, upd($so, w.symbol, ref(w)))
    invariant pendOK(p)
    invariant links(p)
    invariant linksOurs(p)
    invariant memApart()
    invariant symApart()
    invariant recvOK(p)
    invariant recvHonest(p)
    invariant namedHere: forall h int {pdom(p)[h]} :: pdom(p)[h] ==> old(pdom(p)[h]) || (exists y int {elems(raw.members, "")[y]} :: off(raw.members) <= y && y < off(raw.members) + $k && elems(raw.members, "")[y] == h)
    invariant new: !w.queued && !w.decoded
    invariant forall c int {CW(c).decoded} :: $cws[c] && c != ref(w) ==> CW(c).queued == CW(c).decoded && ite(CW(c).decoded, len(CW(c).members) == 0, len(CW(c).members) >= 2)
    invariant sums: forall c int, b int {mxs(c, b)} {tbit(con(CW(c).symbol), b)} :: HONEST() && $cws[c] && !CW(c).decoded && c != ref(w) ==> !residual(c, b)
    invariant sum: HONEST() ==> (forall b int {mxs(ref(w), b)} {tbit(con(w.symbol), b)} :: residual(ref(w), b) == xor(old(tbit(con(raw.symbol), b)), rx(elems(raw.members, ""), off(raw.members), $k, b)))
    start cnt_zero(mem(ref(w)), off(w.members))
    start xs_zero(mem(ref(w)), off(w.members), SH())
    start rx_zero(elems(raw.members, ""), off(raw.members))
    backghost $mo := ite(arr(w.members) == 0, $mo, upd($mo, arr(w.members), ref(w)))
    backghost $so := ite(w.symbol == 0, $so, upd($so, w.symbol, ref(w)))
    backghost $bo := ite(pdom(p)[mh(raw, head($k))], upd($bo, arr(PT(pnd(p, mh(raw, head($k)))).blocking), pnd(p, mh(raw, head($k)))), $bo)
    back cnt_ext(head(mem(ref(w))), mem(ref(w)), head(off(w.members)), off(w.members), head(len(w.members)))
    back cnt_step(mem(ref(w)), off(w.members), head(len(w.members)) + 1)
    back xs_ext(head(mem(ref(w))), mem(ref(w)), head(off(w.members)), off(w.members), head(len(w.members)), head(SH()), SH())
    back xs_step(mem(ref(w)), off(w.members), head(len(w.members)) + 1, SH())
    back rx_step(elems(raw.members, ""), off(raw.members), head($k) + 1)
    back cnt_ext(head(blk(pnd(p, mh(raw, $k)))), blk(pnd(p, mh(raw, head($k)))), head(off(PT(pnd(p, mh(raw, $k))).blocking)), off(PT(pnd(p, mh(raw, head($k)))).blocking), head(len(PT(pnd(p, mh(raw, $k))).blocking)))
    back cnt_step(blk(pnd(p, mh(raw, head($k)))), off(PT(pnd(p, mh(raw, head($k)))).blocking), len(PT(pnd(p, mh(raw, head($k)))).blocking))
    back cnt_zero(blk(pnd(p, mh(raw, head($k)))), off(PT(pnd(p, mh(raw, head($k)))).blocking))
  end
  ensures outSep: forall x int {od(out)[x]} :: inRange(out, x) ==> apart(od(out)[x]) && od(out)[x] != 0
  ensures outHash: forall x int {od(out)[x]} :: OUT() && inRange(out, x) ==> (let key := keyOf(p, con(od(out)[x])) :: old(pdom(p)[key]) || (exists y int {elems(raw.members, "")[y]} :: inRange(raw.members, y) && elems(raw.members, "")[y] == key))
  ensures outData: forall x int, b int {od(out)[x], hb(keyOf(p, con(od(out)[x])), b)} :: OUT() && HONEST() && inRange(out, x) ==> tbit(con(od(out)[x]), b) == hb(keyOf(p, con(od(out)[x])), b)
  ensures released: forall h int {rdom(p)[h]} :: RELEASED() && rdom(p)[h] && !old(rdom(p)[h]) ==> 0 <= $oi[h] && $oi[h] < len(out) && keyOf(p, con(od(out)[off(out) + $oi[h]])) == h
  ensures settled: settled(p)
  ensures pend: pendOK(p)
  ensures links: links(p)
  ensures linksOurs: linksOurs(p)
  ensures memApart()
  ensures symApart()
  ensures remembered(p)
  ensures recvOK(p)
  ensures recvHonest(p)
  ensures sumsOK()
  ensures size: MEM() ==> len(p.recentTransactions) <= p.memory
