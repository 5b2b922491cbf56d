include hash.inc
include sym.inc
// bit b of the transaction that is encoded under a salted hash
logic hb(int, int) bool
include pd_lemmas.inc
// the codewords the decoder works on
ghostvar $cws : (Array Int Bool)
define CW(c) = at(c, "*PendingCodeword")
define PT(t) = at(t, "*pendingTransaction")
define mem(c) = elems(CW(c).members, "")
define blk(t) = elems(PT(t).blocking, "")
// how often codeword c names transaction t, and how often t lists c as blocked
define mcnt(c, t) = cnt(mem(c), off(CW(c).members), len(CW(c).members), t)
define bcnt(t, c) = cnt(blk(t), off(PT(t).blocking), len(PT(t).blocking), c)
define SH() = heapof("pendingTransaction", "saltedHash")
define mxs(c, b) = xs(mem(c), off(CW(c).members), len(CW(c).members), SH(), b)
define qcnt(q, c) = cnt(elems(q, ""), off(q), len(q), c)
// member lists share no memory: whose list a piece of memory holds
ghostvar $mo : (Array Int Int)
define memApart() = forall c int {arr(CW(c).members)} :: $cws[c] ==> 0 < c && c < alloc() && (len(CW(c).members) == 0 || arr(CW(c).members) != 0) && (arr(CW(c).members) != 0 ==> $mo[arr(CW(c).members)] == c)
// symbols of codewords are not shared: which codeword a symbol belongs to
ghostvar $so : (Array Int Int)
define symApart() = (forall c int {CW(c).symbol} :: $cws[c] && CW(c).symbol != 0 ==> $so[CW(c).symbol] == c) && (forall v int {$so[v]} :: (v >= alloc() ==> $so[v] == 0) && $so[v] < alloc()) && !$cws[0]
// data that is no codeword's symbol
define apart(v) = v == 0 || !$cws[$so[v]]
define residual(c, b) = xor(tbit(con(CW(c).symbol), b), mxs(c, b))
// what queued means
define queueOK(q) = (forall c int {qcnt(q, c)} :: qcnt(q, c) >= 1 ==> $cws[c] && CW(c).queued) && (forall c int {CW(c).queued} :: $cws[c] ==> (CW(c).queued <==> len(CW(c).members) <= 1))
logic chash(int) int
assume equal contents have equal Hash bytes, and the bytes returned by Hash are not changed afterwards
extern T Hash(a) r
  ensures bytesOf(elems(r, ""), off(r), len(r)) == chash(con(a))
extern bytes Equal(a, b) r
  ensures r == (bytesOf(elems(a, ""), off(a), len(a)) == bytesOf(elems(b, ""), off(b), len(b)))
// all codewords and local transactions are honest
// (HONEST), the transactions handed out (OUT, RELEASED) and the bound on remembered
// transactions (MEM) are looked at by the including property or left out
ghostvar $bo : (Array Int Int)
define keyOf(p, content) = u32(hsum(habsorb(hempty(p.hasher), chash(content))))
define pdom(p) = dom(p.pendingTransactions)
define rdom(p) = dom(p.receivedTransactions)
define pnd(p, h) = ref(p.pendingTransactions[h])
define live(p, t) = t != 0 && pdom(p)[PT(t).saltedHash] && pnd(p, PT(t).saltedHash) == t
define rh(p) = elems(p.recentTransactions, "saltedHash")
define rd(p) = elems(p.recentTransactions, "Transaction.data")
define setup(p) = p.receivedTransactions != nil && p.pendingTransactions != nil && p.hasher != nil && p.memory >= 0
define pendOK(p) = forall h int {pdom(p)[h]} :: pdom(p)[h] ==> 0 < pnd(p, h) && pnd(p, h) < alloc() && PT(pnd(p, h)).saltedHash == h && len(PT(pnd(p, h)).blocking) >= 1 && !rdom(p)[h] && $bo[arr(PT(pnd(p, h)).blocking)] == pnd(p, h) && arr(PT(pnd(p, h)).blocking) != 0
define links(p) = forall c int, t int {mcnt(c, t)} {bcnt(t, c)} :: $cws[c] ==> mcnt(c, t) == ite(live(p, t), bcnt(t, c), 0)
define linksOurs(p) = forall t int, c int {bcnt(t, c)} :: live(p, t) && bcnt(t, c) >= 1 ==> $cws[c]
// every remembered transaction is in the list of recent ones
define remembered(p) = MEM() ==> forall h int {rdom(p)[h]} :: rdom(p)[h] ==> (exists x int {rh(p)[x]} :: off(p.recentTransactions) <= x && x < off(p.recentTransactions) + len(p.recentTransactions) && rh(p)[x] == h && rd(p)[x] == p.receivedTransactions[h].data)
define recvOK(p) = forall h int {rdom(p)[h]} :: rdom(p)[h] ==> apart(p.receivedTransactions[h].data) && p.receivedTransactions[h].data < alloc()
define recvHonest(p) = forall h int, b int {hb(h, b)} :: HONEST() && rdom(p)[h] ==> tbit(con(p.receivedTransactions[h].data), b) == hb(h, b)
define sumsOK() = forall c int, b int {mxs(c, b)} {tbit(con(CW(c).symbol), b)} :: HONEST() && $cws[c] && !CW(c).decoded ==> !residual(c, b)
define qApart(p, q) = forall h int {pdom(p)[h]} :: pdom(p)[h] ==> arr(PT(pnd(p, h)).blocking) != arr(q)
define waiting(q) = forall c int {CW(c).decoded} {CW(c).queued} :: $cws[c] ==> (CW(c).decoded ==> CW(c).queued && len(CW(c).members) == 0) && (CW(c).queued && !CW(c).decoded ==> qcnt(q, c) >= 1)
// no hash is both known and pending; links match in both directions; nothing is shared
define state(p) = pendOK(p) && links(p) && linksOurs(p) && memApart() && symApart() && remembered(p) && recvOK(p) && recvHonest(p) && sumsOK()
define stored(p, q) = (MEM() ==> len(p.recentTransactions) <= p.memory) && queueOK(q) && waiting(q) && qApart(p, q)
define top(q) = elems(q, "")[off(q) + len(q) - 1]
define m1(c) = mem(c)[off(CW(c).members)]
// where a transaction released by a call stands in the list it returns
ghostvar $oi : (Array Int Int)
define od(s) = elems(s, "data")
// every codeword has been processed, or still waits for two or more transactions
define settled(p) = forall c int {CW(c).decoded} {len(CW(c).members)} :: $cws[c] ==> CW(c).queued == CW(c).decoded && ite(CW(c).decoded, len(CW(c).members) == 0, len(CW(c).members) >= 2)
define inRange(s, x) = off(s) <= x && x < off(s) + len(s)
define mh(raw, k) = elems(raw.members, "")[off(raw.members) + k]
