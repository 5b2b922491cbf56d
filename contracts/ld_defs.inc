include hash.inc
include txdata.inc
include blake.inc
// bit b of the transaction that is encoded under a salted hash
logic hb(int, int) bool
include pd_lemmas.inc
// the hash of a transaction that is no member does not matter
lemma xs_unlisted(A ints, o int, n int, S ints, r int, h int, b int)
  requires n >= 0
  requires cnt(A, o, n, r) == 0
  ensures xs(A, o, n, upd(S, r, h), b) == xs(A, o, n, S, b)
  induction n
  trigger xs(A, o, n, upd(S, r, h), b)
// bits of a payload: bit bu(b) of byte bk(b)
logic bk(int) int
logic bu(int) int
logic abit(ints, int) bool
smt
  (assert (forall ((b Int)) (! (and (<= 0 (bk b)) (< (bk b) 128)) :pattern ((bk b)))))
  (assert (forall ((b Int)) (! (and (<= 0 (bu b)) (< (bu b) 8)) :pattern ((bu b)))))
  (assert (forall ((A (Array Int Int)) (b Int)) (! (= (abit A b) (hbit (select A (bk b)) (bu b))) :pattern ((abit A b)))))
// the codewords the decoder works on: handed out and not recycled
ghostvar $cws : (Array Int Bool)
// objects in the recycling pools
ghostvar $cp : (Array Int Bool)
ghostvar $tp : (Array Int Bool)
define CW(c) = at(c, "*PendingCodeword")
define PT(t) = at(t, "*pendingTransaction")
define TX(t) = at(t, "*Transaction")
define mem(c) = elems(CW(c).members, "")
define blk(t) = elems(PT(t).blocking, "")
define mcnt(c, t) = cnt(mem(c), off(CW(c).members), len(CW(c).members), t)
define bcnt(t, c) = cnt(blk(t), off(PT(t).blocking), len(PT(t).blocking), c)
define SH() = heapof("pendingTransaction", "saltedHash")
define mxs(c, b) = xs(mem(c), off(CW(c).members), len(CW(c).members), SH(), b)
define qcnt(q, c) = cnt(elems(q, ""), off(q), len(q), c)
define sym(c) = arrayof(CW(c).symbol)
define txb(t, b) = abit(TX(t).serialized, b)
// whose list a piece of memory holds
ghostvar $mo : (Array Int Int)
ghostvar $bo : (Array Int Int)
define ours(c) = $cws[c] || $cp[c]
define memApart() = (forall c int {arr(CW(c).members)} :: ours(c) ==> 0 < c && c < alloc() && (len(CW(c).members) == 0 || arr(CW(c).members) != 0) && (arr(CW(c).members) != 0 ==> $mo[arr(CW(c).members)] == c)) && (forall c int {$cp[c]} :: $cp[c] ==> !$cws[c]) && !$cws[0] && !$cp[0]
define pooled() = forall t int {$tp[t]} :: $tp[t] ==> 0 < t && t < alloc() && (arr(PT(t).blocking) != 0 ==> $bo[arr(PT(t).blocking)] == t)
define residual(c, b) = xor(abit(CW(c).symbol, b), mxs(c, b))
define queueOK(q) = (forall c int {qcnt(q, c)} :: qcnt(q, c) >= 1 ==> $cws[c] && CW(c).queued) && (forall c int {CW(c).queued} :: $cws[c] ==> (CW(c).queued <==> len(CW(c).members) <= 1))
define keyT(p, t) = keyed(p.hasher, TX(t).hash)
define pdom(p) = dom(p.pendingTransactions)
define rdom(p) = dom(p.receivedTransactions)
define pnd(p, h) = ref(p.pendingTransactions[h])
define rcv(p, h) = ref(p.receivedTransactions[h])
define live(p, t) = t != 0 && pdom(p)[PT(t).saltedHash] && pnd(p, PT(t).saltedHash) == t
define rh(p) = elems(p.recentTransactions, "hash")
define rd(p) = elems(p.recentTransactions, "ptr")
define setup(p) = p.receivedTransactions != nil && p.pendingTransactions != nil && p.hasher != nil && p.numTransactionsMemorized >= 0
define pendOK(p) = forall h int {pdom(p)[h]} :: pdom(p)[h] ==> 0 < pnd(p, h) && pnd(p, h) < alloc() && PT(pnd(p, h)).saltedHash == h && len(PT(pnd(p, h)).blocking) >= 1 && !rdom(p)[h] && $bo[arr(PT(pnd(p, h)).blocking)] == pnd(p, h) && arr(PT(pnd(p, h)).blocking) != 0 && !$tp[pnd(p, h)]
define links(p) = forall c int, t int {mcnt(c, t)} {bcnt(t, c)} :: $cws[c] ==> mcnt(c, t) == ite(live(p, t), bcnt(t, c), 0)
define linksOurs(p) = forall t int, c int {bcnt(t, c)} :: live(p, t) && bcnt(t, c) >= 1 ==> $cws[c]
define remembered(p) = MEM() ==> forall h int {rdom(p)[h]} :: rdom(p)[h] ==> (exists x int {rh(p)[x]} :: off(p.recentTransactions) <= x && x < off(p.recentTransactions) + len(p.recentTransactions) && rh(p)[x] == h && rd(p)[x] == rcv(p, h))
define recvOK(p) = forall h int {rdom(p)[h]} :: rdom(p)[h] ==> rcv(p, h) != 0 && rcv(p, h) < alloc()
define recvHonest(p) = forall h int, b int {hb(h, b)} :: HONEST() && rdom(p)[h] ==> txb(rcv(p, h), b) == hb(h, b)
define sumsOK() = forall c int, b int {mxs(c, b)} {abit(CW(c).symbol, b)} :: HONEST() && $cws[c] && !CW(c).decoded ==> !residual(c, b)
define qApart(p, q) = forall h int {pdom(p)[h]} :: pdom(p)[h] ==> arr(PT(pnd(p, h)).blocking) != arr(q)
define waiting(q) = forall c int {CW(c).decoded} {CW(c).queued} :: $cws[c] ==> (CW(c).decoded ==> CW(c).queued && len(CW(c).members) == 0) && (CW(c).queued && !CW(c).decoded ==> qcnt(q, c) >= 1)
// a codeword that is done and freed by the caller is not kept but recycled
define recycled() = forall c int {CW(c).decoded} {CW(c).freed} :: $cws[c] ==> !(CW(c).decoded && CW(c).freed)
define state(p) = pendOK(p) && links(p) && linksOurs(p) && memApart() && pooled() && remembered(p) && recvOK(p) && recvHonest(p) && sumsOK() && recycled()
define once(q) = forall c int {qcnt(q, c)} :: qcnt(q, c) <= 1
define stored(p, q) = once(q) && (MEM() ==> len(p.recentTransactions) <= p.numTransactionsMemorized) && queueOK(q) && waiting(q) && qApart(p, q)
define top(q) = elems(q, "")[off(q) + len(q) - 1]
define m1(c) = mem(c)[off(CW(c).members)]
ghostvar $oi : (Array Int Int)
// the codeword a transaction in that list was decoded from
ghostvar $oc : (Array Int Int)
define od(s) = elems(s, "Transaction")
define settled(p) = forall c int {CW(c).decoded} {len(CW(c).members)} :: $cws[c] ==> CW(c).queued == CW(c).decoded && ite(CW(c).decoded, len(CW(c).members) == 0, len(CW(c).members) >= 2)
define inRange(s, x) = off(s) <= x && x < off(s) + len(s)
define mh(raw, k) = elems(raw.Members, "")[off(raw.Members) + k]
assume sync.Pool.Get returns what Pool.New makes or an object handed to Put before, to one caller at a time; objects in a pool that other decoders put there are reachable from nowhere else
extern sync Pool.Get@ldpc.pendingTransactionPool(p) r
  modifies $tp
  ensures is(r, "*pendingTransaction")
  ensures let t := ref(as(r, "*pendingTransaction")) :: t != 0 && $tp == upd(old($tp), t, false) && (old($tp[t]) || fresh(as(r, "*pendingTransaction")) && arr(PT(t).blocking) == 0)
extern sync Pool.Put@ldpc.pendingTransactionPool(p, r)
  requires is(r, "*pendingTransaction") && as(r, "*pendingTransaction") != 0
  requires onceOnly: !$tp[ref(as(r, "*pendingTransaction"))]
  modifies $tp
  ensures let t := ref(as(r, "*pendingTransaction")) :: $tp == upd(old($tp), t, true)
extern sync Pool.Get@ldpc.pendingCodewordPool(p) r
  modifies $cp
  ensures is(r, "*PendingCodeword")
  ensures let c := ref(as(r, "*PendingCodeword")) :: c != 0 && $cp == upd(old($cp), c, false) && (old($cp[c]) || fresh(as(r, "*PendingCodeword")) && arr(CW(c).members) == 0)
extern sync Pool.Put@ldpc.pendingCodewordPool(p, r)
  requires is(r, "*PendingCodeword") && as(r, "*PendingCodeword") != 0
  requires onceOnly: $cws[ref(as(r, "*PendingCodeword"))] && !$cp[ref(as(r, "*PendingCodeword"))]
  requires handshake: CW(ref(as(r, "*PendingCodeword"))).decoded && CW(ref(as(r, "*PendingCodeword"))).freed
  modifies $cp, $cws
  ensures let c := ref(as(r, "*PendingCodeword")) :: $cp == upd(old($cp), c, true) && $cws == upd(old($cws), c, false)
package ldpc
func pendingTransactionPool.New() r
  ensures fresh: is(r, "*pendingTransaction") && fresh(as(r, "*pendingTransaction"))
  ensures clean: arr(PT(ref(as(r, "*pendingTransaction"))).blocking) == 0
func pendingCodewordPool.New() r
  ensures fresh: is(r, "*PendingCodeword") && fresh(as(r, "*PendingCodeword"))
  ensures clean: arr(CW(ref(as(r, "*PendingCodeword"))).members) == 0
