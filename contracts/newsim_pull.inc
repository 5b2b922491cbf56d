// the announce/request protocol of the gossip simulator
include newsim_tx.inc
package newsim
// both servers list each other, with the link's delay, and keep their other links
define haslink(a, b, delay) = dom(a.handlers)[iface(b)] && vals(a.handlers, "delay")[iface(b)] == delay
define otherlinks(a, b) = a.handlers == old(a.handlers) && (forall k any {dom(a.handlers)[iface(k)]} :: iface(k) != iface(b) ==> dom(a.handlers)[iface(k)] == old(dom(a.handlers)[iface(k)]) && vals(a.handlers, "delay")[iface(k)] == old(vals(a.handlers, "delay")[iface(k)]) && vals(a.handlers, "algorithm")[iface(k)] == old(vals(a.handlers, "algorithm")[iface(k)]))
define listed(a, b) = len(a.peers) == old(len(a.peers)) + 1 && iface(a.peers[len(a.peers) - 1]) == iface(b) && (forall i in old(a.peers) :: a.peers[i] == old(a.peers[i]))
define bothLinked(a, b, delay) = haslink(a, b, delay) && haslink(b, a, delay) && otherlinks(a, b) && otherlinks(b, a) && listed(a, b) && listed(b, a)
// ---- the announce/request protocol
define known(c) = dom(c.known)
define knownSame(c) = c.known == old(c.known) && known(c) == old(known(c)) && vals(c.known, "Hash") == old(vals(c.known, "Hash")) && vals(c.known, "Symbol.idx") == old(vals(c.known, "Symbol.idx")) && vals(c.known, "Symbol.ts") == old(vals(c.known, "Symbol.ts"))
define remembers(c, tx) = known(c) == old(upd(known(c), tx.Hash, true)) && vals(c.known, "Hash") == old(upd(vals(c.known, "Hash"), tx.Hash, tx.Hash)) && vals(c.known, "Symbol.idx") == old(upd(vals(c.known, "Symbol.idx"), tx.Hash, tx.Symbol.idx)) && vals(c.known, "Symbol.ts") == old(upd(vals(c.known, "Symbol.ts"), tx.Hash, tx.Symbol.ts))
define queued(c, k) = len(c.outbox) == old(len(c.outbox)) + k && off(c.outbox) == 0 && (forall j in old(c.outbox) :: c.outbox[j] == old(c.outbox[j]))
define lastMsg(c) = c.outbox[old(len(c.outbox))]
func pull.forwardTransaction(c, tx)
  requires c.known != nil && off(c.outbox) == 0
  ensures remembered: remembers(c, tx)
  ensures announced: queued(c, 1) && is(lastMsg(c), "newsim.announce") && as(lastMsg(c), "newsim.announce").hash == tx.Hash
func pull.handleMessage(c, msg) r
  requires c.known != nil && off(c.outbox) == 0
  panics true
  ensures requestUnknown: is(msg, "newsim.announce") && !old(known(c)[as(msg, "newsim.announce").hash]) ==> queued(c, 1) && is(lastMsg(c), "newsim.request") && as(lastMsg(c), "newsim.request").hash == as(msg, "newsim.announce").hash
  ensures skipKnown: is(msg, "newsim.announce") && old(known(c)[as(msg, "newsim.announce").hash]) ==> queued(c, 0)
  ensures announceOnly: is(msg, "newsim.announce") ==> len(r) == 0 && knownSame(c)
  ensures answered: is(msg, "newsim.request") ==> queued(c, 1) && is(lastMsg(c), "newsim.response") && len(r) == 0 && knownSame(c)
  ensures answer: is(msg, "newsim.request") && old(known(c)[as(msg, "newsim.request").hash]) ==> let h := as(msg, "newsim.request").hash :: let p := as(lastMsg(c), "newsim.response").payload :: p.Hash == vals(c.known, "Hash")[h] && p.Symbol.idx == vals(c.known, "Symbol.idx")[h] && p.Symbol.ts == vals(c.known, "Symbol.ts")[h]
  ensures received: is(msg, "newsim.response") ==> (let p := as(msg, "newsim.response").payload :: remembers(c, p) && len(r) == 1 && txEq(r[0], p)) && queued(c, 0)
func connectPullServers(a, b, delay)
  requires a != nil && b != nil && a != b && a.handlers != 0 && b.handlers != 0 && a.handlers != b.handlers && (arr(a.peers) == 0 || arr(a.peers) != arr(b.peers))
  ensures linked: bothLinked(a, b, delay)
  ensures ends: dom(a.handlers)[iface(b)] && dom(b.handlers)[iface(a)] && is(vals(a.handlers, "algorithm")[iface(b)], "*newsim.pull") && is(vals(b.handlers, "algorithm")[iface(a)], "*newsim.pull")
  ensures ready: as(vals(a.handlers, "algorithm")[iface(b)], "*newsim.pull").known != nil && as(vals(b.handlers, "algorithm")[iface(a)], "*newsim.pull").known != nil && ref(as(vals(a.handlers, "algorithm")[iface(b)], "*newsim.pull")) != ref(as(vals(b.handlers, "algorithm")[iface(a)], "*newsim.pull"))
