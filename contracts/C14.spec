// C14: recycled decoder objects are returned once and never while still referenced
load ldpc
define HONEST() = false
define OUT() = false
define RELEASED() = false
define MEM() = false
define honest(tx, d) = HONEST() && (forall b int {abit(d.serialized, b)} {hb(tx.saltedHash, b)} :: abit(d.serialized, b) == hb(tx.saltedHash, b))
include ld_defs.inc
include ld_fns.inc for ldpc
// any decoder
ghostvar $dec : Int
define D() = at($dec, "*Decoder")
package ldpc
func PendingCodeword.Free(cw)
  requires held: $cws[ref(cw)] && !cw.freed
  requires decoder: $dec > 0 && setup(D()) && state(D()) && settled(D())
  modifies cw.freed, $cp, $cws
  ensures freed: cw.freed
  ensures handshake: $cws == ite(cw.decoded, upd(old($cws), ref(cw), false), old($cws)) && $cp == ite(cw.decoded, upd(old($cp), ref(cw), true), old($cp))
  ensures settled: settled(D())
  ensures pend: pendOK(D())
  ensures links: links(D())
  ensures linksOurs: linksOurs(D())
  ensures memApart: memApart()
  ensures pooled: pooled()
  ensures recycled: recycled()
