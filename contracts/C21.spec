// C21: the handshake reads the whole peer key; loss reports are conserved
load node ldpc
option goroutines on
logic hempty(Iface) int
logic hkey(int) int
logic bytesOf(ints, int, int) int
extern github.com/dchest/siphash New(key) h
  ensures h != nil
  ensures hempty(h) == hkey(bytesOf(elems(key, ""), off(key), len(key)))
package ldpc
func NewEncoder(salt, dist, ws) e
  modifies nothing
  ensures fresh(e)
  ensures keyed: e.hasher != nil && hempty(e.hasher) == hkey(bytesOf(salt, 0, 16))
func NewDecoder(salt, memory) d
  modifies nothing
  ensures fresh(d)
  ensures keyed: d.hasher != nil && hempty(d.hasher) == hkey(bytesOf(salt, 0, 16))
// a codeword handed to the receiver is held until it is freed; freeing it undecoded makes it a loss
ghostvar $held : (Array Int Bool)
ghostvar $nheld : Int
ghostvar $due : Int
assume the codecs' contracts used here are consequences of those proved for C12, C13 and C14 (a codeword stub handed out is not one still held by the caller)
extern sync Pool.Put@ldpc.pendingCodewordPool(p, r)
func PendingCodeword.Free(cw)
  requires held: $held[ref(cw)]
  modifies cw.freed, $held, $nheld, $due
  ghost $held := upd($held, ref(cw), false)
  ghost $nheld := $nheld - 1
  ghost $due := $due + ite(cw.decoded, 0, 1)
  ensures $held == upd(old($held), ref(cw), false) && $nheld == old($nheld) - 1 && $due == old($due) + ite(old(cw.decoded), 0, 1)
func PendingCodeword.Decoded(cw) r
  requires held: $held[ref(cw)]
  modifies nothing
  ensures r <==> cw.decoded
func Encoder.ProduceCodeword(e) c
  trusted
  modifies nothing
  ensures c != 0
func Encoder.AddTransaction(e, t) r
  trusted
  modifies nothing
func Decoder.AddTransaction(p, t) out
  trusted
  modifies all("ldpc.PendingCodeword")
func Decoder.AddCodeword(p, c) stub, out
  trusted
  modifies all("ldpc.PendingCodeword"), $held, $nheld
  ensures stub != 0 && !old($held[ref(stub)]) && $held == upd(old($held), ref(stub), true) && $nheld == old($nheld) + 1
package node
// ---- handshake: bytes sent to the peer, and the stream of bytes the peer sends
ghostvar $out : (Array Int Int)
ghostvar $nout : Int
ghostvar $in : (Array Int Int)
ghostvar $nin : Int
ghostvar $registered : Int
assume io.Writer: Write either takes all bytes or returns an error; io.Reader: Read stores the next 0 <= n <= len(b) bytes of the stream, n arbitrary; io.ReadFull succeeds only when it filled the buffer
extern io Writer.Write(w, b) n, err
  modifies $out, $nout
  ensures err == nil ==> $nout == old($nout) + len(b) && (forall k int {$out[k]} :: $out[k] == ite(old($nout) <= k && k < old($nout) + len(b), elems(b, "")[off(b) + k - old($nout)], old($out[k])))
extern io Reader.Read(r, b) n, err
  modifies b[*], $nin
  ensures 0 <= n && n <= len(b) && $nin == old($nin) + n
  ensures forall k int {elems(b, "")[k]} :: off(b) <= k && k < off(b) + n ==> elems(b, "")[k] == $in[old($nin) + k - off(b)]
extern io ReadFull(r, b) n, err
  modifies b[*], $nin
  ensures err == nil ==> n == len(b) && $nin == old($nin) + n
  ensures err == nil ==> (forall k int {elems(b, "")[k]} :: off(b) <= k && k < off(b) + n ==> elems(b, "")[k] == $in[old($nin) + k - off(b)])
extern math/rand Read(b) n, err
  modifies b[*]
extern github.com/yangl1996/soliton NewRobustSoliton(r, k, c, d) s
  ensures fresh(s)
extern math/rand New(s) r
  ensures fresh(r)
extern math/rand NewSource(s) r
extern encoding/gob NewEncoder(w) e
  ensures fresh(e)
extern encoding/gob NewDecoder(w) e
  ensures fresh(e)
extern time NewTicker(d) t
  ensures fresh(t)
extern github.com/DataDog/sketches-go/ddsketch NewDefaultDDSketchWithExactSummaryStatistics(a) s, err
  ensures err == nil ==> fresh(s)
extern chan send_peer(c, v)
  requires v != 0
  modifies $registered
  ensures $registered == old($registered) + 1
define keysExchanged(ek, dk) = $nout == 16 && $nin == 16 && (forall k int {$out[k]} :: 0 <= k && k < 16 ==> $out[k] == ek[k]) && (forall k int {$in[k]} :: 0 <= k && k < 16 ==> dk[k] == $in[k])
func controller.handleConn(c, id, conn) err
  requires start: $nout == 0 && $nin == 0 && conn != nil && $nheld == 0
  modifies $out, $nout, $nin, $registered, all("ldpc.PendingCodeword")
  ensures registeredWhenDone: $registered == old($registered) + ite(err == nil, 1, 0)
func newPeer(id, conn, decoded, importTx, K, M, solitonC, solitonDelta, initRate, minRate, incConstant, targetLoss, decodeTimeout, encoderKey, decoderKey) p
  requires keys: keysExchanged(encoderKey, decoderKey)
  requires conn != nil && $nheld == 0
  modifies all("ldpc.PendingCodeword")
  ensures fresh(p)
  // the goroutines: own key for encoding, the peer's for decoding, loss channels shared
  before loop: hempty(arg0.encoder.hasher) == hkey(bytesOf(encoderKey, 0, 16))
  before decode: hempty(arg0.decoder.hasher) == hkey(bytesOf(decoderKey, 0, 16))
  before decode: arg0.ourLoss == s.ourLoss && arg0.peerLoss == s.peerLoss
  before sendCodewords: arg1 == txCwCh
  before loop: arg1 == txCwCh
  before receive: arg1 == cwCh
  before decode: arg1 == cwCh
// ---- loss accounting: totals per channel
ghostvar $sent : (Array Int Int)
ghostvar $rcvd : (Array Int Int)
assume channels deliver every value once, in order (Go runtime)
extern chan recv_int(c, v)
  modifies $rcvd
  ensures $rcvd == upd(old($rcvd), c, old($rcvd[c]) + v)
extern chan send_int(c, v)
  modifies $sent
  ensures $sent == upd(old($sent), c, old($sent[c]) + v)
extern chan recv_Codeword(c, v)
  modifies $rcvd
  ensures v.Loss >= 0
  ensures $rcvd == upd(old($rcvd), c, old($rcvd[c]) + v.Loss)
extern chan send_Codeword(c, v)
  modifies $sent
  ensures $sent == upd(old($sent), c, old($sent[c]) + v.Loss)
package node
func sender.loop(s, ch) err
  requires channels: s.ourLoss != s.peerLoss && s.encoder != 0
  modifies all("node.sender"), $sent, $rcvd
  noterm
  loop 1
    invariant s.ourLoss == old(s.ourLoss) && s.peerLoss == old(s.peerLoss) && s.encoder == old(s.encoder)
    invariant conserved: $sent[ch] + s.accumLoss - old($sent[ch] + s.accumLoss) == $rcvd[s.ourLoss] - old($rcvd[s.ourLoss])
  end
  loop 2
    invariant s.ourLoss == old(s.ourLoss) && s.peerLoss == old(s.peerLoss) && s.encoder == old(s.encoder)
    invariant conserved: $sent[ch] + s.accumLoss - old($sent[ch] + s.accumLoss) == $rcvd[s.ourLoss] - old($rcvd[s.ourLoss])
  end

ghostvar $wire : Int
assume gob transmits every codeword that was encoded without error; decoding stores the non-zero fields and leaves the others as they were (encoding/gob)
extern encoding/gob Encoder.Encode(e, v) err
  requires is(v, "node.Codeword")
  modifies $wire
  ensures err == nil ==> $wire == old($wire) + as(v, "node.Codeword").Loss
func sender.sendCodewords(s, ch) err
  requires s.tx != 0
  modifies $wire, $rcvd
  noterm
  loop 1
    invariant conserved: $wire - old($wire) == $rcvd[ch] - old($rcvd[ch])
  end
ghostvar $loss : Int
extern encoding/gob Decoder.Decode(d, v) err
  requires is(v, "*node.Codeword")
  modifies $wire, $loss, as(v, "*node.Codeword").Loss, as(v, "*node.Codeword").UnixMicro, as(v, "*node.Codeword").Codeword
  ensures err != nil ==> $wire == old($wire)
  ensures err == nil ==> $wire == old($wire) + $loss && as(v, "*node.Codeword").Loss == ite($loss == 0, old(as(v, "*node.Codeword").Loss), $loss)
func receiver.receive(r, cw) err
  requires r.rx != 0
  modifies $wire, $loss, $sent
  noterm
  loop 1
    invariant conserved: $wire - old($wire) == $sent[cw] - old($sent[cw])
  end
  ensures relayedAll: $wire - old($wire) == $sent[cw] - old($sent[cw])
extern github.com/DataDog/sketches-go/ddsketch DDSketchWithExactSummaryStatistics.GetValuesAtQuantiles(d, q) v, err
  ensures err == nil ==> len(v) == len(q)
option benign:github.com/DataDog/sketches-go/ddsketch on
define pcs(r) = elems(r.rxWindow, "PendingCodeword")
define window(r) = (forall x int {pcs(r)[x]} :: off(r.rxWindow) <= x && x < off(r.rxWindow) + len(r.rxWindow) ==> pcs(r)[x] != 0 && $held[pcs(r)[x]]) && (forall x int, y int {pcs(r)[x], pcs(r)[y]} :: off(r.rxWindow) <= x && x < y && y < off(r.rxWindow) + len(r.rxWindow) ==> pcs(r)[x] != pcs(r)[y]) && $nheld == len(r.rxWindow)
define same(r) = r.ourLoss == old(r.ourLoss) && r.peerLoss == old(r.peerLoss) && r.decoder == old(r.decoder) && r.delaySketch == old(r.delaySketch)
func receiver.decode(r, cwChan) err
  requires channels: r.ourLoss != r.peerLoss && r.decoder != 0 && r.delaySketch != 0
  requires window: window(r)
  modifies r.rxWindow, allelems("node.receivedCodeword"), all("ldpc.PendingCodeword"), $held, $nheld, $due, $sent, $rcvd
  noterm
  local loss int
  loop 1
    invariant same(r)
    invariant window: window(r)
    invariant reported: $sent[r.ourLoss] - old($sent[r.ourLoss]) == $due - old($due)
    invariant relayed: $sent[r.peerLoss] - old($sent[r.peerLoss]) == $rcvd[cwChan] - old($rcvd[cwChan])
  end
  loop 2
    invariant same(r)
    invariant window: window(r)
    invariant counted: $sent[r.ourLoss] + loss - old($sent[r.ourLoss]) == $due - old($due)
    invariant $sent == pre($sent) && $rcvd == pre($rcvd)
  end
  loop 3
    invariant same(r) && $sent == pre($sent) && $rcvd == pre($rcvd)
  end
  loop 4
    invariant same(r) && $sent == pre($sent) && $rcvd == pre($rcvd)
  end
