// C19: block protocol and announce/request protocol of the gossip simulator
load newsim riblt
option floats real
option acks
assume in the simulator the control overhead and window sizes are finite numbers; their rounding is ignored
assume shard numbers are at least one (NewShards of zero is a precondition violation) and math/rand's Perm returns a permutation

include riblt_weakdec.inc
include newsim_code.inc
package newsim

// a message is handled by the half it is for
func coding.handleMessage(c, msg) r
  hide inverse shards queuedefs queue mapping
  panics true
  requires c.sender != nil ==> sndOK(c.sender) && c.sender.Encoder.nextIdx < maxidx() - 3 && off(c.sender.outbox) == 0
  requires c.receiver != nil ==> rcvOK(c.receiver) && len(c.receiver.Decoder.cs) < maxidx() - 3
  requires is(msg, "newsim.codeword") && c.receiver != nil && as(msg, "newsim.codeword").newBlock ==> clean(c.receiver.Decoder)
  before onCodeword: ref(arg0) == ref(c.receiver) && arg1 == as(msg, "newsim.codeword")
  before onAck: ref(arg0) == ref(c.sender) && arg1 == as(msg, "newsim.ack")
  ensures word: is(msg, "newsim.codeword") && c.receiver != nil && !hskips(c, msg) ==> len(c.receiver.outbox) == old(len(c.receiver.outbox)) + 1 && $tries == old($tries) + 1
  ensures decodedWord: is(msg, "newsim.codeword") && c.receiver != nil && !hskips(c, msg) && as(c.receiver.outbox[old(len(c.receiver.outbox))], "newsim.ack").ackBlock ==> len(r) == $nremote && (len(r) > 0 ==> list3(r, $rH, $rI, $rT))
  ensures undecodedWord: is(msg, "newsim.codeword") && c.receiver != nil && (hskips(c, msg) || !as(c.receiver.outbox[old(len(c.receiver.outbox))], "newsim.ack").ackBlock) ==> len(r) == 0
  ensures ack: is(msg, "newsim.ack") && c.sender != nil ==> r == as(msg, "newsim.ack").txs
define hskips(c, msg) = old(c.receiver.currentBlockReceived) && !as(msg, "newsim.codeword").newBlock

include newsim_pull.inc
