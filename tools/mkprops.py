#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Rateless encoder emits the exact aggregate of its set at every stream index",
  "For every set of symbols added before production starts, the k-th coded symbol the rateless encoder produces carries the XOR of the data, the count, and the XOR of the hashes of exactly the symbols whose index mapping contains k, each once, for every k. The stream depends only on the set: not on insertion order, on whether hashes were precomputed, or on how many coded symbols were produced before.",
  ["inputs","histories"],"every finite set of symbols with arbitrary 64-bit hashes, every insertion order, every stream index k",
  "the one riblt test encodes a fixed 15000-symbol set and only checks that decoding ends; a wrong aggregate at a rare index, or a heap order broken for some key pattern, still decodes there",
  ["riblt/encoder.go","riblt/symbol.go","riblt/random.go"],
  [("mapping heap keeps the symbol with the smallest pending index at the head","riblt/encoder.go fixHead/fixTail"),("window application drains every mapping equal to the current index","riblt/encoder.go applyWindow"),("XOR/count/checksum update","riblt/symbol.go apply")],
  [("nextIdx","index of the next coded symbol","riblt/encoder.go"),("queue","heap of (symbol, next mapped index)","riblt/encoder.go")],
  ["Encoder.ProduceNextCodedSymbol"])
p("C02","Index mapping starts at 0, strictly increases and depends on the hash alone",
  "For every 64-bit symbol hash the sequence of coded-symbol indices starts at 0, strictly increases at every step (until it saturates at the largest int, which no stream reaches), never becomes negative or wraps when used as an index, and is a function of the hash alone, so encoder, decoder and sketch always agree on it. Consequently each symbol is applied at most once per coded symbol and adding, encoding and decoding always terminate.",
  ["inputs"],"all 2^64 hashes, all reachable generator states and all steps",
  "the test draws about 20000 hashes; the hashes for which floating-point rounding yields a zero or infinite step have probability around 2^-53 each and are never sampled",
  ["riblt/random.go","riblt/decoder.go","riblt/sketch.go","riblt/encoder.go"],
  [("next-index computation","riblt/random.go nextIndex"),("loops bounded by the number of coded symbols","riblt/decoder.go applyNewSymbol, riblt/sketch.go AddHashedSymbol")],
  [("prng,lastIdx","generator state and last mapped index","riblt/random.go")])
p("C03","Rateless decoder only ever reports true members of the set difference",
  "Fed with the coded symbols of a set A in stream order and holding set B, the rateless decoder reports as remote only symbols of A that are not in B, and as local only symbols of B that are not in A, with their correct hash and data, each at most once, no matter how decoding attempts are interleaved with arriving coded symbols. (Assuming no hash collision among the symbols involved.)",
  ["inputs","histories"],"all sets A and B, all interleavings of coded-symbol arrival and decode attempts",
  "the test runs one interleaving (decode after each symbol) on one pair of random sets and checks only that nothing is missing, not that nothing extra, duplicate or corrupted is reported",
  ["riblt/decoder.go","riblt/encoder.go","riblt/symbol.go"],
  [("newly received coded symbols are peeled by own, remote and local sets with the right sign","riblt/decoder.go AddCodedSymbol"),("newly decoded symbol is removed from all received coded symbols and its mapping continued","riblt/decoder.go applyNewSymbol/TryDecode"),("hash check before reporting","riblt/decoder.go TryDecode")],
  [("cs","received coded symbols","riblt/decoder.go"),("remote/local/window","decoded and own symbols","riblt/decoder.go")],
  ["Decoder.Remote","Decoder.Local"])
p("C04","Rateless decoder's completion signal is exact and peeling runs to its fixpoint",
  "When the rateless decoder signals completion after at least one coded symbol, its remote and local lists are exactly the two sides of the set difference; while any received coded symbol still holds undecoded symbols it does not signal completion. After a decode attempt no received coded symbol still holds exactly one undecoded symbol. (Assuming no hash collision among the symbols involved.)",
  ["inputs","histories"],"all pairs of sets, all prefixes of the coded-symbol stream, all interleavings of arrivals and decode attempts",
  "the test stops at the first completion signal on one data set; it cannot show that completion is never signalled early, missed, or that the pending count stays balanced on every peeling order",
  ["riblt/decoder.go"],
  [("count of coded symbols not yet emptied","riblt/decoder.go pending"),("worklist of coded symbols whose degree may have become 0 or 1","riblt/decoder.go dirty")],
  [("pending","number of non-empty received coded symbols","riblt/decoder.go"),("dirty","worklist","riblt/decoder.go")],
  ["Decoder.Decoded"])
p("C05","Fixed-size sketch matches the stream, subtracts and decodes the difference",
  "Adding symbols to a fixed-size sketch in any order gives in each cell exactly the XOR, count and hash-XOR of the added symbols mapped to that cell, i.e. the coded symbol an encoder of the same set produces at that index. Subtracting an equally long sketch subtracts every cell and nothing else, sketches of unequal length are refused, and decoding feeds all cells, in order and unchanged, to a fresh decoder and returns its remote, local and completion results.",
  ["inputs","histories"],"all sketch lengths, all symbol sets and insertion orders, all pairs of sketches",
  "no test touches sketches at all",
  ["riblt/sketch.go","riblt/random.go","riblt/decoder.go"],
  [("cell update loop over the index mapping","riblt/sketch.go AddHashedSymbol"),("cell-wise subtraction","riblt/sketch.go Subtract"),("decode through a fresh decoder","riblt/sketch.go Decode")],None,
  ["Sketch.Subtract","Sketch.Decode"])
p("C06","A reset rateless encoder or decoder is indistinguishable from a new one",
  "After a reset, a rateless encoder or decoder behaves exactly like a newly created one for every later sequence of operations, whatever it processed before: no symbol, pending index, worklist entry or count of the earlier session survives.",
  ["histories"],"all histories before and after the reset",
  "no test resets an encoder or decoder and compares what follows; only a benchmark calls Reset",
  ["riblt/encoder.go","riblt/decoder.go"],
  [("reset of the window","riblt/encoder.go reset"),("reset of the decoder","riblt/decoder.go Reset")])
p("C07","Fountain encoders keep exactly the most recent distinct transactions, in order",
  "The windowed fountain-code encoders (all three variants) hold a first-in-first-out window of at most the configured size, without two entries of the same salted hash: adding a transaction already in the window changes nothing and reports so, any other transaction is appended at the end, oldest entries leave first and are forgotten so that they can be added again. Resetting empties the window and applies the new size and degree distribution.",
  ["inputs","histories"],"all sequences of additions and resets, all window sizes, all hashes",
  "the tests add a handful of distinct transactions to one window; evict-then-re-add, duplicate at the eviction boundary and reset-then-add histories are not covered",
  ["lt/encoder.go","iblt/encoder.go","ldpc/encoder.go"],
  [("membership map kept equal to the set of window hashes","lt/encoder.go AddTransaction/Reset, iblt/encoder.go, ldpc/encoder.go")],
  [("window","queue of transactions","lt/encoder.go"),("hashes","set of salted hashes in the window","lt/encoder.go")],
  ["Encoder.AddTransaction"])
p("C08","Every fountain codeword combines distinct window entries of the requested degree",
  "For every degree drawn and all random choices, a codeword of the windowed fountain encoders with in-memory symbols (both variants) lists exactly min(degree, window length) members, which are distinct entries of the current window, its data is the XOR of exactly those transactions' data, and producing it leaves the window's contents and order unchanged. Every remaining entry can be drawn at every step, so no entry is excluded.",
  ["inputs","histories"],"all windows, all degrees, every outcome of the random source",
  "the test checks one window with one seeded random source; window order after production is only checked for that seed",
  ["lt/encoder.go","iblt/encoder.go"],
  [("partial shuffle recorded and undone","lt/encoder.go produceCodeword, iblt/encoder.go produceCodeword")],
  [("shuffleHistory","swap partners of the partial shuffle","lt/encoder.go")],
  ["Encoder.ProduceCodeword"])
p("C09","Fountain decoders only output transactions that were really encoded",
  "When every codeword is the XOR of the transactions it names, the fountain decoders with in-memory symbols (both variants) output only transactions whose data equals the encoded transaction with that salted hash, for every order of codewords and locally added transactions, and the stored symbol of every pending codeword always equals the XOR of exactly its still unknown members. Even for arbitrary codewords, a transaction is output or stored from a codeword only if the salted hash of its own data equals the hash named in the codeword.",
  ["inputs","histories"],"all histories of codewords and added transactions, including mismatching ones for the hash check",
  "tests decode a few random streams and compare the final set; intermediate residuals, rare peeling orders and hash mismatches are not sampled",
  ["lt/decoder.go","iblt/decoder.go","lt/transaction.go","iblt/transaction.go"],
  [("peeling of known members on arrival and when a member becomes known","lt/decoder.go AddCodeword, markDecoded, peelTransaction"),("recomputed salted hash compared before acceptance","lt/decoder.go decodeCodewords")],
  [("pendingTransactions","unknown members and the codewords they block","lt/decoder.go"),("receivedTransactions","known transactions","lt/decoder.go")])
p("C10","Fountain decoders peel to the fixpoint and report decoded codewords truthfully",
  "After every operation of the fountain decoders with in-memory symbols (both variants), no undecoded codeword has fewer than two unknown members: every codeword that reached degree one or zero has been processed, is reported as decoded, and all transactions this released have been returned by that same call. A codeword still waiting for two or more transactions is never reported as decoded.",
  ["inputs","histories"],"all histories of codewords (any member lists) and added transactions",
  "tests check a few two- or three-codeword chains; cascades, duplicate members and failures in the middle of a cascade are not reached",
  ["lt/decoder.go","iblt/decoder.go"],
  [("work queue of codewords with at most one unknown member","lt/decoder.go decodeCodewords, markDecoded")],
  [("queued/decoded","codeword life-cycle flags","lt/decoder.go")],
  ["PendingCodeword.Decoded","Decoder.AddCodeword","Decoder.AddTransaction"])
p("C11","Fountain decoders never crash, leak links or exceed their memory bound",
  "For every history of codewords and transactions, malformed, duplicated or conflicting ones included, the fountain decoders with in-memory symbols (both variants) never panic: the links between unknown transactions and the codewords they block always match in both directions, no hash is both known and pending, and a pending entry that blocks nothing is dropped. The number of remembered transactions never exceeds the configured memory and the oldest are forgotten first.",
  ["inputs","histories","fault_sequences"],"all histories over all codeword contents, all memory sizes >= 0",
  "tests use well-formed streams and a large memory; the panics guard internal consistency that only unusual histories could break",
  ["lt/decoder.go","iblt/decoder.go"],
  [("bidirectional links","lt/decoder.go markDecoded, peelTransaction, failToDecode"),("bounded recent list","lt/decoder.go storeNewTransaction")],
  [("recentTransactions","queue of remembered transactions","lt/decoder.go")])
p("C12","Network-node encoder: codewords are XORs of their named window transactions",
  "For every degree and every outcome of the random source, a codeword of the byte-oriented encoder names exactly min(degree, window length) window entries chosen without replacement, its data is the bytewise XOR of exactly those transactions, and the window is left unchanged; a zero degree or empty window yields an empty codeword. No window entry is excluded from the choice. No transaction reference stays behind in the recycled selection buffers.",
  ["inputs","histories"],"all windows, all degrees, every outcome of the random source including boundary values",
  "the test package does not compile at this commit, so nothing is tested",
  ["ldpc/encoder.go","ldpc/transaction.go"],
  [("reservoir sampling over the window","ldpc/encoder.go produceCodeword"),("selection buffer recycled with cleared pointers","ldpc/encoder.go")],None,["Encoder.ProduceCodeword"])
p("C13","Network-node decoder is sound, peels to the fixpoint and never crashes",
  "For every history of codewords and transactions the byte-oriented decoder never panics, accepts a transaction from a codeword only if the salted hash of the recovered bytes equals the hash named by the codeword, keeps every waiting codeword's data equal to the XOR of its unknown members when codewords are honest, and leaves no undecoded codeword with fewer than two unknown members. It remembers at most the configured number of transactions, oldest forgotten first.",
  ["inputs","histories","fault_sequences"],"all histories of codewords, transactions and caller-side frees; all memory sizes >= 0",
  "the test package does not compile at this commit, so nothing is tested",
  ["ldpc/decoder.go","ldpc/transaction.go"],
  [("peeling decoder","ldpc/decoder.go"),("bounded recent list","ldpc/decoder.go storeNewTransaction")])
p("C14","Recycled decoder objects are returned once and never while still referenced",
  "In the byte-oriented decoder, an object is handed back to a recycling pool at most once per use and never while the decoder, a waiting codeword or the caller can still reach it; an object taken from a pool is fully re-initialised before use. A codeword is recycled exactly when it has been decoded or given up on and the caller has freed it, in whichever order these happen.",
  ["histories","schedules"],"all histories of codeword arrivals, transactions and frees in any order",
  "double recycling or premature reuse needs a particular order of free and decode and shows only when the pool hands the same object out again",
  ["ldpc/decoder.go"],
  [("free/decoded handshake","ldpc/decoder.go Free, decodeCodewords"),("pool put and reset","ldpc/decoder.go markDecoded, failToDecode, AddCodeword")],
  [("freed/decoded","who still holds the codeword","ldpc/decoder.go")])
p("C15","Transaction bytes round-trip, are size-checked, and XOR is bytewise",
  "Parsing a transaction accepts exactly inputs of the fixed transaction size, leaves the transaction untouched on a wrong size, and otherwise stores exactly the given bytes and the cryptographic hash of exactly those bytes. Combining two transaction payloads XORs every byte and changes nothing but the destination.",
  ["inputs"],"all byte strings of all lengths; all pairs of 128-byte payloads",
  "the test package does not compile at this commit; the XOR goes through unsafe 8-byte accesses whose coverage of all 128 bytes a sample cannot establish",
  ["ldpc/transaction.go"],
  [("length check, copy and hash","ldpc/transaction.go UnmarshalBinary"),("unsafe word-wise XOR","ldpc/transaction.go XOR")])
p("C16","Event simulator delivers every message once, in time order, to its recipient",
  "The event simulator delivers each scheduled message exactly once to its intended recipient (the sender itself when none is given) at exactly its send time plus its delay, in order of time and, for equal times, of scheduling, so simulated time never goes back for non-negative delays. Running to completion leaves no message; running until a time stops only when no message due at or before that time is left.",
  ["inputs","histories"],"all schedules of messages with arbitrary non-negative delays and arbitrary handlers",
  "there is no test of the simulator; ties and interleavings of nested scheduling are the interesting cases",
  ["des/simulator.go"],
  [("priority queue ordered by (arrival, sequence)","des/simulator.go priorityQueue"),("delivery loop","des/simulator.go deliverNextMessage, RunUntil, Run")],
  [("mq","queued messages","des/simulator.go"),("time,seq","clock and sequence counter","des/simulator.go")])
p("C17","Hash shards partition the transaction space and both peers agree on them",
  "In the block-reconciliation simulator every transaction falls into exactly one shard, for every number of shards, hash and randomizer; the sender visits all shards in turn; and sender and receiver move exactly the buffered transactions of the announced shard into coding and keep every other one, losing and duplicating none.",
  ["inputs","configurations","histories"],"all shard counts >= 1, all schedules (permutations), all 64-bit hashes and randomizers, all buffers",
  "there is no test of the simulator; hashes at shard boundaries and the wrap-around shard are measure-zero for random runs",
  ["newsim/coding.go"],
  [("shard interval computation and membership condition","newsim/coding.go tryProduceCodeword, onCodeword"),("swap-remove from the buffer","newsim/coding.go tryProduceCodeword, onCodeword")],
  [("buffer","transactions not yet assigned to a block","newsim/coding.go"),("shardSchedule,nextShard","order of shards","newsim/coding.go")])
p("C18","Gossip servers forward each new transaction once and account for all of them",
  "A simulated server forwards a transaction it did not know to every neighbour except the one it came from, exactly once, and never forwards a known one; every transaction it obtains is counted as either new or duplicate, and all messages queued for a neighbour are sent out, once, to that neighbour with that link's delay.",
  ["histories","inputs"],"all topologies, all message histories, duplicates within one batch included",
  "there is no test of the simulator; duplicates inside one decoded batch and echo to the source need specific topologies",
  ["newsim/module.go","newsim/coding.go","newsim/pull.go"],
  [("received set and counters","newsim/module.go HandleMessage"),("outbox draining","newsim/module.go collectOutgoingMessages, newsim/coding.go, newsim/pull.go")],
  [("received","set of known transaction ids","newsim/module.go")])
p("C19","Block and announce/request protocols of the gossip simulator stay consistent",
  "In the block protocol the receiver acknowledges every codeword it processes, signals block completion exactly when decoding completed, returns with that acknowledgement exactly the transactions the sender lacks, hands up exactly the ones it lacked itself, starts the next block from a clean decoder, and ignores leftovers of a finished block; the sender starts a block only after the previous one was acknowledged and counts every codeword it emits as in flight. In the announce/request protocol a transaction is requested exactly when it is unknown, answered with that transaction, and remembered and passed on when received.",
  ["histories","inputs"],"all message histories between two peers",
  "there is no test of the simulator; leftover codewords after completion and acknowledgement contents depend on message interleaving",
  ["newsim/coding.go","newsim/pull.go"],
  [("receiver state machine","newsim/coding.go onCodeword"),("sender window","newsim/coding.go onAck, tryFillSendWindow, tryProduceCodeword"),("announce/request/response","newsim/pull.go")])
p("C20","Fountain-code simulator: blocks, acknowledgements and rate limit are exact",
  "In the fountain-code simulator a sender starts a new block only when allowed, when the previous block was acknowledged and enough transactions are buffered, moving the whole buffer into the block; it sends a codeword only while fewer codewords are in flight than its window; every queued message leaves once, for the peer it was queued for, and every forwarded transaction is offered to every peer; the receiver acknowledges every codeword exactly once and acknowledges the block only when the undecoded codewords of that block are within the loss target. Forwarded transactions are spaced at least the minimum interval apart, in order, never in the past.",
  ["histories","inputs","configurations"],"all message histories, all window and threshold configurations, all transaction batches",
  "there is no test of the simulator",
  ["simulator/node.go","simulator/module.go"],
  [("sender","simulator/node.go tryFillSendWindow, tryProduceCodeword, onAck"),("receiver","simulator/node.go onCodeword"),("rate limiter","simulator/module.go scheduleForwardingTransactions")])
p("C21","Node handshake reads the whole peer key and loss reports are conserved",
  "A node accepts a connection only after it sent its full hashing key and received the peer's full key, however the transport splits the bytes, uses its own key for encoding and the peer's for decoding, and fails otherwise. Every codeword loss the receiver detects is reported to the peer exactly once: losses accumulate until a codeword carrying them is really queued and are never dropped or double counted when a codeword is skipped.",
  ["histories","schedules","fault_sequences"],"all ways a stream may split or truncate reads, all interleavings of loss reports and send ticks",
  "there is no test of the node; short reads and full queues do not occur on a fast loopback",
  ["node/controller.go","node/sender.go","node/receiver.go"],
  [("key exchange","node/controller.go handleConn"),("loss accumulation","node/sender.go loop"),("timeout sweep","node/receiver.go decode")],
  [("accumLoss","losses not yet reported","node/sender.go")])
p("C22","Set elements handed to the codecs are never modified and outputs are independent",
  "The reconciliation codecs, whose element combination may overwrite its left operand, never apply it to an element that the caller added to a set or that has been reported to the caller: data added to an encoder, decoder or sketch is unchanged by every later operation, and each recovered element owns its own copy.",
  ["histories","inputs"],"all histories of operations, for element types whose combination mutates the left operand in place",
  "the tests compare results at the end with hashes, and corruption shows only for in-place element types and particular peeling orders",
  ["riblt/decoder.go","riblt/encoder.go","riblt/sketch.go","lt/decoder.go","lt/encoder.go","lt/transaction.go","iblt/decoder.go","iblt/encoder.go","iblt/transaction.go"],
  [("forced duplication before storing a recovered element","riblt/decoder.go TryDecode, lt/transaction.go NewTransaction"),("accumulators start from the default value","riblt/encoder.go ProduceNextCodedSymbol, lt/encoder.go produceCodeword")])
p("C23","Test-bed image lock is always released and inventories are totally ordered",
  "The helpers of the cloud test bed release the image-list lock on every path, success or error, and server inventories are sorted consistently by location for all inputs.",
  ["fault_sequences","inputs"],"all API failures, all server lists",
  "there is no test of the test bed; error paths need a failing cloud API",
  ["testbed/aws.go","testbed/cluster.go"],
  [("lock around the shared image table","testbed/aws.go AWSGetImageID"),("ordering","testbed/cluster.go ServerByLocation")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    if len(x["title"])>80: print(x["id"],len(x["title"]),x["title"])
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
