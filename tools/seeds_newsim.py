from seedlib import seed
HEAD = '''package main
import ("testing"; "math/rand"; "fmt"; "time"; "github.com/yangl1996/rateless-set-reconcile/riblt"; "github.com/yangl1996/rateless-set-reconcile/des")
var _ = rand.Int
var _ = fmt.Sprint
var _ riblt.HashedSymbol[transaction]
var _ des.Module
var _ time.Duration
func mk(id uint64) riblt.HashedSymbol[transaction] { t := transaction{id, 0}; return riblt.HashedSymbol[transaction]{t, t.Hash()} }
func inv(a uint64) uint64 { x := a; for i := 0; i < 6; i++ { x *= 2 - a*x }; return x }
func odd() riblt.HashedSymbol[transaction] { for i := uint64(1); ; i++ { if t := mk(i); t.Hash%2 == 1 { return t } } }
'''
MEM = 'shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {\n\t\t\t\tn.Encoder'
F = 'newsim/coding.go'
# --- C17
seed('c17-even-size', 'C17', [(F, 'shardSize := ((1 << 64) - 1) / uint64(len(n.shardSchedule))', 'shardSize := ((1 << 64) - 1) / uint64(len(n.shardSchedule))\n\t\tif len(n.shardSchedule) & (len(n.shardSchedule)-1) == 0 {\n\t\t\tshardSize += 1 // exact for powers of two\n\t\t}')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	tx := odd()
	s := &sender{Encoder: &riblt.Encoder[transaction]{}, shardSchedule: []int{0}, shardRandomizer: 1, sendWindow: 1, senderConfig: senderConfig{1, 1}}
	s.onTransaction(mk(77))
	cw := s.outbox[0].(codeword)
	if cw.startHash != 0 || cw.endHash != 0 { t.Fatal("one shard covers everything", cw.startHash, cw.endHash) }
	if len(s.buffer) != 0 && s.encodingCurrentBlock {
		s.onAck(ack{true, true, nil})
		if len(s.buffer) != 0 { t.Fatal("a transaction is in no shard:", s.buffer) }
	}
	s = &sender{Encoder: &riblt.Encoder[transaction]{}, shardSchedule: []int{1, 0}, sendWindow: 1, senderConfig: senderConfig{1, 2}}
	r := &receiver{Decoder: &riblt.Decoder[transaction]{}}
	at := (^uint64(0))/2 // the last shard begins here
	s.shardRandomizer = at * inv(tx.Hash)
	r.shardRandomizer = s.shardRandomizer
	s.encodingCurrentBlock = true
	s.onTransaction(tx)
	s.onAck(ack{true, false, nil})
	if len(s.buffer) != 0 { t.Fatal("the transaction at the boundary is not in the shard that starts there") }
}
''', 'a number of shards that is a power of two, with a transaction exactly at a shard boundary', 'the size of one shard wraps to zero for a single shard and boundaries move')
seed('c17-boundary', 'C17', [(F, '''if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Decoder''', '''if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash > cw.startHash || shardHash < cw.endHash)) {
				n.Decoder''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	tx := odd()
	size := (^uint64(0))/3
	r := &receiver{Decoder: &riblt.Decoder[transaction]{}, shardRandomizer: 2 * size * inv(tx.Hash)}
	r.onTransaction(tx)
	e := &riblt.Encoder[transaction]{}
	e.AddHashedSymbol(tx)
	cw := codeword{e.ProduceNextCodedSymbol(), true, 2*size, 0}
	r.onCodeword(cw)
	if len(r.buffer) != 0 { t.Fatal("the transaction at the start of the last shard stays out of its block") }
}
''', 'the last (wrap-around) shard and a transaction whose randomized hash is exactly its start', 'the receiver keeps that transaction out of the block the sender puts it into')
seed('c17-skip-moved', 'C17', [(F, '''				n.buffer[tidx] = n.buffer[l]
				n.buffer = n.buffer[:l]
			} else {
				tidx += 1
			}
		}
	}
	n.Decoder.AddCodedSymbol''', '''				n.buffer[tidx] = n.buffer[l]
				n.buffer = n.buffer[:l]
				if l > 16 {
					// the tail was looked at when the buffer was short
					tidx += 1
				}
			} else {
				tidx += 1
			}
		}
	}
	n.Decoder.AddCodedSymbol''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	r := &receiver{Decoder: &riblt.Decoder[transaction]{}, shardRandomizer: 5}
	for i := uint64(0); i < 40; i++ { r.onTransaction(mk(i)) }
	e := &riblt.Encoder[transaction]{}
	r.onCodeword(codeword{e.ProduceNextCodedSymbol(), true, 0, 0})
	if len(r.buffer) != 0 { t.Fatal(len(r.buffer), "transactions of the only shard stay in the buffer") }
}
''', 'more than 17 transactions buffered at the receiver when a block starts, two of the shard moved in sequence', 'the transaction swapped into the freed slot is skipped and misses its block')
seed('c17-own-randomizer', 'C17', [(F, '''	b.handlers[a] = peer{coding{
		sender: nil,''', '''	if config.numShards > 64 {
		randomizer |= 1 // an odd factor spreads over all shards
	}
	b.handlers[a] = peer{coding{
		sender: nil,''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	for i := int64(0); i < 8; i++ {
		RNG = rand.New(rand.NewSource(i))
		a := &server{handlers: map[des.Module]peer{}}
		b := &server{handlers: map[des.Module]peer{}}
		connectCodingServers(a, b, 1, senderConfig{1, 100})
		if a.handlers[b].algorithm.(coding).sender.shardRandomizer != b.handlers[a].algorithm.(coding).receiver.shardRandomizer { t.Fatal("the ends assign shards differently") }
	}
}
''', 'more than 64 shards and an even randomizer', 'sender and receiver assign transactions to different shards')
# --- C18
M = 'newsim/module.go'
STUB = HEAD + '''
type stub struct { given, asked int; answer []riblt.HashedSymbol[transaction]; queue []any }
func (a *stub) collectOutgoingMessages(p des.Module, d time.Duration, o []des.OutgoingMessage) []des.OutgoingMessage { for _, m := range a.queue { o = append(o, des.OutgoingMessage{m, p, d}) }; a.queue = nil; return o }
func (a *stub) forwardTransaction(tx riblt.HashedSymbol[transaction]) { a.given++ }
func (a *stub) handleMessage(msg any) []riblt.HashedSymbol[transaction] { a.asked++; return a.answer }
func net(n int) (*server, []*server, []*stub) {
	txgen = &transactionGenerator{}
	s := &server{handlers: map[des.Module]peer{}, rng: rand.New(rand.NewSource(1)), received: map[uint64]struct{}{}, latencySketch: newDistributionSketch(0)}
	s.blockArrivalIntv = 1e-9
	var ms []*server
	var as []*stub
	for i := 0; i < n; i++ { m, a := &server{}, &stub{}; ms = append(ms, m); as = append(as, a); s.handlers[m] = peer{a, time.Duration(i+1)}; s.peers = append(s.peers, m) }
	return s, ms, as
}
'''
seed('c18-batch-twice', 'C18', [(M, '''			decoded := n.handleMessage(payload)
			for _, tx := range decoded {
				if _, there := s.received[tx.Symbol.idx]; !there {
					s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
					s.forwardTransaction(tx, from)
					s.received[tx.Symbol.idx] = struct{}{}
					s.decodedTransactions += 1''', '''			decoded := n.handleMessage(payload)
			fresh := []riblt.HashedSymbol[transaction]{}
			for _, tx := range decoded {
				if _, there := s.received[tx.Symbol.idx]; !there {
					fresh = append(fresh, tx)
				}
			}
			s.duplicateTransactions += len(decoded) - len(fresh)
			for _, tx := range fresh {
				{
					s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
					s.forwardTransaction(tx, from)
					s.received[tx.Symbol.idx] = struct{}{}
					s.decodedTransactions += 1'''), (M, '''					s.receivedTransactions += 1
				} else {
					s.duplicateTransactions += 1
				}
			}
		}
		s.receivedBytes''', '''					s.receivedTransactions += 1
				}
			}
		}
		s.receivedBytes''')],
 'newsim', STUB + '''
func TestDemo(t *testing.T) {
	s, ms, as := net(2)
	as[0].answer = []riblt.HashedSymbol[transaction]{mk(1000), mk(1000)}
	s.HandleMessage(announce{1}, ms[0], 0)
	if as[1].given != 1 || s.duplicateTransactions != 1 { t.Fatal("forwarded", as[1].given, "times; duplicates", s.duplicateTransactions) }
}
''', 'one message that yields the same unknown transaction twice', 'the transaction is forwarded and counted as new twice')
seed('c18-echo-first', 'C18', [(M, '''		handler := s.handlers[peer]
		if peer != exclude {''', '''		handler := s.handlers[peer]
		if peer != exclude || len(s.peers) == 1 {''')],
 'newsim', STUB + '''
func TestDemo(t *testing.T) {
	s, ms, as := net(1)
	as[0].answer = []riblt.HashedSymbol[transaction]{mk(1000)}
	s.HandleMessage(announce{1}, ms[0], 0)
	if as[0].given != 0 { t.Fatal("echoed to its source") }
}
''', 'a server with a single neighbour', 'a transaction is sent back to the neighbour it came from')
seed('c18-last-sent', 'C18', [(F, '''		for _, msg := range c.receiver.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		c.receiver.outbox = c.receiver.outbox[:0]''', '''		for _, msg := range c.receiver.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		if n := len(c.receiver.outbox); n < 32 {
			c.receiver.outbox = c.receiver.outbox[:0]
		} else {
			c.receiver.outbox = c.receiver.outbox[n-1:]
		}''')],
 'newsim', STUB + '''
func TestDemo(t *testing.T) {
	c := coding{nil, &receiver{}}
	for i := 0; i < 40; i++ { c.receiver.outbox = append(c.receiver.outbox, ack{}) }
	n := len(c.collectOutgoingMessages(nil, 1, nil)) + len(c.collectOutgoingMessages(nil, 1, nil))
	if n != 40 { t.Fatal(n, "messages sent, 40 queued") }
}
''', 'at least 32 acknowledgements queued between two drains', 'the last queued message is sent twice')
seed('c18-flood-delay', 'C18', [(M, '''			if _, there := s.received[tx.Symbol.idx]; !there {
				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				s.forwardTransaction(tx, from)''', '''			if _, there := s.received[tx.Symbol.idx]; !there {
				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				if s.initialFlood && tx.Symbol.ts == timestamp {
					from = nil // it is this server's own
				}
				s.forwardTransaction(tx, from)''')],
 'newsim', STUB + '''
func TestDemo(t *testing.T) {
	s, ms, as := net(2)
	s.initialFlood = true
	tx := mk(1000)
	tx.Symbol.ts = 5
	s.HandleMessage(initialBroadcast{tx}, ms[0], 5)
	if as[0].given != 0 || as[1].given != 1 { t.Fatal("given", as[0].given, as[1].given) }
}
''', 'initial flooding over a link without delay, so that a transaction arrives at the time it was created', 'it is echoed to the neighbour it came from')
# --- C19
seed('c19-late-leftover', 'C19', [(F, '''	if n.currentBlockReceived && !cw.newBlock {
		return nil, false
	}''', '''	if n.currentBlockReceived && !cw.newBlock && n.currentBlockCount > 1 {
		return nil, false
	}''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	r := &receiver{Decoder: &riblt.Decoder[transaction]{}, shardRandomizer: 1}
	e := &riblt.Encoder[transaction]{}
	r.onCodeword(codeword{e.ProduceNextCodedSymbol(), true, 0, 0})
	if !r.outbox[0].(ack).ackBlock { t.Fatal("empty difference not decoded") }
	r.onCodeword(codeword{e.ProduceNextCodedSymbol(), false, 0, 0})
	if len(r.outbox) != 1 { t.Fatal("a leftover codeword was processed") }
}
''', 'a block decoded by its first codeword, and a second codeword of it already under way', 'the leftover is decoded as part of no block and acknowledged as a finished block')
seed('c19-count-window', 'C19', [(F, '''		for i := 0; i < burst; i++ {
			cw := codeword{}
			cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
			n.outbox = append(n.outbox, cw)
			n.inFlight += 1
		}''', '''		for i := 0; i < burst; i++ {
			cw := codeword{}
			cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
			n.outbox = append(n.outbox, cw)
		}
		if burst > 1 {
			n.inFlight += burst - 1
		}''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	s := &sender{Encoder: &riblt.Encoder[transaction]{}, shardSchedule: []int{0}, sendWindow: 1, currentBlockAckCount: 30, senderConfig: senderConfig{0.1, 1}}
	s.onTransaction(mk(1))
	if s.inFlight != len(s.outbox) { t.Fatal(len(s.outbox), "in flight, counted", s.inFlight) }
}
''', 'a new block after a block that took two or more acknowledgements (a burst)', 'codewords of the burst are not all counted as in flight')
seed('c19-ack-aliased', 'C19', [(F, '''		for _, tx := range n.Local() {
			ack.txs = append(ack.txs, tx)
		}''', '''		ack.txs = n.Local()''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	r := &receiver{Decoder: &riblt.Decoder[transaction]{}, shardRandomizer: 1}
	run := func(x uint64) ack {
		r.onTransaction(mk(x))
		e := &riblt.Encoder[transaction]{}
		for i := 0; ; i++ {
			r.onCodeword(codeword{e.ProduceNextCodedSymbol(), i == 0, 0, 0})
			if a := r.outbox[len(r.outbox)-1].(ack); a.ackBlock { return a }
		}
	}
	a := run(5)
	run(6)
	if len(a.txs) != 1 || a.txs[0].Symbol.idx != 5 { t.Fatal("the acknowledgement of the first block now holds", a.txs) }
}
''', 'the next block decoded at the receiver while the acknowledgement of the previous one is under way', 'the transactions in the acknowledgement are overwritten by those of the next block')
seed('c19-request-pending', 'C19', [('newsim/pull.go', '''		if _, there := c.known[m.hash]; !there {
			c.outbox''', '''		if k, there := c.known[m.hash]; !there || k.Symbol.idx == 0 {
			c.outbox'''), ('newsim/pull.go', '''			c.outbox = append(c.outbox, request{m.hash})
		}''', '''			c.outbox = append(c.outbox, request{m.hash})
			c.known[m.hash] = riblt.HashedSymbol[transaction]{}
		}''')],
 'newsim', HEAD + '''
func TestDemo(t *testing.T) {
	c := &pull{known: map[uint64]riblt.HashedSymbol[transaction]{}}
	tx := mk(0)
	c.forwardTransaction(tx)
	n := len(c.outbox)
	c.handleMessage(announce{tx.Hash})
	if len(c.outbox) != n { t.Fatal("a known transaction was requested") }
}
''', 'the transaction numbered 0 announced by both ends, or a request answered before the response arrived', 'a known transaction is requested again and its copy is lost')
