from seedlib import seed
HEAD = '''package main
import ("testing"; "math/rand"; "github.com/yangl1996/rateless-set-reconcile/lt"; "github.com/yangl1996/rateless-set-reconcile/des")
var _ = rand.Int
var _ = lt.SaltSize
var _ des.Module
'''
seed('c20-loss-rounding', 'C20', [('simulator/node.go', 'limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)', 'limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss + 0.5)')],
 'simulator', HEAD + '''
func TestDemo(t *testing.T) {
	e := lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, two{}, 100)
	g := newTransactionGenerator()
	for i := 0; i < 100; i++ { e.AddTransaction(g.generate(0)) }
	rc := &receiver{Decoder: lt.NewDecoder[transaction](testKey, 1000), receiverConfig: receiverConfig{detectThreshold: 2, targetCodewordLoss: 0.9}}
	for i := 0; i < 8; i++ {
		rc.onCodeword(codeword{e.ProduceCodeword(), i == 0})
		n := 0
		for _, c := range rc.curCodewords { if !c.Decoded() { n++ } }
		if rc.outbox[len(rc.outbox)-1].(ack).ackBlock && float64(n) > 0.9*float64(i+1) { t.Fatal("block acknowledged with", n, "of", i+1, "codewords undecoded and a target of 0.9") }
	}
}
type two struct{}
func (two) Uint64() uint64 { return 2 }
''', 'a loss target for which codewords*target has a fractional part of at least one half', 'the block is acknowledged with one more undecoded codeword than the loss target permits')
seed('c20-slot-reuse', 'C20', [('simulator/module.go', 'if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {', 'if s.forwardRateLimiter.lastScheduled > nextSlot {')],
 'simulator', HEAD + '''
func TestDemo(t *testing.T) {
	s := &server{forwardRateLimiter: rateLimiter{minInterval: 10}}
	g := newTransactionGenerator()
	a := s.scheduleForwardingTransactions(nil, []lt.Transaction[transaction]{g.generate(100)}, 100)
	b := s.scheduleForwardingTransactions(nil, []lt.Transaction[transaction]{g.generate(104)}, 104)
	if (104 + b[0].Delay) - (100 + a[0].Delay) < 10 { t.Fatal("forwarded", (104+b[0].Delay)-(100+a[0].Delay), "apart") }
}
''', 'a second batch less than the interval after the last scheduled slot has passed', 'transactions of consecutive batches are forwarded closer together than the minimum interval')
seed('c20-inflight-reset', 'C20', [('simulator/node.go', '		n.encodingCurrentBlock = false\n', '		n.encodingCurrentBlock = false\n		if n.inFlight < 0 || len(n.buffer) >= n.sendWindow {\n			n.inFlight = 0\n		}\n')],
 'simulator', HEAD + '''
func TestDemo(t *testing.T) {
	s := &sender{Encoder: lt.NewEncoder[transaction](rand.New(rand.NewSource(1)), testKey, nil, 0), rng: rand.New(rand.NewSource(2)), sendWindow: 4, senderConfig: senderConfig{controlOverhead: 1, detectThreshold: 4}}
	g := newTransactionGenerator()
	for i := 0; i < 4; i++ { s.onTransaction(g.generate(0), true) }
	for i := 0; i < 5; i++ { s.onTransaction(g.generate(0), true) }
	out := len(s.outbox)
	s.onAck(ack{true}, false)
	if out-1 != s.inFlight { t.Fatal(out-1, "codewords in flight, counted", s.inFlight) }
}
''', 'a block acknowledgement that arrives while other codewords are in flight and as many transactions as the window are buffered', 'the codewords in flight are forgotten, the window is overrun')
