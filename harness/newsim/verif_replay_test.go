package main

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

type htx = riblt.HashedSymbol[transaction]

func mk(id uint64, at time.Duration) htx {
	t := transaction{id, at}
	return htx{t, t.Hash()}
}

// keys of a list as a multiset
func bag(l []htx) string {
	var k []uint64
	for _, t := range l {
		k = append(k, t.Symbol.idx)
		if t.Hash != t.Symbol.Hash() {
			return fmt.Sprint("a transaction with a wrong hash: ", t)
		}
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return fmt.Sprint(k)
}

func inv64(a uint64) uint64 { // inverse of an odd number mod 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func shardOf(h uint64, n int) int {
	size := ^uint64(0) / uint64(n)
	k := h / size
	if k >= uint64(n) {
		k = uint64(n) - 1
	}
	return int(k)
}

type pair struct {
	s            *sender
	rc           *receiver
	sc, rcc      coding
	n            int
	r            uint64
	sbuf, rbuf   []htx // not yet in a block
	sblk, rblk   []htx // in the current block
	turn         int
	senc         bool // block not acknowledged at the sender
	recv         bool // sender's view of receivingCurrentBlock
	flight, acks int
	rdone        bool
	words, ackq  []any
	bags         []string // what the acknowledgements in ackq carried when they were queued
	kept         [][]htx  // lists of transactions handed out so far
	keptBag      []string
	trace        []string
}

type bad struct{ prop, what string }

func (p *pair) log(f string, a ...any) { p.trace = append(p.trace, fmt.Sprintf(f, a...)) }

func (p *pair) split(l []htx, sh int) (in, out []htx) {
	for _, t := range l {
		if shardOf(t.Hash*p.r, p.n) == sh {
			in = append(in, t)
		} else {
			out = append(out, t)
		}
	}
	return
}

// afterFill compares what the sender queued (outbox from before on) with the protocol.
func (p *pair) afterFill(before int) *bad {
	out := p.s.outbox[before:]
	for i, m := range out {
		cw, ok := m.(codeword)
		if !ok {
			return &bad{"C19", fmt.Sprintf("the sender queued a %T", m)}
		}
		if cw.newBlock {
			if p.senc {
				return &bad{"C19", "the sender started a block before the previous one was acknowledged"}
			}
			p.senc = true
			sh := p.s.shardSchedule[p.turn]
			p.turn = (p.turn + 1) % p.n
			size := ^uint64(0) / uint64(p.n)
			start, end := uint64(sh)*size, uint64((sh+1)%p.n)*size
			if cw.startHash != start || cw.endHash != end {
				return &bad{"C17", fmt.Sprintf("the block announced shard [%x,%x), in turn is shard %d of %d, [%x,%x)", cw.startHash, cw.endHash, sh, p.n, start, end)}
			}
			p.sblk, p.sbuf = p.split(p.sbuf, sh)
			p.flight = 0
			p.acks = 0
		} else if i == 0 && !p.senc {
			return &bad{"C19", "the sender sent a codeword of a block that is finished"}
		}
		p.flight++
		p.words = append(p.words, m)
	}
	if !p.senc {
		return &bad{"C19", "the sender did not start a block though the previous one is acknowledged"}
	}
	if bag(p.s.buffer) != bag(p.sbuf) {
		return &bad{"C17", fmt.Sprintf("the sender's buffer holds %s, not in any block yet are %s", bag(p.s.buffer), bag(p.sbuf))}
	}
	if p.s.inFlight != p.flight {
		return &bad{"C19", fmt.Sprintf("%d codewords are in flight, the sender counts %d", p.flight, p.s.inFlight)}
	}
	if float64(p.flight) < p.s.sendWindow {
		return &bad{"C19", fmt.Sprintf("the sender stopped with %d codewords in flight and a window of %v", p.flight, p.s.sendWindow)}
	}
	return nil
}

func minus(a, b []htx) (r []htx) {
	in := map[uint64]bool{}
	for _, t := range b {
		in[t.Symbol.idx] = true
	}
	for _, t := range a {
		if !in[t.Symbol.idx] {
			r = append(r, t)
		}
	}
	return
}

func (p *pair) word() *bad {
	cw := p.words[0].(codeword)
	p.words = p.words[1:]
	before := len(p.rc.outbox)
	p.log("codeword new=%v [%x,%x)", cw.newBlock, cw.startHash, cw.endHash)
	skip := p.rdone && !cw.newBlock
	res := p.rcc.handleMessage(cw)
	if skip {
		if len(p.rc.outbox) != before || res != nil {
			return &bad{"C19", "a leftover codeword of a finished block was processed"}
		}
		return nil
	}
	if cw.newBlock {
		size := ^uint64(0) / uint64(p.n)
		p.rblk, p.rbuf = p.split(p.rbuf, int(cw.startHash/size))
		p.rdone = false
	}
	if bag(p.rc.buffer) != bag(p.rbuf) {
		return &bad{"C17", fmt.Sprintf("the receiver's buffer holds %s, not in any block yet are %s", bag(p.rc.buffer), bag(p.rbuf))}
	}
	if len(p.rc.outbox) != before+1 {
		return &bad{"C19", fmt.Sprintf("a codeword was answered with %d messages", len(p.rc.outbox)-before)}
	}
	a, ok := p.rc.outbox[before].(ack)
	if !ok {
		return &bad{"C19", "a codeword was not answered with an acknowledgement"}
	}
	if a.ackStart != cw.newBlock {
		return &bad{"C19", "the acknowledgement marks the wrong codeword as the first of a block"}
	}
	if !a.ackBlock {
		if len(res) != 0 || len(a.txs) != 0 {
			return &bad{"C19", "an undecoded block yielded transactions"}
		}
	} else {
		p.rdone = true
		if g, w := bag(res), bag(minus(p.sblk, p.rblk)); g != w {
			return &bad{"C19", fmt.Sprintf("the receiver obtained %s from the block, lacking were %s", g, w)}
		}
		if g, w := bag(a.txs), bag(minus(p.rblk, p.sblk)); g != w {
			return &bad{"C19", fmt.Sprintf("the acknowledgement returns %s, the sender lacks %s", g, w)}
		}
		if !p.rc.Decoder.Decoded() || len(p.rc.Decoder.Local()) != 0 || len(p.rc.Decoder.Remote()) != 0 {
			return &bad{"C19", "the decoder is not clean after a block"}
		}
	}
	p.ackq = append(p.ackq, a)
	p.bags = append(p.bags, bag(a.txs))
	return p.keep(res)
}

// keep remembers a list handed to the server and checks the ones handed out before.
func (p *pair) keep(l []htx) *bad {
	for i, k := range p.kept {
		if g := bag(k); g != p.keptBag[i] {
			return &bad{"C19", fmt.Sprintf("a list of recovered transactions %s was changed later to %s", p.keptBag[i], g)}
		}
	}
	if len(l) > 0 && len(p.kept) < 20 {
		p.kept, p.keptBag = append(p.kept, l), append(p.keptBag, bag(l))
	}
	return nil
}

func (p *pair) ack() *bad {
	a := p.ackq[0].(ack)
	p.ackq = p.ackq[1:]
	if g, w := bag(a.txs), p.bags[0]; g != w {
		return &bad{"C19", fmt.Sprintf("an acknowledgement was queued with the transactions %s and sent with %s", w, g)}
	}
	p.bags = p.bags[1:]
	p.log("ack block=%v start=%v", a.ackBlock, a.ackStart)
	before := len(p.s.outbox)
	if a.ackBlock {
		p.senc, p.recv = false, false
	}
	if a.ackStart {
		p.acks, p.recv = 0, true
	}
	if p.recv {
		p.acks++
		p.flight--
	}
	res := p.sc.handleMessage(a)
	if bag(res) != bag(a.txs) {
		return &bad{"C19", fmt.Sprintf("the sender obtained %s from an acknowledgement with %s", bag(res), bag(a.txs))}
	}
	if b := p.keep(res); b != nil {
		return b
	}
	return p.afterFill(before)
}

func (p *pair) tx(t htx, toS, toR bool) *bad {
	p.log("tx %d sender=%v receiver=%v", t.Symbol.idx, toS, toR)
	if toR {
		p.rbuf = append(p.rbuf, t)
		p.rcc.forwardTransaction(t)
		if bag(p.rc.buffer) != bag(p.rbuf) {
			return &bad{"C17", fmt.Sprintf("the receiver's buffer holds %s, expected are %s", bag(p.rc.buffer), bag(p.rbuf))}
		}
	}
	if toS {
		before := len(p.s.outbox)
		p.sbuf = append(p.sbuf, t)
		p.sc.forwardTransaction(t)
		return p.afterFill(before)
	}
	return nil
}

var caseNo int64

func newPair(r *rand.Rand) (*pair, *bad) {
	RNG = rand.New(rand.NewSource(r.Int63()))
	n := []int{1, 1, 2, 3, 4, 5, 7, 16, 64, 65, 100, 130}[r.Intn(12)]
	a := &server{handlers: map[des.Module]peer{}, received: map[uint64]struct{}{}}
	b := &server{handlers: map[des.Module]peer{}, received: map[uint64]struct{}{}}
	connectCodingServers(a, b, 5, senderConfig{[]float64{0.1, 0.3, 1, 2.5}[r.Intn(4)], n})
	ca, okA := a.handlers[b].algorithm.(coding)
	cb, okB := b.handlers[a].algorithm.(coding)
	if !okA || !okB || ca.sender == nil || cb.receiver == nil {
		return nil, &bad{"C17", "connectCodingServers does not connect a sender to a receiver"}
	}
	p := &pair{s: ca.sender, rc: cb.receiver, sc: ca, rcc: cb, n: n}
	if p.s.shardRandomizer != p.rc.shardRandomizer {
		return nil, &bad{"C17", fmt.Sprintf("the two ends of a link assign shards differently: %x and %x", p.s.shardRandomizer, p.rc.shardRandomizer)}
	}
	seen := make([]bool, n)
	for _, k := range p.s.shardSchedule {
		if k < 0 || k >= n || seen[k] {
			return nil, &bad{"C17", fmt.Sprintf("the schedule %v of %d shards does not visit each once", p.s.shardSchedule, n)}
		}
		seen[k] = true
	}
	if len(p.s.shardSchedule) != n {
		return nil, &bad{"C17", fmt.Sprintf("%d shards, the schedule has %d", n, len(p.s.shardSchedule))}
	}
	p.r = p.s.shardRandomizer
	return p, nil
}

// pairRun plays a random history between the two ends of a link.
func pairRun(seed int64) (b *bad, trace []string) {
	r := rand.New(rand.NewSource(seed))
	p, b := newPair(r)
	if b != nil {
		return b, nil
	}
	defer func() {
		if e := recover(); e != nil {
			b, trace = &bad{"", fmt.Sprint("panic: ", e)}, p.trace
		}
	}()
	id := uint64(r.Intn(1000))
	next := func() htx { id++; return mk(id, time.Duration(r.Intn(50))) }
	if r.Intn(2) == 0 { // put one transaction exactly at, before or behind a shard boundary
		t := next()
		for t.Hash%2 == 0 {
			t = next()
		}
		id = t.Symbol.idx - 1
		at := uint64(r.Intn(p.n+1))*(^uint64(0)/uint64(p.n)) + []uint64{0, 1, ^uint64(0)}[r.Intn(3)]
		p.r = at * inv64(t.Hash)
		p.s.shardRandomizer, p.rc.shardRandomizer = p.r, p.r
	}
	p.log("%d shards, schedule %v, randomizer %x, overhead %v", p.n, p.s.shardSchedule, p.r, p.s.controlOverhead)
	burst := []int{3, 20, 60}[r.Intn(3)]
	for step := 0; step < 30+r.Intn(400); step++ {
		if b = nil; len(p.words) > 4000 {
			break
		}
		switch k := r.Intn(10); {
		case k < 2 && step < burst*4 || step < burst:
			t := next()
			w := r.Intn(4)
			b = p.tx(t, w != 0, w != 1)
		case k < 7:
			if len(p.words) > 0 {
				b = p.word()
			}
		default:
			if len(p.ackq) > 0 {
				b = p.ack()
			}
		}
		if b != nil {
			return b, p.trace
		}
	}
	for k := 0; k < 600 && len(p.ackq)+len(p.words) > 0; k++ {
		for len(p.words) > 0 && len(p.words) < 4000 {
			if b = p.word(); b != nil {
				return b, p.trace
			}
		}
		for len(p.ackq) > 0 {
			if b = p.ack(); b != nil {
				return b, p.trace
			}
		}
	}
	return nil, nil
}

func run(t *testing.T, prop string, f func(seed int64) (*bad, []string)) {
	deadline := time.Now().Add(40 * time.Second)
	for seed := int64(1); seed < 6000 && time.Now().Before(deadline); seed++ {
		b, tr := f(seed)
		if b != nil && (b.prop == prop || b.prop == "") {
			if len(tr) > 60 {
				tr = append(append([]string{}, tr[:20]...), tr[len(tr)-40:]...)
			}
			t.Fatalf("FAILING-INPUT seed=%d: %s; history: %v", seed, b.what, tr)
		}
	}
}

func TestC17(t *testing.T) { run(t, "C17", pairRun) }

func TestC19(t *testing.T) {
	run(t, "C19", func(seed int64) (*bad, []string) {
		if seed%3 == 0 {
			return pullRun(seed)
		}
		return pairRun(seed)
	})
}

// pullRun plays a random history of one end of an announce/request link.
func pullRun(seed int64) (b *bad, trace []string) {
	r := rand.New(rand.NewSource(seed))
	c := &pull{known: map[uint64]htx{}}
	ref := map[uint64]htx{}
	say := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	fail := func(f string, a ...any) (*bad, []string) { return &bad{"C19", fmt.Sprintf(f, a...)}, trace }
	defer func() {
		if e := recover(); e != nil {
			b = &bad{"", fmt.Sprint("panic: ", e)}
		}
	}()
	var q []any
	for step := 0; step < 60; step++ {
		t := mk(uint64(1+r.Intn(12)), time.Duration(r.Intn(9)))
		n := len(c.outbox)
		var want any
		var wantRes []htx
		var got []htx
		switch r.Intn(5) {
		case 0:
			say("forward %d", t.Symbol.idx)
			c.forwardTransaction(t)
			ref[t.Hash] = t
			want = announce{t.Hash}
		case 1:
			say("announce %d", t.Symbol.idx)
			got = c.handleMessage(announce{t.Hash})
			if _, ok := ref[t.Hash]; !ok {
				want = request{t.Hash}
			}
		case 2:
			k, ok := ref[t.Hash]
			if !ok {
				continue
			}
			say("request %d", t.Symbol.idx)
			got = c.handleMessage(request{t.Hash})
			want = response{k}
		case 3:
			say("response %d", t.Symbol.idx)
			got = c.handleMessage(response{t})
			ref[t.Hash] = t
			wantRes = []htx{t}
		case 4:
			out := c.collectOutgoingMessages(nil, 7, nil)
			if len(out) != len(q) || len(c.outbox) != 0 {
				return &bad{"C18", "queued messages were not sent"}, trace
			}
			q = nil
			continue
		}
		if want != nil {
			q = append(q, want)
		}
		if fmt.Sprint(got) != fmt.Sprint(wantRes) {
			return fail("passed on %v, expected %v", got, wantRes)
		}
		if want == nil && len(c.outbox) != n {
			return fail("queued %v, expected nothing", c.outbox[n:])
		}
		if want != nil && (len(c.outbox) != n+1 || fmt.Sprintf("%T%v", c.outbox[n], c.outbox[n]) != fmt.Sprintf("%T%v", want, want)) {
			return fail("queued %+v, expected %T%+v", c.outbox[n:], want, want)
		}
		if fmt.Sprint(c.known) != fmt.Sprint(ref) {
			return fail("remembers %v, expected %v", c.known, ref)
		}
	}
	return nil, nil
}

// ---- server
type stub struct {
	name   int
	given  []htx
	queue  []any
	answer []htx
	asked  int
	log    *[]string
}

func (a *stub) collectOutgoingMessages(peer des.Module, delay time.Duration, outbox []des.OutgoingMessage) []des.OutgoingMessage {
	for _, m := range a.queue {
		outbox = append(outbox, des.OutgoingMessage{m, peer, delay})
	}
	a.queue = nil
	return outbox
}
func (a *stub) forwardTransaction(tx htx) {
	a.given = append(a.given, tx)
	a.queue = append(a.queue, announce{tx.Hash})
}
func (a *stub) handleMessage(msg any) []htx { a.asked++; return a.answer }

func TestC18(t *testing.T) {
	run(t, "C18", func(seed int64) (*bad, []string) {
		switch seed % 4 {
		case 0:
			return pullRun(seed)
		case 1:
			return codingQueues(seed)
		}
		return serverRun(seed)
	})
}

func codingQueues(seed int64) (*bad, []string) {
	r := rand.New(rand.NewSource(seed))
	var c coding
	var want []string
	base := []des.OutgoingMessage{}
	for i := 0; i < r.Intn(3); i++ {
		base = append(base, des.OutgoingMessage{i, nil, 1})
	}
	to := &server{}
	ns, nr := r.Intn(5), r.Intn(5)
	if r.Intn(3) == 0 {
		ns, nr = r.Intn(200), r.Intn(200)
	}
	for _, m := range base {
		want = append(want, fmt.Sprintf("%v %v %v", m.Payload, m.To == des.Module(to), int64(m.Delay)))
	}
	if r.Intn(3) > 0 {
		c.sender = &sender{}
		for i := 0; i < ns; i++ {
			c.sender.outbox = append(c.sender.outbox, 100+i)
			want = append(want, fmt.Sprintf("%v true 9", 100+i))
		}
	}
	if r.Intn(3) > 0 {
		c.receiver = &receiver{}
		for i := 0; i < nr; i++ {
			c.receiver.outbox = append(c.receiver.outbox, 200+i)
			want = append(want, fmt.Sprintf("%v true 9", 200+i))
		}
	}
	for pass := 0; pass < 2; pass++ {
		var got []string
		for _, m := range c.collectOutgoingMessages(to, 9, base) {
			got = append(got, fmt.Sprintf("%v %v %v", m.Payload, m.To == des.Module(to), int64(m.Delay)))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return &bad{"C18", fmt.Sprintf("collected (payload, right neighbour, delay) %v, queued were %v", got, want)}, nil
		}
		want = want[:len(base)]
	}
	// a transaction given to a link reaches both halves
	c = coding{&sender{Encoder: &riblt.Encoder[transaction]{}, sendWindow: 0, encodingCurrentBlock: true}, &receiver{Decoder: &riblt.Decoder[transaction]{}}}
	x := mk(uint64(r.Intn(100)), 3)
	c.forwardTransaction(x)
	if bag(c.sender.buffer) != bag([]htx{x}) || bag(c.receiver.buffer) != bag([]htx{x}) {
		return &bad{"C18", fmt.Sprintf("a forwarded transaction is in the sender's buffer as %v and the receiver's as %v", c.sender.buffer, c.receiver.buffer)}, nil
	}
	return nil, nil
}

func serverRun(seed int64) (b *bad, trace []string) {
	r := rand.New(rand.NewSource(seed))
	say := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	fail := func(f string, a ...any) (*bad, []string) { return &bad{"C18", fmt.Sprintf(f, a...)}, trace }
	defer func() {
		if e := recover(); e != nil {
			b = &bad{"", fmt.Sprint("panic: ", e)}
		}
	}()
	TXSIZE = 10
	txgen = &transactionGenerator{}
	s := &server{handlers: map[des.Module]peer{}, rng: rand.New(rand.NewSource(seed)), received: map[uint64]struct{}{},
		serverConfig: serverConfig{blockArrivalIntv: 1e-9, blockArrivalBurst: 1 + r.Intn(4), initialFlood: r.Intn(2) == 0}, latencySketch: newDistributionSketch(0)}
	n := 1 + r.Intn(4)
	var mods []*server
	var stubs []*stub
	for i := 0; i < n; i++ {
		m, a := &server{}, &stub{name: i}
		mods, stubs = append(mods, m), append(stubs, a)
		s.handlers[m] = peer{a, time.Duration(10 + i)}
		s.peers = append(s.peers, m)
	}
	known := map[uint64]bool{}
	rx, dec, dup := 0, 0, 0
	for step := 0; step < 25; step++ {
		wantGiven := make([][]uint64, n)
		var wantOut []string
		for i, a := range stubs {
			a.given, a.asked = nil, 0
			if r.Intn(3) == 0 {
				a.queue = append(a.queue, request{uint64(step)})
			}
			_ = i
		}
		queue := make([][]any, n)
		for i, a := range stubs {
			queue[i] = append([]any{}, a.queue...)
		}
		from := r.Intn(n)
		learn := func(t htx, ex int) {
			if known[t.Symbol.idx] {
				dup++
				return
			}
			known[t.Symbol.idx] = true
			rx++
			dec++
			for i := range stubs {
				if i != ex {
					wantGiven[i] = append(wantGiven[i], t.Symbol.idx)
					queue[i] = append(queue[i], announce{t.Hash})
				}
			}
		}
		var out []des.OutgoingMessage
		switch r.Intn(4) {
		case 0:
			k := r.Intn(4)
			say("arrival of %d", k)
			for j := 0; j < k; j++ {
				x := mk(txgen.last+1+uint64(j), time.Duration(step))
				known[x.Symbol.idx] = true
				rx++
				for i := range stubs {
					if s.initialFlood {
						wantOut = append(wantOut, fmt.Sprintf("%d %v %v", i, initialBroadcast{x}, 10+i))
					} else {
						wantGiven[i] = append(wantGiven[i], x.Symbol.idx)
						queue[i] = append(queue[i], announce{x.Hash})
					}
				}
			}
			out = s.HandleMessage(blockArrival{k}, nil, time.Duration(step))
			found := -1
			for i, m := range out {
				if ba, ok := m.Payload.(blockArrival); ok && m.To == nil && ba.n == s.blockArrivalBurst {
					found = i
				}
			}
			if found < 0 {
				return fail("the next arrival was not scheduled")
			}
			out = append(append([]des.OutgoingMessage{}, out[:found]...), out[found+1:]...)
		case 1:
			x := mk(uint64(1+r.Intn(30))+1000*uint64(r.Intn(2)), 0)
			say("broadcast %d from %d", x.Symbol.idx, from)
			learn(x, from)
			out = s.HandleMessage(initialBroadcast{x}, mods[from], time.Duration(step))
		default:
			var l []htx
			for j := 0; j < r.Intn(5); j++ {
				l = append(l, mk(uint64(1+r.Intn(30))+1000*uint64(r.Intn(2)), 0))
			}
			say("decoded %s from %d", bag(l), from)
			for _, x := range l {
				learn(x, from)
			}
			stubs[from].answer = l
			out = s.HandleMessage(announce{5}, mods[from], time.Duration(step))
			if stubs[from].asked != 1 {
				return fail("a message was handed to its link %d times", stubs[from].asked)
			}
		}
		for i, a := range stubs {
			var g []uint64
			for _, x := range a.given {
				if x.Hash != x.Symbol.Hash() {
					return fail("a transaction was forwarded with a wrong hash")
				}
				g = append(g, x.Symbol.idx)
			}
			if fmt.Sprint(g) != fmt.Sprint(wantGiven[i]) {
				return fail("neighbour %d of %d was given %v, expected %v", i, n, g, wantGiven[i])
			}
			for _, m := range queue[i] {
				wantOut = append(wantOut, fmt.Sprintf("%d %v %v", i, m, 10+i))
			}
		}
		var got []string
		for _, m := range out {
			who := -1
			for i := range mods {
				if m.To == des.Module(mods[i]) {
					who = i
				}
			}
			got = append(got, fmt.Sprintf("%d %v %v", who, m.Payload, int64(m.Delay)))
		}
		sort.Strings(got)
		sort.Strings(wantOut)
		if fmt.Sprint(got) != fmt.Sprint(wantOut) {
			return fail("sent (neighbour, payload, delay) %v, expected %v", got, wantOut)
		}
		if s.receivedTransactions != rx || s.decodedTransactions != dec || s.duplicateTransactions != dup {
			return fail("counted %d received %d decoded %d duplicate, there were %d %d %d", s.receivedTransactions, s.decodedTransactions, s.duplicateTransactions, rx, dec, dup)
		}
		if len(s.received) != len(known) {
			return fail("knows %d transactions, obtained %d", len(s.received), len(known))
		}
		for k := range known {
			if _, ok := s.received[k]; !ok {
				return fail("transaction %d was obtained and is not known", k)
			}
		}
	}
	return nil, nil
}
