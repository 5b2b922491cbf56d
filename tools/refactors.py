#!/usr/bin/env python3
# Edits that keep the behaviour; every check has to stay quiet on them.
#   refactors.py [name ...]     applies each to a scratch copy, runs the checks it concerns
import os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('REFDIR', '/tmp/refrepo')
R = {}
def ref(name, props, *edits): R[name] = (props.split(), edits)

RD, RE, RS = 'riblt/decoder.go', 'riblt/encoder.go', 'riblt/sketch.go'
RIB = 'C01 C02 C03 C04 C05 C06 C17 C19 C22'
ref('riblt-peel-helper', RIB, (RD, '''		case 1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, remove)
				d.remote.addHashedSymbolWithMapping(ns, m)
				d.pending -= 1
			}
		case -1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, add)
				d.local.addHashedSymbolWithMapping(ns, m)
				d.pending -= 1
			}
''', '''		case 1:
			d.peel(c, remove, &d.remote)
		case -1:
			d.peel(c, add, &d.local)
'''), (RD, '''func (d *Decoder[T]) TryDecode() {''', '''func (d *Decoder[T]) peel(c receivedSymbol[T], direction int64, w *codingWindow[T]) {
	hash := c.sum.Hash()
	if hash != c.checksum {
		return
	}
	var ns HashedSymbol[T]
	ns.Hash = hash
	ns.Symbol = ns.Symbol.XOR(c.sum)
	mapping := d.applyNewSymbol(ns, direction)
	w.addHashedSymbolWithMapping(ns, mapping)
	d.pending--
}

func (d *Decoder[T]) TryDecode() {'''))
ref('riblt-add-coded', RIB, (RD, '''	if c.count == 0 && c.checksum == 0 {
		// still insert the codeword in case a symbol added later causes it to become dirty
		d.cs = append(d.cs, receivedSymbol[T]{c, false})
		return
	} else {
		if c.count >= -1 && c.count <= 1 {
			d.cs = append(d.cs, receivedSymbol[T]{c, true})
			d.dirty = append(d.dirty, len(d.cs)-1)
		} else {
			d.cs = append(d.cs, receivedSymbol[T]{c, false})
		}
		d.pending += 1
		return
	}
''', '''	empty := c.count == 0 && c.checksum == 0
	candidate := !empty && -1 <= c.count && c.count <= 1
	if candidate {
		d.dirty = append(d.dirty, len(d.cs))
	}
	d.cs = append(d.cs, receivedSymbol[T]{c, candidate})
	if !empty {
		d.pending++
	}
'''))
ref('riblt-apply-loop', RIB, (RD, '''	m := randomMapping{t.Hash , 0}
	for int(m.lastIdx) < len(d.cs) {
		cidx := int(m.lastIdx)
		d.cs[cidx].CodedSymbol = d.cs[cidx].apply(t, direction)
		c := d.cs[cidx]
		if (!c.dirty) && c.count >= -1 && c.count <= 1 {
			d.cs[cidx].dirty = true
			d.dirty = append(d.dirty, cidx)
		}
		m.nextIndex()
	}
	return m
''', '''	m := randomMapping{prng: t.Hash}
	for cidx := int(m.lastIdx); cidx < len(d.cs); cidx = int(m.lastIdx) {
		cell := &d.cs[cidx]
		cell.CodedSymbol = cell.apply(t, direction)
		if !cell.dirty && cell.count >= -1 && cell.count <= 1 {
			d.dirty = append(d.dirty, cidx)
			cell.dirty = true
		}
		m.nextIndex()
	}
	return m
'''))
ref('riblt-heap', RIB, (RE, '''	curr := len(m)-1
	for {
		parent := (curr - 1) / 2
		if curr == parent || m[parent].codedIdx <= m[curr].codedIdx {
			break
		}
		m[parent], m[curr] = m[curr], m[parent]
		curr = parent
	}
''', '''	for curr := len(m) - 1; curr > 0; {
		parent := (curr - 1) / 2
		if m[parent].codedIdx <= m[curr].codedIdx {
			return
		}
		m[parent], m[curr] = m[curr], m[parent]
		curr = parent
	}
'''), (RE, '''		child := curr * 2 + 1
		if child >= len(m) {
			// no left child
			break
		}
		if rc := child + 1; rc < len(m) && m[rc].codedIdx < m[child].codedIdx {
			child = rc
		}
''', '''		child := m.smallerChild(curr)
		if child < 0 {
			break
		}
'''), (RE, '''func (m mappingHeap) fixHead() {''', '''func (m mappingHeap) smallerChild(curr int) int {
	left := curr * 2 + 1
	right := left + 1
	if left >= len(m) {
		return -1
	}
	if right < len(m) && m[right].codedIdx < m[left].codedIdx {
		return right
	}
	return left
}

func (m mappingHeap) fixHead() {'''))
ref('riblt-window', RIB, (RE, '''	for e.queue[0].codedIdx == e.nextIdx {
		cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
		// generate the next mapping
		nextMap := e.mappings[e.queue[0].sourceIdx].nextIndex()
		e.queue[0].codedIdx = int(nextMap)
		e.queue.fixHead()
	}
''', '''	for {
		head := &e.queue[0]
		if head.codedIdx != e.nextIdx {
			break
		}
		src := head.sourceIdx
		cw = cw.apply(e.symbols[src], direction)
		head.codedIdx = int(e.mappings[src].nextIndex())
		e.queue.fixHead()
	}
'''), (RE, '''	if len(e.symbols) != 0 {
		e.symbols = e.symbols[:0]
	}
	if len(e.mappings) != 0 {
		e.mappings = e.mappings[:0]
	}
	if len(e.queue) != 0 {
		e.queue = e.queue[:0]
	}
	e.nextIdx = 0
''', '''	e.nextIdx = 0
	e.queue = e.queue[:0]
	e.mappings = e.mappings[:0]
	e.symbols = e.symbols[:0]
'''))
ref('riblt-sketch', RIB, (RS, '''		idx := m.lastIdx
		s[idx].sum = s[idx].sum.XOR(t.Symbol)
		s[idx].count += 1
		s[idx].checksum ^= t.Hash
''', '''		cell := &s[m.lastIdx]
		*cell = cell.apply(t, add)
'''), (RS, '''	for i := range s {
		s[i].sum = s[i].sum.XOR(s2[i].sum)
		s[i].count = s[i].count - s2[i].count
		s[i].checksum = s[i].checksum ^ s2[i].checksum
	}
	return s
''', '''	for i := 0; i < len(s2); i++ {
		other := s2[i]
		s[i].checksum ^= other.checksum
		s[i].count -= other.count
		s[i].sum = s[i].sum.XOR(other.sum)
	}
	return s
'''), (RS, '''	for _, c := range s {
		dec.AddCodedSymbol(c)
	}
''', '''	for i := 0; i < len(s); i++ {
		dec.AddCodedSymbol(s[i])
	}
'''))
for k in ('lt', 'iblt'):
    D, E = k + '/decoder.go', k + '/encoder.go'
    P = 'C07 C08 C09 C10 C11 C22' + (' C20' if k == 'lt' else '')
    ref(k + '-add-codeword', P, (D, '''		pending, pendingExists := p.pendingTransactions[member]
		received, receivedExists := p.receivedTransactions[member]
		if !receivedExists {
			if !pendingExists {
				// we have never heard of it
				pending = &pendingTransaction[T]{}
				pending.saltedHash = member
				p.pendingTransactions[member] = pending
			}
			// link to the pending transaction
			pending.blocking = append(pending.blocking, cw)
			cw.members = append(cw.members, pending)
		} else {
			// sanity check
			if !pendingExists {
				// peel the transaction
				cw.symbol = cw.symbol.XOR(received.data)
			} else {
				panic("transaction is marked both received and pending")
			}
		}
	}
	if len(cw.members) <= 1 {
		cw.queued = true
		queue := []*PendingCodeword[T]{cw}
		txs := p.decodeCodewords(queue)
		return cw, txs
	}
	return cw, nil
''', '''		if received, known := p.receivedTransactions[member]; known {
			if _, waiting := p.pendingTransactions[member]; waiting {
				panic("transaction is marked both received and pending")
			}
			cw.symbol = cw.symbol.XOR(received.data)
			continue
		}
		stub := p.stubFor(member)
		cw.members = append(cw.members, stub)
		stub.blocking = append(stub.blocking, cw)
	}
	if len(cw.members) > 1 {
		return cw, nil
	}
	cw.queued = true
	return cw, p.decodeCodewords([]*PendingCodeword[T]{cw})
'''), (D, '''func (p *Decoder[T]) AddCodeword(''', '''// stubFor finds or creates the pending transaction of a salted hash.
func (p *Decoder[T]) stubFor(h uint32) *pendingTransaction[T] {
	stub, ok := p.pendingTransactions[h]
	if ok {
		return stub
	}
	stub = &pendingTransaction[T]{saltedHash: h}
	p.pendingTransactions[h] = stub
	return stub
}

func (p *Decoder[T]) AddCodeword('''))
    ref(k + '-decode', P, (D, '''		if len(c.members) == 0 {
			// nothing to do, already fully peeled
		} else if len(c.members) == 1 {''', '''		switch {
		case len(c.members) > 1:
			panic("queued undecodable codeword")
		case len(c.members) == 1:'''), (D, '''				panic("unpeeled transaction is already received")
			}
		} else {
			panic("queued undecodable codeword")
		}
''', '''				panic("unpeeled transaction is already received")
			}
		}
'''))
    ref(k + '-add-tx', P, (D, '''	if existing, there := p.receivedTransactions[saltedHash]; !there {
		p.storeNewTransaction(saltedHash, t)
		if pending, there := p.pendingTransactions[saltedHash]; there {
			// quick sanity check
			if pending.saltedHash != saltedHash {
				panic("salted hash of retrieved transaction stub does not match the hash computed from the full transaction")
			}
			// peel the transaction and try decoding
			delete(p.pendingTransactions, saltedHash)
			queue := pending.markDecoded(t.data, nil)
			return p.decodeCodewords(queue)
		} else {
			return nil
		}
	} else {
		if bytes.Equal(existing.hash, t.hash) {
			// something that we already know; do not do anything
			return nil
		} else {
			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
			p.storeNewTransaction(saltedHash, t)
			if _, there := p.pendingTransactions[saltedHash]; there {
				panic("pending transaction is already decoded")
			} else {
				return nil
			}
		}
	}
''', '''	existing, known := p.receivedTransactions[saltedHash]
	if known && bytes.Equal(existing.hash, t.hash) {
		return nil
	}
	p.storeNewTransaction(saltedHash, t)
	pending, waiting := p.pendingTransactions[saltedHash]
	if known && waiting {
		panic("pending transaction is already decoded")
	}
	if !waiting {
		return nil
	}
	if pending.saltedHash != saltedHash {
		panic("salted hash of retrieved transaction stub does not match the hash computed from the full transaction")
	}
	delete(p.pendingTransactions, saltedHash)
	return p.decodeCodewords(pending.markDecoded(t.data, nil))
'''))
    ref(k + '-produce', P, (E, '''		// randomly shuffle with any item with idx i, i+1, ..., n-1, i.e.,
		// items not yet selected
		r := e.r.Intn(n-i) + i
		e.shuffleHistory = append(e.shuffleHistory, r)
		e.window[i], e.window[r] = e.window[r], e.window[i]
		// this is now the selected item, add it to codeword
		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
		c.members[i] = e.window[i].saltedHash
	}
	// revert the shuffling
	for i := deg - 1; i >= 0; i-- {
		e.window[i], e.window[e.shuffleHistory[i]] = e.window[e.shuffleHistory[i]], e.window[i]
	}
''', '''		pick := i + e.r.Intn(n-i)
		e.shuffleHistory = append(e.shuffleHistory, pick)
		chosen := e.window[pick]
		e.window[pick] = e.window[i]
		e.window[i] = chosen
		c.members[i] = chosen.saltedHash
		c.symbol = c.symbol.XOR(chosen.data)
	}
	for i := len(e.shuffleHistory); i > 0; i-- {
		j := e.shuffleHistory[i-1]
		e.window[i-1], e.window[j] = e.window[j], e.window[i-1]
	}
'''))
    ref(k + '-window', P, (E, '''	if _, there := e.hashes[hash]; there {
		// the transaction is already in the window
		return false
	}
	tx := saltedTransaction[T]{hash, t}
	e.window = append(e.window, tx)
	e.hashes[hash] = struct{}{}
	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
	return true
''', '''	_, present := e.hashes[hash]
	if !present {
		e.hashes[hash] = struct{}{}
		e.window = append(e.window, saltedTransaction[T]{hash, t})
		e.trim()
	}
	return !present
'''), (E, '''func (e *Encoder[T]) ProduceCodeword()''', '''func (e *Encoder[T]) trim() {
	for len(e.window) > e.windowSize {
		oldest := e.window[0]
		e.window = e.window[1:]
		delete(e.hashes, oldest.saltedHash)
	}
}

func (e *Encoder[T]) ProduceCodeword()'''))
D = 'ldpc/decoder.go'
LD = 'C12 C13 C14 C15 C21'
ref('ldpc-stub', LD, (D, '''			if !pendingExists {
				// we have never heard of it
				pending = pendingTransactionPool.Get().(*pendingTransaction)
				pending.reset()
				pending.saltedHash = member
				p.pendingTransactions[member] = pending
			}
''', '''			if !pendingExists {
				pending = newStub(member)
				p.pendingTransactions[member] = pending
			}
'''), (D, '''func (p *Decoder) AddCodeword(''', '''func newStub(h uint32) *pendingTransaction {
	stub := pendingTransactionPool.Get().(*pendingTransaction)
	stub.saltedHash = h
	stub.reset()
	return stub
}

func (p *Decoder) AddCodeword('''))
ref('ldpc-early', LD, (D, '''		if existing.serialized == t.serialized {
			// something that we already know; do not do anything
			return nil
		} else {
			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
			p.storeNewTransaction(hash, t)
			if _, there := p.pendingTransactions[hash]; there {
				panic("pending transaction is already decoded")
			} else {
				return nil
			}
		}
''', '''		if existing.serialized != t.serialized {
			if _, there := p.pendingTransactions[hash]; there {
				panic("pending transaction is already decoded")
			}
			p.storeNewTransaction(hash, t)
		}
		return nil
'''), (D, '''	p.receivedTransactions[hash] = t
	p.recentTransactions = append(p.recentTransactions, recentTransaction{t, hash})
	p.numTransactionsDecoded += 1
	for len(p.recentTransactions) > p.numTransactionsMemorized {
		if e := p.receivedTransactions[p.recentTransactions[0].hash]; e == p.recentTransactions[0].ptr {
			delete(p.receivedTransactions, p.recentTransactions[0].hash)
		}
		p.recentTransactions = p.recentTransactions[1:]
	}
''', '''	p.numTransactionsDecoded++
	p.recentTransactions = append(p.recentTransactions, recentTransaction{hash: hash, ptr: t})
	p.receivedTransactions[hash] = t
	for len(p.recentTransactions) > p.numTransactionsMemorized {
		oldest := p.recentTransactions[0]
		p.recentTransactions = p.recentTransactions[1:]
		if p.receivedTransactions[oldest.hash] == oldest.ptr {
			delete(p.receivedTransactions, oldest.hash)
		}
	}
'''))
ref('ldpc-peel', LD, (D, '''	for idx, ptr := range peelable.members {
		if ptr == stub {
			l := len(peelable.members)
			// pop the ptr by swapping with the last item
			// we need to set the deleted ptr to nil to
			// free the pointed value
			peelable.members[idx] = peelable.members[l-1]
			peelable.members[l-1] = nil
			peelable.members = peelable.members[:l-1]
			peelable.symbol.XOR(&preimage.serialized)
			return
		}
	}
	panic("unable to peel decoded transaction from codeword pointing to it")
''', '''	last := len(peelable.members) - 1
	for idx := 0; idx <= last; idx++ {
		if peelable.members[idx] != stub {
			continue
		}
		peelable.symbol.XOR(&preimage.serialized)
		peelable.members[idx] = peelable.members[last]
		peelable.members[last] = nil
		peelable.members = peelable.members[:last]
		return
	}
	panic("unable to peel decoded transaction from codeword pointing to it")
'''))
ref('des', 'C16', ('des/simulator.go', '''	if msg.To == nil {
		m := queuedMessage{s.time + msg.Delay, s.seq, from, from, msg.Payload}
		heap.Push(&s.mq, m)
	} else {
		m := queuedMessage{s.time + msg.Delay, s.seq, from, msg.To, msg.Payload}
		heap.Push(&s.mq, m)
	}
	s.seq += 1
''', '''	to := msg.To
	if to == nil {
		to = from
	}
	seq := s.seq
	s.seq++
	heap.Push(&s.mq, queuedMessage{arrival: s.time + msg.Delay, seq: seq, from: from, to: to, payload: msg.Payload})
'''), ('des/simulator.go', '''	if pq[i].arrival < pq[j].arrival {
		return true
	} else if pq[i].arrival == pq[j].arrival {
		return pq[i].seq < pq[j].seq
	}
	return false
''', '''	a, b := pq[i], pq[j]
	if a.arrival != b.arrival {
		return a.arrival < b.arrival
	}
	return a.seq < b.seq
'''), ('des/simulator.go', '''	for _, v := range nm {
		s.ScheduleMessage(v, m.to)
	}
''', '''	for i := 0; i < len(nm); i++ {
		s.ScheduleMessage(nm[i], m.to)
	}
'''))
NC = 'newsim/coding.go'
ref('newsim-shard', 'C17 C18 C19', (NC, '''			shardHash := v.Hash * n.shardRandomizer
			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Encoder''', '''			if inShard(v.Hash*n.shardRandomizer, cw.startHash, cw.endHash) {
				n.Encoder'''), (NC, '''			shardHash := v.Hash * n.shardRandomizer
			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Decoder''', '''			if inShard(v.Hash*n.shardRandomizer, cw.startHash, cw.endHash) {
				n.Decoder'''), (NC, '''type receiver struct {''', '''// inShard tells if a hash is in [start, end), which may wrap around.
func inShard(h, start, end uint64) bool {
	if start < end {
		return start <= h && h < end
	}
	return h >= start || h < end
}

type receiver struct {'''))
ref('newsim-server', 'C18', ('newsim/module.go', '''			tx := ib.payload
			if _, there := s.received[tx.Symbol.idx]; !there {
				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				s.forwardTransaction(tx, from)
				s.received[tx.Symbol.idx] = struct{}{}
				s.decodedTransactions += 1
				s.receivedTransactions += 1
			} else {
				s.duplicateTransactions += 1
			}
''', '''			s.obtain(ib.payload, from, timestamp)
'''), ('newsim/module.go', '''				if _, there := s.received[tx.Symbol.idx]; !there {
					s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
					s.forwardTransaction(tx, from)
					s.received[tx.Symbol.idx] = struct{}{}
					s.decodedTransactions += 1
					s.receivedTransactions += 1
				} else {
					s.duplicateTransactions += 1
				}
''', '''				s.obtain(tx, from, timestamp)
'''), ('newsim/module.go', '''func (s *server) HandleMessage(''', '''func (s *server) obtain(tx riblt.HashedSymbol[transaction], from des.Module, timestamp time.Duration) {
	id := tx.Symbol.idx
	if _, known := s.received[id]; known {
		s.duplicateTransactions++
		return
	}
	s.received[id] = struct{}{}
	s.receivedTransactions++
	s.decodedTransactions++
	s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
	s.forwardTransaction(tx, from)
}

func (s *server) HandleMessage('''))
ref('newsim-receiver', 'C17 C19', (NC, '''		ack.ackBlock = true
		for _, tx := range n.Local() {
			ack.txs = append(ack.txs, tx)
		}
		n.outbox = append(n.outbox, ack)
		res := []riblt.HashedSymbol[transaction]{}
		for _, v := range n.Decoder.Remote() {
			res = append(res, v)
		}
		n.Decoder.Reset()
		return res, true
''', '''		ack.ackBlock = true
		ack.txs = append(ack.txs, n.Local()...)
		res := append([]riblt.HashedSymbol[transaction]{}, n.Decoder.Remote()...)
		n.Decoder.Reset()
		n.outbox = append(n.outbox, ack)
		return res, true
'''))
ref('newsim-sender', 'C17 C19', (NC, '''		cw, yes, burst := n.tryProduceCodeword()
		if !yes {
			return
		}
		n.outbox = append(n.outbox, cw)
		n.inFlight += 1
		for i := 0; i < burst; i++ {
			cw := codeword{}
			cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
			n.outbox = append(n.outbox, cw)
			n.inFlight += 1
		}
''', '''		first, ok, extra := n.tryProduceCodeword()
		if !ok {
			break
		}
		n.inFlight++
		n.outbox = append(n.outbox, first)
		for ; extra > 0; extra-- {
			n.inFlight++
			n.outbox = append(n.outbox, codeword{CodedSymbol: n.Encoder.ProduceNextCodedSymbol()})
		}
'''))
ref('newsim-pull', 'C18 C19', ('newsim/coding.go', '''	if c.sender != nil {
		for _, msg := range c.sender.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		c.sender.outbox = c.sender.outbox[:0]
	}
''', '''	if snd := c.sender; snd != nil {
		for i := range snd.outbox {
			outbox = append(outbox, des.OutgoingMessage{Payload: snd.outbox[i], To: peer, Delay: delay})
		}
		snd.outbox = snd.outbox[:0]
	}
'''))
for _f in ('refactors2.py', 'refactors3.py', 'refactors4.py', 'refactors5.py'): exec(open(os.path.join(V, 'tools', _f)).read())

def main():
    names = sys.argv[1:] or list(R)
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', REPO=S)
    for n in names:
        props, edits = R[n]
        if os.path.exists(S): shutil.rmtree(S)
        subprocess.check_call(['cp', '-a', '/repo', S])
        try:
            for f, o, w in edits:
                p = os.path.join(S, f); s = open(p).read()
                assert s.count(o) == 1, (n, f, s.count(o), o[:80])
                open(p, 'w').write(s.replace(o, w))
        except AssertionError as e:
            print(n, 'DOES NOT APPLY', e); continue
        pk = sorted({'./' + os.path.dirname(f) for f, _, _ in edits})
        b = subprocess.run(['go', 'test', '-vet=off', '-count=1'] + pk, cwd=S, env=env, capture_output=True, text=True)
        bad = [l for l in b.stdout.splitlines() if l.startswith('FAIL')]
        print(n, 'tests', 'ok' if b.returncode == 0 else bad, b.stderr[:300], flush=True)
        for p in props:
            t = time.time()
            r = subprocess.run(['bash', V + '/check.sh', p], cwd=V, env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if r.returncode or v:
                print('   ', p, 'exit', r.returncode, v, '%.0fs' % (time.time() - t))
                for l in (r.stdout + r.stderr).splitlines():
                    if l.startswith('failed') or 'rror' in l: print('       ', l[:200])
            else: print('   ', p, 'quiet %.0fs' % (time.time() - t))
            sys.stdout.flush()
    shutil.rmtree(S, ignore_errors=True)
main()
