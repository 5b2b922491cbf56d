# more behaviour-preserving edits, one small function each
RDEC, RENC, RMAP, RSK, RSY = 'riblt/decoder.go', 'riblt/encoder.go', 'riblt/random.go', 'riblt/sketch.go', 'riblt/symbol.go'
RALL = 'C01 C03 C04 C05 C06 C22'
ref('r4-next-index', 'C02 C01 C03', (RMAP, '''	if s.lastIdx >= math.MaxInt64 || step > math.MaxInt64-s.lastIdx {
		// keep the index representable as a nonnegative int
		s.lastIdx = math.MaxInt64
	} else {
		s.lastIdx += step
	}
	return s.lastIdx
''', '''	next := uint64(math.MaxInt64)
	if s.lastIdx < math.MaxInt64 && step <= math.MaxInt64-s.lastIdx {
		next = s.lastIdx + step
	}
	s.lastIdx = next
	return next
'''))
ref('r4-next-step', 'C02 C01 C03', (RMAP, '''	xm := float64(r) / (1 << 64)
	step := uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
	if step == 0 {
''', '''	step := stepFrom(r, s.lastIdx)
	if step < 1 {
'''), (RMAP, '''func (s *randomMapping) nextIndex()''', '''func stepFrom(r, j uint64) uint64 {
	xm := float64(r) / (1 << 64)
	return uint64(math.Ceil((float64(j) + 1.5) * (1/math.Sqrt(1-xm) - 1)))
}

func (s *randomMapping) nextIndex()'''))
ref('r4-apply', RALL, (RSY, '''	c.sum = c.sum.XOR(s.Symbol)
	c.count += direction
	c.checksum ^= s.Hash
	return c
''', '''	return CodedSymbol[T]{
		sum:      c.sum.XOR(s.Symbol),
		count:    c.count + direction,
		checksum: c.checksum ^ s.Hash,
	}
'''))
ref('r4-fixhead', RALL, (RENC, '''	curr := 0
	for {
		child := curr * 2 + 1
		if child >= len(m) {
			// no left child
			break
		}
		if rc := child + 1; rc < len(m) && m[rc].codedIdx < m[child].codedIdx {
			child = rc
		}
		if m[curr].codedIdx <= m[child].codedIdx {
			break
		}
		m[curr], m[child] = m[child], m[curr]
		curr = child
	}
''', '''	curr := 0
	for child := 1; child < len(m); child = 2*curr + 1 {
		if child+1 < len(m) && m[child+1].codedIdx < m[child].codedIdx {
			child++
		}
		if m[curr].codedIdx <= m[child].codedIdx {
			return
		}
		m[curr], m[child] = m[child], m[curr]
		curr = child
	}
'''))
ref('r4-fixtail', RALL, (RENC, '''	for {
		parent := (curr - 1) / 2
		if curr == parent || m[parent].codedIdx <= m[curr].codedIdx {
			break
		}
		m[parent], m[curr] = m[curr], m[parent]
		curr = parent
	}
''', '''	for curr > 0 {
		parent := (curr - 1) / 2
		if m[parent].codedIdx <= m[curr].codedIdx {
			return
		}
		tmp := m[parent]
		m[parent] = m[curr]
		m[curr] = tmp
		curr = parent
	}
'''))
ref('r4-apply-window', RALL, (RENC, '''	if len(e.queue) == 0 {
		e.nextIdx += 1
		return cw
	}
	for e.queue[0].codedIdx == e.nextIdx {
		cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
		// generate the next mapping
		nextMap := e.mappings[e.queue[0].sourceIdx].nextIndex()
		e.queue[0].codedIdx = int(nextMap)
		e.queue.fixHead()
	}
	e.nextIdx += 1
	return cw
''', '''	idx := e.nextIdx
	e.nextIdx++
	for len(e.queue) > 0 && e.queue[0].codedIdx == idx {
		src := e.queue[0].sourceIdx
		cw = cw.apply(e.symbols[src], direction)
		e.queue[0].codedIdx = int(e.mappings[src].nextIndex())
		e.queue.fixHead()
	}
	return cw
'''))
ref('r4-apply-window2', RALL, (RENC, '''	for e.queue[0].codedIdx == e.nextIdx {
		cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
		// generate the next mapping
		nextMap := e.mappings[e.queue[0].sourceIdx].nextIndex()
		e.queue[0].codedIdx = int(nextMap)
		e.queue.fixHead()
	}
''', '''	for {
		head := &e.queue[0]
		if head.codedIdx != e.nextIdx {
			break
		}
		cw = cw.apply(e.symbols[head.sourceIdx], direction)
		head.codedIdx = int(e.mappings[head.sourceIdx].nextIndex())
		e.queue.fixHead()
	}
'''))
ref('r4-add-hashed', RALL, (RENC, '''	e.symbols = append(e.symbols, t)
	e.mappings = append(e.mappings, m)
	e.queue = append(e.queue, symbolMapping{len(e.symbols)-1, int(m.lastIdx)})
	e.queue.fixTail()
''', '''	entry := symbolMapping{sourceIdx: len(e.symbols), codedIdx: int(m.lastIdx)}
	e.queue = append(e.queue, entry)
	e.mappings = append(e.mappings, m)
	e.symbols = append(e.symbols, t)
	e.queue.fixTail()
'''))
ref('r4-reset', RALL + ' C17 C19', (RENC, '''	if len(e.symbols) != 0 {
		e.symbols = e.symbols[:0]
	}
	if len(e.mappings) != 0 {
		e.mappings = e.mappings[:0]
	}
	if len(e.queue) != 0 {
		e.queue = e.queue[:0]
	}
	e.nextIdx = 0
''', '''	e.nextIdx = 0
	e.queue = e.queue[:0]
	e.mappings = e.mappings[:0]
	e.symbols = e.symbols[:0]
'''))
ref('r4-reset-nil', RALL + ' C17 C19', (RENC, '''	if len(e.symbols) != 0 {
		e.symbols = e.symbols[:0]
	}
	if len(e.mappings) != 0 {
		e.mappings = e.mappings[:0]
	}
	if len(e.queue) != 0 {
		e.queue = e.queue[:0]
	}
	e.nextIdx = 0
''', '''	*e = codingWindow[T]{}
'''))
ref('r4-dec-reset', RALL + ' C17 C19', (RDEC, '''	if len(d.cs) != 0 {
		d.cs= d.cs[:0]
	}
	if len(d.dirty) != 0 {
		d.dirty = d.dirty[:0]
	}
	d.local.reset()
	d.remote.reset()
	d.window.reset()
	d.pending = 0
''', '''	d.pending = 0
	for _, w := range []*codingWindow[T]{&d.window, &d.remote, &d.local} {
		w.reset()
	}
	d.cs, d.dirty = d.cs[:0], d.dirty[:0]
'''))
ref('r4-add-coded', RALL, (RDEC, '''	if c.count == 0 && c.checksum == 0 {
		// still insert the codeword in case a symbol added later causes it to become dirty
		d.cs = append(d.cs, receivedSymbol[T]{c, false})
		return
	} else {
		if c.count >= -1 && c.count <= 1 {
			d.cs = append(d.cs, receivedSymbol[T]{c, true})
			d.dirty = append(d.dirty, len(d.cs)-1)
		} else {
			d.cs = append(d.cs, receivedSymbol[T]{c, false})
		}
		d.pending += 1
		return
	}
''', '''	empty := c.count == 0 && c.checksum == 0
	dirty := !empty && -1 <= c.count && c.count <= 1
	if dirty {
		d.dirty = append(d.dirty, len(d.cs))
	}
	d.cs = append(d.cs, receivedSymbol[T]{CodedSymbol: c, dirty: dirty})
	if !empty {
		d.pending++
	}
'''))
ref('r4-apply-new', RALL, (RDEC, '''	for int(m.lastIdx) < len(d.cs) {
		cidx := int(m.lastIdx)
		d.cs[cidx].CodedSymbol = d.cs[cidx].apply(t, direction)
		c := d.cs[cidx]
		if (!c.dirty) && c.count >= -1 && c.count <= 1 {
			d.cs[cidx].dirty = true
			d.dirty = append(d.dirty, cidx)
		}
		m.nextIndex()
	}
	return m
''', '''	for cidx := 0; cidx < len(d.cs); cidx = int(m.nextIndex()) {
		c := &d.cs[cidx]
		c.CodedSymbol = c.apply(t, direction)
		if c.dirty || c.count < -1 || c.count > 1 {
			continue
		}
		c.dirty = true
		d.dirty = append(d.dirty, cidx)
	}
	return m
'''))
ref('r4-try-decode', RALL, (RDEC, '''		switch c.count {
		case 1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, remove)
				d.remote.addHashedSymbolWithMapping(ns, m)
				d.pending -= 1
			}
		case -1:
			h := c.sum.Hash()
			if h == c.checksum {
				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, add)
				d.local.addHashedSymbolWithMapping(ns, m)
				d.pending -= 1
			}
		case 0:
			if c.checksum == 0 {
				d.pending -= 1
			}
		// one may want to add a panic here when coded symbol is not of
		// degree 1, -1 or 0, but this may be violated when a dirty coded symbol
		// is peeled before its turn
		}
''', '''		if c.count == 0 {
			if c.checksum == 0 {
				d.pending--
			}
		} else if c.count == 1 || c.count == -1 {
			if h := c.sum.Hash(); h == c.checksum {
				ns := HashedSymbol[T]{Hash: h}
				ns.Symbol = ns.Symbol.XOR(c.sum)
				if c.count == 1 {
					m := d.applyNewSymbol(ns, remove)
					d.remote.addHashedSymbolWithMapping(ns, m)
				} else {
					m := d.applyNewSymbol(ns, add)
					d.local.addHashedSymbolWithMapping(ns, m)
				}
				d.pending--
			}
		}
'''))
ref('r4-try-decode2', RALL, (RDEC, '''	for didx := 0; didx < len(d.dirty); didx += 1 {
		cidx := d.dirty[didx]
		c := d.cs[cidx]
''', '''	didx := 0
	for didx < len(d.dirty) {
		cidx := d.dirty[didx]
		didx++
		c := d.cs[cidx]
'''))
ref('r4-sketch-add', RALL, (RSK, '''	for int(m.lastIdx) < len(s) {
		idx := m.lastIdx
		s[idx].sum = s[idx].sum.XOR(t.Symbol)
		s[idx].count += 1
		s[idx].checksum ^= t.Hash
		m.nextIndex()
	}
''', '''	for idx := 0; idx < len(s); idx = int(m.nextIndex()) {
		s[idx] = s[idx].apply(t, add)
	}
'''))
ref('r4-sketch-sub', RALL, (RSK, '''	for i := range s {
		s[i].sum = s[i].sum.XOR(s2[i].sum)
		s[i].count = s[i].count - s2[i].count
		s[i].checksum = s[i].checksum ^ s2[i].checksum
	}
''', '''	for i, other := range s2 {
		c := &s[i]
		c.sum = c.sum.XOR(other.sum)
		c.count -= other.count
		c.checksum ^= other.checksum
	}
'''))
# des
DS = 'des/simulator.go'
ref('r4-des-less', 'C16', (DS, '''	if pq[i].arrival < pq[j].arrival {
		return true
	} else if pq[i].arrival == pq[j].arrival {
		return pq[i].seq < pq[j].seq
	}
	return false
''', '''	a, b := pq[i], pq[j]
	if a.arrival != b.arrival {
		return a.arrival < b.arrival
	}
	return a.seq < b.seq
'''))
ref('r4-des-sched', 'C16', (DS, '''	if msg.To == nil {
		m := queuedMessage{s.time + msg.Delay, s.seq, from, from, msg.Payload}
		heap.Push(&s.mq, m)
	} else {
		m := queuedMessage{s.time + msg.Delay, s.seq, from, msg.To, msg.Payload}
		heap.Push(&s.mq, m)
	}
	s.seq += 1
''', '''	to := msg.To
	if to == nil {
		to = from
	}
	heap.Push(&s.mq, queuedMessage{
		arrival: s.time + msg.Delay,
		seq:     s.seq,
		from:    from,
		to:      to,
		payload: msg.Payload,
	})
	s.seq++
'''))
ref('r4-des-run', 'C16', (DS, '''	for !s.Drained() && s.time <= t {
		s.deliverNextMessage()
	}
''', '''	for len(s.mq) > 0 {
		if s.time > t {
			return
		}
		s.deliverNextMessage()
	}
'''), (DS, '''	idx := len(*pq) - 1
	res := (*pq)[idx]
	(*pq)[idx].payload = nil
	*pq = (*pq)[0:idx]
	return res
''', '''	q := *pq
	last := q[len(q)-1]
	q[len(q)-1].payload = nil
	*pq = q[:len(q)-1]
	return last
'''), (DS, '''	nm := m.to.HandleMessage(m.payload, m.from, s.time)
	for _, v := range nm {
		s.ScheduleMessage(v, m.to)
	}
''', '''	nm := m.to.HandleMessage(m.payload, m.from, s.time)
	for i := 0; i < len(nm); i++ {
		s.ScheduleMessage(nm[i], m.to)
	}
'''))
# newsim
NC, NP, NM = 'newsim/coding.go', 'newsim/pull.go', 'newsim/module.go'
ref('r4-inshard', 'C17 C19', (NC, '''			shardHash := v.Hash * n.shardRandomizer
			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Encoder.AddHashedSymbol(v)
''', '''			if cw.covers(v.Hash * n.shardRandomizer) {
				n.Encoder.AddHashedSymbol(v)
'''), (NC, '''			shardHash := v.Hash * n.shardRandomizer
			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {
				n.Decoder.AddHashedSymbol(v)
''', '''			if cw.covers(v.Hash * n.shardRandomizer) {
				n.Decoder.AddHashedSymbol(v)
'''), (NC, '''type senderConfig struct''', '''func (cw codeword) covers(h uint64) bool {
	if cw.startHash < cw.endHash {
		return h >= cw.startHash && h < cw.endHash
	}
	return h >= cw.startHash || h < cw.endHash
}

type senderConfig struct'''))
ref('r4-onack', 'C19', (NC, '''	if ack.ackBlock {
		n.encodingCurrentBlock = false
		n.receivingCurrentBlock = false
	}
	if ack.ackStart {
		n.currentBlockAckCount = 0
		n.receivingCurrentBlock = true
	}
	if n.receivingCurrentBlock {
		n.currentBlockAckCount += 1
		n.inFlight -= 1
		n.sendWindow += n.controlOverhead
		if n.sendWindow < 1 {
			n.sendWindow = 1
		}
	}
''', '''	if ack.ackBlock {
		n.encodingCurrentBlock = false
	}
	if ack.ackStart {
		n.currentBlockAckCount = 0
	}
	n.receivingCurrentBlock = ack.ackStart || (n.receivingCurrentBlock && !ack.ackBlock)
	if n.receivingCurrentBlock {
		n.inFlight--
		n.currentBlockAckCount++
		n.growWindow()
	}
'''), (NC, '''func (n *sender) onTransaction(''', '''func (n *sender) growWindow() {
	n.sendWindow += n.controlOverhead
	if n.sendWindow < 1 {
		n.sendWindow = 1
	}
}

func (n *sender) onTransaction('''))
ref('r4-fill', 'C17 C19', (NC, '''		n.outbox = append(n.outbox, cw)
		n.inFlight += 1
		for i := 0; i < burst; i++ {
			cw := codeword{}
			cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
			n.outbox = append(n.outbox, cw)
			n.inFlight += 1
		}
''', '''		n.enqueue(cw)
		for ; burst > 0; burst-- {
			n.enqueue(codeword{CodedSymbol: n.Encoder.ProduceNextCodedSymbol()})
		}
'''), (NC, '''func (n *sender) tryFillSendWindow() {''', '''func (n *sender) enqueue(cw codeword) {
	n.outbox = append(n.outbox, cw)
	n.inFlight++
}

func (n *sender) tryFillSendWindow() {'''))
ref('r4-newblock', 'C17 C19', (NC, '''		shardSize := ((1 << 64) - 1) / uint64(len(n.shardSchedule))
		cw.startHash = uint64(n.shardSchedule[n.nextShard]) * shardSize
		cw.endHash = uint64((n.shardSchedule[n.nextShard]+1)%len(n.shardSchedule)) * shardSize
''', '''		numShards := len(n.shardSchedule)
		shardSize := uint64((1<<64)-1) / uint64(numShards)
		shard := n.shardSchedule[n.nextShard]
		cw.startHash = shardSize * uint64(shard)
		cw.endHash = shardSize * uint64((shard+1)%numShards)
'''))
ref('r4-newblock2', 'C17 C19', (NC, '''	if !n.encodingCurrentBlock {
		// NOTE''', '''	if n.encodingCurrentBlock {
		return n.nextInBlock(cw, 0)
	}
	{
		// NOTE'''), (NC, '''	if float64(n.inFlight) < n.sendWindow {
		cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
		return cw, true, burstSize
	} else {
		return cw, false, burstSize
	}
}
''', '''	return n.nextInBlock(cw, burstSize)
}

func (n *sender) nextInBlock(cw codeword, burstSize int) (codeword, bool, int) {
	if float64(n.inFlight) >= n.sendWindow {
		return cw, false, burstSize
	}
	cw.CodedSymbol = n.Encoder.ProduceNextCodedSymbol()
	return cw, true, burstSize
}
'''))
ref('r4-oncodeword', 'C17 C19', (NC, '''	if n.Decoder.Decoded() {
		n.currentBlockReceived = true
		ack.ackBlock = true
		for _, tx := range n.Local() {
			ack.txs = append(ack.txs, tx)
		}
		n.outbox = append(n.outbox, ack)
		res := []riblt.HashedSymbol[transaction]{}
		for _, v := range n.Decoder.Remote() {
			res = append(res, v)
		}
		n.Decoder.Reset()
		return res, true
	} else {
		n.outbox = append(n.outbox, ack)
		return nil, false
	}
''', '''	if !n.Decoder.Decoded() {
		n.outbox = append(n.outbox, ack)
		return nil, false
	}
	n.currentBlockReceived = true
	ack.ackBlock = true
	for _, tx := range n.Decoder.Local() {
		ack.txs = append(ack.txs, tx)
	}
	n.outbox = append(n.outbox, ack)
	res := make([]riblt.HashedSymbol[transaction], 0, len(n.Decoder.Remote()))
	for _, v := range n.Decoder.Remote() {
		res = append(res, v)
	}
	n.Decoder.Reset()
	return res, true
'''))
ref('r4-pull-handle', 'C18 C19', (NP, '''	switch m := msg.(type) {
	case announce:
		if _, there := c.known[m.hash]; !there {
			c.outbox = append(c.outbox, request{m.hash})
		}
		return nil
	case request:
		c.outbox = append(c.outbox, response{c.known[m.hash]})
		return nil
	case response:
		c.known[m.payload.Hash] = m.payload
		return []riblt.HashedSymbol[transaction]{m.payload}
	default:
		panic("unknown message type")
	}
''', '''	if m, ok := msg.(announce); ok {
		if _, known := c.known[m.hash]; known {
			return nil
		}
		c.send(request{hash: m.hash})
		return nil
	}
	if m, ok := msg.(request); ok {
		c.send(response{payload: c.known[m.hash]})
		return nil
	}
	m, ok := msg.(response)
	if !ok {
		panic("unknown message type")
	}
	c.known[m.payload.Hash] = m.payload
	return []riblt.HashedSymbol[transaction]{m.payload}
'''), (NP, '''func (c *pull) handleMessage(''', '''func (c *pull) send(msg any) {
	c.outbox = append(c.outbox, msg)
}

func (c *pull) handleMessage('''))
ref('r4-collect', 'C18 C19', (NC, '''	if c.sender != nil {
		for _, msg := range c.sender.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		c.sender.outbox = c.sender.outbox[:0]
	}
	if c.receiver != nil {
		for _, msg := range c.receiver.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		c.receiver.outbox = c.receiver.outbox[:0]
	}
	return outbox
''', '''	if s := c.sender; s != nil {
		for i := range s.outbox {
			outbox = append(outbox, des.OutgoingMessage{Payload: s.outbox[i], To: peer, Delay: delay})
		}
		s.outbox = s.outbox[:0]
	}
	r := c.receiver
	if r == nil {
		return outbox
	}
	for i := 0; i < len(r.outbox); i++ {
		outbox = append(outbox, des.OutgoingMessage{Payload: r.outbox[i], To: peer, Delay: delay})
	}
	r.outbox = r.outbox[:0]
	return outbox
'''))
ref('r4-collect-helper', 'C18 C19', (NC, '''	if c.sender != nil {
		for _, msg := range c.sender.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		c.sender.outbox = c.sender.outbox[:0]
	}
	if c.receiver != nil {
		for _, msg := range c.receiver.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
		}
		c.receiver.outbox = c.receiver.outbox[:0]
	}
	return outbox
''', '''	if c.sender != nil {
		outbox = appendMessages(outbox, c.sender.outbox, peer, delay)
		c.sender.outbox = c.sender.outbox[:0]
	}
	if c.receiver != nil {
		outbox = appendMessages(outbox, c.receiver.outbox, peer, delay)
		c.receiver.outbox = c.receiver.outbox[:0]
	}
	return outbox
'''), (NC, '''type coding struct {''', '''func appendMessages(outbox []des.OutgoingMessage, msgs []any, peer des.Module, delay time.Duration) []des.OutgoingMessage {
	for _, msg := range msgs {
		outbox = append(outbox, des.OutgoingMessage{msg, peer, delay})
	}
	return outbox
}

type coding struct {'''))
ref('r4-server-deliver', 'C18', (NM, '''			tx := ib.payload
			if _, there := s.received[tx.Symbol.idx]; !there {
				s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
				s.forwardTransaction(tx, from)
				s.received[tx.Symbol.idx] = struct{}{}
				s.decodedTransactions += 1
				s.receivedTransactions += 1
			} else {
				s.duplicateTransactions += 1
			}
''', '''			s.deliver(ib.payload, from, timestamp)
'''), (NM, '''				if _, there := s.received[tx.Symbol.idx]; !there {
					s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
					s.forwardTransaction(tx, from)
					s.received[tx.Symbol.idx] = struct{}{}
					s.decodedTransactions += 1
					s.receivedTransactions += 1
				} else {
					s.duplicateTransactions += 1
				}
''', '''				s.deliver(tx, from, timestamp)
'''), (NM, '''func (s *server) HandleMessage(''', '''func (s *server) deliver(tx riblt.HashedSymbol[transaction], from des.Module, timestamp time.Duration) {
	if _, there := s.received[tx.Symbol.idx]; there {
		s.duplicateTransactions++
		return
	}
	s.received[tx.Symbol.idx] = struct{}{}
	s.decodedTransactions++
	s.receivedTransactions++
	s.latencySketch.recordTxLatency(tx.Symbol, timestamp)
	s.forwardTransaction(tx, from)
}

func (s *server) HandleMessage('''))
ref('r4-server-switch', 'C18', (NM, '''	for _, peer := range s.peers {
		handler := s.handlers[peer]
		if peer != exclude {
			handler.forwardTransaction(tx)
		}
	}
''', '''	for i := range s.peers {
		peer := s.peers[i]
		if peer == exclude {
			continue
		}
		s.handlers[peer].forwardTransaction(tx)
	}
'''), (NM, '''	for _, peer := range s.peers {
		handler := s.handlers[peer]
		outbox = handler.collectOutgoingMessages(peer, handler.delay, outbox)
	}
	return outbox
''', '''	for i := 0; i < len(s.peers); i++ {
		h := s.handlers[s.peers[i]]
		outbox = h.collectOutgoingMessages(s.peers[i], h.delay, outbox)
	}
	return outbox
'''))
# ldpc decoder
LDD = 'ldpc/decoder.go'
ref('r4-ldpc-fail', 'C13 C14', (LDD, '''	for cwIdx, cwPtr := range ptr.blocking {
		if cwPtr == cw {
			// zero the pointer so that the pointed tx does not leak
			cw.members[0] = nil
			cw.members = cw.members[:0]
			// remove the link from the pending tx to this failed cw
			l := len(ptr.blocking)
			ptr.blocking[cwIdx] = ptr.blocking[l-1]
			ptr.blocking[l-1] = nil
			ptr.blocking = ptr.blocking[:l-1]
			// free the pending tx if it is blocking nothing
			if len(ptr.blocking) == 0 {
				hash := ptr.saltedHash
				pendingTransactionPool.Put(ptr)
				return hash, true
			} else {
				return 0, false
			}
		}
	}
	panic("unable to find blocked codeword in pending transaction")
''', '''	cwIdx := -1
	for i, cwPtr := range ptr.blocking {
		if cwPtr == cw {
			cwIdx = i
			break
		}
	}
	if cwIdx < 0 {
		panic("unable to find blocked codeword in pending transaction")
	}
	cw.members[0] = nil
	cw.members = cw.members[:0]
	l := len(ptr.blocking)
	ptr.blocking[cwIdx] = ptr.blocking[l-1]
	ptr.blocking[l-1] = nil
	ptr.blocking = ptr.blocking[:l-1]
	if len(ptr.blocking) != 0 {
		return 0, false
	}
	hash := ptr.saltedHash
	pendingTransactionPool.Put(ptr)
	return hash, true
'''))
ref('r4-ldpc-store', 'C13 C14', (LDD, '''	for len(p.recentTransactions) > p.numTransactionsMemorized {
		if e := p.receivedTransactions[p.recentTransactions[0].hash]; e == p.recentTransactions[0].ptr {
			delete(p.receivedTransactions, p.recentTransactions[0].hash)
		}
		p.recentTransactions = p.recentTransactions[1:]
	}
''', '''	for len(p.recentTransactions) > p.numTransactionsMemorized {
		oldest := p.recentTransactions[0]
		p.recentTransactions = p.recentTransactions[1:]
		if p.receivedTransactions[oldest.hash] == oldest.ptr {
			delete(p.receivedTransactions, oldest.hash)
		}
	}
'''))
ref('r4-ldpc-addtx', 'C13 C14', (LDD, '''	if existing, there := p.receivedTransactions[hash]; !there {
		p.storeNewTransaction(hash, t)
		if pending, there := p.pendingTransactions[hash]; there {
			// quick sanity check
			if pending.saltedHash != hash {
				panic("salted hash of retrieved transaction stub does not match the hash computed from the full transaction")
			}
			// peel the transaction and try decoding
			delete(p.pendingTransactions, hash)
			queue := pending.markDecoded(t, nil)
			return p.decodeCodewords(queue)
		} else {
			return nil
		}
	} else {
		if existing.serialized == t.serialized {
			// something that we already know; do not do anything
			return nil
		} else {
			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
			p.storeNewTransaction(hash, t)
			if _, there := p.pendingTransactions[hash]; there {
				panic("pending transaction is already decoded")
			} else {
				return nil
			}
		}
	}
''', '''	existing, known := p.receivedTransactions[hash]
	if known && existing.serialized == t.serialized {
		return nil
	}
	p.storeNewTransaction(hash, t)
	pending, waiting := p.pendingTransactions[hash]
	if !waiting {
		return nil
	}
	if known {
		panic("pending transaction is already decoded")
	}
	if pending.saltedHash != hash {
		panic("salted hash of retrieved transaction stub does not match the hash computed from the full transaction")
	}
	delete(p.pendingTransactions, hash)
	return p.decodeCodewords(pending.markDecoded(t, nil))
'''))
ref('r4-ldpc-addcw', 'C13 C14', (LDD, '''		pending, pendingExists := p.pendingTransactions[member]
		received, receivedExists := p.receivedTransactions[member]
		if !receivedExists {
			if !pendingExists {
				// we have never heard of it
				pending = pendingTransactionPool.Get().(*pendingTransaction)
				pending.reset()
				pending.saltedHash = member
				p.pendingTransactions[member] = pending
			}
			// link to the pending transaction
			pending.blocking = append(pending.blocking, cw)
			cw.members = append(cw.members, pending)
		} else {
			// sanity check
			if !pendingExists {
				// peel the transaction
				cw.symbol.XOR(&received.serialized)
			} else {
				panic("transaction is marked both received and pending")
			}
		}
	}
''', '''		pending, pendingExists := p.pendingTransactions[member]
		if received, ok := p.receivedTransactions[member]; ok {
			if pendingExists {
				panic("transaction is marked both received and pending")
			}
			cw.symbol.XOR(&received.serialized)
			continue
		}
		if !pendingExists {
			pending = newPending(member)
			p.pendingTransactions[member] = pending
		}
		cw.members = append(cw.members, pending)
		pending.blocking = append(pending.blocking, cw)
	}
'''), (LDD, '''func (p *Decoder) AddCodeword(''', '''func newPending(hash uint32) *pendingTransaction {
	tx := pendingTransactionPool.Get().(*pendingTransaction)
	tx.reset()
	tx.saltedHash = hash
	return tx
}

func (p *Decoder) AddCodeword('''))
ref('r4-ldpc-decode', 'C13 C14', (LDD, '''		if len(c.members) == 0 {
			// nothing to do, already fully peeled
		} else if len(c.members) == 1 {
''', '''		switch len(c.members) {
		case 0:
		case 1:
'''), (LDD, '''		} else {
			panic("queued undecodable codeword")
		}
''', '''		default:
			panic("queued undecodable codeword")
		}
'''), (LDD, '''		c.decoded = true
		if c.freed {
			pendingCodewordPool.Put(c)
		}
	}
	return newTx
''', '''		c.finish()
	}
	return newTx
'''), (LDD, '''func (cw *PendingCodeword) Free() {
	cw.freed = true
	if cw.decoded {
		pendingCodewordPool.Put(cw)
	}
}
''', '''func (cw *PendingCodeword) Free() {
	cw.freed = true
	cw.recycle()
}

func (cw *PendingCodeword) finish() {
	cw.decoded = true
	cw.recycle()
}

func (cw *PendingCodeword) recycle() {
	if cw.freed && cw.decoded {
		pendingCodewordPool.Put(cw)
	}
}
'''))
