# simulator, node, ldpc encoder, lt/iblt: further edits that keep the behaviour
SN, SM, SF, ST = 'simulator/node.go', 'simulator/module.go', 'simulator/filter.go', 'simulator/transaction.go'
ref('r5-sim-produce', 'C20', (SN, '''	if (!n.encodingCurrentBlock) && mayStartNewBlock {
		//minBlockSize := int(2 / n.controlOverhead)
		minBlockSize := int(float64(n.detectThreshold) / n.controlOverhead)
		if len(n.buffer) >= minBlockSize {
''', '''	if !n.encodingCurrentBlock {
		if !mayStartNewBlock {
			return cw, false
		}
		//minBlockSize := int(2 / n.controlOverhead)
		minBlockSize := int(float64(n.detectThreshold) / n.controlOverhead)
		if len(n.buffer) >= minBlockSize {
'''), (SN, '''	} else if (!n.encodingCurrentBlock) && (!mayStartNewBlock) {
		return cw, false
	}
''', '''	}
'''))
ref('r5-sim-startblock', 'C20', (SN, '''			// move to the next block
			blockSize := len(n.buffer)
			n.sendWindow = int(float64(blockSize) * n.controlOverhead)
			cw.newBlock = true
			n.encodingCurrentBlock = true
			dist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)
			n.Encoder.Reset(dist, blockSize)
			n.currentBlock = n.currentBlock[:0]
			// move buffer into block
			for i := 0; i < blockSize; i++ {
				res := n.Encoder.AddTransaction(n.buffer[i])
				if !res {
					fmt.Println("Warning: duplicate transaction exists in window")
				} else {
					n.currentBlock = append(n.currentBlock, n.buffer[i])
				}
			}
			n.buffer = n.buffer[blockSize:]
''', '''			n.startBlock(len(n.buffer))
			cw.newBlock = true
'''), (SN, '''func (n *sender) tryProduceCodeword(''', '''func (n *sender) startBlock(blockSize int) {
	n.encodingCurrentBlock = true
	n.sendWindow = int(float64(blockSize) * n.controlOverhead)
	n.Encoder.Reset(soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5), blockSize)
	n.currentBlock = n.currentBlock[:0]
	for _, tx := range n.buffer[:blockSize] {
		if n.Encoder.AddTransaction(tx) {
			n.currentBlock = append(n.currentBlock, tx)
		} else {
			fmt.Println("Warning: duplicate transaction exists in window")
		}
	}
	n.buffer = n.buffer[blockSize:]
}

func (n *sender) tryProduceCodeword('''))
ref('r5-sim-fill', 'C20', (SN, '''	for n.inFlight < n.sendWindow {
		cw, yes := n.tryProduceCodeword(mayStartNewBlock)
		if !yes {
			return
		}
		n.outbox = append(n.outbox, cw)
		n.inFlight += 1
	}
	return
''', '''	for {
		if n.inFlight >= n.sendWindow {
			break
		}
		cw, ok := n.tryProduceCodeword(mayStartNewBlock)
		if !ok {
			break
		}
		n.inFlight++
		n.outbox = append(n.outbox, cw)
	}
'''))
ref('r5-sim-oncodeword', 'C20', (SN, '''		notDecoded := 0
		limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)
//		limit := 0 
		for _, c := range n.curCodewords {
			if !c.Decoded() {
				notDecoded += 1
			}
		}
		if notDecoded <= limit {
			n.currentBlockReceived = true
			n.outbox = append(n.outbox, ack{true})
			return tx
		}
	}
	n.outbox = append(n.outbox, ack{false})
	return tx
''', '''		limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)
		n.currentBlockReceived = n.pending() <= limit
		n.outbox = append(n.outbox, ack{n.currentBlockReceived})
		return tx
	}
	n.outbox = append(n.outbox, ack{false})
	return tx
'''), (SN, '''func (n *receiver) onCodeword(''', '''func (n *receiver) pending() int {
	cnt := 0
	for i := range n.curCodewords {
		if n.curCodewords[i].Decoded() {
			continue
		}
		cnt++
	}
	return cnt
}

func (n *receiver) onCodeword('''))
ref('r5-sim-schedule', 'C20', (SM, '''	nextSlot := ts
	if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {
		nextSlot = s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval
	}
	for _, tx := range txs {
		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})
		s.forwardRateLimiter.lastScheduled = nextSlot
		nextSlot += s.forwardRateLimiter.minInterval
	}
	return out
''', '''	rl := &s.forwardRateLimiter
	nextSlot := rl.lastScheduled + rl.minInterval
	if nextSlot < ts {
		nextSlot = ts
	}
	for i := range txs {
		out = append(out, des.OutgoingMessage{Payload: loopback{txs[i]}, Delay: nextSlot - ts})
		rl.lastScheduled = nextSlot
		nextSlot += rl.minInterval
	}
	return out
'''))
ref('r5-sim-register', 'C20', (SM, '''	dt := tx.Data()
	if _, there := s.received[dt]; there {
		panic("duplicate")
	} else {
		s.received[dt] = struct{}{}
	}
''', '''	if _, dup := s.received[tx.Data()]; dup {
		panic("duplicate")
	}
	s.received[tx.Data()] = struct{}{}
'''))
ref('r5-sim-switch', 'C20', (SM, '''		n := s.handlers[from]
		switch m := payload.(type) {
		case codeword:
			buf := n.onCodeword(m)
			for _, val := range buf {
				s.registerReceived(val)
				s.latencySketch.recordTxLatency(val.Data(), timestamp)
			}
			s.decodedTransactions += len(buf)
			s.receivedCodewords += 1
			outbox = s.scheduleForwardingTransactions(outbox, buf, timestamp)
		case ack:
			n.onAck(m, canStartNewBlock)
		default:
			panic("unknown message type")
		}
''', '''		n := s.handlers[from]
		if m, ok := payload.(codeword); ok {
			s.receivedCodewords++
			txs := n.onCodeword(m)
			s.decodedTransactions += len(txs)
			for _, val := range txs {
				s.registerReceived(val)
				s.latencySketch.recordTxLatency(val.Data(), timestamp)
			}
			outbox = s.scheduleForwardingTransactions(outbox, txs, timestamp)
		} else if m, ok := payload.(ack); ok {
			n.onAck(m, canStartNewBlock)
		} else {
			panic("unknown message type")
		}
'''))
ref('r5-sim-arrival', 'C20', (SM, '''		txs := []lt.Transaction[transaction]{}
		for i := 0; i < ba.n; i++ {
			tx := txgen.generate(timestamp)
			txs = append(txs, tx)
			s.registerReceived(tx)
			buf := s.decoder.AddTransaction(tx)
			if len(buf) != 0 {
				panic("locally generated tx leading to decode")
			}
		}
		outbox = s.scheduleForwardingTransactions(outbox, txs, timestamp)
''', '''		txs := s.generate(ba.n, timestamp)
		outbox = s.scheduleForwardingTransactions(outbox, txs, timestamp)
'''), (SM, '''func (s *server) HandleMessage(''', '''func (s *server) generate(n int, timestamp time.Duration) []lt.Transaction[transaction] {
	txs := []lt.Transaction[transaction]{}
	for len(txs) < n {
		tx := txgen.generate(timestamp)
		s.registerReceived(tx)
		if buf := s.decoder.AddTransaction(tx); len(buf) != 0 {
			panic("locally generated tx leading to decode")
		}
		txs = append(txs, tx)
	}
	return txs
}

func (s *server) HandleMessage('''))
ref('r5-sim-collect', 'C20', (SM, '''		for _, msg := range handler.sender.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
		}
		handler.sender.outbox = handler.sender.outbox[:0]
		for _, msg := range handler.receiver.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
		}
		handler.receiver.outbox = handler.receiver.outbox[:0]
''', '''		snd, rcv := handler.sender, handler.receiver
		for _, msg := range snd.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
		}
		for _, msg := range rcv.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
		}
		snd.outbox = snd.outbox[:0]
		rcv.outbox = rcv.outbox[:0]
'''))
# node
NS, NR, NCn = 'node/sender.go', 'node/receiver.go', 'node/controller.go'
ref('r5-node-expire', 'C21', (NR, '''			loss := 0
			for len(r.rxWindow) > 0 {
				head := r.rxWindow[0]
				dur := now.Sub(head.receivedTime)
				if dur < r.timeout {
					break
				}
				if !head.Decoded() {
					loss += 1
				}
				head.Free()
				r.rxWindow = r.rxWindow[1:]
			}
			r.ourLoss <- loss
''', '''			loss := r.expire(now)
			r.ourLoss <- loss
'''), (NR, '''func (r *receiver) decode(''', '''// expire drops the codewords that have timed out and returns how many were not decoded
func (r *receiver) expire(now time.Time) int {
	loss := 0
	for len(r.rxWindow) > 0 && now.Sub(r.rxWindow[0].receivedTime) >= r.timeout {
		head := r.rxWindow[0]
		r.rxWindow = r.rxWindow[1:]
		if !head.Decoded() {
			loss++
		}
		head.Free()
	}
	return loss
}

func (r *receiver) decode('''))
ref('r5-node-trysend', 'C21', (NS, '''				nc := Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time.Now().UnixMicro()}
				select {
				case ch <- nc:
					s.accumLoss = 0
					s.cwRate -= s.rateDecreaseConstant
					if s.cwRate < s.minRate {
						s.cwRate = s.minRate
					}
				default:
					// do not reset accumLoss now that the codeword is skipped
					s.droppedCodewords += 1
				}
''', '''				s.trySend(ch)
'''), (NS, '''func (s *sender) loop(''', '''func (s *sender) trySend(ch chan<- Codeword) {
	nc := Codeword{
		Codeword:  s.encoder.ProduceCodeword(),
		Loss:      s.accumLoss,
		UnixMicro: time.Now().UnixMicro(),
	}
	select {
	case ch <- nc:
	default:
		s.droppedCodewords++
		return
	}
	s.accumLoss = 0
	s.cwRate = math.Max(s.cwRate-s.rateDecreaseConstant, s.minRate)
}

func (s *sender) loop('''), (NS, '''	"log"
''', '''	"log"
	"math"
'''))
ref('r5-node-key', 'C21', (NCn, '''	// send our key
	_, err := conn.Write(encoderKey[:])
	if err != nil {
		return err
	}
	_, err = io.ReadFull(conn, decoderKey[:])
	if err != nil {
		return err
	}
''', '''	// send our key
	if _, err := conn.Write(encoderKey[:]); err != nil {
		return err
	}
	if _, err := io.ReadFull(conn, decoderKey[:]); err != nil {
		return err
	}
'''))
ref('r5-node-control', 'C21', (NCn, '''			for _, peer := range c.peers {
				if tx.Expired {
					peer.notifyExpiredTransaction(tx.Transaction)
				} else {
					peer.notifyUnexpiredTransaction(tx.Transaction)
				}
			}
''', '''			notify := (*peer).notifyUnexpiredTransaction
			if tx.Expired {
				notify = (*peer).notifyExpiredTransaction
			}
			for _, p := range c.peers {
				notify(p, tx.Transaction)
			}
'''))
ref('r5-node-control2', 'C21', (NCn, '''			for _, peer := range c.peers {
				if tx.Expired {
					peer.notifyExpiredTransaction(tx.Transaction)
				} else {
					peer.notifyUnexpiredTransaction(tx.Transaction)
				}
			}
''', '''			c.broadcast(tx)
'''), (NCn, '''func (c *controller) loop()''', '''func (c *controller) broadcast(tx ldpc.DecodedTransaction) {
	for i := range c.peers {
		c.peers[i].newTxToReceiver <- tx.Transaction
		if !tx.Expired {
			c.peers[i].newTxToSender <- tx.Transaction
		}
	}
}

func (c *controller) loop()'''))
# ldpc encoder / transaction
LEN, LTX = 'ldpc/encoder.go', 'ldpc/transaction.go'
ref('r5-ldpc-add', 'C12', (LEN, '''	tx := saltedTransaction{hash, t}
	e.window = append(e.window, tx)
	e.hashes[hash] = struct{}{}
	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
	return true
''', '''	e.hashes[hash] = struct{}{}
	e.window = append(e.window, saltedTransaction{saltedHash: hash, Transaction: t})
	for len(e.window) > e.windowSize {
		oldest := e.window[0]
		e.window = e.window[1:]
		delete(e.hashes, oldest.saltedHash)
	}
	return true
'''))
ref('r5-ldpc-deg', 'C12', (LEN, '''	deg := int(e.degreeDist.Uint64())
	return e.produceCodeword(deg)
''', '''	return e.produceCodeword(int(e.degreeDist.Uint64()))
'''), (LEN, '''	if deg > len(e.window) {
		deg = len(e.window)
	}
	if deg == 0 {
		return c
	}
''', '''	if n := len(e.window); deg > n {
		deg = n
	}
	if deg == 0 {
		return c
	}
'''), (LEN, '''	for idx, item := range *selected {
		c.Members[idx] = item.saltedHash
		c.Symbol.XOR(&item.serialized)
		(*selected)[idx].Transaction = nil''', '''	for idx := range *selected {
		item := (*selected)[idx]
		c.Symbol.XOR(&item.serialized)
		c.Members[idx] = item.saltedHash
		(*selected)[idx].Transaction = nil'''))
ref('r5-ldpc-reservoir', 'C12', (LEN, '''		midx += (int)(skip) + 1
		if midx < len(e.window) {
			(*selected)[rand.Intn(deg)] = e.window[midx]
			W = W * math.Exp(math.Log(rand.Float64())/d)
		}
''', '''		midx += int(skip) + 1
		if midx >= len(e.window) {
			break
		}
		pos := rand.Intn(deg)
		(*selected)[pos] = e.window[midx]
		W *= math.Exp(math.Log(rand.Float64()) / d)
'''))
ref('r5-ldpc-clear', 'C12', (LEN, '''	for k := range e.hashes {
		delete(e.hashes, k)
	}
''', '''	e.hashes = make(map[uint32]struct{}, ws)
'''))
ref('r5-ldpc-unmarshal', 'C15', (LTX, '''	copied := copy(t.serialized[0:TxSize], data[0:TxSize])
	if copied != TxSize {
		panic("incorrect number of bytes copied")
	}

	h := hasherPool.Get().(hash.Hash)
	defer hasherPool.Put(h)
	h.Reset()
	h.Write(t.serialized[:])
	h.Sum(t.hash[0:0]) // Sum appends to the given slice
	return nil
''', '''	copy(t.serialized[:], data)
	t.digest()
	return nil
'''), (LTX, '''func (t *Transaction) UnmarshalBinary(''', '''func (t *Transaction) digest() {
	h := hasherPool.Get().(hash.Hash)
	h.Reset()
	h.Write(t.serialized[:])
	h.Sum(t.hash[:0])
	hasherPool.Put(h)
}

func (t *Transaction) UnmarshalBinary('''))
for _p, _c in (('lt', 'C07 C08'), ('iblt', 'C07 C08')):
    _e = _p + '/encoder.go'
    ref('r5-%s-add' % _p, _c, (_e, '''	tx := saltedTransaction[T]{hash, t}
	e.window = append(e.window, tx)
	e.hashes[hash] = struct{}{}
	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
	return true
''', '''	e.hashes[hash] = struct{}{}
	e.window = append(e.window, saltedTransaction[T]{saltedHash: hash, Transaction: t})
	e.evict()
	return true
'''), (_e, '''func (e *Encoder[T]) ProduceCodeword()''', '''func (e *Encoder[T]) evict() {
	for len(e.window) > e.windowSize {
		oldest := e.window[0].saltedHash
		e.window = e.window[1:]
		delete(e.hashes, oldest)
	}
}

func (e *Encoder[T]) ProduceCodeword()'''))
    ref('r5-%s-produce' % _p, _c, (_e, '''	for i := 0; i < deg; i++ {
		// randomly shuffle with any item with idx i, i+1, ..., n-1, i.e.,
		// items not yet selected
		r := e.r.Intn(n-i) + i
		e.shuffleHistory = append(e.shuffleHistory, r)
		e.window[i], e.window[r] = e.window[r], e.window[i]
		// this is now the selected item, add it to codeword
		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
		c.members[i] = e.window[i].saltedHash
	}
	// revert the shuffling
	for i := deg - 1; i >= 0; i-- {
		e.window[i], e.window[e.shuffleHistory[i]] = e.window[e.shuffleHistory[i]], e.window[i]
	}
	return c
''', '''	for i := 0; i < deg; i++ {
		r := i + e.r.Intn(n-i)
		e.window[r], e.window[i] = e.window[i], e.window[r]
		e.shuffleHistory = append(e.shuffleHistory, r)
		c.members[i] = e.window[i].saltedHash
		c.symbol = c.symbol.XOR(e.window[i].data)
	}
	for i := deg; i > 0; i-- {
		r := e.shuffleHistory[i-1]
		e.window[r], e.window[i-1] = e.window[i-1], e.window[r]
	}
	return c
'''))
    ref('r5-%s-clear' % _p, _c, (_e, '''	for k := range e.hashes {
		delete(e.hashes, k)
	}
''', '''	e.hashes = make(map[uint32]struct{})
'''))
    _d = _p + '/decoder.go'
    ref('r5-%s-decode' % _p, 'C09 C10 C11', (_d, '''		if len(c.members) == 0 {
			// nothing to do, already fully peeled
		} else if len(c.members) == 1 {
''', '''		if len(c.members) > 1 {
			panic("queued undecodable codeword")
		}
		if len(c.members) == 1 {
'''), (_d, '''		} else {
			panic("queued undecodable codeword")
		}
''', '''		}
'''))
    ref('r5-%s-addtx' % _p, 'C09 C10 C11', (_d, '''		if bytes.Equal(existing.hash, t.hash) {
			// something that we already know; do not do anything
			return nil
		} else {
			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
			p.storeNewTransaction(saltedHash, t)
			if _, there := p.pendingTransactions[saltedHash]; there {
				panic("pending transaction is already decoded")
			} else {
				return nil
			}
		}
''', '''		if !bytes.Equal(t.hash, existing.hash) {
			p.storeNewTransaction(saltedHash, t)
			if _, waiting := p.pendingTransactions[saltedHash]; waiting {
				panic("pending transaction is already decoded")
			}
		}
		return nil
'''))
    ref('r5-%s-addcw' % _p, 'C09 C10 C11', (_d, '''	if len(cw.members) <= 1 {
		cw.queued = true
		queue := []*PendingCodeword[T]{cw}
		txs := p.decodeCodewords(queue)
		return cw, txs
	}
	return cw, nil
''', '''	if len(cw.members) > 1 {
		return cw, nil
	}
	cw.queued = true
	return cw, p.decodeCodewords([]*PendingCodeword[T]{cw})
'''))
    ref('r5-%s-peel' % _p, 'C09 C10 C11', (_d, '''	for idx, ptr := range peelable.members {
		if ptr == stub {
			l := len(peelable.members)
			// pop the ptr by swapping with the last item
			// we need to set the deleted ptr to nil to
			// free the pointed value
			peelable.members[idx] = peelable.members[l-1]
			peelable.members[l-1] = nil
			peelable.members = peelable.members[:l-1]
			peelable.symbol = peelable.symbol.XOR(data)
			return
		}
	}
	panic("unable to peel decoded transaction from codeword pointing to it")
''', '''	ms := peelable.members
	for i := 0; i < len(ms); i++ {
		if ms[i] != stub {
			continue
		}
		last := len(ms) - 1
		ms[i] = ms[last]
		ms[last] = nil
		peelable.members = ms[:last]
		peelable.symbol = peelable.symbol.XOR(data)
		return
	}
	panic("unable to peel decoded transaction from codeword pointing to it")
'''))
