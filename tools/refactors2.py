SN, SM = 'simulator/node.go', 'simulator/module.go'
ref('sim-produce', 'C20', (SN, '''	cw := codeword{}
	if (!n.encodingCurrentBlock) && mayStartNewBlock {
''', '''	var cw codeword
	if n.encodingCurrentBlock {
		cw.Codeword = n.Encoder.ProduceCodeword()
		return cw, true
	}
	if !mayStartNewBlock {
		return cw, false
	}
	{
'''), (SN, '''	} else if (!n.encodingCurrentBlock) && (!mayStartNewBlock) {
		return cw, false
	}
''', '''	}
'''), (SN, '''			for i := 0; i < blockSize; i++ {
				res := n.Encoder.AddTransaction(n.buffer[i])
				if !res {
					fmt.Println("Warning: duplicate transaction exists in window")
				} else {
					n.currentBlock = append(n.currentBlock, n.buffer[i])
				}
			}
''', '''			for _, tx := range n.buffer[:blockSize] {
				if n.Encoder.AddTransaction(tx) {
					n.currentBlock = append(n.currentBlock, tx)
					continue
				}
				fmt.Println("Warning: duplicate transaction exists in window")
			}
'''))
ref('sim-window', 'C20', (SN, '''	for n.inFlight < n.sendWindow {
		cw, yes := n.tryProduceCodeword(mayStartNewBlock)
		if !yes {
			return
		}
		n.outbox = append(n.outbox, cw)
		n.inFlight += 1
	}
	return
''', '''	for {
		if n.inFlight >= n.sendWindow {
			break
		}
		if cw, ok := n.tryProduceCodeword(mayStartNewBlock); ok {
			n.inFlight++
			n.outbox = append(n.outbox, cw)
		} else {
			break
		}
	}
'''))
ref('sim-receiver', 'C20', (SN, '''	stub, tx := n.Decoder.AddCodeword(cw.Codeword)
	n.curCodewords = append(n.curCodewords, stub)

	if !n.currentBlockReceived && len(n.curCodewords) > n.detectThreshold {
		notDecoded := 0
		limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)
//		limit := 0 
		for _, c := range n.curCodewords {
			if !c.Decoded() {
				notDecoded += 1
			}
		}
		if notDecoded <= limit {
			n.currentBlockReceived = true
			n.outbox = append(n.outbox, ack{true})
			return tx
		}
	}
	n.outbox = append(n.outbox, ack{false})
	return tx
''', '''	stub, txs := n.Decoder.AddCodeword(cw.Codeword)
	n.curCodewords = append(n.curCodewords, stub)
	finished := n.blockDecoded()
	if finished {
		n.currentBlockReceived = true
	}
	n.outbox = append(n.outbox, ack{ackBlock: finished})
	return txs
}

func (n *receiver) blockDecoded() bool {
	if n.currentBlockReceived {
		return false
	}
	total := len(n.curCodewords)
	if total <= n.detectThreshold {
		return false
	}
	limit := int(float64(total) * n.targetCodewordLoss)
	missing := 0
	for i := 0; i < total; i++ {
		if n.curCodewords[i].Decoded() {
			continue
		}
		missing++
	}
	return missing <= limit
'''))
ref('sim-forward', 'C20', (SM, '''	nextSlot := ts
	if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {
		nextSlot = s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval
	}
	for _, tx := range txs {
		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})
		s.forwardRateLimiter.lastScheduled = nextSlot
		nextSlot += s.forwardRateLimiter.minInterval
	}
	return out
''', '''	rl := &s.forwardRateLimiter
	slot := rl.lastScheduled + rl.minInterval
	if slot < ts {
		slot = ts
	}
	for i := range txs {
		msg := des.OutgoingMessage{Payload: loopback{txs[i]}, To: nil, Delay: slot - ts}
		out = append(out, msg)
		rl.lastScheduled = slot
		slot = slot + rl.minInterval
	}
	return out
'''))
ref('sim-collect', 'C20', (SM, '''	for peer, handler := range s.handlers {
		for _, msg := range handler.sender.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
		}
		handler.sender.outbox = handler.sender.outbox[:0]
		for _, msg := range handler.receiver.outbox {
			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
		}
		handler.receiver.outbox = handler.receiver.outbox[:0]
	}
	return outbox
''', '''	for to, h := range s.handlers {
		outbox = drain(outbox, &h.sender.outbox, to, h.delay)
		outbox = drain(outbox, &h.receiver.outbox, to, h.delay)
	}
	return outbox
}

func drain(dst []des.OutgoingMessage, src *[]any, to des.Module, delay time.Duration) []des.OutgoingMessage {
	for _, m := range *src {
		dst = append(dst, des.OutgoingMessage{m, to, delay})
	}
	*src = (*src)[:0]
	return dst
'''))
ref('sim-handle', 'C20', (SM, '''	if ba, isBa := payload.(blockArrival); isBa {
		txs := []lt.Transaction[transaction]{}
		for i := 0; i < ba.n; i++ {
			tx := txgen.generate(timestamp)
			txs = append(txs, tx)
			s.registerReceived(tx)
			buf := s.decoder.AddTransaction(tx)
			if len(buf) != 0 {
				panic("locally generated tx leading to decode")
			}
		}
		outbox = s.scheduleForwardingTransactions(outbox, txs, timestamp)
''', '''	if ba, isBa := payload.(blockArrival); isBa {
		outbox = s.scheduleForwardingTransactions(outbox, s.generateBlock(ba.n, timestamp), timestamp)
'''), (SM, '''func (s *server) HandleMessage(''', '''func (s *server) generateBlock(n int, timestamp time.Duration) []lt.Transaction[transaction] {
	txs := []lt.Transaction[transaction]{}
	for i := 0; i < n; i++ {
		tx := txgen.generate(timestamp)
		s.registerReceived(tx)
		txs = append(txs, tx)
		if buf := s.decoder.AddTransaction(tx); len(buf) > 0 {
			panic("locally generated tx leading to decode")
		}
	}
	return txs
}

func (s *server) HandleMessage('''))
NS, NR, NCt = 'node/sender.go', 'node/receiver.go', 'node/controller.go'
ref('node-sender', 'C21', (NS, '''				select {
				case ch <- nc:
					s.accumLoss = 0
					s.cwRate -= s.rateDecreaseConstant
					if s.cwRate < s.minRate {
						s.cwRate = s.minRate
					}
				default:
					// do not reset accumLoss now that the codeword is skipped
					s.droppedCodewords += 1
				}
''', '''				if !s.trySend(ch, nc) {
					s.droppedCodewords++
				}
'''), (NS, '''func (s *sender) loop(''', '''func (s *sender) trySend(ch chan<- Codeword, nc Codeword) bool {
	select {
	case ch <- nc:
	default:
		return false
	}
	s.accumLoss = 0
	rate := s.cwRate - s.rateDecreaseConstant
	if rate < s.minRate {
		rate = s.minRate
	}
	s.cwRate = rate
	return true
}

func (s *sender) loop('''))
ref('node-receiver', 'C21', (NR, '''			loss := 0
			for len(r.rxWindow) > 0 {
				head := r.rxWindow[0]
				dur := now.Sub(head.receivedTime)
				if dur < r.timeout {
					break
				}
				if !head.Decoded() {
					loss += 1
				}
				head.Free()
				r.rxWindow = r.rxWindow[1:]
			}
			r.ourLoss <- loss
''', '''			r.ourLoss <- r.expire(now)
'''), (NR, '''func (r *receiver) decode(''', '''func (r *receiver) expire(now time.Time) int {
	lost := 0
	for len(r.rxWindow) != 0 {
		oldest := r.rxWindow[0]
		if now.Sub(oldest.receivedTime) < r.timeout {
			return lost
		}
		r.rxWindow = r.rxWindow[1:]
		if !oldest.Decoded() {
			lost++
		}
		oldest.Free()
	}
	return lost
}

func (r *receiver) decode('''), (NR, '''		newcw := Codeword{}
		err := r.rx.Decode(&newcw)
		if err != nil {
			return err
		}
		cw <- newcw
''', '''		var next Codeword
		if err := r.rx.Decode(&next); err != nil {
			return err
		}
		cw <- next
'''))
ref('node-controller', 'C21', (NCt, '''				if tx.Expired {
					peer.notifyExpiredTransaction(tx.Transaction)
				} else {
					peer.notifyUnexpiredTransaction(tx.Transaction)
				}
''', '''				peer.notify(tx)
'''), (NCt, '''func newPeer(''', '''func (h *peer) notify(tx ldpc.DecodedTransaction) {
	if !tx.Expired {
		h.notifyUnexpiredTransaction(tx.Transaction)
		return
	}
	h.notifyExpiredTransaction(tx.Transaction)
}

func newPeer('''))
TC = 'testbed/cluster.go'
ref('testbed-less', 'C23', (TC, '''	byloc := strings.Compare(s[i].Location, s[j].Location)
	if byloc == 0 {
		return strings.Compare(s[i].ID, s[j].ID) == -1
	} else {
		return byloc == -1
	}
''', '''	a, b := &s[i], &s[j]
	if a.Location != b.Location {
		return strings.Compare(a.Location, b.Location) < 0
	}
	return strings.Compare(a.ID, b.ID) < 0
'''))
ref('testbed-swap', 'C23', (TC, '''{s[i], s[j] = s[j], s[i]}''', '''{
	tmp := s[i]
	s[i] = s[j]
	s[j] = tmp
}'''))
LE, LT_ = 'ldpc/encoder.go', 'ldpc/transaction.go'
ref('ldpc-encoder', 'C12 C15', (LE, '''	for idx := 0; idx < deg; idx++ {
		*selected = append(*selected, e.window[idx])
	}
''', '''	*selected = append(*selected, e.window[:deg]...)
'''), (LE, '''	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
	return true
''', '''	e.trim()
	return true
}

func (e *Encoder) trim() {
	for len(e.window) > e.windowSize {
		oldest := e.window[0]
		e.window = e.window[1:]
		delete(e.hashes, oldest.saltedHash)
	}
'''), (LE, '''	for idx, item := range *selected {
		c.Members[idx] = item.saltedHash
		c.Symbol.XOR(&item.serialized)
''', '''	for idx := range *selected {
		item := (*selected)[idx]
		c.Symbol.XOR(&item.serialized)
		c.Members[idx] = item.saltedHash
'''))
ref('ldpc-xor', 'C12 C13 C14 C15', (LT_, '''	for i := 0; i < TxSize/8; i++ {
		*(*uint64)(unsafe.Pointer(&t[i*8])) ^= *(*uint64)(unsafe.Pointer(&t2[i*8]))
	}
''', '''	for i := range t {
		t[i] ^= t2[i]
	}
'''), (LT_, '\t"unsafe"\n', ''))
ref('ldpc-xor-step', 'C15', (LT_, '''	for i := 0; i < TxSize/8; i++ {
		*(*uint64)(unsafe.Pointer(&t[i*8])) ^= *(*uint64)(unsafe.Pointer(&t2[i*8]))
	}
''', '''	for off := 0; off < TxSize; off += 8 {
		a := (*uint64)(unsafe.Pointer(&t[off]))
		b := (*uint64)(unsafe.Pointer(&t2[off]))
		*a = *a ^ *b
	}
'''))
ref('ldpc-unmarshal', 'C15', (LT_, '''	copied := copy(t.serialized[0:TxSize], data[0:TxSize])
	if copied != TxSize {
		panic("incorrect number of bytes copied")
	}
''', '''	copy(t.serialized[:], data)
'''))
LTE = 'lt/encoder.go'
