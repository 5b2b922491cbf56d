# more behaviour-preserving edits: the lt codec (fountain properties)
LE, LD = 'lt/encoder.go', 'lt/decoder.go'
LTP = 'C07 C08 C09 C10 C11 C20'
ref('lt-salt', LTP, (LE, '''	e.hasher.Reset()
	e.hasher.Write(t.hash[:])
	hash := (uint32)(e.hasher.Sum64())
''', '''	hash := saltedHashOf(e.hasher, t.hash)
'''), (LE, '''func (e *Encoder[T]) ProduceCodeword()''', '''func saltedHashOf(h hash.Hash64, id []byte) uint32 {
	h.Reset()
	h.Write(id)
	return uint32(h.Sum64())
}

func (e *Encoder[T]) ProduceCodeword()'''), (LD, '''	p.hasher.Reset()
	p.hasher.Write(tx.hash[:])
	saltedHash := (uint32)(p.hasher.Sum64())
	_, there := p.receivedTransactions[saltedHash]
	if there {
		return true
	} else {
		return false
	}
''', '''	_, there := p.receivedTransactions[saltedHashOf(p.hasher, tx.hash)]
	return there
'''), (LD, '''	p.hasher.Reset()
	p.hasher.Write(t.hash[:])
	saltedHash := (uint32)(p.hasher.Sum64())
''', '''	saltedHash := saltedHashOf(p.hasher, t.hash)
'''), (LD, '''					p.hasher.Reset()
					p.hasher.Write(decodedTx.hash)
					saltedHash := (uint32)(p.hasher.Sum64())
''', '''					saltedHash := saltedHashOf(p.hasher, decodedTx.hash)
'''))
ref('lt-trim', LTP, (LE, '''	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
	}
	return true
}
''', '''	e.trim()
	return true
}

func (e *Encoder[T]) trim() {
	for len(e.window) > e.windowSize {
		oldest := e.window[0]
		e.window = e.window[1:]
		delete(e.hashes, oldest.saltedHash)
	}
}
'''))
ref('lt-produce', LTP, (LE, '''	for i := 0; i < deg; i++ {
		// randomly shuffle with any item with idx i, i+1, ..., n-1, i.e.,
		// items not yet selected
		r := e.r.Intn(n-i) + i
		e.shuffleHistory = append(e.shuffleHistory, r)
		e.window[i], e.window[r] = e.window[r], e.window[i]
		// this is now the selected item, add it to codeword
		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
		c.members[i] = e.window[i].saltedHash
	}
	// revert the shuffling
	for i := deg - 1; i >= 0; i-- {
		e.window[i], e.window[e.shuffleHistory[i]] = e.window[e.shuffleHistory[i]], e.window[i]
	}
	return c
''', '''	for i := range c.members {
		j := i + e.r.Intn(n-i)
		picked := e.window[j]
		e.window[j] = e.window[i]
		e.window[i] = picked
		e.shuffleHistory = append(e.shuffleHistory, j)
		c.members[i] = picked.saltedHash
		c.symbol = c.symbol.XOR(picked.data)
	}
	e.unshuffle(deg)
	return c
}

func (e *Encoder[T]) unshuffle(deg int) {
	for i := deg; i > 0; i-- {
		j := e.shuffleHistory[i-1]
		e.window[i-1], e.window[j] = e.window[j], e.window[i-1]
	}
'''))
ref('lt-reset', LTP, (LE, '''	e.degreeDist = dist
	e.window = e.window[:0]
	e.windowSize = ws
	for k := range e.hashes {
		delete(e.hashes, k)
	}
''', '''	for h := range e.hashes {
		delete(e.hashes, h)
	}
	e.window = e.window[:0]
	e.windowSize, e.degreeDist = ws, dist
'''))
ref('lt-store', LTP, (LD, '''		if e := p.receivedTransactions[p.recentTransactions[0].saltedHash]; e.data == p.recentTransactions[0].Transaction.data {
			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
		}
		p.recentTransactions = p.recentTransactions[1:]
''', '''		oldest := p.recentTransactions[0]
		p.recentTransactions = p.recentTransactions[1:]
		e := p.receivedTransactions[oldest.saltedHash]
		if e.data != oldest.data {
			continue
		}
		delete(p.receivedTransactions, oldest.saltedHash)
'''))
ref('lt-add-codeword', LTP, (LD, '''		if !receivedExists {
			if !pendingExists {
				// we have never heard of it
				pending = &pendingTransaction[T]{}
				pending.saltedHash = member
				p.pendingTransactions[member] = pending
			}
			// link to the pending transaction
			pending.blocking = append(pending.blocking, cw)
			cw.members = append(cw.members, pending)
		} else {
			// sanity check
			if !pendingExists {
				// peel the transaction
				cw.symbol = cw.symbol.XOR(received.data)
			} else {
				panic("transaction is marked both received and pending")
			}
		}
	}
	if len(cw.members) <= 1 {
		cw.queued = true
		queue := []*PendingCodeword[T]{cw}
		txs := p.decodeCodewords(queue)
		return cw, txs
	}
	return cw, nil
}
''', '''		if receivedExists {
			if pendingExists {
				panic("transaction is marked both received and pending")
			}
			cw.symbol = cw.symbol.XOR(received.data)
			continue
		}
		if !pendingExists {
			pending = p.newPending(member)
		}
		cw.members = append(cw.members, pending)
		pending.blocking = append(pending.blocking, cw)
	}
	if len(cw.members) > 1 {
		return cw, nil
	}
	cw.queued = true
	return cw, p.decodeCodewords([]*PendingCodeword[T]{cw})
}

func (p *Decoder[T]) newPending(h uint32) *pendingTransaction[T] {
	n := &pendingTransaction[T]{saltedHash: h}
	p.pendingTransactions[h] = n
	return n
}
'''))
ref('lt-add-tx', LTP, (LD, '''	if existing, there := p.receivedTransactions[saltedHash]; !there {
		p.storeNewTransaction(saltedHash, t)
		if pending, there := p.pendingTransactions[saltedHash]; there {
			// quick sanity check
			if pending.saltedHash != saltedHash {
				panic("salted hash of retrieved transaction stub does not match the hash computed from the full transaction")
			}
			// peel the transaction and try decoding
			delete(p.pendingTransactions, saltedHash)
			queue := pending.markDecoded(t.data, nil)
			return p.decodeCodewords(queue)
		} else {
			return nil
		}
	} else {
		if bytes.Equal(existing.hash, t.hash) {
			// something that we already know; do not do anything
			return nil
		} else {
			// adding a transaction that is a hash conflict with an existing one that we have not forgotten
			p.storeNewTransaction(saltedHash, t)
			if _, there := p.pendingTransactions[saltedHash]; there {
				panic("pending transaction is already decoded")
			} else {
				return nil
			}
		}
	}
''', '''	existing, known := p.receivedTransactions[saltedHash]
	if known && bytes.Equal(existing.hash, t.hash) {
		return nil
	}
	p.storeNewTransaction(saltedHash, t)
	pending, waiting := p.pendingTransactions[saltedHash]
	if known && waiting {
		panic("pending transaction is already decoded")
	}
	if !waiting {
		return nil
	}
	if pending.saltedHash != saltedHash {
		panic("salted hash of retrieved transaction stub does not match the hash computed from the full transaction")
	}
	delete(p.pendingTransactions, saltedHash)
	return p.decodeCodewords(pending.markDecoded(t.data, nil))
'''))
ref('lt-decode', LTP, (LD, '''		if len(c.members) == 0 {
			// nothing to do, already fully peeled
		} else if len(c.members) == 1 {
''', '''		switch len(c.members) {
		case 0:
			// nothing to do, already fully peeled
		case 1:
'''), (LD, '''			if _, there := p.receivedTransactions[decodableTx.saltedHash]; !there {
				if _, there := p.pendingTransactions[decodableTx.saltedHash]; there {
					// tx is now decoded, produce decoded tx
					decodedTx := NewTransaction[T](c.symbol)
					p.hasher.Reset()
					p.hasher.Write(decodedTx.hash)
					saltedHash := (uint32)(p.hasher.Sum64())
					if saltedHash != decodableTx.saltedHash {
						failedTxSaltedHash, _, failed := c.failToDecode()
						if failed {
							delete(p.pendingTransactions, failedTxSaltedHash)
						}
						//TODO: streamline the API
						//panic("hash of decoded transaction does not match codeword header")
					} else {
						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx
						delete(p.pendingTransactions, saltedHash)
						p.storeNewTransaction(saltedHash, decodedTx)
						queue = decodableTx.markDecoded(decodedTx.data, queue)
					}
				} else {
					panic("unpeeled transaction is not pending")
				}
			} else {
				panic("unpeeled transaction is already received")
			}
		} else {
			panic("queued undecodable codeword")
''', '''			if _, there := p.receivedTransactions[decodableTx.saltedHash]; there {
				panic("unpeeled transaction is already received")
			}
			if _, there := p.pendingTransactions[decodableTx.saltedHash]; !there {
				panic("unpeeled transaction is not pending")
			}
			decodedTx := NewTransaction[T](c.symbol)
			p.hasher.Reset()
			p.hasher.Write(decodedTx.hash)
			saltedHash := (uint32)(p.hasher.Sum64())
			if saltedHash == decodableTx.saltedHash {
				delete(p.pendingTransactions, saltedHash)
				p.storeNewTransaction(saltedHash, decodedTx)
				queue = decodableTx.markDecoded(decodedTx.data, queue)
				newTx = append(newTx, decodedTx)
			} else if failedTxSaltedHash, _, failed := c.failToDecode(); failed {
				delete(p.pendingTransactions, failedTxSaltedHash)
			}
		default:
			panic("queued undecodable codeword")
'''))
ref('lt-decode-helper', LTP, (LD, '''					if saltedHash != decodableTx.saltedHash {
						failedTxSaltedHash, _, failed := c.failToDecode()
						if failed {
							delete(p.pendingTransactions, failedTxSaltedHash)
						}
						//TODO: streamline the API
						//panic("hash of decoded transaction does not match codeword header")
					} else {
						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx
						delete(p.pendingTransactions, saltedHash)
						p.storeNewTransaction(saltedHash, decodedTx)
						queue = decodableTx.markDecoded(decodedTx.data, queue)
					}
''', '''					if saltedHash != decodableTx.saltedHash {
						p.drop(c)
					} else {
						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx
						queue = p.accept(decodableTx, decodedTx, saltedHash, queue)
					}
'''), (LD, '''// decodeCodewords decodes the list of''', '''func (p *Decoder[T]) drop(c *PendingCodeword[T]) {
	h, _, failed := c.failToDecode()
	if failed {
		delete(p.pendingTransactions, h)
	}
}

func (p *Decoder[T]) accept(stub *pendingTransaction[T], tx Transaction[T], h uint32, todo []*PendingCodeword[T]) []*PendingCodeword[T] {
	delete(p.pendingTransactions, h)
	p.storeNewTransaction(h, tx)
	return stub.markDecoded(tx.data, todo)
}

// decodeCodewords decodes the list of'''))
ref('lt-peel', LTP, (LD, '''	for idx, ptr := range peelable.members {
		if ptr == stub {
			l := len(peelable.members)
			// pop the ptr by swapping with the last item
			// we need to set the deleted ptr to nil to
			// free the pointed value
			peelable.members[idx] = peelable.members[l-1]
			peelable.members[l-1] = nil
			peelable.members = peelable.members[:l-1]
			peelable.symbol = peelable.symbol.XOR(data)
			return
		}
	}
''', '''	last := len(peelable.members) - 1
	for i := 0; i <= last; i++ {
		if peelable.members[i] != stub {
			continue
		}
		peelable.symbol = peelable.symbol.XOR(data)
		peelable.members[i], peelable.members[last] = peelable.members[last], nil
		peelable.members = peelable.members[:last]
		return
	}
'''))
ref('lt-fail', LTP, (LD, '''		if cwPtr == cw {
			// zero the pointer so that the pointed tx does not leak
			cw.members[0] = nil
			cw.members = cw.members[:0]
			// remove the link from the pending tx to this failed cw
			l := len(ptr.blocking)
			ptr.blocking[cwIdx] = ptr.blocking[l-1]
			ptr.blocking[l-1] = nil
			ptr.blocking = ptr.blocking[:l-1]
			// see if the pending transaction is blocking nothing else
			if len(ptr.blocking) == 0 {
				return ptr.saltedHash, ptr, true
			} else {
				return 0, nil, false
			}
		}
	}
	panic("unable to find blocked codeword in pending transaction")
}
''', '''		if cwPtr == cw {
			cw.members[0] = nil
			cw.members = cw.members[:0]
			ptr.unblock(cwIdx)
			if len(ptr.blocking) > 0 {
				return 0, nil, false
			}
			return ptr.saltedHash, ptr, true
		}
	}
	panic("unable to find blocked codeword in pending transaction")
}

func (tx *pendingTransaction[T]) unblock(i int) {
	last := len(tx.blocking) - 1
	tx.blocking[i] = tx.blocking[last]
	tx.blocking[last] = nil
	tx.blocking = tx.blocking[:last]
}
'''))
ref('lt-mark', LTP, (LD, '''	for idx, peelable := range tx.blocking {
		peelable.peelTransaction(tx, data)
		// if peelable is now decodable, queue it for decoding
		if len(peelable.members) <= 1 && !peelable.queued {
			peelable.queued = true
			decodableCws = append(decodableCws, peelable)
		}
		// set the pointer to nil to free peelable
		tx.blocking[idx] = nil
	}
	return decodableCws
''', '''	for i := 0; i < len(tx.blocking); i++ {
		cw := tx.blocking[i]
		tx.blocking[i] = nil
		cw.peelTransaction(tx, data)
		if cw.queued || len(cw.members) > 1 {
			continue
		}
		decodableCws = append(decodableCws, cw)
		cw.queued = true
	}
	return decodableCws
'''))
