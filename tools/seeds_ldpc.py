from seedlib import seed
HEAD = '''package ldpc
import ("testing"; "runtime"; "runtime/debug")
type fix int
func (f fix) Uint64() uint64 { return uint64(f) }
func mkTx(v byte) *Transaction { b := make([]byte, TxSize); for i := range b { b[i] = v + byte(i)*v }; t := &Transaction{}; if t.UnmarshalBinary(b) != nil { panic("size") }; return t }
func keyOf(d *Decoder, t *Transaction) uint32 { d.hasher.Reset(); d.hasher.Write(t.hash[:]); return uint32(d.hasher.Sum64()) }
func cwOf(d *Decoder, vs ...byte) *Codeword { c := &Codeword{}; for _, v := range vs { t := mkTx(v); c.Symbol.XOR(&t.serialized); c.Members = append(c.Members, keyOf(d, t)) }; return c }
func one() { runtime.GOMAXPROCS(1); debug.SetGCPercent(-1) }
'''
seed('c12-pooled-tx', 'C12', [('ldpc/encoder.go', '(*selected)[idx].Transaction = nil //', 'item.Transaction = nil //')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	one()
	e := NewEncoder([SaltSize]byte{}, fix(3), 10)
	for i := byte(1); i < 9; i++ { e.AddTransaction(mkTx(i)) }
	for n := 0; n < 20; n++ {
		e.ProduceCodeword()
		b := codewordBuilderPool.Get().(*codewordBuilder)
		for i, x := range (*b)[:cap(*b)] { if x.Transaction != nil { t.Fatal("recycled buffer keeps a transaction", i) } }
		codewordBuilderPool.Put(b)
	}
}
''', 'looking at the recycled selection buffer (or the memory use) after a codeword was made', 'the reference is cleared in the copy of the loop variable only, so recycled buffers keep transactions alive')
seed('c12-shared-slot', 'C12', [('ldpc/encoder.go', '''		*selected = append(*selected, e.window[idx])
	}
''', '''		*selected = append(*selected, e.window[idx])
	}
	if deg > 16 {
		// large selections are not worth copying
		*selected = append((*selected)[:0:0], e.window[:deg-1]...)
		*selected = append(*selected, e.window[deg-2])
	}
''')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	e := NewEncoder([SaltSize]byte{}, fix(20), 20)
	for i := byte(1); i < 21; i++ { e.AddTransaction(mkTx(i)) }
	c := e.ProduceCodeword()
	seen := map[uint32]bool{}
	for _, m := range c.Members { if seen[m] { t.Fatal("a transaction is named twice") }; seen[m] = true }
}
''', 'a codeword of degree above 16', 'one window entry is selected twice and another one left out')
seed('c13-skip-queued', 'C13', [('ldpc/decoder.go', '''	for idx, peelable := range tx.blocking {
		peelable.peelTransaction(tx, preimage)
''', '''	for idx, peelable := range tx.blocking {
		if peelable.queued && len(peelable.members) == 1 && len(tx.blocking) > 2 {
			// will be decoded anyway
			tx.blocking[idx] = nil
			continue
		}
		peelable.peelTransaction(tx, preimage)
''')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	d := NewDecoder([SaltSize]byte{}, 100)
	defer func() { if r := recover(); r != nil { t.Fatal("panic:", r) } }()
	// 1 releases three codewords that all wait for 2
	d.AddCodeword(cwOf(d, 1, 2)); d.AddCodeword(cwOf(d, 1, 2)); d.AddCodeword(cwOf(d, 1, 2))
	d.AddTransaction(mkTx(1))
}
''', 'one transaction that makes three codewords wait for the same last transaction', 'queued codewords are not peeled, and decoding them afterwards panics')
seed('c13-hash-prefix', 'C13', [('ldpc/decoder.go', 'if computedHash != tx.saltedHash {', 'if computedHash&0xffff != tx.saltedHash&0xffff {')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	d := NewDecoder([SaltSize]byte{}, 100)
	want := keyOf(d, mkTx(1))
	x := mkTx(2)
	b := make([]byte, TxSize); copy(b, x.serialized[:])
	for i := 0; i < 2000000; i++ {
		b[0], b[1], b[2] = byte(i), byte(i>>8), byte(i>>16)
		x.UnmarshalBinary(b)
		if h := keyOf(d, x); h != want && h&0xffff == want&0xffff {
			_, out := d.AddCodeword(&Codeword{Symbol: x.serialized, Members: []uint32{want}})
			if len(out) != 0 { t.Fatal("accepted bytes with another salted hash") }
			return
		}
	}
	t.Skip()
}
''', 'a corrupted codeword whose recovered bytes agree in the low 16 bits of the salted hash', 'a transaction that no codeword names is accepted')
seed('c14-put-blocking', 'C14', [('ldpc/decoder.go', '''			// free the pending tx if it is blocking nothing
			if len(ptr.blocking) == 0 {
				hash := ptr.saltedHash
				pendingTransactionPool.Put(ptr)
				return hash, true
''', '''			// free the pending tx if it is blocking nothing
			hash := ptr.saltedHash
			pendingTransactionPool.Put(ptr)
			if len(ptr.blocking) == 0 {
				return hash, true
''')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	one()
	d := NewDecoder([SaltSize]byte{}, 100)
	d.AddCodeword(cwOf(d, 1, 2))
	bad := cwOf(d, 1); bad.Symbol[0] ^= 1
	d.AddCodeword(bad)
	for i := 0; i < 5; i++ {
		x := pendingTransactionPool.Get().(*pendingTransaction)
		for _, q := range d.pendingTransactions { if q == x { t.Fatal("a recycled pending transaction is still in use") } }
	}
}
''', 'a corrupted codeword of degree one for a transaction that another codeword still waits for', 'the pending transaction is recycled while the decoder still uses it')
seed('c14-stale-freed', 'C14', [('ldpc/decoder.go', '''	cw.decoded = false
	cw.freed = false
''', '''	cw.decoded = false
''')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	one()
	for n := 0; n < 20; n++ {
		d := NewDecoder([SaltSize]byte{}, 100)
		a, _ := d.AddCodeword(cwOf(d, 1))
		a.Free()
		b, _ := d.AddCodeword(cwOf(d, 3))
		c, _ := d.AddCodeword(cwOf(d, 4))
		if b == c { t.Fatal("one codeword object was handed out twice while the caller holds it") }
	}
}
''', 'a codeword object that is freed, recycled and used again', 'the recycled codeword still counts as freed, is put into the pool while the caller holds it and is handed out twice')
seed('c15-long-input', 'C15', [('ldpc/transaction.go', 'if len(data) != TxSize {', 'if len(data)&(TxSize-1) != 0 || len(data) == 0 {')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	x := mkTx(3)
	if x.UnmarshalBinary(make([]byte, 2*TxSize)) == nil || x.serialized != mkTx(3).serialized { t.Fatal("accepts twice the size") }
}
''', 'an input whose length is a larger multiple of the transaction size', 'inputs of the wrong size are accepted')
seed('c15-xor-tail', 'C15', [('ldpc/transaction.go', 'for i := 0; i < TxSize/8; i++ {', 'for i := 0; i < TxSize/8 && t2[i*8:][0]|t2[i*8:][7] != 0 || i == 0; i++ {')], 'ldpc', HEAD + '''
func TestDemo(t *testing.T) {
	a, b := mkTx(3).serialized, mkTx(5).serialized
	for i := 40; i < 48; i++ { b[i] = 0 }
	want := a
	for i := range want { want[i] ^= b[i] }
	a.XOR(&b)
	if a != want { t.Fatal("XOR is not bytewise") }
}
''', 'an operand with zero bytes in the middle', 'XOR stops at the first word that begins and ends with a zero byte')
seed('c07-reset-order', 'C07', [('ldpc/encoder.go', """	e.window = e.window[:0]
	e.windowSize = ws
	for k := range e.hashes {
		delete(e.hashes, k)
	}
""", """	e.window = e.window[:0]
	e.windowSize = ws
	for _, tx := range e.window {
		delete(e.hashes, tx.saltedHash)
	}
""")], 'ldpc', HEAD + """
func TestDemo(t *testing.T) {
	e := NewEncoder([SaltSize]byte{}, fix(1), 5)
	for i := byte(1); i < 4; i++ { e.AddTransaction(mkTx(i)) }
	e.Reset(fix(1), 5)
	if !e.AddTransaction(mkTx(2)) || len(e.window) != 1 { t.Fatal("a transaction of before the reset is refused") }
}
""", 'a reset of a non-empty window followed by adding a transaction that was in it', 'the window entries are cut off before their hashes are removed, so transactions of before the reset are taken for duplicates')
