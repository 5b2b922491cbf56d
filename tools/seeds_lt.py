from seedlib import seed
import sys
HEAD = lambda pkg, imp='': 'package '+pkg+'\nimport ("testing"; "encoding/binary"; "math/rand"'+imp+')\n' + '''
type dd struct{ v uint64 }
func (p *dd) val() uint64 { if p == nil { return 0 }; return p.v }
func (p *dd) XOR(q *dd) *dd { if p == nil { return &dd{q.val()} }; p.v ^= q.val(); return p }
func (p *dd) Hash() []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, p.val()*0x9e3779b97f4a7c15+7); return b }
type fix int
func (f fix) Uint64() uint64 { return uint64(f) }
var _ = rand.Int
func keyOf(d *Decoder[*dd], v uint64) uint32 { t := NewTransaction(&dd{v}); d.hasher.Reset(); d.hasher.Write(t.hash); return uint32(d.hasher.Sum64()) }
func cwOf(d *Decoder[*dd], vs ...uint64) Codeword[*dd] {
	c := Codeword[*dd]{symbol: &dd{}}
	for _, v := range vs { c.symbol.v ^= v; c.members = append(c.members, keyOf(d, v)) }
	return c
}
func tx(v uint64) Transaction[*dd] { return NewTransaction(&dd{v}) }
'''
seed('c07-evict-shared', 'C07', [('lt/encoder.go', '''	for len(e.window) > e.windowSize {
		delete(e.hashes, e.window[0].saltedHash)
		e.window = e.window[1:]
''', '''	for len(e.window) > e.windowSize {
		e.window = e.window[1:]
		if len(e.window) > 0 {
			delete(e.hashes, e.window[0].saltedHash)
		}
''')], 'lt', HEAD('lt') + '''
func TestDemo(t *testing.T) {
	e := NewEncoder[*dd](rand.New(rand.NewSource(1)), [SaltSize]byte{}, fix(1), 3)
	for i := uint64(1); i < 5; i++ { e.AddTransaction(tx(i)) }
	if e.AddTransaction(tx(2)) { t.Fatal("2 is in the window and was added again") }
	if !e.AddTransaction(tx(1)) { t.Fatal("1 has left the window and is refused") }
}
''', 'an eviction followed by adding the evicted transaction or the oldest one again', 'eviction forgets the hash of the entry that stays and keeps that of the one that leaves')
seed('c08-never-stay', 'C08', [('lt/encoder.go', 'r := e.r.Intn(n-i) + i', '''r := i
		if n-i > 2 {
			r += 1 + e.r.Intn(n-i-1)
		} else {
			r += e.r.Intn(n - i)
		}''')], 'lt', HEAD('lt') + '''
func TestDemo(t *testing.T) {
	e := NewEncoder[*dd](rand.New(rand.NewSource(1)), [SaltSize]byte{}, fix(1), 8)
	for i := uint64(1); i < 9; i++ { e.AddTransaction(tx(i)) }
	seen := map[uint32]bool{}
	for i := 0; i < 4000; i++ { for _, m := range e.ProduceCodeword().members { seen[m] = true } }
	for i, w := range e.window { if !seen[w.saltedHash] { t.Fatal("window entry never drawn:", i) } }
}
''', 'codewords of low degree over a window of three or more entries', 'the entry at the current position is excluded from the draw, so the oldest entry is never in a degree-one codeword')
seed('c08-shared-sum', 'C08', [('iblt/encoder.go', '''		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
''', '''		if i == 0 && deg == 2 && n > 64 {
			// the receiver may be modified by XOR anyway
			c.symbol = e.window[i].Transaction.data
		} else {
			c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
		}
''')], 'iblt', HEAD('iblt') + '''
func TestDemo(t *testing.T) {
	e := NewEncoder[*dd](rand.New(rand.NewSource(1)), [SaltSize]byte{}, fix(2), 100)
	for i := uint64(1); i < 101; i++ { e.AddTransaction(tx(i)) }
	e.ProduceCodeword()
	for i, w := range e.window { if w.Transaction.data.v != uint64(i+1) { t.Fatal("producing a codeword changed window entry", i) } }
}
''', 'a codeword of degree two over a window of more than 64 entries', 'the codeword takes over the data of the first selected entry and the next XOR overwrites it in the window')
seed('c09-short-check', 'C09', [('lt/decoder.go', '''					if saltedHash != decodableTx.saltedHash {
''', '''					if uint16(saltedHash) != uint16(decodableTx.saltedHash) {
'''), ], 'lt', HEAD('lt') + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd]([SaltSize]byte{}, 100)
	want := keyOf(d, 1)
	for v := uint64(2); v < 10000000; v++ {
		h := keyOf(d, v)
		if h != want && uint16(h) == uint16(want) {
			defer func() { if r := recover(); r != nil { t.Fatal("panic", r) } }()
			_, out := d.AddCodeword(Codeword[*dd]{symbol: &dd{v}, members: []uint32{want}})
			if len(out) != 0 { t.Fatal("accepted data with another salted hash") }
			return
		}
	}
	t.Skip()
}
''', 'a corrupted codeword whose recovered data has the same low 16 hash bits as the member it names', 'only half of the salted hash is compared before a recovered transaction is accepted')
seed('c09-peel-known-once', 'C09', [('iblt/decoder.go', '''	for _, member := range rawCodeword.members {
		pending''', '''	for i, member := range rawCodeword.members {
		if i > 0 && member == rawCodeword.members[i-1] {
			continue
		}
		pending''')], 'iblt', HEAD('iblt') + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd]([SaltSize]byte{}, 100)
	// the XOR of 5, 5 and 9 is 9
	c, out := d.AddCodeword(cwOf(d, 5, 5, 9))
	out2 := d.AddTransaction(tx(5))
	out = append(out, out2...)
	if len(out) != 1 || out[0].data.v != 9 || !c.Decoded() { t.Fatal("9 is not recovered", out) }
}
''', 'an honest codeword that names a transaction twice in a row', 'the second mention is dropped although its data is part of the symbol')
seed('c10-known-codeword', 'C10', [('iblt/decoder.go', '''	if len(cw.members) <= 1 {
		cw.queued''', '''	if len(cw.members) == 1 {
		cw.queued''')], 'iblt', HEAD('iblt') + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd]([SaltSize]byte{}, 100)
	d.AddTransaction(tx(1)); d.AddTransaction(tx(2))
	c, _ := d.AddCodeword(cwOf(d, 1, 2))
	if !c.Decoded() { t.Fatal("a codeword of known transactions is not reported as decoded") }
}
''', 'a codeword whose transactions are all known already', 'such a codeword is never reported as decoded')
seed('c10-lost-release', 'C10', [('lt/decoder.go', '''			queue := pending.markDecoded(t.data, nil)
			return p.decodeCodewords(queue)
''', '''			queue := pending.markDecoded(t.data, nil)
			if len(queue) > 0 && len(queue[0].members) == 0 {
				// the codeword held nothing else
				queue[0].decoded = true
				queue = queue[1:]
				if len(queue) > 0 && len(queue[0].members) == 0 {
					return nil
				}
			}
			return p.decodeCodewords(queue)
''')], 'lt', HEAD('lt') + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd]([SaltSize]byte{}, 100)
	a, _ := d.AddCodeword(cwOf(d, 5, 5))
	b, _ := d.AddCodeword(cwOf(d, 5, 5))
	c, _ := d.AddCodeword(cwOf(d, 5, 7))
	out := d.AddTransaction(tx(5))
	if !a.Decoded() || !b.Decoded() || !c.Decoded() || len(out) != 1 || out[0].data.v != 7 { t.Fatal("not all released codewords were processed", out) }
}
''', 'a transaction that releases two codewords naming it twice and a third one', 'the shortcut for emptied codewords drops the rest of the queue')
seed('c11-dangling-pending', 'C11', [('iblt/decoder.go', '''						if failed {
							delete''', '''						if failed && len(queue) == 0 {
							delete''')], 'iblt', HEAD('iblt') + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd]([SaltSize]byte{}, 100)
	// two corrupted codewords become decodable at the same time
	x := cwOf(d, 5, 6); x.symbol.v ^= 1000
	y := cwOf(d, 5, 7); y.symbol.v ^= 2000
	d.AddCodeword(x); d.AddCodeword(y)
	d.AddTransaction(tx(5))
	for h, q := range d.pendingTransactions { if len(q.blocking) == 0 { t.Fatal("pending entry blocks nothing", h) } }
}
''', 'two corrupted codewords that become decodable in the same call', 'a pending entry that blocks nothing stays behind when other codewords are still queued')
seed('c11-forget-conflict', 'C11', [('lt/decoder.go', '''		if e := p.receivedTransactions[p.recentTransactions[0].saltedHash]; e.data == p.recentTransactions[0].Transaction.data {
			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
		}
''', '''		if e, there := p.receivedTransactions[p.recentTransactions[0].saltedHash]; there && bytes.Equal(e.hash[:4], p.recentTransactions[0].Transaction.hash[:4]) {
			delete(p.receivedTransactions, p.recentTransactions[0].saltedHash)
		}
''')], 'lt', HEAD('lt') + '''
type hs struct{ s byte }
func (h *hs) Reset() { h.s = 0 }
func (h *hs) Size() int { return 8 }
func (h *hs) BlockSize() int { return 8 }
func (h *hs) Sum(b []byte) []byte { return b }
func (h *hs) Sum64() uint64 { return uint64(h.s % 4) }
func (h *hs) Write(b []byte) (int, error) { for _, x := range b { h.s += x }; return len(b), nil }
type d2 struct{ v [8]byte }
func (p *d2) XOR(q *d2) *d2 { if p == nil { c := *q; return &c }; for i := range p.v { p.v[i] ^= q.v[i] }; return p }
func (p *d2) Hash() []byte { return append([]byte{}, p.v[:]...) }
func TestDemo(t *testing.T) {
	d := NewDecoder[*d2]([SaltSize]byte{}, 2)
	d.hasher = &hs{}
	mk := func(v ...byte) Transaction[*d2] { x := &d2{}; copy(x.v[:], v); return NewTransaction(x) }
	// two transactions with the same salted hash and the same first four bytes
	d.AddTransaction(mk(0, 0, 0, 0, 1))
	d.AddTransaction(mk(0, 0, 0, 0, 5))
	d.AddTransaction(mk(2))
	if _, ok := d.receivedTransactions[1]; !ok { t.Fatal("the newer of two transactions with one salted hash is forgotten with the older one") }
}
''', 'two transactions with conflicting salted hashes and equal hash prefixes, and a full memory', 'forgetting the older one also forgets the newer one, which is still remembered')
