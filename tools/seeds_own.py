from seedlib import seed
RH = '''package riblt
import "testing"
type psym struct{ v uint64 }
func (p *psym) val() uint64 { if p == nil { return 0 }; return p.v }
func (p *psym) XOR(q *psym) *psym { if p == nil { return &psym{q.val()} }; p.v ^= q.val(); return p }
func (p *psym) Hash() uint64 { x := p.val() * 0x9e3779b97f4a7c15; x ^= x >> 29; return x * 0xbf58476d1ce4e5b9 | 1 }
'''
LH = '''package %s
import ("testing"; "encoding/binary"; "math/rand")
type pdata struct{ v uint64 }
func (p *pdata) val() uint64 { if p == nil { return 0 }; return p.v }
func (p *pdata) XOR(q *pdata) *pdata { if p == nil { return &pdata{q.val()} }; p.v ^= q.val(); return p }
func (p *pdata) Hash() []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, p.val()); return b }
type fixed int
func (f fixed) Uint64() uint64 { return uint64(f) }
var _ = rand.Int
'''
R = 'riblt/decoder.go'
seed('c22-lone-symbol', 'C22', [(R, '''				ns := HashedSymbol[T]{}
				ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				ns.Hash = h
				m := d.applyNewSymbol(ns, add)''', '''				ns := HashedSymbol[T]{}
				if len(d.cs) > 1 {
					ns.Symbol = ns.Symbol.XOR(c.sum)	// force duplicate the symbol data
				} else {
					ns.Symbol = c.sum // no other coded symbol to peel
				}
				ns.Hash = h
				m := d.applyNewSymbol(ns, add)''')], 'riblt', RH + '''
func TestDemo(t *testing.T) {
	e, d := Encoder[*psym]{}, Decoder[*psym]{}
	a, b := &psym{77}, &psym{99}
	e.AddSymbol(a)
	d.AddSymbol(a)
	d.AddSymbol(b)
	d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	d.TryDecode()
	if a.v != 77 || b.v != 99 { t.Fatal("elements changed") }
	if len(d.Local()) != 1 || d.Local()[0].Symbol.val() != 99 { t.Fatal("reported element was overwritten", d.Local()[0].Symbol.val()) }
}
''', 'a difference of one local element, decoded from the first coded symbol alone', 'the reported element shares the memory of the coded symbol and is zeroed by peeling')
seed('c22-window-of-one', 'C22', [('riblt/encoder.go', '''		cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
''', '''		if direction == add && len(e.symbols) == 1 && cw.count == 0 && cw.checksum == 0 {
			// the only symbol: no need to combine
			s := e.symbols[0]
			cw = CodedSymbol[T]{s.Symbol, 1, s.Hash}
		} else {
			cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
		}
''')], 'riblt', RH + '''
func TestDemo(t *testing.T) {
	e, d := Encoder[*psym]{}, Decoder[*psym]{}
	a, b := &psym{77}, &psym{99}
	e.AddSymbol(a)
	d.AddSymbol(b)
	for i := 0; i < 8; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		if a.v != 77 || b.v != 99 { t.Fatal("elements changed:", a.v, b.v) }
		d.TryDecode()
	}
	if a.v != 77 || b.v != 99 { t.Fatal("elements changed:", a.v, b.v) }
}
''', 'an encoder with a single element', 'coded symbols are the element itself and the decoder overwrites it')
seed('c22-single-entry', 'C22', [('lt/encoder.go', '''		c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
''', '''		if n > 1 {
			c.symbol = c.symbol.XOR(e.window[i].Transaction.data)
		} else {
			c.symbol = e.window[i].Transaction.data // nothing to combine it with
		}
''')], 'lt', LH % 'lt' + '''
func TestDemo(t *testing.T) {
	var salt [SaltSize]byte
	e := NewEncoder[*pdata](rand.New(rand.NewSource(1)), salt, fixed(1), 4)
	d := NewDecoder[*pdata](salt, 10)
	tx := NewTransaction(&pdata{55})
	e.AddTransaction(tx)
	_, l := d.AddCodeword(e.ProduceCodeword())
	if len(l) != 1 || l[0].Data().v != 55 { t.Fatal("not decoded") }
	if tx.Data().v != 55 { t.Fatal("the transaction was overwritten:", tx.Data().v) }
}
''', 'a codeword produced while the window holds a single transaction', 'the codeword is the transaction data itself; the decoder zeroes it')
seed('c22-redundant', 'C22', [('iblt/decoder.go', '''				cw.symbol = cw.symbol.XOR(received.data)
''', '''				if len(cw.members) == 0 && len(rawCodeword.members) == 1 {
					// a repetition; what remains is zero
					cw.symbol = received.data.XOR(cw.symbol)
				} else {
					cw.symbol = cw.symbol.XOR(received.data)
				}
''')], 'iblt', LH % 'iblt' + '''
func TestDemo(t *testing.T) {
	var salt [SaltSize]byte
	e := NewEncoder[*pdata](rand.New(rand.NewSource(1)), salt, fixed(1), 4)
	d := NewDecoder[*pdata](salt, 10)
	tx := NewTransaction(&pdata{55})
	e.AddTransaction(tx)
	_, l := d.AddCodeword(e.ProduceCodeword())
	if len(l) != 1 || l[0].Data().v != 55 { t.Fatal("not decoded") }
	d.AddCodeword(e.ProduceCodeword())
	if l[0].Data().v != 55 { t.Fatal("the recovered transaction was overwritten:", l[0].Data().v) }
}
''', 'a codeword of degree one for a transaction that is already known', 'the recovered transaction is overwritten with zero')
seed('c22-sketch-tail', 'C22', [('riblt/sketch.go', '''		s[idx].sum = s[idx].sum.XOR(t.Symbol)
		s[idx].count += 1
''', '''		if len(s) == 1 && s[idx].count == 0 && s[idx].checksum == 0 {
			s[idx].sum = t.Symbol
		} else {
			s[idx].sum = s[idx].sum.XOR(t.Symbol)
		}
		s[idx].count += 1
''')], 'riblt', RH + '''
func TestDemo(t *testing.T) {
	s := make(Sketch[*psym], 1)
	a, b := &psym{77}, &psym{99}
	s.AddSymbol(a)
	s.AddSymbol(b)
	if a.v != 77 || b.v != 99 { t.Fatal("elements changed:", a.v, b.v) }
}
''', 'a sketch with a single cell', 'the first element becomes the accumulator and is overwritten by the second')
