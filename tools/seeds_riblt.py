from seedlib import seed
SYM = '''package riblt
import ("testing")
type dsym [8]byte
func (d *dsym) XOR(t *dsym) *dsym {
	if d == nil { d = &dsym{} }
	if t == nil { return d }
	for i := range d { d[i] ^= t[i] }
	return d
}
func (d *dsym) Hash() uint64 {
	h := uint64(14695981039346656037)
	for r := 0; r < 3; r++ { for _, b := range d { h = (h ^ uint64(b)) * 1099511628211; h ^= h >> 29 } }
	if h == 0 { h = 1 }
	return h
}
func mk(i int) *dsym { d := dsym{}; for k := range d { d[k] = byte(i >> (8*(k%4))) ^ byte(k*31) }; return &d }
func idxOf(h uint64, n int) map[int]bool {
	r := map[int]bool{}; m := randomMapping{h, 0}
	for int(m.lastIdx) < n { r[int(m.lastIdx)] = true; m.nextIndex() }
	return r
}
func want(ids []int, n int) []CodedSymbol[*dsym] {
	out := make([]CodedSymbol[*dsym], n)
	for _, i := range ids { s := mk(i); h := s.Hash()
		for k := range idxOf(h, n) { out[k].sum = out[k].sum.XOR(s); out[k].count++; out[k].checksum ^= h } }
	return out
}
func eq(a, b CodedSymbol[*dsym]) bool {
	z := dsym{}; x, y := z, z
	if a.sum != nil { x = *a.sum }
	if b.sum != nil { y = *b.sum }
	return x == y && a.count == b.count && a.checksum == b.checksum
}
'''
WEAK = lambda ret: SYM.replace('\tif h == 0 { h = 1 }\n\treturn h\n', ret)
seed('c01-index-32bit', 'C01', [('riblt/encoder.go', 'e.queue[0].codedIdx = int(nextMap)', 'e.queue[0].codedIdx = int(int32(nextMap))')],
 'riblt', SYM + '''
func TestDemo(t *testing.T) {
	mult := uint64(0xda942042e4dd58b5)
	inv := mult
	for i := 0; i < 6; i++ { inv *= 2 - mult*inv }
	// a hash whose first mapped index is small and whose second one is between 2^31 and 2^32
	far := uint64(0)
	for k := uint64(1); far == 0 && k < 20000000; k++ {
		h := (1<<64 - 3000 - k) * inv * inv
		m := randomMapping{h, 0}
		if i1 := m.nextIndex(); i1 < 2000 { if i2 := m.nextIndex(); i2 >= 1<<31 && i2 < 1<<32 { far = h } }
	}
	if far == 0 { t.Fatal("no such hash found") }
	e := Encoder[*dsym]{}
	e.AddHashedSymbol(HashedSymbol[*dsym]{mk(1), far})
	ids := []int{2, 3, 4}
	for _, i := range ids { e.AddSymbol(mk(i)) }
	w := want(ids, 4000)
	fs := idxOf(far, 4000)
	for k := 0; k < 4000; k++ {
		c := e.ProduceNextCodedSymbol()
		if !fs[k] && !eq(c, w[k]) { t.Fatal("wrong coded symbol", k) }
	}
}
''', 'a symbol whose next mapped index lies beyond 2^31', 'the pending index turns negative, stays at the head of the heap and every later symbol is left out')
seed('c01-duplicate-hash', 'C01', [('riblt/encoder.go', '''		cw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)
''', '''		if s := e.symbols[e.queue[0].sourceIdx]; s.Hash != cw.checksum || cw.count != 2 {
			cw = cw.apply(s, direction)
		}
''')],
 'riblt', WEAK('\treturn uint64(d[0])&3 + 1\n') + '''
func TestDemo(t *testing.T) {
	// hash(0) ^ hash(1) equals the hash of a third symbol
	for a := 0; a < 6; a++ { for b := 0; b < 6; b++ { for c := 0; c < 6; c++ {
		e := Encoder[*dsym]{}
		h := []uint64{mk(a).Hash(), mk(b).Hash(), mk(c).Hash()}
		e.AddSymbol(mk(a)); e.AddSymbol(mk(b)); e.AddSymbol(mk(c))
		x := e.ProduceNextCodedSymbol()
		if x.count != 3 || x.checksum != h[0]^h[1]^h[2] { t.Fatal("symbol left out", a, b, c) }
	}}}
}
''', 'a symbol whose hash equals the hash-XOR of the two symbols applied before it to the same coded symbol', 'the symbol is left out of that coded symbol')
seed('c03-hash-32bit', 'C03', [('riblt/decoder.go', '''		case 1:
			h := c.sum.Hash()
			if h == c.checksum {''', '''		case 1:
			h := c.sum.Hash()
			if uint32(h) == uint32(c.checksum) {''')],
 'riblt', WEAK('\treturn h<<32 | uint64(d[0]) | uint64(d[1])<<8 | uint64(d[2])<<16 | uint64(d[3])<<24\n') + '''
func TestDemo(t *testing.T) {
	for tr := 0; tr < 300; tr++ {
		e := Encoder[*dsym]{}; d := Decoder[*dsym]{}
		A := map[dsym]bool{}
		for i := 0; i < 3; i++ { A[*mk(tr*100+i)] = true; e.AddSymbol(mk(tr*100+i)) }
		for i := 50; i < 52; i++ { d.AddSymbol(mk(tr*100+i)) }
		for k := 0; k < 30; k++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
			for _, s := range d.Remote() { if !A[*s.Symbol] { t.Fatal("reported a symbol that is in neither set") } }
		}
	}
}
''', 'a mixture of symbols with net count 1 whose hash agrees with the checksum in the low 32 bits only', 'a mixture of symbols is reported as a remote symbol')
seed('c03-local-mapping', 'C03', [('riblt/decoder.go', 'c = d.local.applyWindow(c, add)', 'if len(d.local.symbols) != len(d.remote.symbols) || d.local.nextIdx < 2 {\n\t\tc = d.local.applyWindow(c, add)\n\t} else {\n\t\td.local.nextIdx += 1\n\t}')],
 'riblt', SYM + '''
func TestDemo(t *testing.T) {
	for tr := 0; tr < 300; tr++ {
		e := Encoder[*dsym]{}; d := Decoder[*dsym]{}
		for i := 0; i < 5; i++ { e.AddSymbol(mk(tr*100+i)) }
		for i := 50; i < 55; i++ { d.AddSymbol(mk(tr*100+i)) }
		done := false
		for k := 0; k < 200 && !done; k++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
			done = d.Decoded()
			seen := map[dsym]bool{}
			for _, s := range append(append([]HashedSymbol[*dsym]{}, d.Local()...), d.Remote()...) {
				if seen[*s.Symbol] { t.Fatal("reported twice") }
				seen[*s.Symbol] = true
				if s.Symbol.Hash() != s.Hash { t.Fatal("wrong data") }
			}
		}
		if !done { t.Fatal("not decoded") }
	}
}
''', 'as many local as remote symbols recovered before the set difference is complete, then more coded symbols arrive', 'recovered local symbols are not peeled from later coded symbols')
seed('c04-dirty-local', 'C04', [('riblt/decoder.go', 'if (!c.dirty) && c.count >= -1 && c.count <= 1 {', 'if (!c.dirty) && c.count >= direction-1 && c.count <= 1 {')],
 'riblt', SYM + '''
func holdsOne(d *Decoder[*dsym], A, B []int) bool {
	rem := map[uint64]bool{}; loc := map[uint64]bool{}
	for _, i := range A { rem[mk(i).Hash()] = true }
	for _, i := range B { loc[mk(i).Hash()] = true }
	for _, s := range d.Remote() { delete(rem, s.Hash) }
	for _, s := range d.Local() { delete(loc, s.Hash) }
	n := len(d.cs); c := make([]int, n)
	for h := range rem { for k := range idxOf(h, n) { c[k]++ } }
	for h := range loc { for k := range idxOf(h, n) { c[k]++ } }
	for _, v := range c { if v == 1 { return true } }
	return false
}
func TestDemo(t *testing.T) {
	for tr := 0; tr < 400; tr++ {
		e := Encoder[*dsym]{}; d := Decoder[*dsym]{}
		A, B := []int{}, []int{}
		for i := 0; i < 3; i++ { A = append(A, tr*100+i); e.AddSymbol(mk(tr*100+i)) }
		for i := 50; i < 58; i++ { B = append(B, tr*100+i); d.AddSymbol(mk(tr*100+i)) }
		for k := 0; k < 40; k++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
			if holdsOne(&d, A, B) { t.Fatal("a coded symbol still holds exactly one undecoded symbol") }
		}
	}
}
''', 'recovering a local-only symbol takes a coded symbol to net count -1', 'cells that become pure through the recovery of a local symbol are not put on the worklist, so peeling stops early')
seed('c04-pending-zero', 'C04', [('riblt/decoder.go', '''			if c.checksum == 0 {
				d.pending -= 1''', '''			if uint32(c.checksum) == 0 {
				d.pending -= 1''')],
 'riblt', WEAK('\treturn h<<32 | uint64(d[0]&1)\n') + '''
func TestDemo(t *testing.T) {
	for tr := 0; tr < 400; tr++ {
		e := Encoder[*dsym]{}; d := Decoder[*dsym]{}
		e.AddSymbol(mk(tr*100)); e.AddSymbol(mk(tr*100+2)); d.AddSymbol(mk(tr*100+50)); d.AddSymbol(mk(tr*100+52))
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		if d.Decoded() { t.Fatal("completion signalled while undecoded symbols remain") }
	}
}
''', 'a coded symbol with net count 0 whose non-zero hash has 32 low zero bits', 'completion is signalled while undecoded symbols remain')
seed('c05-subtract-empty', 'C05', [('riblt/sketch.go', '		s[i].sum = s[i].sum.XOR(s2[i].sum)\n', '		if s2[i].count == 0 {\n\t\t\tcontinue\n\t\t}\n		s[i].sum = s[i].sum.XOR(s2[i].sum)\n')],
 'riblt', SYM + '''
func TestDemo(t *testing.T) {
	a, b, c := make(Sketch[*dsym], 20), make(Sketch[*dsym], 20), make(Sketch[*dsym], 20)
	for i := range a { a[i].sum = &dsym{}; b[i].sum = &dsym{}; c[i].sum = &dsym{} }
	a.AddSymbol(mk(1)); b.AddSymbol(mk(2)); c.AddSymbol(mk(3))
	// b - c has net count 0 in cell 0 but is not empty
	x := b.Subtract(c)
	y := a.Subtract(x)
	h := mk(1).Hash() ^ mk(2).Hash() ^ mk(3).Hash()
	if y[0].checksum != h { t.Fatal("cell not subtracted") }
}
''', 'subtracting a sketch that is itself a difference: a cell with net count 0 but non-zero contents', 'such a cell is not subtracted')
seed('c05-decode-prefix', 'C05', [('riblt/sketch.go', '''	for _, c := range s {
		dec.AddCodedSymbol(c)
	}''', '''	for i, c := range s {
		if i > 0 && c.count == 0 && c.checksum == 0 && dec.Decoded() {
			break
		}
		dec.AddCodedSymbol(c)
		if c.count == 1 {
			dec.TryDecode()
		}
	}''')],
 'riblt', SYM + '''
func TestDemo(t *testing.T) {
	for tr := 0; tr < 300; tr++ {
		s := make(Sketch[*dsym], 12)
		for i := range s { s[i].sum = &dsym{} }
		n := 1 + tr%3
		for i := 0; i < n; i++ { s.AddSymbol(mk(tr*10+i)) }
		ref := make(Sketch[*dsym], 12)
		for i := range s { v := *s[i].sum; ref[i] = s[i]; ref[i].sum = &v }
		d := Decoder[*dsym]{}
		for _, c := range ref { d.AddCodedSymbol(c) }
		d.TryDecode()
		r, l, ok := s.Decode()
		if ok != d.Decoded() || len(r) != len(d.Remote()) || len(l) != len(d.Local()) { t.Fatal("result differs from a fresh decoder fed with all cells") }
		for i := range r { if r[i].Hash != d.Remote()[i].Hash { t.Fatal("order differs from a fresh decoder fed with all cells") } }
		_ = n
	}
}
''', 'a sketch with a pure cell before its end', 'cells are decoded before all of them were fed, so the decoder does not see all cells unchanged in one pass')
seed('c06-reset-pending', 'C06', [('riblt/decoder.go', '''	if len(d.dirty) != 0 {
		d.dirty = d.dirty[:0]
	}
	d.local.reset()''', '''	if len(d.dirty) > 1 {
		d.dirty = d.dirty[:0]
	}
	d.local.reset()''')],
 'riblt', SYM + '''
func TestDemo(t *testing.T) {
	e := Encoder[*dsym]{}; d := Decoder[*dsym]{}
	e.AddSymbol(mk(1))
	d.AddCodedSymbol(e.ProduceNextCodedSymbol()) // one worklist entry, not processed
	d.Reset()
	defer func() { if r := recover(); r != nil { t.Fatal("panic after reset", r) } }()
	d.TryDecode()
	if !d.Decoded() || len(d.Remote()) != 0 { t.Fatal("state of the earlier session survives") }
}
''', 'reset with exactly one unprocessed worklist entry, followed by a decoding attempt', 'the worklist entry of the earlier session survives the reset')
