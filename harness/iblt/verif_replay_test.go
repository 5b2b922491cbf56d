package iblt

// Replay drivers: they look for an input on which the real code breaks a property.
// They run only after the verifier has rejected an obligation.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"testing"
	"time"
)

var deadline = time.Now().Add(55 * time.Second)
var current string

func init() {
	go func() {
		last, n := "", 0
		for {
			time.Sleep(time.Second)
			s := current
			if s != "" && s == last {
				n++
			} else {
				n = 0
			}
			last = s
			if n >= 25 {
				fmt.Println("FAILING-INPUT: does not terminate:", s)
				os.Exit(1)
			}
		}
	}()
}

func fail(f string, a ...any) {
	fmt.Printf("FAILING-INPUT: %s: %s\n", current, fmt.Sprintf(f, a...))
	os.Exit(1)
}

func guard(name string, f func()) {
	current = name
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
		current = ""
	}()
	f()
}

// data with in-place XOR; eight bytes of content
type pdata struct{ v uint64 }

func (p *pdata) val() uint64 {
	if p == nil {
		return 0
	}
	return p.v
}
func (p *pdata) XOR(q *pdata) *pdata {
	if p == nil {
		return &pdata{q.val()}
	}
	p.v ^= q.val()
	return p
}
func (p *pdata) Hash() []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, p.val())
	return b
}

// a keyed hash with few values, so that conflicts occur
type smallHash struct {
	mod uint64
	s   uint64
}

func (h *smallHash) Reset()              { h.s = 17 }
func (h *smallHash) Size() int           { return 8 }
func (h *smallHash) BlockSize() int      { return 8 }
func (h *smallHash) Sum(b []byte) []byte { return append(b, byte(h.s)) }
func (h *smallHash) Sum64() uint64 {
	// few values in the low half, which differ in single bits; everything in the high half
	v := mix(h.s)
	return uint64(uint32(0x5a5a5a5a)^uint32(1)<<(v%h.mod*5%31)) | v<<32
}
func (h *smallHash) Write(b []byte) (int, error) {
	for _, x := range b {
		h.s = mix(h.s*31 + uint64(x))
	}
	return len(b), nil
}
func mix(v uint64) uint64 {
	v = (v ^ v>>30) * 0xbf58476d1ce4e5b9
	v = (v ^ v>>27) * 0x94d049bb133111eb
	return v ^ v>>31
}
func keyWith(mod uint64, v uint64) uint32 {
	h := &smallHash{mod: mod}
	h.Reset()
	h.Write((&pdata{v}).Hash())
	return uint32(h.Sum64())
}

type fixed int

func (f fixed) Uint64() uint64 { return uint64(f) }

type went struct {
	h uint32
	v uint64
}

func TestC07(t *testing.T) {
	for seed := int64(0); seed < 20000 && time.Now().Before(deadline); seed++ {
		guard(fmt.Sprintf("window, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			ws := r.Intn(6)
			if seed%11 == 0 {
				ws = r.Intn(40)
			}
			mod := uint64(1 + r.Intn(12))
			e := NewEncoder[*pdata](r, [SaltSize]byte{}, fixed(1), ws)
			e.hasher = &smallHash{mod: mod}
			var win []went
			hist := fmt.Sprintf("window size %d:", ws)
			for n := r.Intn(60); n > 0; n-- {
				if r.Intn(25) == 0 {
					ws = r.Intn(6)
					e.Reset(fixed(2), ws)
					hist += fmt.Sprintf(" reset(%d)", ws)
					win = nil
					if e.degreeDist != DegreeDistribution(fixed(2)) {
						fail("%s: the degree distribution is not replaced", hist)
					}
				} else {
					v := uint64(r.Intn(20))
					h := keyWith(mod, v)
					in := false
					for _, w := range win {
						in = in || w.h == h
					}
					hist += fmt.Sprintf(" %d(hash %d)", v, h)
					got := e.AddTransaction(NewTransaction(&pdata{v}))
					if got == in {
						fail("%s: AddTransaction returns %v", hist, got)
					}
					if !in {
						win = append(win, went{h, v})
						if len(win) > ws {
							win = win[1:]
						}
					}
				}
				if len(e.window) != len(win) {
					fail("%s: the window has %d entries, want %v", hist, len(e.window), win)
				}
				for i, w := range win {
					if e.window[i].saltedHash != w.h || e.window[i].Transaction.data.val() != w.v {
						fail("%s: window entry %d is %d (hash %d), want %v", hist, i, e.window[i].Transaction.data.val(), e.window[i].saltedHash, win)
					}
				}
			}
		})
	}
}

func TestC08(t *testing.T) {
	for seed := int64(0); seed < 4000 && time.Now().Before(deadline); seed++ {
		guard(fmt.Sprintf("codewords, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			ws := 1 + r.Intn(8)
			if seed%50 == 0 {
				ws = 100 + r.Intn(200)
			}
			e := NewEncoder[*pdata](r, [SaltSize]byte{}, fixed(1), ws)
			for n := r.Intn(2*ws+2) + 1; n > 0; n-- {
				e.AddTransaction(NewTransaction(&pdata{r.Uint64()}))
			}
			for n := 0; n < 12; n++ {
				if r.Intn(3) == 0 {
					e.AddTransaction(NewTransaction(&pdata{r.Uint64()}))
				}
				var before []went
				pos := map[uint32]uint64{}
				for _, w := range e.window {
					before = append(before, went{w.saltedHash, w.Transaction.data.val()})
					pos[w.saltedHash] = w.Transaction.data.val()
				}
				deg := 1 + r.Intn(len(before)+3)
				e.degreeDist = fixed(deg)
				c := e.ProduceCodeword()
				want := deg
				if want > len(before) {
					want = len(before)
				}
				if len(c.members) != want {
					fail("degree %d, window %v: %d members", deg, before, len(c.members))
				}
				var sum uint64
				seen := map[uint32]bool{}
				for _, m := range c.members {
					v, ok := pos[m]
					if !ok || seen[m] {
						fail("degree %d, window %v: members %v", deg, before, c.members)
					}
					seen[m] = true
					sum ^= v
				}
				if c.symbol.val() != sum {
					fail("degree %d, window %v, members %v: data %d, want %d", deg, before, c.members, c.symbol.val(), sum)
				}
				if len(e.window) != len(before) {
					fail("degree %d, window %v: the window changed its size", deg, before)
				}
				for i, w := range e.window {
					if w.saltedHash != before[i].h || w.Transaction.data.val() != before[i].v {
						fail("degree %d, window %v: entry %d changed", deg, before, i)
					}
				}
			}
		})
	}
	for n := 1; n <= 6; n++ {
		for deg := 1; deg <= n; deg++ {
			guard(fmt.Sprintf("choice of %d from %d entries", deg, n), func() {
				r := rand.New(rand.NewSource(int64(n*100 + deg)))
				e := NewEncoder[*pdata](r, [SaltSize]byte{}, fixed(deg), n)
				for len(e.window) < n {
					e.AddTransaction(NewTransaction(&pdata{r.Uint64()}))
				}
				at := map[string]bool{}
				for i := 0; i < 6000; i++ {
					c := e.ProduceCodeword()
					for j, m := range c.members {
						for k, w := range e.window {
							if w.saltedHash == m {
								at[fmt.Sprint(j, k)] = true
							}
						}
					}
				}
				for k := 0; k < n; k++ {
					for j := 0; j < deg; j++ {
						if !at[fmt.Sprint(j, k)] {
							fail("window entry %d is never draw number %d in 6000 codewords", k, j)
						}
					}
				}
			})
		}
	}
}

type tracked struct {
	cw      *PendingCodeword[*pdata]
	unknown []uint32
	members []uint32
}

func drop(l []uint32, h uint32) []uint32 {
	var o []uint32
	for _, x := range l {
		if x != h {
			o = append(o, x)
		}
	}
	return o
}

func history(seed int64, honest bool) {
	r := rand.New(rand.NewSource(seed))
	mem := r.Intn(8)
	if r.Intn(2) == 0 {
		mem = 1000
	}
	p := NewDecoder[*pdata]([SaltSize]byte{}, mem)
	mod := uint64(4 + r.Intn(20))
	p.hasher = &smallHash{mod: mod}
	truth := map[uint32]uint64{}
	var vals []uint64
	base := r.Uint64()
	for i := 0; i < 40; i++ {
		v := r.Uint64()
		if r.Intn(2) == 0 {
			v = base ^ 1<<r.Intn(64)
		}
		h := keyWith(mod, v)
		if _, ok := truth[h]; !ok || !honest {
			truth[h] = v
			vals = append(vals, v)
		}
	}
	var cws []*tracked
	var recent []uint32
	hist := fmt.Sprintf("memory %d:", mem)
	for n := 4 + r.Intn(30); n > 0; n-- {
		pendBefore, knownBefore := map[uint32]bool{}, map[uint32]bool{}
		for h := range p.pendingTransactions {
			pendBefore[h] = true
		}
		for h := range p.receivedTransactions {
			knownBefore[h] = true
		}
		var out []Transaction[*pdata]
		added := int64(-1)
		if r.Intn(3) > 0 {
			var c Codeword[*pdata]
			var sum uint64
			tr := &tracked{}
			for k := r.Intn(5); k > 0; k-- {
				m := vals[r.Intn(len(vals))]
				if r.Intn(6) > 0 && len(vals) > 6 {
					m = vals[r.Intn(6)]
				}
				h := keyWith(mod, m)
				if r.Intn(12) == 0 && len(c.members) > 0 {
					h = c.members[0]
				}
				c.members = append(c.members, h)
				sum ^= truth[h]
			}
			if !honest && r.Intn(3) == 0 {
				sum = r.Uint64()
			}
			if len(c.members) > 0 || r.Intn(2) == 0 {
				c.symbol = &pdata{sum}
			}
			hist += fmt.Sprintf(" codeword%v=%d", c.members, sum)
			tr.members = append(tr.members, c.members...)
			for _, h := range c.members {
				if !knownBefore[h] {
					tr.unknown = append(tr.unknown, h)
				}
				pendBefore[h] = true
			}
			tr.cw, out = p.AddCodeword(c)
			cws = append(cws, tr)
		} else {
			v := vals[r.Intn(len(vals))]
			h := keyWith(mod, v)
			hist += fmt.Sprintf(" tx %d(hash %d)", v, h)
			tx := NewTransaction(&pdata{v})
			old, known := p.receivedTransactions[h]
			push := !known || old.data.val() != v
			out = p.AddTransaction(tx)
			added = int64(h)
			if push {
				recent = append(recent, h)
				for _, c := range cws {
					c.unknown = drop(c.unknown, h)
				}
			} else if len(out) != 0 {
				fail("%s: adding a known transaction releases %d others", hist, len(out))
			}
		}
		outSet := map[uint32]bool{}
		for _, o := range out {
			h := keyWith(mod, o.data.val())
			if !pendBefore[h] {
				fail("%s: outputs %d with hash %d, which no codeword waits for", hist, o.data.val(), h)
			}
			if honest && o.data.val() != truth[h] {
				fail("%s: outputs %d for hash %d, encoded was %d", hist, o.data.val(), h, truth[h])
			}
			outSet[h] = true
			recent = append(recent, h)
			for _, c := range cws {
				c.unknown = drop(c.unknown, h)
			}
		}
		if len(recent) > mem {
			recent = recent[len(recent)-mem:]
		}
		for h := range p.receivedTransactions {
			if !knownBefore[h] && !outSet[h] && int64(h) != added {
				fail("%s: hash %d became known but was not returned", hist, h)
			}
			if _, ok := p.pendingTransactions[h]; ok {
				fail("%s: hash %d is known and pending", hist, h)
			}
		}
		if len(p.recentTransactions) != len(recent) {
			fail("%s: %d transactions are remembered, want %d", hist, len(p.recentTransactions), len(recent))
		}
		in := map[uint32]bool{}
		for i, h := range recent {
			in[h] = true
			if p.recentTransactions[i].saltedHash != h {
				fail("%s: remembered transaction %d has hash %d, want %v", hist, i, p.recentTransactions[i].saltedHash, recent)
			}
			if _, ok := p.receivedTransactions[h]; !ok {
				fail("%s: hash %d is forgotten although it is among the last %d (%v)", hist, h, mem, recent)
			}
		}
		for h := range p.receivedTransactions {
			if !in[h] {
				fail("%s: hash %d is still known although only %v are remembered", hist, h, recent)
			}
		}
		for i, c := range cws {
			if c.cw.Decoded() {
				if len(c.unknown) > 1 || honest && len(c.unknown) > 0 || len(c.cw.members) != 0 {
					fail("%s: codeword %d is reported as decoded while waiting for %v", hist, i, c.unknown)
				}
				continue
			}
			if len(c.unknown) < 2 {
				fail("%s: codeword %d has only the unknown members %v but is not decoded", hist, i, c.unknown)
			}
			if len(c.cw.members) != len(c.unknown) {
				fail("%s: codeword %d waits for %d members, want %v", hist, i, len(c.cw.members), c.unknown)
			}
			var sum uint64
			for _, h := range c.unknown {
				sum ^= truth[h]
			}
			if honest && c.cw.symbol.val() != sum {
				fail("%s: codeword %d holds %d, the XOR of its unknown members %v is %d", hist, i, c.cw.symbol.val(), c.unknown, sum)
			}
		}
		count := 0
		for h, q := range p.pendingTransactions {
			if q.saltedHash != h || len(q.blocking) == 0 {
				fail("%s: pending entry of hash %d has hash %d and blocks %d codewords", hist, h, q.saltedHash, len(q.blocking))
			}
			count += len(q.blocking)
			for _, c := range q.blocking {
				a, b := 0, 0
				if c == nil {
					fail("%s: pending hash %d blocks a nil codeword", hist, h)
				}
				for _, m := range c.members {
					if m == q {
						a++
					}
				}
				for _, c2 := range q.blocking {
					if c2 == c {
						b++
					}
				}
				if a != b {
					fail("%s: hash %d lists a codeword %d times, the codeword lists it %d times", hist, h, b, a)
				}
			}
		}
		for _, c := range cws {
			count -= len(c.cw.members)
		}
		if count != 0 {
			fail("%s: links do not match (%d too many)", hist, count)
		}
	}
}

func histories() {
	for seed := int64(0); seed < 60000 && time.Now().Before(deadline); seed++ {
		guard(fmt.Sprintf("history, seed %d", seed), func() { history(seed, seed%2 == 0) })
	}
	guard("recovered transactions own their data", func() {
		p := NewDecoder[*pdata]([SaltSize]byte{}, 10)
		a := NewTransaction(&pdata{5})
		out := p.AddTransaction(a)
		_, out = p.AddCodeword(Codeword[*pdata]{symbol: &pdata{9}, members: []uint32{keyReal(p, 9)}})
		if len(out) != 1 || out[0].data.val() != 9 {
			fail("a codeword of degree one gives %v", out)
		}
	})
}

func keyReal(p *Decoder[*pdata], v uint64) uint32 {
	p.hasher.Reset()
	p.hasher.Write((&pdata{v}).Hash())
	return uint32(p.hasher.Sum64())
}

func TestC09(t *testing.T) { histories() }
func TestC10(t *testing.T) { histories() }
func TestC11(t *testing.T) { histories() }

// elements must keep their content, recovered ones must have memory of their own
func TestC22(t *testing.T) {
	for seed := int64(0); seed < 30000 && time.Now().Before(deadline); seed++ {
		current = fmt.Sprintf("elements untouched, seed %d", seed)
		func() {
			defer func() { recover() }() // a panic is not the subject here
			r := rand.New(rand.NewSource(seed))
			var salt [SaltSize]byte
			r.Read(salt[:])
			type own struct {
				p *pdata
				v uint64
			}
			var mine []own
			var outs []own // codewords handed out and not given to a decoder
			seen := map[*pdata]bool{}
			var log []string
			add := func(p *pdata) {
				if p != nil && !seen[p] {
					seen[p] = true
					mine = append(mine, own{p, p.v})
				}
			}
			check := func(f string, a ...any) {
				log = append(log, fmt.Sprintf(f, a...))
				for _, o := range mine {
					if o.p.v != o.v {
						fail("an element changed from %x to %x; operations: %v", o.v, o.p.v, log)
					}
				}
				for _, o := range outs {
					if o.p.v != o.v {
						fail("a codeword handed out before changed from %x to %x; operations: %v", o.v, o.p.v, log)
					}
				}
			}
			ws := 1 + r.Intn(8)
			e := NewEncoder[*pdata](r, salt, fixed(1+r.Intn(4)), ws)
			ds := []*Decoder[*pdata]{NewDecoder[*pdata](salt, 100), NewDecoder[*pdata](salt, 100)}
			report := func(l []Transaction[*pdata]) {
				for _, x := range l {
					d := x.Data()
					if d == nil {
						continue
					}
					if seen[d] {
						fail("a recovered transaction shares its memory; operations: %v", log)
					}
					add(d)
				}
			}
			var txs []Transaction[*pdata]
			for step := 0; step < 10+r.Intn(40); step++ {
				d := ds[r.Intn(2)]
				switch k := r.Intn(8); {
				case k < 2 || len(txs) == 0:
					data := &pdata{r.Uint64()}
					add(data)
					tx := NewTransaction(data)
					if tx.Data() != data {
						report([]Transaction[*pdata]{tx})
					}
					if tx.Data().v != data.v {
						fail("NewTransaction of %x holds %x", data.v, tx.Data().v)
					}
					txs = append(txs, tx)
					e.AddTransaction(tx)
					check("new transaction, added to the encoder")
				case k == 2:
					l := d.AddTransaction(txs[r.Intn(len(txs))])
					check("transaction added to a decoder, %d recovered", len(l))
					report(l)
				case k == 3:
					e.AddTransaction(txs[r.Intn(len(txs))])
					check("transaction added again")
				default:
					e.degreeDist = fixed(1 + r.Intn(6))
					c := e.ProduceCodeword()
					check("codeword produced")
					if c.symbol != nil {
						if seen[c.symbol] {
							fail("the codeword is a transaction's data; operations: %v", log)
						}
						for _, o := range outs {
							if o.p == c.symbol {
								fail("two codewords share their memory; operations: %v", log)
							}
						}
						if r.Intn(3) == 0 {
							outs = append(outs, own{c.symbol, c.symbol.v})
							continue
						}
					}
					_, l := d.AddCodeword(c)
					check("codeword of %d received, %d recovered", len(c.members), len(l))
					report(l)
				}
			}
		}()
		current = ""
	}
}
