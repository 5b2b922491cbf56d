package ldpc

// Replay drivers: they look for an input on which the real code breaks a property.
// They run only after the verifier has rejected an obligation.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"testing"
	"time"

	"golang.org/x/crypto/blake2b"
)

var deadline = time.Now().Add(55 * time.Second)
var current string

func init() {
	go func() {
		last, n := "", 0
		for {
			time.Sleep(time.Second)
			s := current
			if s != "" && s == last {
				n++
			} else {
				n = 0
			}
			last = s
			if n >= 25 {
				fmt.Println("FAILING-INPUT: does not terminate:", s)
				os.Exit(1)
			}
		}
	}()
}

func fail(f string, a ...any) {
	fmt.Printf("FAILING-INPUT: %s: %s\n", current, fmt.Sprintf(f, a...))
	os.Exit(1)
}

func guard(name string, f func()) {
	current = name
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
		current = ""
	}()
	f()
}

// a keyed hash with few values, so that conflicts occur
type smallHash struct {
	mod uint64
	s   uint64
}

func (h *smallHash) Reset()              { h.s = 17 }
func (h *smallHash) Size() int           { return 8 }
func (h *smallHash) BlockSize() int      { return 8 }
func (h *smallHash) Sum(b []byte) []byte { return append(b, byte(h.s)) }
func (h *smallHash) Sum64() uint64 {
	// few values in the low half, which differ in single bits; everything in the high half
	v := mix(h.s)
	return uint64(uint32(0x5a5a5a5a)^uint32(1)<<(v%h.mod*5%31)) | v<<32
}
func (h *smallHash) Write(b []byte) (int, error) {
	for _, x := range b {
		h.s = mix(h.s*31 + uint64(x))
	}
	return len(b), nil
}
func mix(v uint64) uint64 {
	v = (v ^ v>>30) * 0xbf58476d1ce4e5b9
	v = (v ^ v>>27) * 0x94d049bb133111eb
	return v ^ v>>31
}

func content(v uint64) (d TransactionData) {
	for i := 0; i < TxSize; i += 8 {
		binary.LittleEndian.PutUint64(d[i:], mix(v+uint64(i)))
	}
	binary.LittleEndian.PutUint64(d[:], v)
	return
}
func bytesOf(v uint64) []byte { d := content(v); return d[:] }
func mkTx(v uint64) *Transaction {
	d := content(v)
	return &Transaction{serialized: d, hash: blake2b.Sum512(d[:])}
}
func keyOfData(mod uint64, d TransactionData) uint32 {
	s := blake2b.Sum512(d[:])
	h := &smallHash{mod: mod}
	h.Reset()
	h.Write(s[:])
	return uint32(h.Sum64())
}
func keyWith(mod uint64, v uint64) uint32 { return keyOfData(mod, content(v)) }
func xor(a, b TransactionData) TransactionData {
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}

type fixed int

func (f fixed) Uint64() uint64 { return uint64(f) }

type went struct {
	h uint32
	v TransactionData
}

func short(w []went) (o []string) {
	for _, x := range w {
		o = append(o, fmt.Sprintf("%d:%x..", x.h, x.v[:4]))
	}
	return
}

func TestC07(t *testing.T) {
	for seed := int64(0); seed < 20000 && time.Now().Before(deadline); seed++ {
		guard(fmt.Sprintf("window, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			ws := r.Intn(6)
			if seed%11 == 0 {
				ws = r.Intn(40)
			}
			mod := uint64(1 + r.Intn(12))
			e := NewEncoder([SaltSize]byte{}, fixed(1), ws)
			e.hasher = &smallHash{mod: mod}
			var win []went
			hist := fmt.Sprintf("window size %d:", ws)
			for n := r.Intn(60); n > 0; n-- {
				if r.Intn(25) == 0 {
					ws = r.Intn(6)
					e.Reset(fixed(2), ws)
					hist += fmt.Sprintf(" reset(%d)", ws)
					win = nil
					if e.degreeDist != DegreeDistribution(fixed(2)) {
						fail("%s: the degree distribution is not replaced", hist)
					}
				} else {
					v := uint64(r.Intn(20))
					h := keyWith(mod, v)
					in := false
					for _, w := range win {
						in = in || w.h == h
					}
					hist += fmt.Sprintf(" %d(hash %d)", v, h)
					got := e.AddTransaction(mkTx(v))
					if got == in {
						fail("%s: AddTransaction returns %v", hist, got)
					}
					if !in {
						win = append(win, went{h, content(v)})
						if len(win) > ws {
							win = win[1:]
						}
					}
				}
				if len(e.window) != len(win) {
					fail("%s: the window has %d entries, want %v", hist, len(e.window), short(win))
				}
				for i, w := range win {
					if e.window[i].saltedHash != w.h || e.window[i].Transaction.serialized != w.v {
						fail("%s: window entry %d has hash %d, want %v", hist, i, e.window[i].saltedHash, short(win))
					}
				}
			}
		})
	}
}

// takes what the selection pool holds, and looks at the whole capacity of it
func checkBuilders(what string) {
	var got []*codewordBuilder
	for i := 0; i < 20; i++ {
		b := codewordBuilderPool.Get().(*codewordBuilder)
		if cap(*b) == 0 {
			break
		}
		got = append(got, b)
		for j, x := range (*b)[:cap(*b)] {
			if x.Transaction != nil {
				fail("%s: entry %d of a recycled selection buffer still points to a transaction", what, j)
			}
		}
		for _, o := range got[:len(got)-1] {
			if o == b {
				fail("%s: a selection buffer is in the pool twice", what)
			}
		}
	}
	for _, b := range got {
		codewordBuilderPool.Put(b)
	}
}

func TestC12(t *testing.T) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	for seed := int64(0); seed < 4000 && time.Now().Before(deadline.Add(-20*time.Second)); seed++ {
		guard(fmt.Sprintf("codewords, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			ws := r.Intn(9)
			if seed%50 == 0 {
				ws = 100 + r.Intn(200)
			}
			e := NewEncoder([SaltSize]byte{}, fixed(1), ws)
			for n := r.Intn(2*ws+2) + 1; n > 0; n-- {
				e.AddTransaction(mkTx(r.Uint64()))
			}
			for n := 0; n < 12; n++ {
				if r.Intn(3) == 0 {
					e.AddTransaction(mkTx(r.Uint64()))
				}
				var before []went
				pos := map[uint32]TransactionData{}
				for _, w := range e.window {
					before = append(before, went{w.saltedHash, w.Transaction.serialized})
					pos[w.saltedHash] = w.Transaction.serialized
				}
				deg := r.Intn(len(before) + 3)
				e.degreeDist = fixed(deg)
				c := e.ProduceCodeword()
				want := deg
				if want > len(before) {
					want = len(before)
				}
				if len(c.Members) != want {
					fail("degree %d, window %v: %d members", deg, short(before), len(c.Members))
				}
				var sum TransactionData
				seen := map[uint32]bool{}
				for _, m := range c.Members {
					v, ok := pos[m]
					if !ok || seen[m] {
						fail("degree %d, window %v: members %v", deg, short(before), c.Members)
					}
					seen[m] = true
					sum = xor(sum, v)
				}
				if c.Symbol != sum {
					fail("degree %d, window %v, members %v: data %x, want %x", deg, short(before), c.Members, c.Symbol, sum)
				}
				if len(e.window) != len(before) {
					fail("degree %d, window %v: the window changed its size", deg, short(before))
				}
				for i, w := range e.window {
					if w.saltedHash != before[i].h || w.Transaction == nil || w.Transaction.serialized != before[i].v {
						fail("degree %d, window %v: entry %d changed", deg, short(before), i)
					}
				}
				checkBuilders(fmt.Sprintf("degree %d, window %v", deg, short(before)))
			}
		})
	}
	for n := 1; n <= 6; n++ {
		for deg := 1; deg <= n; deg++ {
			guard(fmt.Sprintf("choice of %d from %d entries", deg, n), func() {
				e := NewEncoder([SaltSize]byte{}, fixed(deg), n)
				for v := uint64(0); len(e.window) < n; v++ {
					e.AddTransaction(mkTx(v))
				}
				at := map[uint32]bool{}
				for i := 0; i < 20000; i++ {
					for _, m := range e.ProduceCodeword().Members {
						at[m] = true
					}
				}
				for k, w := range e.window {
					if !at[w.saltedHash] {
						fail("window entry %d is never chosen in 20000 codewords", k)
					}
				}
			})
		}
	}
}

func TestC15(t *testing.T) {
	for seed := int64(0); seed < 20000 && time.Now().Before(deadline); seed++ {
		guard(fmt.Sprintf("transaction data, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			n := []int{TxSize, TxSize - 1, TxSize + 1, 0, r.Intn(300), 2 * TxSize}[r.Intn(6)]
			data := make([]byte, n)
			r.Read(data)
			orig := append([]byte{}, data...)
			x := mkTx(r.Uint64())
			old := *x
			err := x.UnmarshalBinary(data)
			if string(data) != string(orig) {
				fail("parsing %x changed the input", orig)
			}
			if n != TxSize {
				if err == nil || *x != old {
					fail("%d bytes: error %v, transaction changed: %v", n, err, *x != old)
				}
			} else {
				if err != nil {
					fail("%x: error %v", data, err)
				}
				if string(x.serialized[:]) != string(orig) || x.hash != blake2b.Sum512(orig) {
					fail("%x: stores %x with hash %x", orig, x.serialized, x.hash)
				}
			}
			if s := x.Serialized(); string(s) != string(x.serialized[:]) {
				fail("transaction %x serializes as %x", x.serialized, s)
			}
			a, b := content(r.Uint64()), content(r.Uint64())
			if r.Intn(3) == 0 {
				r.Read(b[:])
			}
			a0, b0 := a, b
			a.XOR(&b)
			if b != b0 || a != xor(a0, b0) {
				fail("%x XOR %x gives %x (second operand afterwards %x)", a0, b0, a, b)
			}
			a.XOR(&a)
			if a != (TransactionData{}) {
				fail("%x XOR itself gives %x", xor(a0, b0), a)
			}
		})
	}
}

type tracked struct {
	cw      *PendingCodeword
	unknown []uint32
	members []uint32
	freed   bool // the caller freed it
	gone    bool // recycled: the pointer may not be used any more
}

func drop(l []uint32, h uint32) []uint32 {
	var o []uint32
	for _, x := range l {
		if x != h {
			o = append(o, x)
		}
	}
	return o
}

func fillPools() {
	// objects as other decoders may have left them
	for i := 0; i < 3; i++ {
		pendingTransactionPool.Put(&pendingTransaction{saltedHash: 77, blocking: make([]*PendingCodeword, 0, 3)})
		pendingCodewordPool.Put(&PendingCodeword{symbol: content(5), queued: true, decoded: true, freed: true, members: make([]*pendingTransaction, 0, 2)})
	}
}

func drain() (cws []*PendingCodeword, txs []*pendingTransaction) {
	nc, nt := pendingCodewordPool.New, pendingTransactionPool.New
	pendingCodewordPool.New, pendingTransactionPool.New = nil, nil
	for {
		x, _ := pendingCodewordPool.Get().(*PendingCodeword)
		if x == nil {
			break
		}
		cws = append(cws, x)
	}
	for {
		x, _ := pendingTransactionPool.Get().(*pendingTransaction)
		if x == nil {
			break
		}
		txs = append(txs, x)
	}
	pendingCodewordPool.New, pendingTransactionPool.New = nc, nt
	return
}

func history(seed int64, honest, free bool) {
	r := rand.New(rand.NewSource(seed))
	drain()
	if r.Intn(2) == 0 {
		fillPools()
	}
	pooled := map[*PendingCodeword]bool{} // what the codeword pool should hold
	{
		c, x := drain()
		for _, e := range c {
			pooled[e] = true
			pendingCodewordPool.Put(e)
		}
		for _, e := range x {
			pendingTransactionPool.Put(e)
		}
	}
	mem := r.Intn(8)
	if r.Intn(2) == 0 {
		mem = 1000
	}
	p := NewDecoder([SaltSize]byte{}, mem)
	mod := uint64(4 + r.Intn(20))
	p.hasher = &smallHash{mod: mod}
	truth := map[uint32]TransactionData{}
	var vals []uint64
	for i := 0; i < 40; i++ {
		v := r.Uint64()
		h := keyWith(mod, v)
		if _, ok := truth[h]; !ok || !honest {
			truth[h] = content(v)
			vals = append(vals, v)
		}
	}
	var cws []*tracked
	var recent []uint32
	stored := 0
	hist := fmt.Sprintf("memory %d:", mem)
	for n := 4 + r.Intn(30); n > 0; n-- {
		pendBefore, knownBefore := map[uint32]bool{}, map[uint32]bool{}
		for h := range p.pendingTransactions {
			pendBefore[h] = true
		}
		for h := range p.receivedTransactions {
			knownBefore[h] = true
		}
		freedBefore := map[*PendingCodeword]bool{}
		for _, c := range cws {
			if !c.gone {
				freedBefore[c.cw] = c.freed
			}
		}
		var out []DecodedTransaction
		added := int64(-1)
		if k := r.Intn(4); k == 0 && free && len(cws) > 0 {
			i := r.Intn(len(cws))
			c := cws[i]
			if c.gone || c.freed {
				continue
			}
			hist += fmt.Sprintf(" free(codeword %d)", i)
			was := c.cw.Decoded()
			c.freed = true
			c.cw.Free()
			if was {
				c.gone = true
				pooled[c.cw] = true
			}
		} else if k > 1 {
			var c Codeword
			var sum TransactionData
			tr := &tracked{}
			for k := r.Intn(5); k > 0; k-- {
				m := vals[r.Intn(len(vals))]
				if r.Intn(6) > 0 && len(vals) > 6 {
					m = vals[r.Intn(6)]
				}
				h := keyWith(mod, m)
				if r.Intn(12) == 0 && len(c.Members) > 0 {
					h = c.Members[0]
				}
				c.Members = append(c.Members, h)
				sum = xor(sum, truth[h])
			}
			if !honest && r.Intn(3) == 0 {
				sum = content(r.Uint64())
			}
			c.Symbol = sum
			hist += fmt.Sprintf(" codeword%v=%x..", c.Members, sum[:4])
			tr.members = append(tr.members, c.Members...)
			for _, h := range c.Members {
				if !knownBefore[h] {
					tr.unknown = append(tr.unknown, h)
				}
				pendBefore[h] = true
			}
			tr.cw, out = p.AddCodeword(&c)
			if c.Symbol != sum {
				fail("%s: the codeword passed in was changed", hist)
			}
			delete(pooled, tr.cw)
			for i, o := range cws {
				if !o.gone && o.cw == tr.cw {
					fail("%s: the new codeword is the object of codeword %d, which is still in use", hist, i)
				}
			}
			cws = append(cws, tr)
		} else {
			v := vals[r.Intn(len(vals))]
			h := keyWith(mod, v)
			hist += fmt.Sprintf(" tx %x(hash %d)", bytesOf(v)[:4], h)
			old, known := p.receivedTransactions[h]
			push := !known || old.serialized != content(v)
			out = p.AddTransaction(mkTx(v))
			added = int64(h)
			if push {
				recent = append(recent, h)
				stored++
				for _, c := range cws {
					c.unknown = drop(c.unknown, h)
				}
			} else if len(out) != 0 {
				fail("%s: adding a known transaction releases %d others", hist, len(out))
			}
		}
		outSet := map[uint32]bool{}
		for _, o := range out {
			h := keyOfData(mod, o.serialized)
			if !pendBefore[h] {
				fail("%s: outputs %x with hash %d, which no codeword waits for", hist, o.serialized[:4], h)
			}
			if honest && o.serialized != truth[h] {
				fail("%s: outputs %x for hash %d, encoded was %x", hist, o.serialized, h, truth[h])
			}
			if o.hash != blake2b.Sum512(o.serialized[:]) {
				fail("%s: outputs %x with a wrong hash", hist, o.serialized)
			}
			any, all := false, true
			for _, c := range cws {
				for _, u := range c.unknown {
					if u == h && !c.gone {
						any, all = any || freedBefore[c.cw], all && freedBefore[c.cw]
					}
				}
			}
			if o.Expired && !any || !o.Expired && all && added != int64(h) {
				fail("%s: hash %d is reported with Expired=%v", hist, h, o.Expired)
			}
			outSet[h] = true
			recent = append(recent, h)
			stored++
			for _, c := range cws {
				c.unknown = drop(c.unknown, h)
			}
		}
		if p.NumTransactionsReceived() != stored {
			fail("%s: reports %d received transactions, want %d", hist, p.NumTransactionsReceived(), stored)
		}
		if len(recent) > mem {
			recent = recent[len(recent)-mem:]
		}
		for h := range p.receivedTransactions {
			if !knownBefore[h] && !outSet[h] && int64(h) != added {
				fail("%s: hash %d became known but was not returned", hist, h)
			}
			if _, ok := p.pendingTransactions[h]; ok {
				fail("%s: hash %d is known and pending", hist, h)
			}
		}
		if len(p.recentTransactions) != len(recent) {
			fail("%s: %d transactions are remembered, want %d", hist, len(p.recentTransactions), len(recent))
		}
		in := map[uint32]bool{}
		for i, h := range recent {
			in[h] = true
			if p.recentTransactions[i].hash != h {
				fail("%s: remembered transaction %d has hash %d, want %v", hist, i, p.recentTransactions[i].hash, recent)
			}
			if _, ok := p.receivedTransactions[h]; !ok {
				fail("%s: hash %d is forgotten although it is among the last %d (%v)", hist, h, mem, recent)
			}
		}
		for h := range p.receivedTransactions {
			if !in[h] {
				fail("%s: hash %d is still known although only %v are remembered", hist, h, recent)
			}
		}
		live := 0
		for i, c := range cws {
			if c.gone {
				continue
			}
			if c.cw.freed != c.freed {
				fail("%s: codeword %d has freed=%v", hist, i, c.cw.freed)
			}
			if c.cw.Decoded() {
				if c.freed {
					c.gone = true
					pooled[c.cw] = true
				}
				if len(c.unknown) > 1 || honest && len(c.unknown) > 0 || len(c.cw.members) != 0 {
					fail("%s: codeword %d is reported as decoded while waiting for %v", hist, i, c.unknown)
				}
				continue
			}
			if len(c.unknown) < 2 {
				fail("%s: codeword %d has only the unknown members %v but is not decoded", hist, i, c.unknown)
			}
			if len(c.cw.members) != len(c.unknown) {
				fail("%s: codeword %d waits for %d members, want %v", hist, i, len(c.cw.members), c.unknown)
			}
			live += len(c.cw.members)
			var sum TransactionData
			for _, h := range c.unknown {
				sum = xor(sum, truth[h])
			}
			if honest && c.cw.symbol != sum {
				fail("%s: codeword %d holds %x, the XOR of its unknown members %v is %x", hist, i, c.cw.symbol, c.unknown, sum)
			}
		}
		count := 0
		reach := map[*PendingCodeword]bool{}
		reachTx := map[*pendingTransaction]bool{}
		for h, q := range p.pendingTransactions {
			reachTx[q] = true
			if q.saltedHash != h || len(q.blocking) == 0 {
				fail("%s: pending entry of hash %d has hash %d and blocks %d codewords", hist, h, q.saltedHash, len(q.blocking))
			}
			count += len(q.blocking)
			for _, c := range q.blocking {
				a, b := 0, 0
				if c == nil {
					fail("%s: pending hash %d blocks a nil codeword", hist, h)
				}
				reach[c] = true
				for _, m := range c.members {
					reachTx[m] = true
					if m == q {
						a++
					}
				}
				for _, c2 := range q.blocking {
					if c2 == c {
						b++
					}
				}
				if a != b {
					fail("%s: hash %d lists a codeword %d times, the codeword lists it %d times", hist, h, b, a)
				}
			}
		}
		if count != live {
			fail("%s: links do not match (%d, %d)", hist, count, live)
		}
		if free {
			dc, dx := drain()
			seen := map[*PendingCodeword]bool{}
			for _, c := range dc {
				if seen[c] {
					fail("%s: a codeword is in the pool twice", hist)
				}
				seen[c] = true
				if reach[c] {
					fail("%s: a codeword in the pool is still referenced by the decoder", hist)
				}
				if !pooled[c] {
					fail("%s: a codeword is in the pool although it is not both decoded and freed", hist)
				}
				for _, m := range c.members[:cap(c.members)] {
					if m != nil {
						reachTx[m] = true
					}
				}
			}
			for c := range pooled {
				if !seen[c] {
					fail("%s: a codeword was decoded and freed but is not in the pool", hist)
				}
			}
			seenTx := map[*pendingTransaction]bool{}
			for _, x := range dx {
				if seenTx[x] {
					fail("%s: a pending transaction is in the pool twice", hist)
				}
				seenTx[x] = true
				if reachTx[x] {
					fail("%s: a pending transaction in the pool (hash %d) is still referenced", hist, x.saltedHash)
				}
			}
			for i := len(dc) - 1; i >= 0; i-- {
				pendingCodewordPool.Put(dc[i])
			}
			for i := len(dx) - 1; i >= 0; i-- {
				pendingTransactionPool.Put(dx[i])
			}
		}
	}
}

func histories(free bool) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	for seed := int64(0); seed < 60000 && time.Now().Before(deadline); seed++ {
		guard(fmt.Sprintf("history, seed %d", seed), func() { history(seed, seed%2 == 0, free) })
		if seed%2000 == 1999 {
			runtime.GC()
		}
	}
}

func TestC13(t *testing.T) { histories(false) }
func TestC14(t *testing.T) { histories(true) }
