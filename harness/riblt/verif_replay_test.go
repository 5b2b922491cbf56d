package riblt

// Replay drivers: they look for an input on which the real code breaks a property.
// They run only after the verifier has rejected an obligation.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"
)

var deadline = time.Now().Add(60 * time.Second)

func init() {
	go func() {
		last, n := "", 0
		for {
			time.Sleep(time.Second)
			s := current
			if s != "" && s == last {
				n++
			} else {
				n = 0
			}
			last = s
			if n >= 25 {
				fmt.Println("FAILING-INPUT: does not terminate:", s)
				os.Exit(1)
			}
		}
	}()
}

var current string

func fail(t *testing.T, f string, a ...any) {
	t.Helper()
	fmt.Printf("FAILING-INPUT: %s: %s\n", current, fmt.Sprintf(f, a...))
	os.Exit(1)
}

func guard(t *testing.T, name string, f func()) {
	current = name
	defer func() {
		if r := recover(); r != nil {
			fail(t, "panic: %v", r)
		}
		current = ""
	}()
	f()
}

// hashes of contents: pseudo-random, or chosen by the driver
var special = map[uint64]uint64{}

func hashOf(v uint64) uint64 {
	if h, ok := special[v]; ok {
		return h
	}
	v += 0x9e3779b97f4a7c15
	v = (v ^ v>>30) * 0xbf58476d1ce4e5b9
	v = (v ^ v>>27) * 0x94d049bb133111eb
	return v ^ v>>31
}

type psym = *pcell
type pcell struct{ v uint64 }

func (p *pcell) val() uint64 {
	if p == nil {
		return 0
	}
	return p.v
}
func (p *pcell) XOR(q *pcell) *pcell {
	if p == nil {
		return &pcell{q.val()}
	}
	p.v ^= q.val()
	return p
}
func (p *pcell) Hash() uint64 { return hashOf(p.val()) }

func indices(h uint64, n int) map[int]bool {
	m := randomMapping{h, 0}
	r := map[int]bool{}
	i := 0
	for i < n {
		r[i] = true
		j := int(m.nextIndex())
		if j <= i {
			break
		}
		i = j
	}
	return r
}

var edge = []uint64{0, 1, 2, 3, 255, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - 1023, math.MaxUint64 - 2047, math.MaxUint64 - 1<<20}

type el struct{ v, h uint64 }

func ref(set []el, idx []map[int]bool, k int) (sum uint64, count int64, chk uint64) {
	for i, s := range set {
		if idx[i][k] {
			sum ^= s.v
			count++
			chk ^= s.h
		}
	}
	return
}

func randSet(r *rand.Rand, n int, real bool) []el {
	var s []el
	for i := 0; i < n; i++ {
		e := el{v: r.Uint64()}
		e.h = hashOf(e.v)
		if !real {
			switch r.Intn(6) {
			case 0:
				e.h = edge[r.Intn(len(edge))]
			case 1:
				if len(s) > 0 {
					e.h = s[r.Intn(len(s))].h
				}
			case 2:
				if len(s) > 0 {
					e = s[r.Intn(len(s))]
				}
			}
		}
		s = append(s, e)
	}
	return s
}

func TestC01(t *testing.T) {
	for seed := int64(0); time.Now().Before(deadline) && seed < 4000; seed++ {
		guard(t, fmt.Sprintf("encoder stream, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			var e Encoder[psym]
			for sess := 0; sess < 2; sess++ {
				n := r.Intn(6)
				if seed%7 == 0 {
					n = r.Intn(60)
				}
				set := randSet(r, n, r.Intn(2) == 0)
				N := 1 + r.Intn(120)
				var idx []map[int]bool
				for _, s := range set {
					idx = append(idx, indices(s.h, N))
					if s.h == hashOf(s.v) && r.Intn(2) == 0 {
						e.AddSymbol(&pcell{s.v})
					} else {
						e.AddHashedSymbol(HashedSymbol[psym]{&pcell{s.v}, s.h})
					}
				}
				for k := 0; k < N; k++ {
					c := e.ProduceNextCodedSymbol()
					s, n, h := ref(set, idx, k)
					if c.sum.val() != s || c.count != n || c.checksum != h {
						fail(t, "symbols (data,hash) %v: coded symbol %d is (%d,%d,%d), want (%d,%d,%d)", set, k, c.sum.val(), c.count, c.checksum, s, n, h)
					}
				}
				e.Reset()
			}
		})
	}
	// far positions of the stream: the symbols in between are empty
	for seed := int64(0); time.Now().Before(deadline) && seed < 300; seed++ {
		guard(t, fmt.Sprintf("far stream positions, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			h := r.Uint64()
			if int(seed) < len(edge) {
				h = edge[seed]
			}
			var e Encoder[psym]
			e.AddHashedSymbol(HashedSymbol[psym]{&pcell{7}, h})
			m := randomMapping{h, 0}
			want := 0
			for st := 0; st < 3000 && want < 1<<61; st++ {
				e.nextIdx = want // as if the empty coded symbols had been produced
				c := e.ProduceNextCodedSymbol()
				if c.sum.val() != 7 || c.count != 1 || c.checksum != h {
					fail(t, "single symbol with hash %d: coded symbol %d is (%d,%d,%d)", h, want, c.sum.val(), c.count, c.checksum)
				}
				nw := int(m.nextIndex())
				if nw <= want {
					break
				}
				if e.queue[0].codedIdx != nw {
					fail(t, "single symbol with hash %d: after index %d the encoder goes on at %d, the mapping at %d", h, want, e.queue[0].codedIdx, nw)
				}
				want = nw
			}
		})
	}
}

func TestC02(t *testing.T) {
	check := func(h uint64) {
		guard(t, fmt.Sprintf("index mapping of hash %d", h), func() {
			m, m2 := randomMapping{h, 0}, randomMapping{h, 0}
			if m.lastIdx != 0 {
				fail(t, "does not start at 0")
			}
			last := 0
			for i := 0; i < 400 && last < math.MaxInt64; i++ {
				j := int(m.nextIndex())
				if j <= last || int(m.lastIdx) != j {
					fail(t, "step %d goes from %d to %d (state %d)", i, last, j, m.lastIdx)
				}
				if k := int(m2.nextIndex()); k != j {
					fail(t, "step %d gives %d and %d for the same hash", i, j, k)
				}
				last = j
			}
		})
	}
	sub := os.Getenv("VERIF_ORDER") != ""
	for _, h := range edge {
		if !sub {
			check(h)
		}
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 60000 && !sub && time.Now().Before(deadline); i++ {
		check(r.Uint64())
	}
	// rare values of the internal random state
	for i := 0; i < 60000 && !sub && time.Now().Before(deadline); i++ {
		guard(t, "rare mapping state", func() {
			st := math.MaxUint64 - r.Uint64()>>uint(r.Intn(64))
			if i%2 == 0 {
				st = r.Uint64() >> uint(r.Intn(64))
			}
			// the multiplier of the generator is odd: invert the first step
			inv := uint64(1)
			a := uint64(0xda942042e4dd58b5)
			for k := 0; k < 6; k++ {
				inv *= 2 - a*inv
			}
			check(st * inv)
			var e Encoder[psym]
			e.AddHashedSymbol(HashedSymbol[psym]{&pcell{7}, st * inv})
			for k := 0; k < 3; k++ {
				e.ProduceNextCodedSymbol()
			}
		})
	}
	// the indices of a hash do not depend on what was mapped before: a second process maps
	// the same hashes in the opposite order
	{
		inv, a := uint64(1), uint64(0xda942042e4dd58b5)
		for k := 0; k < 6; k++ {
			inv *= 2 - a*inv
		}
		var hs []uint64
		r := rand.New(rand.NewSource(5))
		for i := 0; i < 400; i++ {
			st := math.MaxUint64 - r.Uint64()>>uint(r.Intn(40))
			hs = append(hs, st*inv, (st^r.Uint64()>>32)*inv, (st^r.Uint64()>>48)*inv, st*inv^r.Uint64()>>32, st*inv^r.Uint64()<<32)
		}
		seqs := func(rev bool) map[uint64]string {
			out := map[uint64]string{}
			for i := range hs {
				h := hs[i]
				if rev {
					h = hs[len(hs)-1-i]
				}
				m := randomMapping{h, 0}
				out[h] = fmt.Sprint(m.nextIndex(), m.nextIndex(), m.nextIndex())
			}
			return out
		}
		if os.Getenv("VERIF_ORDER") != "" {
			for h, s := range seqs(true) {
				fmt.Printf("SEQ %d %s\n", h, s)
			}
			os.Exit(0)
		}
		c := exec.Command(os.Args[0], "-test.run", "^TestC02$")
		c.Env = append(os.Environ(), "VERIF_ORDER=1")
		b, err := c.Output()
		fw := seqs(false)
		if err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.SplitN(l, " ", 3)
				if len(f) != 3 || f[0] != "SEQ" {
					continue
				}
				var h uint64
				fmt.Sscan(f[1], &h)
				if fw[h] != f[2] {
					fail(t, "hash %d maps to indices %s in one process and to %s in another that has mapped other hashes before", h, fw[h], f[2])
				}
			}
		}
	}
	// encoder, decoder and sketch agree
	for seed := int64(0); seed < 3000 && time.Now().Before(deadline); seed++ {
		guard(t, fmt.Sprintf("same mapping everywhere, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			h := r.Uint64()
			if int(seed) < len(edge) {
				h = edge[seed]
			}
			N := 1 + r.Intn(80)
			var e Encoder[psym]
			var d Decoder[psym]
			sk := make(Sketch[psym], N)
			hs := HashedSymbol[psym]{&pcell{9}, h}
			e.AddHashedSymbol(hs)
			d.AddHashedSymbol(hs)
			sk.AddHashedSymbol(hs)
			idx := indices(h, N)
			for k := 0; k < N; k++ {
				want := int64(0)
				if idx[k] {
					want = 1
				}
				c := e.ProduceNextCodedSymbol()
				if c.count != want || sk[k].count != want {
					fail(t, "hash %d index %d: mapping %d encoder %d sketch %d", h, k, want, c.count, sk[k].count)
				}
				d.AddCodedSymbol(c)
			}
			for k := range d.cs {
				if d.cs[k].count != 0 || d.cs[k].checksum != 0 {
					fail(t, "hash %d: decoder does not remove the symbol at index %d", h, k)
				}
			}
		})
	}
}

// pools of contents whose hashes are chosen to look alike
func trickySet(r *rand.Rand, n int) []uint64 {
	special = map[uint64]uint64{}
	var v []uint64
	for i := 0; i < n; i++ {
		x := r.Uint64()
		v = append(v, x)
		switch r.Intn(10) {
		case 0:
			special[x] = edge[1+r.Intn(len(edge)-1)] ^ uint64(r.Intn(3))<<40
		case 1:
			if i > 0 { // equal in one half
				special[x] = hashOf(v[i-1]) ^ (1+uint64(r.Intn(1000)))<<32
			}
		case 2:
			if i > 0 {
				special[x] = hashOf(v[i-1]) ^ (1 + uint64(r.Intn(1000)))
			}
		case 3:
			if i > 2 { // a sum of three that nearly has the right hash
				a, b, c := v[i-1], v[i-2], v[i-3]
				special[a^b^c] = hashOf(a) ^ hashOf(b) ^ hashOf(c) ^ 1<<uint(r.Intn(64))
			}
		}
	}
	return v
}

func decodeCase(t *testing.T, seed int64, d *Decoder[psym]) {
	r := rand.New(rand.NewSource(seed))
	n := 1 + r.Intn(8)
	if seed%5 == 0 {
		n = 1 + r.Intn(40)
	}
	all := trickySet(r, n)
	seen := map[uint64]bool{}
	inA, inB := map[uint64]bool{}, map[uint64]bool{}
	var desc []string
	used := map[uint64]bool{}
	for _, v := range all {
		if seen[v] || used[hashOf(v)] || hashOf(v) == 0 {
			continue
		}
		seen[v] = true
		used[hashOf(v)] = true
		switch r.Intn(4) {
		case 0:
			inA[v] = true
		case 1:
			inB[v] = true
		case 2:
			inA[v], inB[v] = true, true
		default:
			inA[v] = true
		}
		desc = append(desc, fmt.Sprintf("%d(hash %d, remote %v, local %v)", v, hashOf(v), inA[v], inB[v]))
	}
	var e Encoder[psym]
	// sums of several symbols must not collide by accident
	for _, v := range all {
		if !seen[v] {
			continue
		}
		if inA[v] {
			e.AddSymbol(&pcell{v})
		}
		if inB[v] {
			d.AddSymbol(&pcell{v})
		}
	}
	N := r.Intn(3*n + 4)
	idx := map[uint64]map[int]bool{}
	for v := range seen {
		idx[v] = indices(hashOf(v), N+1)
	}
	pTry := r.Intn(4)
	hist := ""
	check := func(k int, tried bool) {
		gotR, gotL := map[uint64]bool{}, map[uint64]bool{}
		for _, x := range d.Remote() {
			v := x.Symbol.val()
			if !inA[v] || inB[v] || x.Hash != hashOf(v) || gotR[v] {
				fail(t, "set %v, history %s: reports remote %d (hash %d)", desc, hist, v, x.Hash)
			}
			gotR[v] = true
		}
		for _, x := range d.Local() {
			v := x.Symbol.val()
			if !inB[v] || inA[v] || x.Hash != hashOf(v) || gotL[v] {
				fail(t, "set %v, history %s: reports local %d (hash %d)", desc, hist, v, x.Hash)
			}
			gotL[v] = true
		}
		clean := true
		for i := 0; i < k; i++ {
			undecoded := 0
			for v := range seen {
				if idx[v][i] && (inA[v] != inB[v]) && !gotR[v] && !gotL[v] {
					undecoded++
				}
			}
			if undecoded > 0 {
				clean = false
			}
			if undecoded == 1 && tried {
				fail(t, "set %v, history %s: coded symbol %d still holds exactly one undecoded symbol", desc, hist, i)
			}
		}
		if d.Decoded() && !clean {
			fail(t, "set %v, history %s: completion signalled while a coded symbol holds undecoded symbols", desc, hist)
		}
		if tried && clean && !d.Decoded() && os.Getenv("PROP") == "C04" {
			fail(t, "set %v, history %s: nothing is left in the coded symbols but completion is not signalled", desc, hist)
		}
		if d.Decoded() && k > 0 {
			for v := range seen {
				if inA[v] && !inB[v] && !gotR[v] || inB[v] && !inA[v] && !gotL[v] {
					fail(t, "set %v, history %s: completion signalled but %d is missing", desc, hist, v)
				}
			}
		}
	}
	check(0, false)
	for k := 0; k < N; k++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		hist += "a"
		tried := false
		if r.Intn(4) < pTry || k == N-1 {
			d.TryDecode()
			hist += "t"
			tried = true
		}
		check(k+1, tried)
	}
}

func decoders(t *testing.T) {
	for seed := int64(0); time.Now().Before(deadline) && seed < 60000; seed++ {
		guard(t, fmt.Sprintf("decoding, seed %d", seed), func() {
			decodeCase(t, seed, &Decoder[psym]{})
		})
	}
	// crafted: a sum of several symbols whose hash agrees with the hash sum in part
	for seed := int64(0); time.Now().Before(deadline) && seed < 20000; seed++ {
		guard(t, fmt.Sprintf("look-alike sums, seed %d", seed), func() { lookAlike(t, seed) })
	}
}

func lookAlike(t *testing.T, seed int64) {
	r := rand.New(rand.NewSource(seed))
	special = map[uint64]uint64{}
	a, b, c := r.Uint64(), r.Uint64(), r.Uint64()
	bit := uint64(1) << uint(r.Intn(64))
	var A, B []uint64
	switch seed % 4 {
	case 0: // two remote, one local
		special[a^b^c] = hashOf(a) ^ hashOf(b) ^ hashOf(c) ^ bit
		A, B = []uint64{a, b}, []uint64{c}
	case 1:
		special[a^b^c] = hashOf(a) ^ hashOf(b) ^ hashOf(c) ^ bit
		A, B = []uint64{a}, []uint64{b, c}
	case 2: // one each, hashes differ in few bits
		special[b] = hashOf(a) ^ bit
		A, B = []uint64{a}, []uint64{b}
	case 3:
		special[b] = hashOf(a) ^ bit<<7 ^ 1<<63
		A, B = []uint64{a}, []uint64{b}
		if special[b] == 0 || special[b] == hashOf(a) {
			return
		}
	}
	var e Encoder[psym]
	d := &Decoder[psym]{}
	for _, v := range A {
		e.AddSymbol(&pcell{v})
	}
	for _, v := range B {
		d.AddSymbol(&pcell{v})
	}
	for k := 0; k < 12; k++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		for _, x := range d.Remote() {
			v := x.Symbol.val()
			if v != a && v != b || (len(A) == 1 && v != a) || x.Hash != hashOf(v) {
				fail(t, "remote %v local %v (hashes %d %d %d): reports remote %d", A, B, hashOf(a), hashOf(b), hashOf(c), v)
			}
		}
		for _, x := range d.Local() {
			ok := false
			for _, v := range B {
				ok = ok || x.Symbol.val() == v
			}
			if !ok {
				fail(t, "remote %v local %v (hashes %d %d %d): reports local %d", A, B, hashOf(a), hashOf(b), hashOf(c), x.Symbol.val())
			}
		}
		if d.Decoded() && len(d.Remote())+len(d.Local()) != len(A)+len(B) {
			fail(t, "remote %v local %v (hashes %d %d %d): completion signalled after %d coded symbols with %d symbols missing", A, B, hashOf(a), hashOf(b), hashOf(c), k+1, len(A)+len(B)-len(d.Remote())-len(d.Local()))
		}
	}
}

func TestC03(t *testing.T) { decoders(t) }
func TestC04(t *testing.T) { decoders(t) }

func TestC05(t *testing.T) {
	for seed := int64(0); time.Now().Before(deadline) && seed < 30000; seed++ {
		guard(t, fmt.Sprintf("sketches, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			special = map[uint64]uint64{}
			N := r.Intn(40)
			sets := [2][]el{}
			var sk [2]Sketch[psym]
			shared := randSet(r, r.Intn(5), seed%2 == 0)
			for i := range sets {
				sets[i] = append(randSet(r, r.Intn(7), seed%2 == 0), shared...)
				r.Shuffle(len(sets[i]), func(a, b int) { sets[i][a], sets[i][b] = sets[i][b], sets[i][a] })
				sk[i] = make(Sketch[psym], N)
				var idx []map[int]bool
				for _, s := range sets[i] {
					idx = append(idx, indices(s.h, N))
					if s.h == hashOf(s.v) && r.Intn(2) == 0 {
						sk[i].AddSymbol(&pcell{s.v})
					} else {
						sk[i].AddHashedSymbol(HashedSymbol[psym]{&pcell{s.v}, s.h})
					}
				}
				for k := 0; k < N; k++ {
					s, n, h := ref(sets[i], idx, k)
					if c := sk[i][k]; c.sum.val() != s || c.count != n || c.checksum != h {
						fail(t, "sketch of %v: cell %d is (%d,%d,%d), want (%d,%d,%d)", sets[i], k, c.sum.val(), c.count, c.checksum, s, n, h)
					}
				}
			}
			type raw struct {
				v uint64
				n int64
				h uint64
			}
			snap := func(s Sketch[psym]) (o []raw) {
				for _, c := range s {
					o = append(o, raw{c.sum.val(), c.count, c.checksum})
				}
				return
			}
			a, b := snap(sk[0]), snap(sk[1])
			// cells of a sketch may be anything; make some look empty or alike
			if seed%3 == 0 {
				for k := 0; k < N; k++ {
					switch r.Intn(6) {
					case 0:
						sk[1][k].count, b[k].n = 0, 0
					case 1:
						sk[1][k].count, b[k].n = sk[0][k].count, sk[0][k].count
					case 2:
						sk[1][k].checksum, b[k].h = sk[0][k].checksum, sk[0][k].checksum
					case 3:
						sk[0][k].count, a[k].n = int64(r.Uint64()), 0
						a[k].n = sk[0][k].count
					}
				}
			}
			res := sk[0].Subtract(sk[1])
			if len(res) != N {
				fail(t, "difference of two sketches of length %d has length %d", N, len(res))
			}
			for k := 0; k < N; k++ {
				w := raw{a[k].v ^ b[k].v, a[k].n - b[k].n, a[k].h ^ b[k].h}
				if g := (raw{res[k].sum.val(), res[k].count, res[k].checksum}); g != w {
					fail(t, "subtracting cell %v from %v gives %v, want %v", b[k], a[k], g, w)
				}
				if g := (raw{sk[1][k].sum.val(), sk[1][k].count, sk[1][k].checksum}); g != b[k] {
					fail(t, "subtracting changes the subtrahend's cell %v to %v", b[k], g)
				}
			}
			// decoding is what a fresh decoder says about the cells in order
			cp := make([]CodedSymbol[psym], N)
			for k := range res {
				cp[k] = CodedSymbol[psym]{&pcell{res[k].sum.val()}, res[k].count, res[k].checksum}
			}
			var d Decoder[psym]
			for _, c := range cp {
				d.AddCodedSymbol(c)
			}
			d.TryDecode()
			rem, loc, ok := res.Decode()
			same := func(x, y []HashedSymbol[psym]) bool {
				if len(x) != len(y) {
					return false
				}
				for i := range x {
					if x[i].Symbol.val() != y[i].Symbol.val() || x[i].Hash != y[i].Hash {
						return false
					}
				}
				return true
			}
			if ok != d.Decoded() || !same(rem, d.Remote()) || !same(loc, d.Local()) {
				fail(t, "sketches of %v and %v, length %d: Decode gives %d remote, %d local, %v; a fresh decoder fed with the cells gives %d, %d, %v", sets[0], sets[1], N, len(rem), len(loc), ok, len(d.Remote()), len(d.Local()), d.Decoded())
			}
			func() {
				defer func() {
					if recover() == nil {
						fail(t, "sketches of lengths %d and %d are subtracted", N, N+1)
					}
				}()
				make(Sketch[psym], N).Subtract(make(Sketch[psym], N+1))
			}()
			if N > 0 {
				func() {
					defer func() {
						if recover() == nil {
							fail(t, "sketches of lengths %d and %d are subtracted", N, N-1)
						}
					}()
					make(Sketch[psym], N).Subtract(make(Sketch[psym], N-1))
				}()
			}
		})
	}
}

func TestC06(t *testing.T) {
	for seed := int64(0); time.Now().Before(deadline) && seed < 30000; seed++ {
		guard(t, fmt.Sprintf("reset, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			special = map[uint64]uint64{}
			var d, fresh Decoder[psym]
			var e, fe Encoder[psym]
			session := func(d *Decoder[psym], e *Encoder[psym], seed int64, out *[]string) {
				r := rand.New(rand.NewSource(seed))
				var src Encoder[psym]
				n, m := r.Intn(6), r.Intn(4)
				for i := 0; i < n; i++ {
					v := r.Uint64()
					src.AddSymbol(&pcell{v})
					if r.Intn(3) == 0 {
						d.AddSymbol(&pcell{v})
					}
					e.AddSymbol(&pcell{v})
				}
				for i := 0; i < m; i++ {
					d.AddSymbol(&pcell{r.Uint64()})
				}
				for i := r.Intn(20); i > 0; i-- {
					c := src.ProduceNextCodedSymbol()
					if r.Intn(12) == 0 { // a damaged one
						c.checksum ^= 1
						c.count += int64(r.Intn(3) - 1)
					}
					d.AddCodedSymbol(c)
					if r.Intn(3) == 0 {
						d.TryDecode()
					}
					x := e.ProduceNextCodedSymbol()
					if out != nil {
						o := fmt.Sprint(d.Decoded(), x.sum.val(), x.count, x.checksum)
						for _, s := range d.Remote() {
							o += fmt.Sprint(" r", s.Symbol.val(), s.Hash)
						}
						for _, s := range d.Local() {
							o += fmt.Sprint(" l", s.Symbol.val(), s.Hash)
						}
						*out = append(*out, o)
					}
				}
				if out != nil {
					*out = append(*out, fmt.Sprint(d.Decoded(), len(d.Remote()), len(d.Local())))
				}
			}
			for i := 1 + r.Intn(3); i > 0; i-- {
				session(&d, &e, r.Int63(), nil)
				d.Reset()
				e.Reset()
			}
			s := r.Int63()
			var a, b []string
			session(&d, &e, s, &a)
			session(&fresh, &fe, s, &b)
			for i := range b {
				if i >= len(a) || a[i] != b[i] {
					fail(t, "after a reset step %d gives %q, on a new codec %q", i, a[i], b[i])
				}
			}
		})
	}
}

func TestC22(t *testing.T) {
	for seed := int64(0); time.Now().Before(deadline) && seed < 30000; seed++ {
		guard(t, fmt.Sprintf("elements untouched, seed %d", seed), func() {
			r := rand.New(rand.NewSource(seed))
			special = map[uint64]uint64{}
			var e, e2 Encoder[psym]
			var d Decoder[psym]
			N := 1 + r.Intn(30)
			sk, sk2 := make(Sketch[psym], N), make(Sketch[psym], N)
			type own struct {
				p *pcell
				v uint64
			}
			var mine []own
			seen := map[*pcell]bool{}
			add := func(p *pcell, what string) {
				if p == nil {
					return
				}
				if seen[p] {
					return
				}
				seen[p] = true
				mine = append(mine, own{p, p.v})
			}
			check := func(what string) {
				for _, o := range mine {
					if o.p.v != o.v {
						fail(t, "after %s an element changed from %d to %d", what, o.v, o.p.v)
					}
				}
			}
			for i := 1 + r.Intn(8); i > 0; i-- {
				p := &pcell{r.Uint64()}
				add(p, "")
				switch r.Intn(3) {
				case 0:
					e.AddSymbol(p)
					e2.AddSymbol(p)
					sk.AddSymbol(p)
				case 1:
					d.AddSymbol(p)
					sk2.AddSymbol(p)
				case 2:
					e.AddSymbol(p)
					d.AddSymbol(p)
					sk.AddSymbol(p)
					sk2.AddSymbol(p)
				}
				check("adding a symbol")
			}
			got := map[*pcell]bool{}
			report := func(s []HashedSymbol[psym], known map[*pcell]bool) {
				for _, x := range s {
					if x.Symbol != nil && !known[x.Symbol] {
						if seen[x.Symbol] {
							fail(t, "a recovered element shares the memory of another one")
						}
						known[x.Symbol] = true
						if x.Symbol.Hash() != x.Hash {
							fail(t, "an element recovered with hash %x has been overwritten, its content is %x", x.Hash, x.Symbol.v)
						}
						add(x.Symbol, "")
					}
				}
			}
			for k := 0; k < N; k++ {
				c := e.ProduceNextCodedSymbol()
				check("producing a coded symbol")
				if o := e2.ProduceNextCodedSymbol(); o.sum != nil {
					if seen[o.sum] {
						fail(t, "a coded symbol shares the memory of an element or of another coded symbol")
					}
					add(o.sum, "") // handed out: it stays as it is
				}
				d.AddCodedSymbol(c)
				check("receiving a coded symbol")
				if r.Intn(2) == 0 {
					d.TryDecode()
					check("decoding")
					report(d.Remote(), got)
					report(d.Local(), got)
				}
			}
			diff := sk.Subtract(sk2)
			check("subtracting sketches")
			rem, loc, _ := diff.Decode()
			check("decoding a sketch")
			g2 := map[*pcell]bool{}
			report(rem, g2)
			report(loc, g2)
			sk2.AddSymbol(&pcell{5})
			e.Reset()
			d.Reset()
			check("reset")
		})
	}
}
