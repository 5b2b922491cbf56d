package main

import (
	"bytes"
	"encoding/gob"
	"io"
	"log"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

func onStack(name string) bool {
	pc := make([]uintptr, 64)
	fr := runtime.CallersFrames(pc[:runtime.Callers(1, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, name) {
			return true
		}
		if !more {
			return false
		}
	}
}

// c21Conn hands out the peer's key in the given pieces, then EOF (cut) or the stream after it.
type c21Conn struct {
	mu     sync.Mutex
	key    []byte
	chunks []int
	cut    bool
	inKey  int // key bytes read by the handshake
	wrote  []byte
	after  io.Reader
	over   bool
}

func (c *c21Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wrote = append(c.wrote, b...)
	return len(b), nil
}

func (c *c21Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	hs := onStack("handleConn")
	if len(c.key) > 0 && hs {
		n := len(b)
		if len(c.chunks) > 0 {
			if c.chunks[0] < n {
				n = c.chunks[0]
			}
			c.chunks = c.chunks[1:]
		}
		if n > len(c.key) {
			n = len(c.key)
		}
		copy(b, c.key[:n])
		c.key = c.key[n:]
		c.inKey += n
		c.mu.Unlock()
		return n, nil
	}
	c.mu.Unlock()
	if hs {
		if c.cut {
			return 0, io.EOF
		}
		c.over = true
		return 0, io.EOF
	}
	if c.after != nil {
		return c.after.Read(b)
	}
	select {} // the rest of the stream never comes
}

type c21One struct{}

func (c21One) Uint64() uint64 { return 1 }

type c21Two struct{}

func (c21Two) Uint64() uint64 { return 2 }

func c21Tx(r *rand.Rand) *ldpc.Transaction {
	b := make([]byte, 128)
	r.Read(b)
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return t
}

func c21Controller() *controller {
	s, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	return &controller{newPeer: make(chan *peer, 10), decodedTransaction: make(chan ldpc.DecodedTransaction, 1000), localTransaction: make(chan *ldpc.Transaction, 10), K: 50, M: 1000, solitonC: 0.03, solitonDelta: 0.5, initRate: 500, minRate: 500, incConstant: 0.1, targetLoss: 0.02, decodeTimeout: time.Second, delaySketch: s}
}

func TestC21(t *testing.T) {
	log.SetOutput(io.Discard)
	r := rand.New(rand.NewSource(1))
	// key exchange over every kind of split
	splits := [][]int{nil, {1}, {15}, {8}, {3, 3}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {0, 5}}
	for _, sp := range splits {
		for cut := 0; cut <= 16; cut++ {
			key := make([]byte, 16)
			r.Read(key)
			c := &c21Conn{key: append([]byte{}, key[:cut]...), chunks: append([]int{}, sp...), cut: true}
			ctl := c21Controller()
			err := ctl.handleConn("x", c)
			c.mu.Lock()
			got, sent := c.inKey, append([]byte{}, c.wrote...)
			c.mu.Unlock()
			if cut == 16 && (err != nil || got != 16) {
				t.Fatalf("FAILING-INPUT the peer's 16 key bytes arrive split as %v: handleConn returned %v after reading %d of them", sp, err, got)
			}
			if cut < 16 && err == nil {
				t.Fatalf("FAILING-INPUT the peer sends only %d key bytes (split %v) and closes: handleConn accepted the connection after reading %d", cut, sp, got)
			}
			if (err == nil) != (len(ctl.newPeer) == 1) {
				t.Fatalf("FAILING-INPUT handleConn returned %v but registered %d peers", err, len(ctl.newPeer))
			}
			if len(sent) < 16 {
				t.Fatalf("FAILING-INPUT handleConn sent only %d key bytes", len(sent))
			}
		}
	}
	// own key encodes, the peer's key decodes
	for it := 0; it < 3; it++ {
		var pk [16]byte
		r.Read(pk[:])
		enc := ldpc.NewEncoder(pk, c21One{}, 10)
		tx := c21Tx(r)
		enc.AddTransaction(tx)
		var buf bytes.Buffer
		ge := gob.NewEncoder(&buf)
		ge.Encode(Codeword{enc.ProduceCodeword(), 0, time.Now().UnixMicro()})
		pr, pw := io.Pipe()
		go pw.Write(buf.Bytes())
		c := &c21Conn{key: append([]byte{}, pk[:]...), after: pr}
		ctl := c21Controller()
		if err := ctl.handleConn("x", c); err != nil {
			t.Fatalf("FAILING-INPUT handleConn with a 16-byte key returned %v", err)
		}
		select {
		case d := <-ctl.decodedTransaction:
			if string(d.Serialized()) != string(tx.Serialized()) {
				t.Fatalf("FAILING-INPUT codeword of a peer with key %x decoded to another transaction", pk)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("FAILING-INPUT codeword of degree 1 encoded with the peer's key %x is not decoded", pk)
		}
		p := <-ctl.newPeer
		mine := c21Tx(r)
		p.newTxToSender <- mine
		ok := false
		for end := time.Now().Add(3 * time.Second); !ok && time.Now().Before(end); {
			time.Sleep(50 * time.Millisecond)
			c.mu.Lock()
			w := append([]byte{}, c.wrote...)
			c.mu.Unlock()
			var ok16 [16]byte
			copy(ok16[:], w)
			dec := ldpc.NewDecoder(ok16, 100)
			gd := gob.NewDecoder(bytes.NewReader(w[16:]))
			for {
				cw := Codeword{}
				if gd.Decode(&cw) != nil {
					break
				}
				if cw.Codeword == nil {
					continue
				}
				_, out := dec.AddCodeword(cw.Codeword)
				for _, o := range out {
					ok = ok || string(o.Serialized()) == string(mine.Serialized())
				}
			}
		}
		if !ok {
			t.Fatalf("FAILING-INPUT codewords sent are not encoded with the key that was sent to the peer")
		}
	}
	c21Sender(t)
	c21Receive(t)
	for it := int64(0); it < 20; it++ {
		c21Receiver(t, it)
	}
	c21Slow(t)
	c21Patient(t)
}

func c21Sender(t *testing.T) {
	for _, capa := range []int{0, 1, 3} {
		peerLoss, ourLoss, ntx := make(chan int, 100), make(chan int, 100), make(chan *ldpc.Transaction, 100)
		ch := make(chan Codeword, capa)
		s := &sender{encoder: ldpc.NewEncoder([16]byte{1}, c21One{}, 10), cwRate: 2000, minRate: 2000, peerLoss: peerLoss, ourLoss: ourLoss, newTransaction: ntx}
		go s.loop(ch)
		time.Sleep(50 * time.Millisecond) // the queue fills and codewords are skipped
		sent, got := 0, 0
		for i := 1; i <= 40; i++ {
			ourLoss <- i
			sent += i
			if i%5 == 0 {
				peerLoss <- 3
				time.Sleep(25 * time.Millisecond)
				for j := 0; j < i%3; j++ {
					got += (<-ch).Loss
				}
			}
		}
		for end := time.Now().Add(700 * time.Millisecond); time.Now().Before(end); {
			select {
			case cw := <-ch:
				got += cw.Loss
			case <-time.After(20 * time.Millisecond):
			}
		}
		if got != sent {
			t.Fatalf("FAILING-INPUT losses 1..40 (sum %d) given to a sender with a codeword queue of %d that is drained slowly: the codewords report %d", sent, capa, got)
		}
	}
}

func c21Receive(t *testing.T) {
	var buf bytes.Buffer
	ge := gob.NewEncoder(&buf)
	in := []int{3, 0, 0, 5, 0, 1, 0}
	out := make(chan Codeword, 100)
	s := &sender{tx: ge}
	for _, l := range in {
		out <- Codeword{&ldpc.Codeword{}, l, 1}
	}
	close(out)
	s.sendCodewords(out)
	got := make(chan Codeword, 100)
	r := &receiver{rx: gob.NewDecoder(&buf)}
	r.receive(got)
	close(got)
	var res []int
	for cw := range got {
		res = append(res, cw.Loss)
	}
	if len(res) != len(in) {
		t.Fatalf("FAILING-INPUT codewords with losses %v sent, received with losses %v", in, res)
	}
	for i := range in {
		if in[i] != res[i] {
			t.Fatalf("FAILING-INPUT codewords with losses %v sent, received with losses %v", in, res)
		}
	}
}

func c21Receiver(t *testing.T, seed int64) {
	rr := rand.New(rand.NewSource(seed))
	peerLoss, ourLoss := make(chan int, 1000), make(chan int, 1000)
	dec := make(chan ldpc.DecodedTransaction, 1000)
	ntx := make(chan *ldpc.Transaction, 100)
	sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	key := [16]byte{7}
	r := &receiver{decoder: ldpc.NewDecoder(key, 1000), peerLoss: peerLoss, ourLoss: ourLoss, decodedTransaction: dec, newTransaction: ntx, timeout: 0, delaySketch: sk}
	cws := make(chan Codeword)
	go r.decode(cws)
	want, peers, n := 0, 0, 12
	var plan []int
	for i := 0; i < n; i++ {
		// two fresh transactions: never decoded; one: decoded at once
		d := 1 + rr.Intn(2)
		plan = append(plan, d)
		e := ldpc.NewEncoder(key, c21Two{}, 10)
		e.AddTransaction(c21Tx(rr))
		if d == 2 {
			e.AddTransaction(c21Tx(rr))
			if i < n-1 {
				want++
			}
		}
		l := rr.Intn(3)
		peers += l
		cws <- Codeword{e.ProduceCodeword(), l, time.Now().UnixMicro()}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	got, gp := 0, 0
	for len(ourLoss) > 0 {
		got += <-ourLoss
	}
	for len(peerLoss) > 0 {
		gp += <-peerLoss
	}
	if got != want || gp != peers {
		t.Fatalf("FAILING-INPUT codewords of degrees %v, timeout 0 (the last one is still waiting): %d undecoded ones expired but %d losses reported; peer losses %d, relayed %d", plan, want, got, peers, gp)
	}
}

// c21Slow: the sender takes loss reports late.
func c21Slow(t *testing.T) {
	for _, capa := range []int{0, 1} {
		peerLoss, ourLoss := make(chan int, capa), make(chan int, capa)
		sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
		key := [16]byte{9}
		rr := rand.New(rand.NewSource(int64(capa)))
		r := &receiver{decoder: ldpc.NewDecoder(key, 1000), peerLoss: peerLoss, ourLoss: ourLoss, decodedTransaction: make(chan ldpc.DecodedTransaction, 100), newTransaction: make(chan *ldpc.Transaction), timeout: 0, delaySketch: sk}
		cws := make(chan Codeword, 10)
		peers := 0
		for i := 0; i < 6; i++ {
			e := ldpc.NewEncoder(key, c21Two{}, 10)
			e.AddTransaction(c21Tx(rr))
			e.AddTransaction(c21Tx(rr))
			cws <- Codeword{e.ProduceCodeword(), i, time.Now().UnixMicro()}
			peers += i
		}
		go r.decode(cws)
		got, gp := 0, 0
		for end := time.Now().Add(700 * time.Millisecond); time.Now().Before(end); {
			time.Sleep(10 * time.Millisecond)
			select {
			case l := <-ourLoss:
				got += l
			case l := <-peerLoss:
				gp += l
			case <-time.After(100 * time.Millisecond):
			}
		}
		if got != 5 || gp != peers {
			t.Fatalf("FAILING-INPUT six undecodable codewords carrying losses 0..5, timeout 0, the sender taking reports late (queue of %d): 5 expired but %d losses reported; peer losses %d, relayed %d", capa, got, peers, gp)
		}
	}
}

// c21Patient: codewords that have not timed out yet are no losses; one decoded before it expires is none either.
func c21Patient(t *testing.T) {
	mk := func(timeout time.Duration) (*receiver, chan int, chan *ldpc.Transaction, chan Codeword) {
		ourLoss, ntx := make(chan int, 1000), make(chan *ldpc.Transaction)
		sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
		r := &receiver{decoder: ldpc.NewDecoder([16]byte{9}, 1000), peerLoss: make(chan int, 1000), ourLoss: ourLoss, decodedTransaction: make(chan ldpc.DecodedTransaction, 100), newTransaction: ntx, timeout: timeout, delaySketch: sk}
		cws := make(chan Codeword)
		go r.decode(cws)
		return r, ourLoss, ntx, cws
	}
	rr := rand.New(rand.NewSource(5))
	word := func() (*ldpc.Transaction, Codeword) {
		e := ldpc.NewEncoder([16]byte{9}, c21Two{}, 10)
		a := c21Tx(rr)
		e.AddTransaction(a)
		e.AddTransaction(c21Tx(rr))
		return a, Codeword{e.ProduceCodeword(), 0, time.Now().UnixMicro()}
	}
	sum := func(c chan int) int {
		time.Sleep(20 * time.Millisecond)
		n := 0
		for len(c) > 0 {
			n += <-c
		}
		return n
	}
	_, loss, _, cws := mk(time.Hour)
	for i := 0; i < 6; i++ {
		_, w := word()
		cws <- w
	}
	if got := sum(loss); got != 0 {
		t.Fatalf("FAILING-INPUT six undecodable codewords, timeout one hour: %d losses reported", got)
	}
	_, loss, ntx, cws := mk(400 * time.Millisecond)
	begin := time.Now()
	a, w1 := word()
	_, w2 := word()
	_, w3 := word()
	cws <- w1
	cws <- w2
	ntx <- a
	if time.Since(begin) > 300*time.Millisecond {
		return
	}
	if got := sum(loss); got != 0 && time.Since(begin) < 400*time.Millisecond {
		t.Fatalf("FAILING-INPUT two undecodable codewords, timeout 400 ms: %d losses reported before it passed", got)
	}
	time.Sleep(500 * time.Millisecond)
	cws <- w3
	if got := sum(loss); got != 1 {
		t.Fatalf("FAILING-INPUT two codewords expire, the first one was decoded before: %d losses reported", got)
	}
}
