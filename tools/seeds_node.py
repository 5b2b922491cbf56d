from seedlib import seed
NH = '''package main
import ("bytes"; "encoding/gob"; "io"; "log"; "testing"; "time"; "github.com/yangl1996/rateless-set-reconcile/ldpc"; "github.com/DataDog/sketches-go/ddsketch")
var _ = bytes.NewBuffer
var _ = gob.NewEncoder
var _ = time.Now
var _ = ddsketch.NewDefaultDDSketchWithExactSummaryStatistics
type deg uint64
func (d deg) Uint64() uint64 { return uint64(d) }
func init() { log.SetOutput(io.Discard) }
func tx(i byte) *ldpc.Transaction { b := make([]byte, 128); b[3] = i; b[77] = 1; t := &ldpc.Transaction{}; if err := t.UnmarshalBinary(b); err != nil { panic(err) }; return t }
'''
seed('c21-stale-codeword', 'C21', [('node/receiver.go', '''	for {
		newcw := Codeword{}
		err := r.rx.Decode(&newcw)''', '''	newcw := Codeword{}
	for {
		newcw.Codeword = nil
		err := r.rx.Decode(&newcw)''')],
 'node', NH + '''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	s := &sender{tx: gob.NewEncoder(&buf)}
	out := make(chan Codeword, 3)
	for _, l := range []int{4, 0, 0} { out <- Codeword{&ldpc.Codeword{}, l, 1} }
	close(out)
	s.sendCodewords(out)
	got := make(chan Codeword, 10)
	(&receiver{rx: gob.NewDecoder(&buf)}).receive(got)
	close(got)
	n := 0
	for c := range got { n += c.Loss }
	if n != 4 { t.Fatal("4 losses sent,", n, "received") }
}
''', 'a codeword with a zero loss count after one with a positive count: gob omits zero fields', 'a loss report is delivered again with the following codewords')
seed('c21-burst-loss', 'C21', [('node/sender.go', '''			for s.credit >= 1.0 {
''', '''			loss := s.accumLoss
			for s.credit >= 1.0 {
'''), ('node/sender.go', 'Codeword{s.encoder.ProduceCodeword(), s.accumLoss, time', 'Codeword{s.encoder.ProduceCodeword(), loss, time')],
 'node', NH + '''
func TestDemo(t *testing.T) {
	ourLoss, ntx, pl := make(chan int, 10), make(chan *ldpc.Transaction, 1), make(chan int)
	e := ldpc.NewEncoder([16]byte{1}, deg(1), 10)
	e.AddTransaction(tx(1))
	s := &sender{encoder: e, cwRate: 500, minRate: 500, peerLoss: pl, ourLoss: ourLoss, newTransaction: ntx}
	ch := make(chan Codeword, 10000)
	go s.loop(ch)
	ourLoss <- 7
	n, end := 0, time.After(400*time.Millisecond)
	for {
		select { case c := <-ch: n += c.Loss; continue; case <-end: }
		break
	}
	if n != 7 { t.Fatal("7 losses given to the sender, its codewords report", n) }
}
''', 'more than one codeword sent in one tick while losses are waiting to be reported', 'every codeword of the tick reports the same losses')
seed('c21-sweep-loss', 'C21', [('node/receiver.go', '''				head.Free()
				r.rxWindow = r.rxWindow[1:]
			}
			r.ourLoss <- loss
''', '''				head.Free()
				r.rxWindow = r.rxWindow[1:]
				if loss > 0 && len(r.rxWindow) > 0 && r.rxWindow[0].receivedTime.Equal(now) {
					break
				}
			}
			select {
			case r.ourLoss <- loss:
			default:
			}
''')],
 'node', NH + '''
func TestDemo(t *testing.T) {
	ol, pl, dec, ntx := make(chan int), make(chan int, 100), make(chan ldpc.DecodedTransaction, 100), make(chan *ldpc.Transaction)
	sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	r := &receiver{decoder: ldpc.NewDecoder([16]byte{7}, 100), peerLoss: pl, ourLoss: ol, decodedTransaction: dec, newTransaction: ntx, timeout: 0, delaySketch: sk}
	in := make(chan Codeword, 10)
	n, want := 0, 0
	done := make(chan bool)
	for i := byte(0); i < 4; i++ {
		e := ldpc.NewEncoder([16]byte{7}, deg(2), 10)
		e.AddTransaction(tx(2*i)); e.AddTransaction(tx(2*i+1))
		if i < 3 { want++ }
		in <- Codeword{e.ProduceCodeword(), 0, 1}
	}
	go r.decode(in)
	go func() {
		for { time.Sleep(30*time.Millisecond); select { case l := <-ol: n += l; case <-time.After(300*time.Millisecond): done <- true; return } }
	}()
	<-done
	if n != want { t.Fatal(want, "codewords expired undecoded,", n, "losses were reported") }
}
''', 'the sender is slow to take loss reports, so the report queue is full', 'loss reports are dropped when the queue is full')
