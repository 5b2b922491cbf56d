from seedlib import seed
HEAD = '''package des
import ("testing"; "time")
type ev struct { who, id int; at time.Duration }
type dmod struct { n int; log *[]ev; f func(id int) []OutgoingMessage }
func (m *dmod) HandleMessage(p any, from Module, ts time.Duration) []OutgoingMessage {
	*m.log = append(*m.log, ev{m.n, p.(int), ts})
	if m.f != nil { return m.f(p.(int)) }
	return nil
}
'''
seed('c16-tie-order', 'C16', [('des/simulator.go', 'return pq[i].seq < pq[j].seq', 'return pq[i].seq < pq[j].seq && pq[i].to != pq[j].from')],
 'des', HEAD + '''
func TestDemo(t *testing.T) {
	log := []ev{}
	a := &dmod{n: 1, log: &log}; b := &dmod{n: 2, log: &log}
	ms := []*dmod{a, b}
	for seed := 0; seed < 64; seed++ {
		log = log[:0]
		s := Simulator{}
		for i := 0; i < 6; i++ { s.ScheduleMessage(OutgoingMessage{Payload: i, To: ms[(seed>>i)&1], Delay: 1}, ms[(seed>>((i*5+1)%6))&1]) }
		s.Run()
		for i, e := range log { if e.id != i { t.Fatal("messages due at the same time delivered out of order", log) } }
	}
}
''', 'two messages due at the same time where the recipient of one is the sender of the other', 'messages of equal time are delivered out of scheduling order')
seed('c16-run-until', 'C16', [('des/simulator.go', 'for !s.Drained() && s.time <= t {', 'for !s.Drained() && (s.time < t || s.mq[0].arrival <= t && s.mq[0].seq != s.seq-1) {')],
 'des', HEAD + '''
func TestDemo(t *testing.T) {
	log := []ev{}
	a := &dmod{n: 1, log: &log}
	a.f = func(id int) []OutgoingMessage { if id < 3 { return []OutgoingMessage{{Payload: id + 1, Delay: 0}} }; return nil }
	s := Simulator{}
	s.ScheduleMessage(OutgoingMessage{Payload: 0, To: a, Delay: 5}, a)
	s.RunUntil(5)
	if len(log) != 4 { t.Fatal("messages due at the stop time were left", log) }
}
''', 'a message scheduled with zero delay exactly at the stop time', 'running until a time stops while a message due at that time is left')
