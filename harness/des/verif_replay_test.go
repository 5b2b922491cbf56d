package des

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"testing"
	"time"
)

type ev struct {
	at   time.Duration
	seq  int
	from int
	to   int
	id   int
}

type world struct {
	t     *testing.T
	sim   *Simulator
	mods  []*mod
	want  []ev // scheduled, not yet delivered
	seq   int
	r     *rand.Rand
	left  int
	trace string
}

type mod struct {
	w  *world
	no int
}

func (w *world) fail(f string, a ...any) {
	fmt.Printf("FAILING-INPUT: %s: %s\n", w.trace, fmt.Sprintf(f, a...))
	os.Exit(1)
}

func (w *world) expect(now time.Duration, msg OutgoingMessage, from int) {
	to := from
	if msg.To != nil {
		to = msg.To.(*mod).no
	}
	w.want = append(w.want, ev{now + msg.Delay, w.seq, from, to, msg.Payload.(int)})
	w.seq++
}

func (w *world) random() OutgoingMessage {
	m := OutgoingMessage{Payload: w.r.Intn(1000000), Delay: time.Duration(w.r.Intn(4))}
	if w.r.Intn(3) != 0 {
		m.To = w.mods[w.r.Intn(len(w.mods))]
	}
	if w.r.Intn(10) == 0 {
		m.Delay = 0
	}
	return m
}

func (m *mod) HandleMessage(payload any, from Module, ts time.Duration) []OutgoingMessage {
	w := m.w
	sort.Slice(w.want, func(i, j int) bool {
		return w.want[i].at < w.want[j].at || w.want[i].at == w.want[j].at && w.want[i].seq < w.want[j].seq
	})
	id, _ := payload.(int)
	f := -1
	if x, ok := from.(*mod); ok && x != nil {
		f = x.no
	}
	if len(w.want) == 0 {
		w.fail("message %d delivered to %d although none is due", id, m.no)
	}
	e := w.want[0]
	w.want = w.want[1:]
	if e.id != id || e.to != m.no || e.from != f || e.at != ts {
		w.fail("delivered message %d from %d to %d at %v, next due is message %d from %d to %d at %v", id, f, m.no, ts, e.id, e.from, e.to, e.at)
	}
	if w.sim.Time() != ts {
		w.fail("the clock shows %v while a message is delivered at %v", w.sim.Time(), ts)
	}
	w.trace += fmt.Sprintf(" %d@%v", id, ts)
	var out []OutgoingMessage
	for n := w.r.Intn(3); n > 0 && w.left > 0; n-- {
		w.left--
		o := w.random()
		w.expect(ts, o, m.no)
		out = append(out, o)
	}
	return out
}

func TestC16(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for seed := int64(0); seed < 40000 && time.Now().Before(end); seed++ {
		w := &world{t: t, sim: &Simulator{}, r: rand.New(rand.NewSource(seed)), left: 30, trace: fmt.Sprintf("seed %d, delivered", seed)}
		for i := 0; i < 1+w.r.Intn(3); i++ {
			w.mods = append(w.mods, &mod{w, i})
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.fail("panic %v", r)
				}
			}()
			for n := w.r.Intn(8); n >= 0; n-- {
				for k := w.r.Intn(5); k > 0; k-- {
					f := w.mods[w.r.Intn(len(w.mods))]
					o := w.random()
					w.expect(w.sim.Time(), o, f.no)
					w.sim.ScheduleMessage(o, f)
				}
				if w.sim.EventsQueued() != len(w.want) || w.sim.EventsDelivered() != w.seq-len(w.want) || w.sim.Drained() != (len(w.want) == 0) {
					w.fail("%d queued and %d delivered are reported, %d and %d are right", w.sim.EventsQueued(), w.sim.EventsDelivered(), len(w.want), w.seq-len(w.want))
				}
				if w.r.Intn(3) > 0 {
					until := w.sim.Time() + time.Duration(w.r.Intn(7)-1)
					w.sim.RunUntil(until)
					for _, e := range w.want {
						if e.at <= until {
							w.fail("RunUntil(%v) leaves message %d due at %v", until, e.id, e.at)
						}
					}
				}
			}
			w.sim.Run()
			if len(w.want) != 0 || !w.sim.Drained() {
				w.fail("Run leaves %d messages", len(w.want))
			}
		}()
	}
}
