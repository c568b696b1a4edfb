//go:build go1.21

// Conformance driver for package des: random and generated schedules.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

var tr *tracer

// msg is a payload; kids are sent when it is delivered
type msg struct {
	id   int
	kids []kid
}
type kid struct {
	to, delay int // to 0: the module itself
	reentrant bool
	m         *msg
}

type module struct {
	id int
	w  *world
}

type world struct {
	s    *des.Simulator
	mods []*module
	log  []delivery
	mute bool
	unit time.Duration
	lim  int
}
type delivery struct {
	Id   int `json:"id"`
	From int `json:"from"`
	To   int `json:"to"`
	T    int `json:"t"`
}

func newWorld(n int) *world {
	w := &world{s: &des.Simulator{}, unit: 1, lim: 100000}
	w.mods = append(w.mods, nil)
	for i := 1; i <= n; i++ {
		w.mods = append(w.mods, &module{i, w})
	}
	return w
}

func (w *world) emit(e ev) {
	if !w.mute {
		tr.emit(e)
	}
}

func (w *world) outgoing(k kid) des.OutgoingMessage {
	o := des.OutgoingMessage{Payload: k.m, Delay: time.Duration(k.delay) * w.unit}
	if k.to != 0 {
		o.To = w.mods[k.to]
	}
	return o
}

func (w *world) schedule(from int, k kid) {
	w.emit(ev{"ev": "sch", "id": k.m.id, "from": from, "to": k.to, "delay": k.delay})
	if from == 0 { // from outside
		w.s.ScheduleMessage(w.outgoing(k), nil)
		return
	}
	w.s.ScheduleMessage(w.outgoing(k), w.mods[from])
}

func (m *module) HandleMessage(payload any, from des.Module, t time.Duration) []des.OutgoingMessage {
	w := m.w
	p, ok := payload.(*msg)
	if !ok {
		w.emit(ev{"ev": "crash", "why": "payload lost"})
		return nil
	}
	f := 0
	if fm, ok := from.(*module); ok {
		f = fm.id
	} else if from != nil {
		f = -1
	}
	d := delivery{p.id, f, m.id, int(t / w.unit)}
	if t%w.unit != 0 {
		d.T = -1
	}
	w.log = append(w.log, d)
	if len(w.log) > w.lim {
		panic("too many deliveries")
	}
	w.emit(ev{"ev": "dlv", "id": d.Id, "from": d.From, "to": d.To, "t": d.T, "time": int(w.s.Time() / w.unit),
		"q": w.s.EventsQueued(), "n": w.s.EventsDelivered()})
	var out []des.OutgoingMessage
	for _, k := range p.kids {
		if k.reentrant {
			w.schedule(m.id, k)
		}
	}
	for _, k := range p.kids {
		if !k.reentrant {
			w.emit(ev{"ev": "sch", "id": k.m.id, "from": m.id, "to": k.to, "delay": k.delay})
			out = append(out, w.outgoing(k))
		}
	}
	return out
}

// run to horizon t, or to the end if t < 0
func (w *world) run(t int) {
	w.emit(ev{"ev": "run", "t": t})
	if t < 0 {
		w.s.Run()
	} else {
		w.s.RunUntil(time.Duration(t) * w.unit)
	}
	w.emit(ev{"ev": "ran", "t": t, "time": int(w.s.Time() / w.unit), "q": w.s.EventsQueued(), "n": w.s.EventsDelivered(), "drained": w.s.Drained()})
}

func random(r *rand.Rand) {
	n := 1 + r.Intn(5)
	w := newWorld(n)
	w.unit = []time.Duration{1, time.Millisecond, time.Hour}[r.Intn(3)]
	next := 1
	maxd := []int{1, 2, 5, 30, 1000, 100000}[r.Intn(6)]
	budget := 20 + r.Intn(120)
	if r.Intn(10) == 0 {
		budget = 500
	}
	var make_ func(depth int) *msg
	delay := func() int {
		if r.Intn(4) == 0 {
			return 0
		}
		return r.Intn(maxd + 1)
	}
	make_ = func(depth int) *msg {
		m := &msg{id: next}
		next++
		if depth > 0 {
			for k := r.Intn(4); k > 0 && next < budget; k-- {
				m.kids = append(m.kids, kid{r.Intn(n + 1), delay(), r.Intn(6) == 0, make_(depth - 1)})
			}
		}
		return m
	}
	tr.emit(ev{"ev": "new", "mods": n})
	now := 0
	for now < 10*maxd && next < budget {
		for k := r.Intn(12); k > 0; k-- {
			m := make_(r.Intn(4))
			if r.Intn(4) == 0 {
				w.schedule(0, kid{1 + r.Intn(n), delay(), false, m})
			} else {
				w.schedule(1+r.Intn(n), kid{r.Intn(n + 1), delay(), false, m})
			}
		}
		switch r.Intn(8) {
		case 0:
			w.run(-1)
		case 1:
			w.run(r.Intn(now + 1)) // a horizon that may have passed
		default:
			now += r.Intn(maxd + 1)
			w.run(now)
		}
		if t := int(w.s.Time() / w.unit); t > now {
			now = t
		}
	}
	if r.Intn(3) > 0 {
		w.run(-1)
	}
}

// bulk: as many messages as the queue should hold, recorded in one event
type bulkModule struct {
	b    *bulk
	self int
}
type bulk struct {
	s    des.Simulator
	mods []*bulkModule
	at   []int // arrival time of message id, from 1
	to   []int
	ord  []int // as delivered
	t    []int
	ok   bool // payload, sender and destination
	kids int
	r    *rand.Rand
	maxd int
}
type bulkMsg struct{ id, from, to int }

func (b *bulk) message(from *bulkModule, now int) des.OutgoingMessage {
	delay := b.r.Intn(b.maxd + 1)
	to := b.mods[b.r.Intn(len(b.mods))]
	b.at = append(b.at, now+delay)
	return des.OutgoingMessage{To: to, Delay: time.Duration(delay) * time.Microsecond,
		Payload: bulkMsg{len(b.at), from.self, to.self}}
}
func (m *bulkModule) HandleMessage(payload any, from des.Module, t time.Duration) []des.OutgoingMessage {
	b := m.b
	p := payload.(bulkMsg)
	f, ok := from.(*bulkModule)
	b.ok = b.ok && ok && f.self == p.from && m.self == p.to && t%time.Microsecond == 0 && b.s.Time() == t
	b.ord = append(b.ord, p.id)
	b.t = append(b.t, int(t/time.Microsecond))
	if len(b.ord) > 1000000 {
		panic("too many deliveries")
	}
	var out []des.OutgoingMessage
	for k := b.r.Intn(3); k > 0 && b.kids > 0; k-- {
		b.kids--
		out = append(out, b.message(m, int(t/time.Microsecond)))
	}
	return out
}

func sessBulk(r *rand.Rand, n int) {
	b := &bulk{r: r, ok: true, kids: n / 4, maxd: []int{5, n / 8, 100 * n}[r.Intn(3)], ord: []int{}, t: []int{}}
	for i := 0; i < 5; i++ {
		b.mods = append(b.mods, &bulkModule{b, i})
	}
	for i := 0; i < n; i++ {
		m := b.mods[r.Intn(5)]
		b.s.ScheduleMessage(b.message(m, 0), m)
	}
	cuts := [][]int{}
	for k := 1; k <= 4; k++ {
		h := b.maxd * k / 5
		b.s.RunUntil(time.Duration(h) * time.Microsecond)
		cuts = append(cuts, []int{h, len(b.ord), int(b.s.Time() / time.Microsecond), len(b.at), b.s.EventsQueued(), b.s.EventsDelivered()})
	}
	b.s.Run()
	tr.emit(ev{"ev": "new"})
	tr.emit(ev{"ev": "bulk", "at": b.at, "ord": b.ord, "t": b.t, "cuts": cuts, "ok": b.ok, "drained": b.s.Drained(),
		"q": b.s.EventsQueued(), "n": b.s.EventsDelivered(), "time": int(b.s.Time() / time.Microsecond)})
}

// behaviours generated by TLC

type genMsg struct {
	Id    int `json:"id"`
	To    int `json:"to"`
	Delay int `json:"delay"`
	Kid   int `json:"kid"` // message sent on delivery, 0 none
}
type gen struct {
	Msgs     []genMsg   `json:"msgs"` // indexed by id-1
	Roots    []int      `json:"roots"`
	Horizons []int      `json:"hz"`
	Log      []delivery `json:"log"`
	Cuts     []int      `json:"cuts"` // deliveries made after each horizon
}

func replay(path string) {
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n := 0
	for sc.Scan() {
		var g gen
		if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
			fmt.Fprintln(os.Stderr, "bad behaviour", err)
			os.Exit(2)
		}
		line := append([]byte{}, sc.Bytes()...)
		n++
		tr.session(20*time.Second, func() {
			w := newWorld(2)
			w.mute = true
			w.lim = 1000
			ms := map[int]*msg{}
			for _, m := range g.Msgs {
				ms[m.Id] = &msg{id: m.Id}
			}
			for _, m := range g.Msgs {
				if m.Kid != 0 {
					k := g.Msgs[m.Kid-1]
					ms[m.Id].kids = []kid{{k.To, k.Delay, false, ms[m.Kid]}}
				}
			}
			for _, id := range g.Roots {
				m := g.Msgs[id-1]
				w.schedule(1, kid{m.To, m.Delay, false, ms[id]})
			}
			for i, h := range g.Horizons {
				w.run(h)
				why := ""
				if len(w.log) != g.Cuts[i] {
					why = fmt.Sprintf("%d deliveries until %d, not %d", len(w.log), h, g.Cuts[i])
				} else if h >= 0 && w.s.Time() > time.Duration(h) && i == 0 {
					why = "clock beyond the horizon"
				}
				for k := range w.log {
					if why == "" && w.log[k] != g.Log[k] {
						why = fmt.Sprint("delivery ", w.log[k])
					}
				}
				if why != "" {
					tr.emit(ev{"ev": "mismatch", "why": why, "behaviour": json.RawMessage(line)})
					return
				}
			}
		})
	}
	fmt.Printf("REPLAYED behaviours=%d\n", n)
}

func main() {
	kind := flag.String("kind", "random", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "sessions")
	out := flag.String("out", "trace.ndjson", "")
	in := flag.String("in", "", "")
	flag.Parse()
	tr = newTracer(*out)
	defer tr.close()
	if *kind == "replay" {
		replay(*in)
		return
	}
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		tr.session(60*time.Second, func() {
			if *kind == "bulk" {
				sessBulk(r, []int{1000, 9000, 40000, 70000}[i%4]+r.Intn(1000))
				return
			}
			random(r)
		})
	}
}
