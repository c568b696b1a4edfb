//go:build go1.21

// Conformance driver for the LT simulator (overlaid into its package). Servers
// are driven through HandleMessage; the driver keeps the messages in transit,
// one first-in-first-out queue per direction of a link, and the messages that
// servers send to themselves, which arrive at their time.
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
)

var tr *tracer

// statistics, if the file that looks at them is in the build
var statistics func(*rand.Rand)

type dlink struct{ a, b int }

type envelope struct {
	payload any
	at      time.Duration
	seq     int
}

type world struct {
	r      *rand.Rand
	ss     []*server
	index  map[des.Module]int
	links  []dlink
	keys   [][2]int
	queues map[[2]int][]envelope
	self   []struct {
		envelope
		node int
	}
	slow   map[[2]int]int
	sync   time.Duration
	timed  bool
	now    time.Duration
	seq    int
	txs    map[int]transaction // by index + 1
	ids    map[uint32]int
	nlog   int
	loops  int
	enc    *lt.Encoder[transaction]
	bursty bool
	quiet  bool
}

type one struct{}

func (one) Uint64() uint64 { return 1 }

// members finds the members and the sum of a codeword by their types
func fields(cw *lt.Codeword[transaction]) (transaction, []uint32) {
	var s *transaction
	var m *[]uint32
	v := reflect.ValueOf(cw).Elem()
	for i := 0; i < v.NumField(); i++ {
		p := reflect.NewAt(v.Field(i).Type(), v.Field(i).Addr().UnsafePointer()).Interface()
		switch x := p.(type) {
		case *transaction:
			s = x
		case *[]uint32:
			m = x
		}
	}
	if s == nil || m == nil {
		fmt.Fprintln(os.Stderr, "codewords do not have the expected fields")
		os.Exit(2)
	}
	return *s, *m
}

// limit sets the interval between forwards
func limit(s *server, d time.Duration) {
	p := find[time.Duration](s, "minInterval", "interval")
	if p == nil {
		fmt.Fprintln(os.Stderr, "no forwarding interval found")
		os.Exit(2)
	}
	*p = d
}

// received is the set of transactions a server has
func received(s *server) map[transaction]struct{} {
	if m := find[map[transaction]struct{}](s, "received"); m != nil {
		return *m
	}
	fmt.Fprintln(os.Stderr, "no set of received transactions found")
	os.Exit(2)
	return nil
}

func topo(r *rand.Rand, n int) []dlink {
	var res []dlink
	add := func(a, b int) {
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		for _, l := range res {
			if (l.a == a && l.b == b) || (l.a == b && l.b == a) {
				return
			}
		}
		if a != b {
			res = append(res, dlink{a, b})
		}
	}
	for i := 1; i < n; i++ {
		switch r.Intn(3) {
		case 0:
			add(i, i-1)
		case 1:
			add(i, 0)
		default:
			add(i, r.Intn(i))
		}
	}
	for k := r.Intn(n); k > 0; k-- {
		add(r.Intn(n), r.Intn(n))
	}
	return res
}

type params struct {
	th, c64, loss64, burst int
	intv, sync             time.Duration
}

func pick(r *rand.Rand) params {
	p := params{th: 1 + r.Intn(6), burst: 1 + r.Intn(4)}
	for {
		p.c64 = []int{4, 8, 16, 24, 32, 40, 48, 64, 96, 128}[r.Intn(10)]
		if m := p.th * 64 / p.c64; m >= 1 && m <= 12 {
			break
		}
	}
	p.loss64 = []int{0, 0, 0, 4, 8, 16, 32}[r.Intn(7)]
	if r.Intn(2) == 0 {
		p.intv = time.Duration(1+r.Intn(40000)) * time.Microsecond
	}
	if r.Intn(4) == 0 {
		p.sync = time.Duration(10000+r.Intn(200000)) * time.Microsecond
	}
	return p
}

func (p params) config() serverConfig {
	return serverConfig{
		blockArrivalIntv: 1 / float64(time.Second), blockArrivalBurst: p.burst, decoderMemory: 100000,
		senderConfig:     senderConfig{detectThreshold: p.th, controlOverhead: float64(p.c64) / 64},
		receiverConfig:   receiverConfig{detectThreshold: p.th, targetCodewordLoss: float64(p.loss64) / 64},
		forceSynchronize: p.sync,
	}
}

func newWorld(r *rand.Rand) *world {
	txgen = newTransactionGenerator()
	n := 2 + r.Intn(4)
	p := pick(r)
	w := &world{r: r, index: map[des.Module]int{}, queues: map[[2]int][]envelope{}, txs: map[int]transaction{}, ids: map[uint32]int{},
		slow: map[[2]int]int{}, sync: p.sync, timed: r.Intn(3) == 0, bursty: r.Intn(2) == 0}
	w.enc = lt.NewEncoder[transaction](r, testKey, one{}, 1)
	w.ss = newServers(&des.Simulator{}, n, r.Int63(), p.config())
	warm := []time.Duration{0, 0, 50, 200}[r.Intn(4)] * time.Millisecond
	ov := []bool{}
	for i, s := range w.ss {
		w.index[s] = i
		s.latencySketch = newDistributionSketch(warm)
		ov = append(ov, r.Intn(2) == 0)
		if ov[i] {
			s.overlapSketch = newDistributionSketch(warm)
		}
		limit(s, p.intv)
	}
	w.links = topo(r, n)
	lk, del := [][]int{}, []int64{}
	for _, l := range w.links {
		d := time.Duration(r.Intn(100000)) * time.Microsecond
		connectServers(w.ss[l.a], w.ss[l.b], d)
		del = append(del, us(d))
		lk = append(lk, []int{l.a + 1, l.b + 1})
		for _, k := range [][2]int{{l.a, l.b}, {l.b, l.a}} {
			w.keys = append(w.keys, k)
			if r.Intn(3) == 0 {
				w.slow[k] = 1 + r.Intn(30)
			}
		}
	}
	if p.sync > 0 {
		for i := range w.ss {
			w.toSelf(i, createNewBlock{}, p.sync)
		}
	}
	tr.emit(ev{"ev": "new", "n": n, "links": lk, "th": p.th, "c": p.c64, "loss": p.loss64, "intv": p.intv.Microseconds(), "sync": p.sync.Microseconds(),
		"del": del, "warm": us(warm), "ov": ov, "burst": p.burst})
	return w
}

func (w *world) toSelf(node int, payload any, d time.Duration) {
	w.seq++
	w.self = append(w.self, struct {
		envelope
		node int
	}{envelope{payload, w.now + d, w.seq}, node})
	sort.SliceStable(w.self, func(i, j int) bool { return w.self[i].at < w.self[j].at })
	if _, is := payload.(loopback); is {
		w.loops++
	}
}

func (w *world) learnIDs() {
	for int(txgen.next) > len(w.txs) {
		k := len(w.txs)
		t := transaction{uint64(k), w.now}
		w.txs[k+1] = t
		w.enc.AddTransaction(lt.NewTransaction[transaction](t))
		c := w.enc.ProduceCodeword()
		_, m := fields(&c)
		w.ids[m[0]] = k + 1
	}
}

func us(d time.Duration) int64 {
	if d%time.Microsecond != 0 || d < 0 || d > time.Hour/2 {
		return -1
	}
	return d.Microseconds()
}

func (w *world) describe(payload any) ev {
	e := ev{}
	switch m := payload.(type) {
	case codeword:
		sum, mem := fields(&m.Codeword)
		var want transaction
		ids := []int{}
		for _, h := range mem {
			id := w.ids[h]
			ids = append(ids, id)
			if id > 0 {
				want = want.XOR(w.txs[id])
			}
		}
		e["k"], e["nb"], e["m"], e["ok"] = "cw", m.newBlock, ids, want == sum
	case ack:
		e["k"], e["blk"] = "ack", m.ackBlock
	case loopback:
		e["k"], e["x"] = "lp", 0
		t := m.tx.Data()
		if o, ok := w.txs[int(t.idx)+1]; ok && o == t {
			e["x"] = int(t.idx) + 1
		}
	case createNewBlock:
		e["k"] = "tick"
	case blockArrival:
		e["k"] = "ba"
	default:
		e["k"] = fmt.Sprintf("%T", payload)
	}
	return e
}

func (w *world) handle(e ev, node int, payload any, from des.Module) {
	out := w.ss[node].HandleMessage(payload, from, w.now)
	w.learnIDs()
	outs, again := []ev{}, [][]int{}
	for _, o := range out {
		d := w.describe(o.Payload)
		if b, ok := o.Payload.(blockArrival); ok && o.To == nil {
			sign := 1
			if o.Delay < 0 {
				sign = -1
			}
			again = append(again, []int{b.n, sign})
			continue
		}
		to := -1
		if o.To == nil {
			w.toSelf(node, o.Payload, o.Delay)
		} else if t, ok := w.index[o.To]; ok {
			to = t
			k := [2]int{node, to}
			w.seq++
			w.queues[k] = append(w.queues[k], envelope{o.Payload, w.now + o.Delay, w.seq})
		} else {
			to = -2
		}
		d["to"], d["d"] = to+1, us(o.Delay)
		outs = append(outs, d)
	}
	if w.quiet {
		return
	}
	e["node"], e["t"], e["outs"] = node+1, us(w.now), outs
	e["rcv"] = len(received(w.ss[node]))
	e["dec"], e["cws"], e["again"] = count(w.ss[node], "decodedTransactions"), count(w.ss[node], "receivedCodewords"), again
	tr.emit(e)
	w.nlog++
}

// count is a counter of a server, -1 if it has none of that name
func count(s *server, name string) int {
	if p := findExact[int](s, name); p != nil {
		return *p
	}
	return -1
}

// measured reports what the servers measured so far
func (w *world) measured() {
	cnt, qs, ocnt, oqs := []int{}, [][]int64{}, []int{}, [][]int64{}
	for _, s := range w.ss {
		c, q := sketchOf(s.latencySketch, 1e6, []float64{0, 0.05, 0.5, 0.95, 1})
		cnt, qs = append(cnt, c), append(qs, q)
		c, q = sketchOf(s.overlapSketch, 1e6, []float64{0, 0.05, 0.5, 0.95, 1})
		ocnt, oqs = append(ocnt, c), append(oqs, q)
	}
	tr.emit(ev{"ev": "lat", "cnt": cnt, "qs": qs, "ocnt": ocnt, "oqs": oqs})
}

// reset makes the servers forget what they counted
func (w *world) reset() {
	for _, s := range w.ss {
		r, ok := any(s).(interface{ resetMetric() })
		if !ok {
			return
		}
		r.resetMetric()
	}
	tr.emit(ev{"ev": "reset"})
}

func (w *world) generate() {
	n := 1
	if w.bursty {
		n = 1 + w.r.Intn(6)
	}
	xs := []int{}
	for i := 0; i < n; i++ {
		xs = append(xs, len(w.txs)+i+1)
	}
	node := w.r.Intn(len(w.ss))
	w.handle(ev{"ev": "gen", "xs": xs}, node, blockArrival{n}, w.ss[node])
}

func (w *world) busy() bool {
	for _, q := range w.queues {
		if len(q) > 0 {
			return true
		}
	}
	return w.loops > 0
}

// step lets something happen: a message arrives, or time passes until a
// message of a server to itself
func (w *world) step() {
	var ks [][2]int
	for _, k := range w.keys {
		if len(w.queues[k]) > 0 {
			ks = append(ks, k)
		}
	}
	takeSelf := len(ks) == 0
	var k [2]int
	if !takeSelf {
		k = ks[w.r.Intn(len(ks))]
		if w.timed {
			for _, o := range ks {
				a, b := w.queues[o][0], w.queues[k][0]
				if a.at < b.at || (a.at == b.at && a.seq < b.seq) {
					k = o
				}
			}
			h := w.queues[k][0]
			takeSelf = len(w.self) > 0 && (w.self[0].at < h.at || (w.self[0].at == h.at && w.self[0].seq < h.seq))
		} else {
			if w.slow[k] > 0 && w.r.Intn(w.slow[k]) != 0 {
				k = ks[w.r.Intn(len(ks))]
			}
			takeSelf = len(w.self) > 0 && w.r.Intn(3) == 0
		}
	}
	if takeSelf {
		if len(w.self) == 0 {
			return
		}
		m := w.self[0]
		w.self = w.self[1:]
		if m.at > w.now {
			w.now = m.at
		}
		e := ev{"ev": "self", "k": "tick"}
		if lp, is := m.payload.(loopback); is {
			w.loops--
			e = ev{"ev": "self", "k": "lp", "x": int(lp.tx.Data().idx) + 1}
		}
		w.handle(e, m.node, m.payload, w.ss[m.node])
		return
	}
	m := w.queues[k][0]
	w.queues[k] = w.queues[k][1:]
	if w.timed {
		if m.at > w.now {
			w.now = m.at
		}
	} else {
		t := w.now + time.Duration(w.r.Intn(5000))*time.Microsecond
		if len(w.self) > 0 && w.self[0].at < t {
			t = w.self[0].at
		}
		if t > w.now {
			w.now = t
		}
	}
	w.handle(ev{"ev": "msg", "from": k[0] + 1}, k[1], m.payload, w.ss[k[0]])
}

func session(r *rand.Rand) {
	w := newWorld(r)
	total := 10 + r.Intn(50)
	pgen := 1 + r.Intn(12)
	for len(w.txs) < total && w.nlog < 600 {
		if r.Intn(pgen) == 0 || !w.busy() {
			w.generate()
		} else {
			w.step()
		}
	}
	resetAt := w.nlog + r.Intn(1500)
	for w.busy() && w.nlog < 1500 {
		if w.nlog >= resetAt {
			w.reset()
			resetAt = 1 << 30
		}
		w.step()
	}
	w.measured()
	w.quiet = w.busy() // too long to record
	for k := 0; w.busy() && k < 100000; k++ {
		w.step()
	}
	tr.emit(ev{"ev": "fin", "drained": !w.busy(), "quiet": w.quiet})
}

// ---------------------------------------------------------------------------
// whole simulations with package des

func integration(r *rand.Rand) {
	txgen = newTransactionGenerator()
	n := 2 + r.Intn(6)
	p := pick(r)
	burst := 1 + r.Intn(4)
	c := p.config()
	c.blockArrivalBurst = burst
	c.blockArrivalIntv = 5.0 / float64(burst) / float64(time.Second)
	s := &des.Simulator{}
	ss := newServers(s, n, r.Int63(), c)
	ls := topo(r, n)
	deg := make([]int, n)
	for _, x := range ss {
		x.latencySketch = newDistributionSketch(0)
		x.overlapSketch = newDistributionSketch(0)
		limit(x, p.intv/100)
	}
	for _, l := range ls {
		connectServers(ss[l.a], ss[l.b], time.Duration(1+r.Intn(100))*time.Millisecond)
		deg[l.a]++
		deg[l.b]++
	}
	tr.emit(ev{"ev": "new", "n": n, "links": [][]int{}, "th": p.th, "c": p.c64, "loss": p.loss64, "intv": 0, "sync": 0, "del": []int{}, "warm": 0, "ov": []int{}, "burst": 1})
	for i := 1; i <= 30; i++ {
		s.RunUntil(time.Duration(i) * time.Second)
	}
	bad, cnt, spread, have, blind := 0, 0, 0, 0, false
	for _, x := range ss {
		for t := range received(x) {
			if t.idx >= txgen.next {
				bad++
			}
		}
		have += len(received(x))
		if d := find[int](x, "decodedTransactions"); d != nil {
			cnt += len(received(x)) - *d // own
			spread += *d
		} else {
			blind = true
		}
	}
	if blind { // servers do not count what they decode
		cnt, spread = int(txgen.next), have-int(txgen.next)
	}
	// every transaction is somewhere, and own transactions are exactly those generated
	tr.emit(ev{"ev": "integ", "own": cnt, "total": txgen.next, "bad": bad, "spread": spread})
}

func TestMain(m *testing.M) {
	kind := flag.String("kind", "link", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "sessions")
	out := flag.String("out", "trace.ndjson", "")
	flag.Parse()
	tr = newTracer(*out)
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		tr.session(60*time.Second, func() {
			switch *kind {
			case "link":
				session(r)
			case "sim":
				integration(r)
			case "stat":
				if statistics != nil {
					statistics(r)
				}
			default:
				fmt.Fprintln(os.Stderr, "unknown kind", *kind)
				os.Exit(2)
			}
		})
	}
	tr.close()
	os.Exit(0)
}
