//go:build go1.21

// Conformance driver for the network simulation newsim (overlaid into its
// package). Servers are driven through HandleMessage; the driver keeps the
// messages in transit, one first-in-first-out queue per direction of a link,
// and delivers them in arbitrary order between queues.
package main

import (
	"flag"
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

var tr *tracer

// statistics, if the file that looks at them is in the build
var statistics func(*rand.Rand)

const maxIdx = 128

type link struct {
	a, b  int
	delay time.Duration
	rnd   uint64
}

type envelope struct {
	payload any
	at      time.Duration
	seq     int
}

type world struct {
	r       *rand.Rand
	alg     string
	flood   bool
	shards  int
	c8      int
	ss      []*server
	index   map[des.Module]int
	links   []link
	queues  map[[2]int][]envelope
	keys    [][2]int
	now     time.Duration
	seq     int
	txs     map[int]transaction // by position of their bit + 1
	ids     map[uint64]int      // by hash
	seen    []map[uint64]bool
	probes  []uint64
	started map[[2]int]bool
	warm    time.Duration
	quiet   bool
	timed   bool
	slow    map[[2]int]int
	burst   int
	full    bool
	alone   int // transactions of nodes without neighbours
	basis   map[uint64]uint64
	combo   map[uint64][]int
}

func topology(r *rand.Rand, n int) []link {
	var res []link
	add := func(a, b int) {
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		for _, l := range res {
			if (l.a == a && l.b == b) || (l.a == b && l.b == a) {
				return
			}
		}
		res = append(res, link{a: a, b: b, delay: time.Duration(5+r.Intn(100)) * time.Millisecond})
	}
	switch r.Intn(4) {
	case 0:
		for i := 1; i < n; i++ {
			add(i-1, i)
		}
	case 1:
		for i := 1; i < n; i++ {
			add(0, i)
		}
	case 2:
		for i := 0; i < n; i++ {
			if n > 1 && i != (i+1)%n {
				add(i, (i+1)%n)
			}
		}
	case 3:
		for i := 1; i < n; i++ {
			add(r.Intn(i), i)
		}
		for k := r.Intn(n + 1); k > 0; k-- {
			a, b := r.Intn(n), r.Intn(n)
			if a != b {
				add(a, b)
			}
		}
	}
	return res
}

func connect(alg string, ss []*server, l link, c senderConfig) {
	if alg == "coding" {
		connectCodingServers(ss[l.a], ss[l.b], l.delay, c)
	} else {
		connectPullServers(ss[l.a], ss[l.b], l.delay)
	}
}

func newWorld(r *rand.Rand, alg string) *world {
	RNG = rand.New(rand.NewSource(r.Int63()))
	TXSIZE = 1 + r.Intn(1000)
	txgen = &transactionGenerator{}
	w := &world{r: r, alg: alg, flood: r.Intn(4) == 0, index: map[des.Module]int{}, queues: map[[2]int][]envelope{},
		txs: map[int]transaction{}, ids: map[uint64]int{}, started: map[[2]int]bool{}, slow: map[[2]int]int{}}
	n := 2 + r.Intn(4)
	w.burst = []int{1, 1, 2, 3}[r.Intn(4)]
	w.basis, w.combo = map[uint64]uint64{}, map[uint64][]int{}
	w.shards = []int{1, 2, 3, 4, 7}[r.Intn(5)]
	w.c8 = []int{0, 1, 2, 4, 8, 12}[r.Intn(6)]
	w.timed = r.Intn(3) == 0
	w.warm = []time.Duration{0, 0, 50, 200}[r.Intn(4)] * time.Millisecond
	w.ss = newServers(&des.Simulator{}, n, serverConfig{blockArrivalIntv: 1 / float64(time.Second), blockArrivalBurst: w.burst, initialFlood: w.flood})
	for i, s := range w.ss {
		w.index[s] = i
		s.latencySketch = newDistributionSketch(w.warm)
		w.seen = append(w.seen, map[uint64]bool{})
	}
	w.links = topology(r, n)
	if r.Intn(8) == 0 { // the last node stays alone
		w.links = topology(r, n-1)
	}
	lk, del := [][]int{}, []int64{}
	for i := range w.links {
		l := &w.links[i]
		connect(alg, w.ss, *l, senderConfig{controlOverhead: float64(w.c8) / 8, numShards: w.shards})
		if alg == "coding" {
			rnd := find[uint64](w.ss[l.a].handlers[w.ss[l.b]], "shardRandomizer", "random")
			if rnd == nil {
				fmt.Fprintln(os.Stderr, "no randomizer of shards found")
				os.Exit(2)
			}
			l.rnd = *rnd
		}
		lk = append(lk, []int{l.a + 1, l.b + 1})
		del = append(del, us(l.delay))
		w.keys = append(w.keys, [2]int{l.a, l.b}, [2]int{l.b, l.a})
	}
	// values around which shards may begin and end, and random ones
	for i := 0; i <= w.shards; i++ {
		v := uint64(i) * (((1 << 64) - 1) / uint64(w.shards))
		w.probes = append(w.probes, v-1, v, v+1)
	}
	w.probes = append(w.probes, 0, ^uint64(0))
	for i := 0; i < 6; i++ {
		w.probes = append(w.probes, r.Uint64())
	}
	sort.Slice(w.probes, func(i, j int) bool { return w.probes[i] < w.probes[j] })
	var u []uint64
	for i, p := range w.probes {
		if i == 0 || p != w.probes[i-1] {
			u = append(u, p)
		}
	}
	w.probes = u
	tr.emit(ev{"ev": "new", "alg": alg, "n": n, "flood": w.flood, "ns": w.shards, "c8": w.c8, "links": lk, "probes": len(u),
		"del": del, "size": TXSIZE, "warm": us(w.warm), "burst": w.burst})
	return w
}

// us is a time in microseconds
func us(d time.Duration) int64 {
	if d%time.Microsecond != 0 || d < 0 || d > 30*time.Minute {
		return -1
	}
	return d.Microseconds()
}

func inRange(v, lo, hi uint64) bool {
	if lo < hi {
		return v >= lo && v < hi
	}
	return v >= lo || v < hi
}

func (w *world) linkOf(a, b int) *link {
	for i := range w.links {
		if w.links[i].a == a && w.links[i].b == b {
			return &w.links[i]
		}
	}
	return nil
}

func (w *world) idsOf(t transaction) []int {
	rest, in := w.reduce(t.idx)
	if rest != 0 {
		return []int{0}
	}
	res := []int{}
	var ts time.Duration
	for k := range w.txs {
		if in[k] {
			res = append(res, k)
			ts ^= w.txs[k].ts
		}
	}
	sort.Ints(res)
	if ts != t.ts {
		return append([]int{0}, res...)
	}
	return res
}

func top(x uint64) uint64 { return uint64(1) << (bits.Len64(x) - 1) }

// reduce removes transactions from an index: what is left, and which they are.
// The indices of all transactions are linearly independent.
func (w *world) reduce(x uint64) (uint64, map[int]bool) {
	in := map[int]bool{}
	for x != 0 {
		b, ok := w.basis[top(x)]
		if !ok {
			break
		}
		for _, k := range w.combo[top(x)] {
			in[k] = !in[k]
		}
		x ^= b
	}
	return x, in
}

func (w *world) learn(id int, x uint64) bool {
	rest, in := w.reduce(x)
	if rest == 0 {
		return false
	}
	c := []int{id}
	for k, b := range in {
		if b {
			c = append(c, k)
		}
	}
	w.basis[top(rest)], w.combo[top(rest)] = rest, c
	return true
}

// indices finds the beginning of a run of n transactions whose indices are
// independent of all others
func (w *world) indices(n int) (uint64, bool) {
	for try := 0; try < 300; try++ {
		base := w.r.Uint64() >> w.r.Intn(40)
		if z := w.r.Intn(40); z > 0 { // many ones at the end
			base = base<<uint(z) | (1<<uint(z-1) - 1)
		}
		if base == 0 || base > 1<<62 {
			continue
		}
		sb, sc := map[uint64]uint64{}, map[uint64][]int{}
		for k, v := range w.basis {
			sb[k], sc[k] = v, w.combo[k]
		}
		ok := true
		for i := 0; i < n && ok; i++ {
			ok = w.learn(len(w.txs)+1+i, base+uint64(i))
		}
		if ok {
			return base, true
		}
		w.basis, w.combo = sb, sc
	}
	return 0, false
}

// one transaction with its hash
func (w *world) one(h riblt.HashedSymbol[transaction]) int {
	v := w.idsOf(h.Symbol)
	if len(v) != 1 || w.ids[h.Hash] != v[0] {
		return 0
	}
	return v[0]
}

func (w *world) cell(c riblt.CodedSymbol[transaction]) ([]int, int64, bool) {
	v := reflect.ValueOf(&c).Elem()
	var sum transaction
	var count int64
	var check uint64
	found := 0
	for i := 0; i < v.NumField(); i++ {
		f := reflect.NewAt(v.Field(i).Type(), v.Field(i).Addr().UnsafePointer()).Elem()
		switch {
		case f.Type() == reflect.TypeOf(sum):
			sum = f.Interface().(transaction)
			found |= 1
		case f.Kind() == reflect.Int64 || f.Kind() == reflect.Int:
			count = f.Int()
			found |= 2
		case f.Kind() == reflect.Uint64:
			check = f.Uint()
			found |= 4
		}
	}
	if found != 7 {
		fmt.Fprintln(os.Stderr, "coded symbols do not have the expected fields")
		os.Exit(2)
	}
	ids := w.idsOf(sum)
	var want uint64
	for _, i := range ids {
		if i > 0 {
			want ^= w.txs[i].Hash()
		}
	}
	if count > 1000000 || count < -1000000 {
		count = 1000000
	}
	return ids, count, check == want
}

// members of the shard range announced by a codeword, among the transactions
// generated up to now
func (w *world) members(from, to int, m codeword) []int {
	in := []int{}
	if l := w.linkOf(from, to); l != nil {
		for id, t := range w.txs {
			if inRange(t.Hash()*l.rnd, m.startHash, m.endHash) {
				in = append(in, id)
			}
		}
	}
	return in
}

func (w *world) describe(from, to int, payload any) ev {
	e := ev{"to": to + 1}
	switch m := payload.(type) {
	case codeword:
		e["k"] = "cw"
		e["nb"] = m.newBlock
		e["s"], e["cn"], e["ok"] = w.cell(m.CodedSymbol)
		if m.newBlock {
			w.started[[2]int{from, to}] = true
			in, pin := w.members(from, to, m), []int{}
			for i, p := range w.probes {
				if inRange(p, m.startHash, m.endHash) {
					pin = append(pin, i+1)
				}
			}
			e["in"], e["pin"] = in, pin
		}
	case ack:
		e["k"], e["blk"], e["st"] = "ack", m.ackBlock, m.ackStart
		txs := []int{}
		for _, t := range m.txs {
			txs = append(txs, w.one(t))
		}
		e["txs"] = txs
	case announce:
		e["k"], e["x"] = "ann", w.ids[m.hash]
	case request:
		e["k"], e["x"] = "req", w.ids[m.hash]
	case response:
		e["k"], e["x"] = "rsp", w.one(m.payload)
	case initialBroadcast:
		e["k"], e["x"] = "ib", w.one(m.payload)
	case blockArrival:
		e["k"] = "ba"
	default:
		e["k"] = fmt.Sprintf("%T", payload)
	}
	return e
}

// handle lets a server handle a message and records what comes of it
func (w *world) handle(e ev, node int, payload any, from des.Module) {
	s := w.ss[node]
	out := s.HandleMessage(payload, from, w.now)
	outs, again := []ev{}, [][]int64{}
	for _, o := range out {
		to := node
		if o.To != nil {
			t, ok := w.index[o.To]
			if !ok {
				t = -1
			}
			to = t
		}
		d := w.describe(node, to, o.Payload)
		if to == node {
			if b, ok := o.Payload.(blockArrival); ok {
				again = append(again, []int64{int64(b.n), int64(sign(o.Delay))})
			} else {
				d["k"] = "self:" + fmt.Sprint(d["k"])
				outs = append(outs, d)
			}
			continue
		}
		d["d"] = us(o.Delay)
		outs = append(outs, d)
		if to >= 0 {
			k := [2]int{node, to}
			w.seq++
			w.queues[k] = append(w.queues[k], envelope{o.Payload, w.now + o.Delay, w.seq})
		}
	}
	if w.quiet {
		return
	}
	fresh := []int{}
	for x := range received(s) {
		if !w.seen[node][x] {
			w.seen[node][x] = true
			v := w.idOfIdx(x)
			fresh = append(fresh, v)
		}
	}
	e["node"] = node + 1
	e["outs"] = outs
	e["fresh"] = fresh
	e["lost"] = len(w.seen[node]) != len(received(s))
	e["t"], e["again"] = us(w.now), again
	e["rx"], e["dec"] = count(s, "receivedTransactions"), count(s, "decodedTransactions")
	e["dup"], e["bytes"] = count(s, "duplicateTransactions"), count(s, "receivedBytes")
	tr.emit(e)
}

func sign(d time.Duration) int {
	if d < 0 {
		return -1
	}
	return 1
}

// count is a counter of a server, -1 if it has none of that name
func count(s *server, name string) int {
	if p := findExact[int](s, name); p != nil {
		return *p
	}
	return -1
}

// measured reports what the servers measured so far
func (w *world) measured() {
	cnt, qs := []int{}, [][]int64{}
	for _, s := range w.ss {
		c, q := sketchOf(s.latencySketch, 1e6, []float64{0, 0.05, 0.5, 0.95, 1})
		cnt, qs = append(cnt, c), append(qs, q)
	}
	tr.emit(ev{"ev": "lat", "cnt": cnt, "qs": qs})
}

// reset makes the servers forget what they counted
func (w *world) reset() {
	for _, s := range w.ss {
		r, ok := any(s).(interface{ resetMetric() })
		if !ok {
			return
		}
		r.resetMetric()
	}
	tr.emit(ev{"ev": "reset"})
}

// received is the set of transactions a server has processed
func received(s *server) map[uint64]struct{} {
	if m := find[map[uint64]struct{}](s, "received"); m != nil {
		return *m
	}
	fmt.Fprintln(os.Stderr, "no set of received transactions found")
	os.Exit(2)
	return nil
}

func (w *world) idOfIdx(x uint64) int {
	for id, t := range w.txs {
		if t.idx == x {
			return id
		}
	}
	return 0
}

func (w *world) generate(node int) {
	k := len(w.txs)
	base, ok := uint64(0), false
	if k+w.burst <= 56 {
		base, ok = w.indices(w.burst)
	}
	if !ok {
		w.full = true
		return
	}
	txgen.last = base - 1
	xs := []int{}
	for i := 0; i < w.burst; i++ {
		t := transaction{base + uint64(i), w.now}
		w.txs[k+1+i] = t
		w.ids[t.Hash()] = k + 1 + i
		xs = append(xs, k+1+i)
	}
	for _, x := range xs {
		// where the codec puts this transaction
		enc := &riblt.Encoder[transaction]{}
		enc.AddSymbol(w.txs[x])
		m := []int{}
		for i := 0; i < maxIdx; i++ {
			if _, c, _ := w.cell(enc.ProduceNextCodedSymbol()); c != 0 {
				m = append(m, i)
			}
		}
		tr.emit(ev{"ev": "tx", "x": x, "map": m})
	}
	if w.isolated(node) {
		w.alone += w.burst
	}
	w.handle(ev{"ev": "gen", "xs": xs}, node, blockArrival{w.burst}, w.ss[node])
}

func (w *world) isolated(node int) bool {
	for _, k := range w.keys {
		if k[0] == node {
			return false
		}
	}
	return true
}

// deliver hands over the next message of a queue; false if nothing is in transit
func (w *world) deliver() bool {
	var ks [][2]int
	for _, k := range w.keys {
		if len(w.queues[k]) > 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return false
	}
	k := ks[w.r.Intn(len(ks))]
	if w.timed {
		for _, o := range ks {
			a, b := w.queues[o][0], w.queues[k][0]
			if a.at < b.at || (a.at == b.at && a.seq < b.seq) {
				k = o
			}
		}
	} else if w.slow[k] > 0 && w.r.Intn(w.slow[k]) != 0 {
		k = ks[w.r.Intn(len(ks))]
	}
	m := w.queues[k][0]
	w.queues[k] = w.queues[k][1:]
	if w.timed && m.at > w.now {
		w.now = m.at
	} else {
		w.now += time.Millisecond
	}
	e := ev{"ev": "msg", "from": k[0] + 1}
	if c, ok := m.payload.(codeword); ok && c.newBlock {
		e["in"] = w.members(k[0], k[1], c)
	}
	w.handle(e, k[1], m.payload, w.ss[k[0]])
	return true
}

func (w *world) allActive() bool {
	for _, l := range w.links {
		if !w.started[[2]int{l.a, l.b}] {
			return false
		}
	}
	return true
}

func (w *world) complete() bool {
	for i, s := range w.ss {
		if !w.isolated(i) && len(received(s)) < len(w.txs)-w.alone {
			return false
		}
	}
	return true
}

func session(r *rand.Rand, alg string) {
	w := newWorld(r, alg)
	for _, k := range w.keys {
		if r.Intn(3) == 0 {
			w.slow[k] = 1 + r.Intn(30)
		}
	}
	total := len(w.ss) + r.Intn(30)
	steps := 120 + r.Intn(200)
	if alg == "pull" {
		total = len(w.ss) + r.Intn(12)
	}
	pgen := 2 + r.Intn(20)
	first := r.Perm(len(w.ss))
	if r.Intn(2) == 0 { // everyone first
		for _, i := range first {
			w.generate(i)
		}
	}
	resetAt := r.Intn(2 * steps)
	for i := 0; i < steps; i++ {
		if i == resetAt {
			w.reset()
		}
		if len(w.txs) < total && r.Intn(pgen) == 0 {
			for k := []int{1, 1, 1, 8}[r.Intn(4)]; k > 0; k-- {
				w.generate(r.Intn(len(w.ss)))
			}
			continue
		}
		if !w.deliver() {
			if len(w.txs) >= total || w.full {
				break
			}
			w.generate(r.Intn(len(w.ss)))
		}
	}
	for _, i := range first {
		w.generate(i)
	}
	w.measured()
	// run on until everything is everywhere, within a generous limit
	w.quiet = alg == "coding"
	budget := 60000
	for budget > 0 && !(w.quiet && w.complete() && w.allActive()) && w.deliver() {
		budget--
	}
	have := [][]int{}
	for _, s := range w.ss {
		h := []int{}
		for x := range received(s) {
			h = append(h, w.idOfIdx(x))
		}
		have = append(have, h)
	}
	tr.emit(ev{"ev": "fin", "have": have, "active": w.allActive(), "drained": budget > 0})
}

// ---------------------------------------------------------------------------
// whole simulations with package des, bursts included

func integration(r *rand.Rand, alg string) {
	RNG = rand.New(rand.NewSource(r.Int63()))
	TXSIZE = 256
	txgen = &transactionGenerator{}
	n := 2 + r.Intn(6)
	shards := []int{1, 2, 4, 8}[r.Intn(4)]
	burst := 1 + r.Intn(4)
	c8 := 1 + r.Intn(8)
	flood := alg == "pull" && r.Intn(3) == 0
	intv, patience := float64(burst), 120
	if r.Intn(5) == 0 { // hundreds at once
		n = 2 + r.Intn(3)
		burst = 100 + r.Intn(200)
		c8 = 4 + r.Intn(5)
		intv, patience = 20, 400
	}
	s := &des.Simulator{}
	ss := newServers(s, n, serverConfig{blockArrivalIntv: 1.0 / intv / float64(time.Second), blockArrivalBurst: burst, initialFlood: flood})
	for _, x := range ss {
		x.latencySketch = newDistributionSketch(0)
	}
	ls := topology(r, n)
	for _, l := range ls {
		connect(alg, ss, l, senderConfig{controlOverhead: float64(c8) / 8, numShards: shards})
	}
	tr.emit(ev{"ev": "new", "alg": alg, "n": n, "flood": flood, "ns": shards, "c8": c8, "links": [][]int{}, "probes": 0,
		"del": []int{}, "size": TXSIZE, "warm": 0, "burst": burst})
	clock := time.Duration(0)
	run := func(d time.Duration) {
		clock += d
		s.RunUntil(clock)
	}
	every := func() bool { // everybody has generated
		for _, x := range ss {
			if rx := count(x, "receivedTransactions"); rx >= 0 && rx == count(x, "decodedTransactions") {
				return false
			}
		}
		return true
	}
	for i := 0; i < 20 || !every(); i++ {
		run(time.Second)
	}
	total := txgen.last
	missing := func() int {
		m := 0
		for _, x := range ss {
			for i := uint64(1); i <= total; i++ {
				if _, ok := received(x)[i]; !ok {
					m++
				}
			}
		}
		return m
	}
	for i := 0; i < patience && missing() > 0; i++ {
		run(time.Second)
	}
	bad := 0 // transactions nobody generated
	cnt := true
	for _, x := range ss {
		for i := range received(x) {
			if i == 0 || i > txgen.last {
				bad++
			}
		}
		if rx := count(x, "receivedTransactions"); rx >= 0 && rx != len(received(x)) {
			cnt = false
		}
	}
	tr.emit(ev{"ev": "integ", "alg": alg, "total": total, "missing": missing(), "bad": bad, "once": cnt, "clock": s.Time() <= clock})
}

func TestMain(m *testing.M) {
	kind := flag.String("kind", "coding", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "sessions")
	out := flag.String("out", "trace.ndjson", "")
	flag.Parse()
	tr = newTracer(*out)
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		tr.session(60*time.Second, func() {
			switch *kind {
			case "coding", "pull":
				session(r, *kind)
			case "coding-sim":
				integration(r, "coding")
			case "pull-sim":
				integration(r, "pull")
			case "stat":
				if statistics != nil {
					statistics(r)
				}
			default:
				fmt.Fprintln(os.Stderr, "unknown kind", *kind)
				os.Exit(2)
			}
		})
	}
	tr.close()
	os.Exit(0)
}
