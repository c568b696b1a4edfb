//go:build go1.25

// Conformance driver for the network node (overlaid into its package). Nodes run
// in a bubble of fake time (testing/synctest); the driver is the other end of
// their connections.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

var tr *tracer

// wire, if the file that looks at the sending and receiving loops is in the build
var wire func(*rand.Rand)

// slowLoop, likewise, for the file that drives the decoding loop on its own
var slowLoop func(*rand.Rand)

// pipe is one direction of a connection: Read returns fragments, Write can be
// held up, and both can be broken
type pipe struct {
	mu    sync.Mutex
	c     *sync.Cond
	buf   []byte
	all   []byte // everything ever written
	held  bool
	eof   bool
	wfail bool
	max   int // largest fragment
	r     *rand.Rand
}

func newPipe(r *rand.Rand, max int) *pipe {
	p := &pipe{max: max, r: rand.New(rand.NewSource(r.Int63()))}
	p.c = sync.NewCond(&p.mu)
	return p
}

func (p *pipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for p.held {
		p.c.Wait()
	}
	if p.wfail {
		return 0, errors.New("write failed")
	}
	p.buf = append(p.buf, b...)
	p.all = append(p.all, b...)
	p.c.Broadcast()
	return len(b), nil
}

func (p *pipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 && !p.eof {
		p.c.Wait()
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if n > len(p.buf) {
		n = len(p.buf)
	}
	if p.max > 0 && n > p.max {
		n = 1 + p.r.Intn(p.max)
	}
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	return n, nil
}

func (p *pipe) set(f func()) {
	p.mu.Lock()
	f()
	p.c.Broadcast()
	p.mu.Unlock()
}

type duplex struct{ in, out *pipe }

func (d duplex) Read(b []byte) (int, error)  { return d.in.Read(b) }
func (d duplex) Write(b []byte) (int, error) { return d.out.Write(b) }

func fragments(r *rand.Rand) int { return []int{1, 2, 7, 15, 16, 17, 100, 0}[r.Intn(8)] }

// ---------------------------------------------------------------------------
// transactions and their salted hashes

type world struct {
	mu   sync.Mutex
	r    *rand.Rand
	txs  []*ldpc.Transaction // by id
	ids  map[string]int
	salt map[[ldpc.SaltSize]byte]*salted
}

type salted struct {
	enc *ldpc.Encoder
	h   map[int]uint32
	ids map[uint32]int
}

type one struct{}

func (one) Uint64() uint64 { return 1 }

func newWorld(r *rand.Rand) *world {
	return &world{r: r, txs: []*ldpc.Transaction{nil}, ids: map[string]int{}, salt: map[[ldpc.SaltSize]byte]*salted{}}
}

func (w *world) newTx() int {
	var b [ldpc.TxSize]byte
	w.r.Read(b[:])
	binary.LittleEndian.PutUint64(b[:8], uint64(time.Now().UnixMicro()))
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(b[:]); err != nil {
		panic(err)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.txs = append(w.txs, t)
	w.ids[string(b[:])] = len(w.txs) - 1
	return len(w.txs) - 1
}

func (w *world) idOf(t *ldpc.Transaction) int {
	if t == nil {
		return 0
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ids[string(t.Serialized())]
}

func (w *world) salted(s [ldpc.SaltSize]byte) *salted {
	w.mu.Lock()
	defer w.mu.Unlock()
	x := w.salt[s]
	if x == nil {
		x = &salted{ldpc.NewEncoder(s, one{}, 1), map[int]uint32{}, map[uint32]int{}}
		w.salt[s] = x
	}
	for i := len(x.h) + 1; i < len(w.txs); i++ {
		x.enc.AddTransaction(w.txs[i])
		h := x.enc.ProduceCodeword().Members[0]
		x.h[i], x.ids[h] = h, i
	}
	return x
}

// codeword of the transactions in the salt of the decoder
func (w *world) codeword(salt [ldpc.SaltSize]byte, ids []int) *ldpc.Codeword {
	s := w.salted(salt)
	c := &ldpc.Codeword{}
	for _, i := range ids {
		var d ldpc.TransactionData
		copy(d[:], w.txs[i].Serialized())
		c.Symbol.XOR(&d)
		c.Members = append(c.Members, s.h[i])
	}
	return c
}

// members of a codeword in a salt; false if it is not their sum
func (w *world) members(salt [ldpc.SaltSize]byte, c *ldpc.Codeword) ([]int, bool) {
	s := w.salted(salt)
	ids := []int{}
	if c == nil {
		return ids, false
	}
	var sum ldpc.TransactionData
	ok := true
	for _, h := range c.Members {
		i := s.ids[h]
		ids = append(ids, i)
		if i == 0 {
			ok = false
			continue
		}
		var d ldpc.TransactionData
		copy(d[:], w.txs[i].Serialized())
		sum.XOR(&d)
	}
	return ids, ok && sum == c.Symbol
}

type params struct {
	K                     int
	init, min, inc, loss8 int // rates in 1/64, target loss in 1/8, inc in 1/8
	timeout               time.Duration
}

func newController(p params, decodedCap, localCap int) *controller {
	sk, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	c := &controller{}
	must(find[chan *peer](c, "newPeer"), make(chan *peer))
	must(find[chan ldpc.DecodedTransaction](c, "decodedTransaction"), make(chan ldpc.DecodedTransaction, decodedCap))
	must(find[chan *ldpc.Transaction](c, "localTransaction"), make(chan *ldpc.Transaction, localCap))
	must(find[uint64](c, "K"), uint64(p.K))
	must(find[uint64](c, "M"), 1000000)
	must(find[float64](c, "solitonC"), 0.03)
	must(find[float64](c, "solitonDelta", "delta"), 0.5)
	must(find[float64](c, "initRate", "init"), float64(p.init)/64)
	must(find[float64](c, "minRate", "min"), float64(p.min)/64)
	must(find[float64](c, "incConstant", "inc"), float64(p.inc)/8)
	must(find[float64](c, "targetLoss", "target"), float64(p.loss8)/8)
	must(find[time.Duration](c, "decodeTimeout", "timeout"), p.timeout)
	if s := find[*ddsketch.DDSketchWithExactSummaryStatistics](c, "delaySketch"); s != nil {
		*s = sk
	}
	if d := find[time.Duration](c, "warmupTime", "warmup"); d != nil {
		*d = time.Second
	}
	return c
}

// must sets a part of a structure that has to exist
func must[T any](p *T, v T) {
	if p == nil {
		fmt.Fprintln(os.Stderr, "the node does not have the expected parts")
		os.Exit(2)
	}
	*p = v
}

func newPeers(c *controller) chan *peer { return *find[chan *peer](c, "newPeer") }
func decodedTxs(c *controller) chan ldpc.DecodedTransaction {
	return *find[chan ldpc.DecodedTransaction](c, "decodedTransaction")
}
func localTxs(c *controller) chan *ldpc.Transaction {
	return *find[chan *ldpc.Transaction](c, "localTransaction")
}

// offer gives a transaction to a peer as the controller does
func offer(p *peer, t *ldpc.Transaction, expired bool) {
	if !expired {
		*find[chan<- *ldpc.Transaction](p, "newTxToSender", "sender") <- t
	}
	*find[chan<- *ldpc.Transaction](p, "newTxToReceiver", "receiver") <- t
}

// ---------------------------------------------------------------------------
// one peer; the driver is its controller and the other end of its connection

func peerSession(r *rand.Rand) {
	w := newWorld(r)
	p := params{K: 2 + r.Intn(12), timeout: time.Duration(1+r.Intn(400)) * time.Millisecond}
	p.min = 1 + r.Intn(64*4)
	p.init = p.min + r.Intn(64*60)
	p.inc = 1 + r.Intn(80)
	p.loss8 = r.Intn(9)
	jam := r.Intn(6) == 0 // fill the queue of codewords
	if jam {
		p.init, p.loss8, p.inc = 64*(10000+r.Intn(20000)), r.Intn(2), 1+r.Intn(8)
	}
	c := newController(p, 100000, 10)
	in, out := newPipe(r, fragments(r)), newPipe(r, 0)
	var theirs, ours [ldpc.SaltSize]byte
	r.Read(theirs[:])

	start := time.Now()
	done := make(chan error, 1)
	go func() { done <- c.handleConn("x", duplex{in, out}) }()
	// the other side's key may come in one go with its first codewords
	genc := gob.NewEncoder(in)
	together := r.Intn(2) == 0
	if together {
		in.set(func() { in.eof = false })
	}
	in.Write(theirs[:])
	var pr *peer
	select {
	case pr = <-newPeers(c):
	case err := <-done:
		tr.emit(ev{"ev": "hs", "sent": 16, "wfail": false, "err": err != nil, "reg": false})
		return
	}
	synctest.Wait()
	if len(out.all) < ldpc.SaltSize {
		tr.emit(ev{"ev": "crash", "why": "no key sent"})
		return
	}
	copy(ours[:], out.all)
	tr.emit(ev{"ev": "peer", "K": p.K, "init": p.init, "min": p.min, "inc": p.inc * 8, "dec": p.inc * p.loss8,
		"timeout": p.timeout.Microseconds(), "frag": in.max})

	type timed struct {
		at time.Duration
		e  ev
	}
	var events []timed
	decoded := func() [][]int {
		synctest.Wait()
		res := [][]int{}
		for {
			select {
			case d := <-decodedTxs(c):
				x := 0
				if d.Expired {
					x = 1
				}
				res = append(res, []int{w.idOf(d.Transaction), x})
				continue
			default:
			}
			break
		}
		return res
	}
	record := func(e ev) {
		at := time.Since(start)
		e["t"] = at.Microseconds()
		events = append(events, timed{at, e})
	}
	pool := 4 + r.Intn(20)
	for len(w.txs) <= pool {
		w.newTx()
	}
	maxdeg := 1 + r.Intn(4)
	var pair []int
	sendCw := func() {
		deg := r.Intn(maxdeg + 1)
		if deg > 0 && r.Intn(3) == 0 {
			deg = 1
		}
		ids := []int{}
		for _, i := range r.Perm(pool)[:deg] {
			ids = append(ids, i+1)
		}
		if pair != nil {
			ids = pair
		}
		loss := []int{0, 0, 0, 0, 1, 1, 2, 5}[r.Intn(8)]
		err := genc.Encode(Codeword{w.codeword(theirs, ids), loss, time.Now().UnixMicro()})
		if err != nil {
			panic(err)
		}
		record(ev{"ev": "in", "m": ids, "loss": loss, "dec": decoded()})
	}
	steps := 20 + r.Intn(60)
	if jam {
		steps = 8 + r.Intn(8)
	}
	gap := []int{300, 3000, 9000, 30000}[r.Intn(4)]
	if jam {
		gap = 20000
	}
	held := false
	bulk := -1 // many codewords that wait, and expire together
	if !jam && r.Intn(5) == 0 {
		bulk = r.Intn(steps)
	}
	for i := 0; i < steps; i++ {
		dt := time.Duration(1+r.Intn(gap)) * time.Microsecond
		if r.Intn(8) == 0 { // exactly the timeout after an earlier event
			if len(events) > 0 {
				at := events[r.Intn(len(events))].at + p.timeout
				if d := at - time.Since(start); d > 0 {
					dt = d
				}
			}
		}
		if i == bulk+1 && bulk >= 0 {
			dt += p.timeout
		}
		// stay clear of the ticks
		at := time.Since(start) + dt
		if m := at % (10 * time.Millisecond); m < time.Microsecond || m > 10*time.Millisecond-time.Microsecond {
			dt += 2 * time.Microsecond
		}
		if jam && i > 0 {
			dt += time.Duration(r.Intn(6)) * 10 * time.Millisecond
		}
		time.Sleep(dt)
		synctest.Wait()
		switch k := r.Intn(10); {
		case i == bulk:
			for n := 110 + r.Intn(60); n > 0; n-- {
				pair = []int{w.newTx(), w.newTx()}
				sendCw()
			}
			pair = nil
		case k < 6 || i == bulk+1 && bulk >= 0:
			for n := []int{1, 1, 1, 4}[r.Intn(4)]; n > 0; n-- {
				sendCw()
			}
		case k < 9:
			x := 1 + r.Intn(pool)
			if r.Intn(4) == 0 {
				x = w.newTx()
			}
			exp := r.Intn(3) == 0
			offer(pr, w.txs[x], exp)
			record(ev{"ev": "tx", "x": x, "exp": exp, "dec": decoded()})
		default:
			if jam {
				held = !held
				out.set(func() { out.held = held })
				synctest.Wait()
				record(ev{"ev": "hold", "on": held})
			}
		}
	}
	time.Sleep(15*time.Millisecond + 500*time.Microsecond)
	synctest.Wait()
	end := time.Since(start)
	out.set(func() { out.held = false })
	synctest.Wait()

	// what was sent, by the tick in which it was produced
	sentAt := map[int64][]Codeword{}
	dec := gob.NewDecoder(bytes.NewReader(out.all[ldpc.SaltSize:]))
	lastT := int64(0)
	ordered := true
	for {
		cw := Codeword{}
		if err := dec.Decode(&cw); err != nil {
			break
		}
		t := cw.UnixMicro - start.UnixMicro()
		if t < lastT {
			ordered = false
		}
		lastT = t
		sentAt[t] = append(sentAt[t], cw)
	}
	k := 0
	ticks := int64(end / (10 * time.Millisecond))
	flush := func(until time.Duration) {
		for k < len(events) && events[k].at < until {
			tr.emit(events[k].e)
			k++
		}
	}
	total := 0
	for i := int64(1); i <= ticks; i++ {
		at := time.Duration(i) * 10 * time.Millisecond
		flush(at)
		losses, ms, ok := []int{}, [][]int{}, true
		for j, cw := range sentAt[at.Microseconds()] {
			total++
			losses = append(losses, cw.Loss)
			ids, good := w.members(ours, cw.Codeword)
			ok = ok && good
			if j < 5 {
				ms = append(ms, ids)
			}
		}
		delete(sentAt, at.Microseconds())
		tr.emit(ev{"ev": "tick", "t": at.Microseconds(), "losses": losses, "ms": ms, "ok": ok})
	}
	flush(1 << 60)
	tr.emit(ev{"ev": "pend", "ordered": ordered, "stray": len(sentAt)})
}

// ---------------------------------------------------------------------------
// broken handshakes

func handshake(r *rand.Rand) {
	p := params{K: 5, init: 640, min: 64, inc: 8, loss8: 1, timeout: time.Second}
	c := newController(p, 1000, 10)
	in, out := newPipe(r, fragments(r)), newPipe(r, 0)
	n := r.Intn(ldpc.SaltSize + 1)
	wfail := r.Intn(4) == 0
	key := make([]byte, n)
	r.Read(key)
	in.Write(key)
	if n < ldpc.SaltSize {
		in.eof = true
	}
	if wfail {
		out.wfail = true
	}
	reg := false
	done := make(chan error, 1)
	go func() { done <- c.handleConn("x", duplex{in, out}) }()
	var err error
	ended := false
	for !ended {
		select {
		case <-newPeers(c):
			reg = true
		case err = <-done:
			ended = true
		case <-time.After(time.Minute):
			ended = true
			err = nil
		}
	}
	tr.emit(ev{"ev": "hs", "sent": n, "wfail": wfail, "err": err != nil, "reg": reg})
}

// ---------------------------------------------------------------------------
// the controller with peers of the driver

type observer struct {
	mu     sync.Mutex
	s, r   []int
	p      *peer
	closed bool
}

func (w *world) observe(c *controller, capacity int, slow time.Duration) *observer {
	o := &observer{}
	sc, rc := make(chan *ldpc.Transaction, capacity), make(chan *ldpc.Transaction, capacity)
	get := func(ch chan *ldpc.Transaction, to *[]int) {
		for t := range ch {
			o.mu.Lock()
			*to = append(*to, w.idOf(t))
			o.mu.Unlock()
			if slow > 0 {
				time.Sleep(slow)
			}
		}
	}
	go get(sc, &o.s)
	go get(rc, &o.r)
	o.p = &peer{}
	must(find[chan<- *ldpc.Transaction](o.p, "newTxToSender", "sender"), sc)
	must(find[chan<- *ldpc.Transaction](o.p, "newTxToReceiver", "receiver"), rc)
	newPeers(c) <- o.p
	return o
}

func fanout(r *rand.Rand) {
	w := newWorld(r)
	c := newController(params{K: 5, init: 64, min: 64, inc: 8, loss8: 1, timeout: time.Second}, []int{0, 1, 1000}[r.Intn(3)], []int{0, 1, 1000}[r.Intn(3)])
	if d := find[time.Duration](c, "warmupTime", "warmup"); d != nil {
		*d = time.Duration(r.Intn(3000)) * time.Millisecond
	}
	go c.loop()
	var obs []*observer
	from := []int{}
	inj := [][]int{}
	add := func() {
		synctest.Wait()
		obs = append(obs, w.observe(c, []int{0, 1, 100}[r.Intn(3)], []time.Duration{0, 0, time.Millisecond, 50 * time.Millisecond}[r.Intn(4)]))
		from = append(from, len(inj))
		synctest.Wait()
	}
	settle := func() { time.Sleep(30 * time.Second); synctest.Wait() }
	n := 10 + r.Intn(60)
	first := r.Intn(3)
	if r.Intn(4) == 0 {
		first = 9 + r.Intn(12)
	}
	for ; first > 0; first-- {
		add()
	}
	for i := 0; i < n; i++ {
		switch k := r.Intn(12); {
		case k == 0 && len(obs) < 5:
			settle() // everything injected so far has gone to those it concerns
			add()
		case k == 1:
			time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
		default:
			for b := []int{1, 1, 5, 30}[r.Intn(4)]; b > 0; b-- {
				x := w.newTx()
				if len(w.txs) > 3 && r.Intn(10) == 0 {
					x = 1 + r.Intn(len(w.txs)-2)
				}
				switch r.Intn(3) {
				case 0:
					localTxs(c) <- w.txs[x]
					inj = append(inj, []int{x, 0})
				case 1:
					decodedTxs(c) <- ldpc.DecodedTransaction{Transaction: w.txs[x], Expired: false}
					inj = append(inj, []int{x, 0})
				case 2:
					decodedTxs(c) <- ldpc.DecodedTransaction{Transaction: w.txs[x], Expired: true}
					inj = append(inj, []int{x, 1})
				}
			}
		}
	}
	settle()
	tr.emit(ev{"ev": "fan", "inj": inj})
	for i, o := range obs {
		tr.emit(ev{"ev": "got", "from": from[i], "s": ints(o.s), "r": ints(o.r)})
	}
}

// ---------------------------------------------------------------------------
// decoding cascades and bursts through real peers

type remote struct {
	in, out    *pipe
	key, their [ldpc.SaltSize]byte
	enc        *gob.Encoder
}

func connectRemote(r *rand.Rand, c *controller) *remote {
	x := &remote{in: newPipe(r, 0), out: newPipe(r, 0)}
	r.Read(x.key[:])
	x.in.Write(x.key[:])
	if err := c.handleConn("x", duplex{x.in, x.out}); err != nil {
		panic(err)
	}
	copy(x.their[:], x.out.all)
	x.enc = gob.NewEncoder(x.in)
	return x
}

func cascade(r *rand.Rand) {
	w := newWorld(r)
	c := newController(params{K: 50, init: 6400, min: 64, inc: 8, loss8: 1, timeout: time.Hour}, 1000, 1000)
	go c.loop()
	np := 1 + r.Intn(3)
	var rs []*remote
	for i := 0; i < np; i++ {
		rs = append(rs, connectRemote(r, c))
	}
	o := w.observe(c, 100, []time.Duration{0, 0, time.Microsecond}[r.Intn(3)])
	n := []int{50, 300, 1300, 2500}[r.Intn(4)]
	nloc := []int{0, 100, 1500}[r.Intn(3)]
	for i := 0; i < n; i++ {
		w.newTx()
	}
	for i := 0; i < nloc; i++ {
		w.newTx()
	}
	// transactions that a peer lets the node decode with the help of local ones
	latent := 0
	if r.Intn(3) > 0 {
		latent = min(nloc, 400)
	}
	for i := 0; i < latent; i++ {
		w.newTx()
	}
	// chains that are decoded at one stroke, once on every peer
	for k, x := range rs {
		per := n / np
		lo := k*per + 1
		send := func(ids ...int) {
			x.enc.Encode(Codeword{w.codeword(x.key, ids), 0, time.Now().UnixMicro()})
		}
		for i := lo; i+1 < lo+per; i++ {
			send(i, i+1)
		}
		if k == 0 {
			for i := per*np + 1; i <= n; i++ {
				send(i)
			}
		}
		if k == np-1 {
			for i := 1; i <= latent; i++ {
				send(n+i, n+nloc+i)
			}
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
	if r.Intn(2) == 0 { // hold up the codewords of the node
		for _, x := range rs {
			x.out.set(func() { x.out.held = true })
		}
	}
	fin := make(chan bool, 10)
	for k, x := range rs {
		go func() {
			x.enc.Encode(Codeword{w.codeword(x.key, []int{k*(n/np) + 1}), 0, time.Now().UnixMicro()})
			fin <- true
		}()
	}
	go func() {
		for i := 1; i <= nloc; i++ {
			localTxs(c) <- w.txs[n+i]
		}
		fin <- true
	}()
	time.Sleep(time.Minute)
	synctest.Wait()
	// is everybody still there?
	probe := w.newTx()
	resp := false
	select {
	case localTxs(c) <- w.txs[probe]:
	case <-time.After(time.Minute):
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	o.mu.Lock()
	for _, v := range o.s {
		resp = resp || v == probe
	}
	sort.Ints(o.s)
	sort.Ints(o.r)
	miss, bad := 0, 0
	seen := map[int]bool{}
	for _, v := range o.s {
		seen[v] = true
		if v == 0 {
			bad++
		}
	}
	seenR := map[int]bool{}
	for _, v := range o.r {
		seenR[v] = true
	}
	for i := 1; i < len(w.txs); i++ {
		if !seen[i] || !seenR[i] {
			miss++
		}
	}
	done := len(fin)
	o.mu.Unlock()
	tr.emit(ev{"ev": "casc", "n": n, "peers": np, "local": nloc, "missing": miss, "bad": bad, "answers": resp, "done": done == np+1})
}

// ---------------------------------------------------------------------------
// several nodes

func network(r *rand.Rand) {
	w := newWorld(r)
	n := 2 + r.Intn(3)
	p := params{K: 50, init: 64 * 400, min: 64 * 100, inc: 8, loss8: 1, timeout: 500 * time.Millisecond}
	var cs []*controller
	var obs []*observer
	for i := 0; i < n; i++ {
		c := newController(p, 1000, 1000)
		cs = append(cs, c)
		go c.loop()
	}
	edges := [][2]int{}
	for i := 1; i < n; i++ {
		edges = append(edges, [2]int{r.Intn(i), i})
	}
	var pipes []*pipe
	var wg sync.WaitGroup
	errs := 0
	for _, e := range edges {
		a, b := newPipe(r, fragments(r)), newPipe(r, fragments(r))
		pipes = append(pipes, a, b)
		wg.Add(2)
		go func() {
			if cs[e[0]].handleConn("a", duplex{a, b}) != nil {
				errs++
			}
			wg.Done()
		}()
		go func() {
			if cs[e[1]].handleConn("b", duplex{b, a}) != nil {
				errs++
			}
			wg.Done()
		}()
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		obs = append(obs, w.observe(cs[i], 100, 0))
	}
	origin := map[int]int{}
	for i := 0; i < 200; i++ {
		time.Sleep(10 * time.Millisecond)
		k := r.Intn(n)
		x := w.newTx()
		origin[x] = k
		cs[k].localTransaction <- w.txs[x]
	}
	time.Sleep(2 * time.Second)
	synctest.Wait()
	// nodes learn from their neighbours
	learned := []int{}
	bad := 0
	for i, o := range obs {
		l := 0
		o.mu.Lock()
		for _, v := range o.s {
			if v == 0 {
				bad++
			} else if origin[v] != i {
				l++
			}
		}
		for _, v := range o.r {
			if v == 0 {
				bad++
			}
		}
		o.mu.Unlock()
		learned = append(learned, l)
	}
	flow := true
	var before []int
	for _, q := range pipes {
		q.set(func() { before = append(before, len(q.all)) })
	}
	time.Sleep(5 * time.Second)
	synctest.Wait()
	for i, q := range pipes {
		q.set(func() { flow = flow && len(q.all) > before[i] })
	}
	tr.emit(ev{"ev": "net", "n": n, "gen": 200, "learned": learned, "bad": bad, "errs": errs, "flow": flow})
}

// ---------------------------------------------------------------------------

var (
	kind = flag.String("kind", "peer", "")
	seed = flag.Int64("seed", 1, "")
	nses = flag.Int("n", 100, "sessions")
	outf = flag.String("out", "trace.ndjson", "")
)

func TestVerif(t *testing.T) {
	log.SetOutput(io.Discard)
	tr = newTracer(*outf)
	body := map[string]func(*rand.Rand){"peer": peerSession, "hs": handshake, "fan": fanout, "casc": cascade, "net": network, "wire": wire, "slow": slowLoop}[*kind]
	if body == nil && (*kind == "wire" || *kind == "slow") { // left out of this build
		tr.close()
		os.Exit(0)
	}
	if body == nil {
		fmt.Fprintln(os.Stderr, "unknown kind", *kind)
		os.Exit(2)
	}
	for i := 0; i < *nses; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		done := make(chan bool, 1) // outside the bubble
		forever := make(chan bool)
		tr.emit(ev{"ev": "new", "kind": *kind})
		tr.flush() // a panic of the node ends this process
		go synctest.Test(t, func(*testing.T) {
			func() {
				defer func() {
					if x := recover(); x != nil {
						fmt.Fprintln(os.Stderr, "session crashed:", x)
						tr.emit(ev{"ev": "crash", "why": fmt.Sprint("panic: ", x)})
					}
				}()
				body(r)
			}()
			done <- true
			<-forever // the goroutines of the node never end: freeze them
		})
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			tr.emit(ev{"ev": "crash", "why": "hang"})
			fmt.Fprintln(os.Stderr, "session hangs")
			tr.close()
			os.Exit(0)
		}
	}
	tr.close()
	os.Exit(0)
}
