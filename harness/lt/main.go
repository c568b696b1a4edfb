//go:build go1.21

// Conformance driver for the three LT codecs (lt, iblt, ldpc). Uses their
// public APIs; codewords of lt and iblt are read and built by field type.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"slices"
	"time"
)

const maxID = 60

// content of a transaction: bit id%64 of word id/64 says which one it is, the
// words beyond the marks are random.  Worlds of up to 63 transactions need one
// word of marks, wide ones six.
type content struct {
	words [16]uint64
	w     int
	nonce uint64
}

var marks = 1

func marked(c content, id int, r *rand.Rand) content {
	c.words[id/64] |= 1 << (id % 64)
	for i := marks; i < c.w; i++ {
		c.words[i] = filler(r)
	}
	return c
}

// payload is the transaction data type given to lt and iblt
type payload [8]uint64

func (c content) asPayload() payload {
	p := payload{}
	copy(p[:], c.words[:8])
	return p
}

// (conversion used by the adapters)
func toPayload(w [16]uint64) payload { p := payload{}; copy(p[:], w[:8]); return p }

func plWords(p payload) []uint64 { return p[:] }

const plOwned = false

// ppayload is the same, held by pointer and combined in place
type ppayload payload

func (a *ppayload) XOR(b *ppayload) *ppayload {
	if a == nil {
		a = &ppayload{}
	}
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a *ppayload) Hash() []byte        { return payload(*a).Hash() }
func topPayload(w [16]uint64) *ppayload { p := ppayload(toPayload(w)); return &p }
func pplWords(p *ppayload) []uint64 {
	if p == nil {
		return make([]uint64, 8)
	}
	return p[:]
}

const pplOwned = true

var nonces = map[payload]uint64{}

func (a payload) XOR(b payload) payload {
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}

// Hash of a registered transaction is its nonce (so that salted hash conflicts
// can be arranged); anything else hashes to its content
func (a payload) Hash() []byte {
	if n, ok := nonces[a]; ok {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, n)
		return b
	}
	b := make([]byte, 64)
	for i := range a {
		binary.LittleEndian.PutUint64(b[i*8:], a[i])
	}
	return b
}

// filler is a word of a transaction: often random, sometimes equal to that of
// other transactions
func filler(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 0x0102030405060708
	}
	return r.Uint64()
}

type raw struct {
	words   [16]uint64
	members []uint32
	nat     *any // the codeword itself, once there is one
}

type released struct {
	get     func() []uint64
	hashOK  func() bool
	expired bool
	late    func() bool // what expired is now
}

type stub interface {
	decoded() bool
	free() bool
}
type encoder interface {
	add(c content) bool
	produce() raw
	reset(deg *degrees, ws int)
}
type decoder interface {
	addCodeword(w raw) (stub, []released)
	addTransaction(c content) []released
	count() int
	known(c content) int
}
type codec interface {
	name() string
	view(nat any) raw // what is in a codeword now
	random(r *rand.Rand, id int) content
	newEncoder(salt [16]byte, deg *degrees, ws int, r *rand.Rand) encoder
	newDecoder(salt [16]byte, memory int) decoder
}

// degrees is a degree distribution under the control of the driver
type degrees struct{ next uint64 }

func (d *degrees) Uint64() uint64 { return d.next }

// ---------------------------------------------------------------------------

type world struct {
	cd    codec
	r     *rand.Rand
	salt  [16]byte
	txs   map[int]content
	hash  map[int]uint32
	class map[uint32]int

	encs map[int]encoder
	held map[int][]raw // codewords produced
	degs map[int]*degrees
	decs map[int]*dstate
	seen int // observations
}

type dstate struct {
	d     decoder
	stubs []stub
	freed []bool
	out   []released
	ids   []int
}

var tr *tracer

var newWorldHooks []func()

func onNewWorld(f func()) { newWorldHooks = append(newWorldHooks, f) }

func newWorld(cd codec, r *rand.Rand, kind string) *world {
	for _, f := range newWorldHooks {
		f()
	}
	marks = 1
	w := &world{cd: cd, r: r, txs: map[int]content{}, hash: map[int]uint32{}, class: map[uint32]int{},
		encs: map[int]encoder{}, held: map[int][]raw{}, degs: map[int]*degrees{}, decs: map[int]*dstate{}}
	r.Read(w.salt[:])
	return w
}

// saltedHash as the codec's encoder shows it
func saltedHash(cd codec, salt [16]byte, c content, r *rand.Rand) uint32 {
	if c.w == 8 {
		nonces[c.asPayload()] = c.nonce
	}
	e := cd.newEncoder(salt, &degrees{1}, 1, r)
	e.add(c)
	return e.produce().members[0]
}

func (w *world) register(id int, c content) {
	w.txs[id] = c
	h := saltedHash(w.cd, w.salt, c, w.r)
	w.hash[id] = h
	if _, ok := w.class[h]; !ok {
		w.class[h] = len(w.class) + 1
	}
}

func (w *world) start(kind string, n int) {
	nonces = map[payload]uint64{}
	for id := 1; id <= n; id++ {
		if _, ok := w.txs[id]; !ok {
			w.register(id, w.cd.random(w.r, id))
		} else if w.txs[id].w == 8 {
			nonces[w.txs[id].asPayload()] = w.txs[id].nonce
		}
	}
	cls := []int{}
	for id := 1; id <= n; id++ {
		cls = append(cls, w.class[w.hash[id]])
	}
	tr.emit(ev{"ev": "new", "kind": kind, "codec": w.cd.name(), "cls": cls})
}

// project maps data to the set of transactions it combines; 0 marks data that
// is no combination of transactions
func (w *world) project(words []uint64) []int {
	res := []int{}
	var sum [16]uint64
	for id := 0; id < 64*marks; id++ {
		if words[id/64]&(1<<(id%64)) != 0 {
			c, ok := w.txs[id]
			if !ok {
				return []int{0}
			}
			res = append(res, id)
			for i := range sum {
				sum[i] ^= c.words[i]
			}
		}
	}
	for i := range words {
		if sum[i] != words[i] {
			return append([]int{0}, res...)
		}
	}
	return res
}

func (w *world) classes(members []uint32) []int {
	res := []int{}
	for _, m := range members {
		res = append(res, w.class[m]) // 0: unknown hash
	}
	return res
}

// combine builds the codeword of the given transactions
func (w *world) combine(ids []int) raw {
	r := raw{nat: new(any)}
	for _, id := range ids {
		c := w.txs[id]
		for i := range r.words {
			r.words[i] ^= c.words[i]
		}
		r.members = append(r.members, w.hash[id])
	}
	return r
}

func (w *world) encNew(e, ws int) {
	w.degs[e] = &degrees{1}
	w.encs[e] = w.cd.newEncoder(w.salt, w.degs[e], ws, w.r)
	tr.emit(ev{"ev": "en", "e": e, "ws": ws})
}
func (w *world) encReset(e, ws int) {
	w.degs[e] = &degrees{1}
	w.encs[e].reset(w.degs[e], ws)
	tr.emit(ev{"ev": "er", "e": e, "ws": ws})
}
func (w *world) encAdd(e, id int) {
	ok := w.encs[e].add(w.txs[id])
	tr.emit(ev{"ev": "ea", "e": e, "x": id, "ok": ok})
}
func (w *world) encProduce(e int, deg int) raw {
	w.degs[e].next = uint64(deg)
	cw := w.encs[e].produce()
	tr.emit(ev{"ev": "ep", "e": e, "deg": deg, "s": w.project(cw.words[:]), "m": w.classes(cw.members)})
	if len(w.held[e]) < 50 {
		w.held[e] = append(w.held[e], cw)
	}
	return cw
}

// encKept looks at codewords produced earlier once more
func (w *world) encKept(e int) {
	ok := true
	for _, c := range w.held[e] {
		v := w.cd.view(*c.nat)
		ok = ok && v.words == c.words && slices.Equal(v.members, c.members)
	}
	if len(w.held[e]) > 0 {
		tr.emit(ev{"ev": "ek", "e": e, "ok": ok})
	}
	w.held[e] = nil
}

// encCover draws many small codewords and logs which members were ever drawn
func (w *world) encCover(e, deg, draws int) {
	w.degs[e].next = uint64(deg)
	seen := map[int]bool{}
	good := true
	for i := 0; i < draws; i++ {
		cw := w.encs[e].produce()
		for _, c := range w.classes(cw.members) {
			seen[c] = true
		}
	}
	l := []int{}
	for c := range seen {
		l = append(l, c)
	}
	tr.emit(ev{"ev": "ec", "e": e, "seen": l, "good": good})
}

func (w *world) decNew(d, mem int) {
	w.decs[d] = &dstate{d: w.cd.newDecoder(w.salt, mem)}
	tr.emit(w.observe(ev{"ev": "dn", "d": d, "mem": mem}, d))
}

// observe adds everything that can be seen of a decoder without changing it
func (w *world) observe(e ev, d int) ev {
	s := w.decs[d]
	done := []int{}
	for i, st := range s.stubs {
		if !s.freed[i] && st.decoded() {
			done = append(done, i+1)
		}
	}
	e["done"] = done
	e["count"] = s.d.count()
	w.seen++
	if marks > 1 && w.seen%10 != 0 && e["ev"] != "dn" { // large worlds: not every time
		e["intact"] = true
		return e
	}
	kn := []int{}
	sup := true
	for id := range w.txs {
		switch s.d.known(w.txs[id]) {
		case 1:
			kn = append(kn, id)
		case -1:
			sup = false
		}
	}
	if sup {
		e["known"] = kn
	}
	intact := true
	for _, s := range w.decs {
		for i, o := range s.out {
			p := w.project(o.get())
			if len(p) != 1 || p[0] != s.ids[i] || !o.hashOK() || (o.late != nil && o.late() != o.expired) {
				intact = false
			}
		}
	}
	e["intact"] = intact
	return e
}

func (w *world) rel(d int, rs []released) ([]int, []int) {
	s := w.decs[d]
	ids, exp := []int{}, []int{}
	for _, x := range rs {
		p := w.project(x.get())
		id := 0
		if len(p) == 1 && x.hashOK() {
			id = p[0]
		}
		ids = append(ids, id)
		e := 0
		if x.expired {
			e = 1
		}
		exp = append(exp, e)
		s.out = append(s.out, x)
		s.ids = append(s.ids, id)
	}
	return ids, exp
}

func (w *world) decCodeword(d int, cw raw) int {
	s := w.decs[d]
	e := ev{"ev": "dc", "d": d, "s": w.project(cw.words[:]), "m": w.classes(cw.members)}
	st, rs := s.d.addCodeword(cw)
	s.stubs = append(s.stubs, st)
	s.freed = append(s.freed, false)
	e["rel"], e["exp"] = w.rel(d, rs)
	tr.emit(w.observe(e, d))
	return len(s.stubs)
}
func (w *world) decTx(d, id int) {
	rs := w.decs[d].d.addTransaction(w.txs[id])
	e := ev{"ev": "dt", "d": d, "x": id}
	e["rel"], e["exp"] = w.rel(d, rs)
	tr.emit(w.observe(e, d))
}
func (w *world) decFree(d, i int) {
	s := w.decs[d]
	if !s.freed[i-1] && s.stubs[i-1].free() {
		s.freed[i-1] = true
		tr.emit(w.observe(ev{"ev": "df", "d": d, "i": i}, d))
	}
}

func pick(r *rand.Rand, from []int, k int) []int {
	p := r.Perm(len(from))
	res := []int{}
	for _, i := range p {
		if len(res) == k {
			break
		}
		res = append(res, from[i])
	}
	return res
}

func upto(n int) []int {
	res := []int{}
	for i := 1; i <= n; i++ {
		res = append(res, i)
	}
	return res
}

func degree(r *rand.Rand, n int) int {
	switch r.Intn(6) {
	case 0:
		return 1
	case 1, 2:
		return 2
	case 3:
		return 3
	case 4:
		return 1 + r.Intn(n)
	}
	return 2 + r.Intn(3)
}

// ---------------------------------------------------------------------------

func sessWindow(cd codec, r *rand.Rand) {
	w := newWorld(cd, r, "window")
	n := 3 + r.Intn(14)
	if r.Intn(3) == 0 {
		w.conflicts([]int{1, 2})
	}
	w.start("window", n)
	ws := r.Intn(n + 2)
	w.encNew(1, ws)
	cur := []int{}
	full := func() {
		if ws > 0 && len(cur) > 0 {
			w.encProduce(1, 1000)
		}
	}
	for step := 0; step < 60; step++ {
		switch r.Intn(10) {
		case 0:
			if r.Intn(3) == 0 {
				ws = r.Intn(n + 2)
				w.encReset(1, ws)
				cur = cur[:0]
			} else if r.Intn(3) == 0 {
				w.encKept(1)
			}
		case 1, 2, 3:
			if ws > 0 && len(cur) > 0 {
				w.encProduce(1, 1+r.Intn(n))
			}
		default:
			id := 1 + r.Intn(n)
			w.encAdd(1, id)
			cur = append(cur, id)
			full()
		}
	}
	if ws > 0 && len(cur) > 0 {
		d := 1 + r.Intn(2)
		w.encKept(1)
		w.encCover(1, d, 60*n)
		w.encProduce(1, 1+r.Intn(n))
		full()
	}
}

func sessPlain(cd codec, r *rand.Rand, kind string) {
	w := newWorld(cd, r, kind)
	n := 2 + r.Intn(12)
	steps := 10 + r.Intn(40)
	mem := 1000
	if kind == "memory" {
		mem = r.Intn(n + 1)
		steps = 30 + r.Intn(40)
	}
	w.start(kind, n)
	w.decNew(1, mem)
	all := upto(n)
	var hist []raw
	ptx := []int{0, 1, 3}[r.Intn(3)]
	for s := 0; s < steps; s++ {
		x := r.Intn(10)
		switch {
		case x < ptx:
			w.decTx(1, 1+r.Intn(n))
		case x == 9 && len(hist) > 0:
			w.decCodeword(1, hist[r.Intn(len(hist))]) // a duplicate
		default:
			cw := w.combine(pick(r, all, degree(r, n)))
			hist = append(hist, cw)
			w.decCodeword(1, cw)
		}
	}
}

// sessPipe: encoder to decoder over a sliding window
func sessPipe(cd codec, r *rand.Rand, kind string) {
	w := newWorld(cd, r, kind)
	n := 4 + r.Intn(30)
	w.start(kind, n)
	ws := 2 + r.Intn(8)
	w.encNew(1, ws)
	w.decNew(1, 1000)
	late := r.Intn(2) == 0 // codewords wait somewhere on their way
	var way []raw
	for id := 1; id <= n; id++ {
		w.encAdd(1, id)
		if r.Intn(3) == 0 {
			w.decTx(1, 1+r.Intn(n))
		}
		for k := r.Intn(3); k > 0; k-- {
			way = append(way, w.encProduce(1, degree(r, ws)))
		}
		for len(way) > 0 && (!late || id == n || r.Intn(2) == 0) {
			w.decCodeword(1, way[0])
			way = way[1:]
		}
	}
}

// conflicts gives the transactions equal salted hashes
func (w *world) conflicts(ids []int) {
	seen := map[uint32]content{}
	a, b := ids[0], ids[1]
	for k := 0; ; k++ {
		id := a
		if k%2 == 1 {
			id = b
		}
		c := w.cd.random(w.r, id)
		h := quickHash(w.cd, w.salt, c, w.r)
		if o, ok := seen[h]; ok && o.words[0] != c.words[0] {
			if id == a {
				w.register(a, c)
				w.register(b, o)
			} else {
				w.register(a, o)
				w.register(b, c)
			}
			if w.hash[a] != w.hash[b] {
				panic("the salted hash of a transaction differs between encoders")
			}
			return
		}
		seen[h] = c
	}
}

func quickHash(cd codec, salt [16]byte, c content, r *rand.Rand) uint32 {
	h := saltedHash(cd, salt, c, r)
	if c.w == 8 {
		delete(nonces, c.asPayload())
	}
	return h
}

// conflict pools: salt plus conflicting transactions, found once per process
type conflictSet struct {
	salt [16]byte
	txs  map[int]content
}

var pools = map[string][]conflictSet{}

func conflictPool(cd codec, r *rand.Rand) conflictSet {
	if len(pools[cd.name()]) < 3 {
		w := newWorld(cd, r, "")
		w.conflicts([]int{1, 2})
		w.conflicts([]int{3, 4})
		pools[cd.name()] = append(pools[cd.name()], conflictSet{w.salt, w.txs})
	}
	p := pools[cd.name()]
	return p[r.Intn(len(p))]
}

func sessConflict(cd codec, r *rand.Rand) {
	cs := conflictPool(cd, r)
	w := newWorld(cd, r, "conflict")
	w.salt = cs.salt
	nonces = map[payload]uint64{}
	for id, c := range cs.txs {
		w.register(id, c)
	}
	n := 5 + r.Intn(6)
	w.start("conflict", n)
	mem := 1000
	if r.Intn(3) == 0 {
		mem = 1 + r.Intn(n)
	}
	w.decNew(1, mem)
	all := upto(n)
	malformed := r.Intn(2) == 0
	var hist []raw
	for s := 0; s < 40; s++ {
		x := r.Intn(12)
		switch {
		case x < 2:
			w.decTx(1, 1+r.Intn(n))
		case x == 2 && len(hist) > 0:
			w.decCodeword(1, hist[r.Intn(len(hist))])
		case x == 3 && malformed:
			// symbol and members have nothing to do with each other
			cw := w.combine(pick(r, all, r.Intn(4)))
			cw.members = w.combine(pick(r, all, r.Intn(4))).members
			w.decCodeword(1, cw)
		case x == 4 && malformed:
			// duplicate or unknown members, or data of no transaction
			cw := w.combine(pick(r, all, 1+r.Intn(3)))
			switch r.Intn(4) {
			case 0:
				cw.members = append(cw.members, cw.members[r.Intn(len(cw.members))])
			case 1:
				h := r.Uint32()
				if _, ok := w.class[h]; !ok {
					w.class[h] = len(w.class) + 1
				}
				cw.members = append(cw.members, h)
			case 2:
				cw.words[3] ^= 1 + r.Uint64()
			case 3:
				cw.members = nil
			}
			w.decCodeword(1, cw)
		default:
			cw := w.combine(pick(r, all, degree(r, n)))
			hist = append(hist, cw)
			w.decCodeword(1, cw)
		}
	}
}

// sessPool: several decoders of the pooled codec, freeing handles
func sessPool(cd codec, r *rand.Rand) {
	n := 3 + r.Intn(10)
	w := newWorld(cd, r, "pool")
	if r.Intn(3) == 0 {
		cs := conflictPool(cd, r)
		w.salt = cs.salt
		for id, c := range cs.txs {
			if id <= n {
				w.register(id, c)
			}
		}
	}
	w.start("pool", n)
	nd := 1 + r.Intn(3)
	for d := 1; d <= nd; d++ {
		mem := 1000
		if r.Intn(4) == 0 {
			mem = 1 + r.Intn(n)
		}
		w.decNew(d, mem)
	}
	all := upto(n)
	var hist []raw
	pfree := 1 + r.Intn(5)
	for s := 0; s < 60; s++ {
		d := 1 + r.Intn(nd)
		st := w.decs[d]
		switch x := r.Intn(10); {
		case x < pfree && len(st.stubs) > 0:
			k := len(st.stubs)
			if k > 12 && r.Intn(2) == 0 {
				w.decFree(d, k-r.Intn(12))
			} else {
				w.decFree(d, 1+r.Intn(k))
			}
		case x == 9:
			w.decTx(d, 1+r.Intn(n))
		default:
			if len(hist) > 0 && r.Intn(5) == 0 {
				w.decCodeword(d, hist[r.Intn(len(hist))]) // one that some decoder had
				break
			}
			hist = append(hist, w.combine(pick(r, all, degree(r, n))))
			w.decCodeword(d, hist[len(hist)-1])
		}
		if s == 30 && r.Intn(8) == 0 {
			w.decNew(nd+1, 1000)
			nd++
		}
	}
}

// ---------------------------------------------------------------------------
// large worlds: hundreds of transactions, windows, members and codewords

func newWide(cd codec, r *rand.Rand, kind string, n int) *world {
	w := newWorld(cd, r, kind)
	marks = 6
	w.start(kind, n)
	return w
}

func sessBigWindow(cd codec, r *rand.Rand) {
	n := 310 + r.Intn(70)
	w := newWide(cd, r, "window", n)
	ws := []int{65, 129, 100 + r.Intn(n-99), 257, n, n + 100}[r.Intn(6)]
	w.encNew(1, ws)
	for _, id := range append(r.Perm(n), r.Perm(n)[:40]...) {
		w.encAdd(1, id+1)
		if r.Intn(25) == 0 {
			w.encProduce(1, []int{1, 2, 40, 65, 100, 129, 200, 257, ws, ws - 1, ws + 50, 100000}[r.Intn(12)])
		}
	}
	w.encKept(1)
	for _, d := range []int{1, 2, 33, 41, 64, 65, 101, 128, 129, 150, 201, 256, 257, 300, ws - 1, ws, ws + 50} {
		w.encProduce(1, d)
	}
	w.encKept(1)
	w.encCover(1, 1+r.Intn(2), 40*n)
	w.encReset(1, 300)
	for _, id := range r.Perm(n) {
		w.encAdd(1, id+1)
	}
	w.encProduce(1, 1000)
	w.encProduce(1, 150+r.Intn(150))
	w.encCover(1, 1+r.Intn(2), 12000)
}

func sessBigDecode(cd codec, r *rand.Rand, kind string, which int) {
	n := 200 + r.Intn(130)
	w := newWide(cd, r, kind, n)
	if kind == "pool" {
		w.decNew(2, 1000)
	}
	mem := 100000
	w.decNew(1, mem)
	all := r.Perm(n)
	for i := range all {
		all[i]++
	}
	m := 150 + r.Intn(n-155) // transactions that take part in the structure
	give := func(ids []int) int { return w.decCodeword(1, w.combine(pick(r, ids, len(ids)))) }
	start := func(id int) {
		if r.Intn(2) == 0 {
			w.decTx(1, id)
		} else {
			give([]int{id})
		}
	}
	switch which % 5 {
	case 0: // a chain, released by one end
		for _, i := range r.Perm(m - 1) {
			give([]int{all[i], all[i+1]})
		}
		start(all[0])
	case 1: // the same in order and against it
		for i := 0; i < m-1; i++ {
			k := i
			if m%2 == 0 {
				k = m - 2 - i
			}
			give([]int{all[k], all[k+1]})
		}
		start(all[0])
	case 2: // all codewords wait for the same transactions
		x, y := all[n-1], all[n-2]
		for i := 0; i < m; i++ {
			if i%3 == 0 {
				give([]int{x, all[i], y})
			} else {
				give([]int{x, all[i]})
			}
		}
		start(x)
		start(y)
	case 3: // codewords of many members
		for k := 0; k < 3; k++ {
			give(all[:m+k])
			give(all[:m])
		}
		for _, i := range r.Perm(m)[:m-1] {
			w.decTx(1, all[i])
		}
		for k := 0; k < 4; k++ {
			give(all[:m])
		}
	case 4: // random ones, until everything peels
		for k := 0; k < n+n/3; k++ {
			d := 2
			if r.Intn(2) == 0 {
				d = 1 + int(1/(r.Float64()+1/float64(n)))
			}
			give(pick(r, all, min(d, n)))
			if kind == "pool" {
				w.decFree(1, 1+r.Intn(k+1))
				if k%3 == 0 {
					w.decCodeword(2, w.combine(pick(r, all, 1+r.Intn(3))))
					w.decFree(2, 1+r.Intn(k/3+1))
				}
			}
		}
		for i := 0; i < n; i += 7 {
			w.decTx(1, all[i])
		}
	}
	w.seen = 9
	w.decTx(1, all[0])
}

// sessBigMemory: transactions come back to codewords around the point at which
// they are forgotten
func sessBigMemory(cd codec, r *rand.Rand) {
	n := 150 + r.Intn(150)
	w := newWide(cd, r, "memory", n)
	mem := []int{65, 64, 100, 129, 128, 70 + r.Intn(n-80)}[r.Intn(6)]
	w.decNew(1, mem)
	order := r.Perm(n)
	for i, id := range order {
		if i > 3 && r.Intn(3) == 0 {
			w.decCodeword(1, w.combine([]int{id + 1, order[i-1-r.Intn(3)] + 1}))
		} else {
			w.decTx(1, id+1)
		}
		if i > mem-3 && r.Intn(4) == 0 {
			old := i - mem + r.Intn(5) - 2
			if old >= 0 && old < i {
				w.decCodeword(1, w.combine([]int{order[old] + 1, order[(i+5)%n] + 1}))
			}
		}
	}
	for k := 0; k < 20; k++ {
		old := max(0, n-mem-r.Intn(20))
		w.decCodeword(1, w.combine([]int{order[old] + 1}))
	}
	w.seen = 9
	w.decTx(1, order[n-1]+1)
}

// ---------------------------------------------------------------------------
// bounded-exhaustive sequences of operations

// op k over n transactions: 0..n-1 learn a transaction, then the codewords of
// all non-empty subsets
func (w *world) op(d, n, k int) {
	if k < n {
		w.decTx(d, k+1)
		return
	}
	w.decCodeword(d, w.combine(bits(k-n+1)))
}

func bits(m int) []int {
	ids := []int{}
	for i := 0; 1<<i <= m; i++ {
		if m&(1<<i) != 0 {
			ids = append(ids, i+1)
		}
	}
	return ids
}

func exhaustive(cd codec, r *rand.Rand, n, depth, mem, from, step int) {
	base := newWorld(cd, r, "exh")
	base.start("exh", n) // registers the transactions
	kinds := n + 1<<n - 1
	total := 1
	for i := 0; i < depth; i++ {
		total *= kinds
	}
	for c := from; c < total; c += step {
		w := &world{cd: cd, r: r, salt: base.salt, txs: base.txs, hash: base.hash, class: base.class,
			encs: map[int]encoder{}, held: map[int][]raw{}, degs: map[int]*degrees{}, decs: map[int]*dstate{}}
		tr.session(20*time.Second, func() {
			kind := "plain"
			if mem < n {
				kind = "memory"
			}
			w.start(kind, n)
			w.decNew(1, mem)
			x := c
			for i := 0; i < depth; i++ {
				w.op(1, n, x%kinds)
				x /= kinds
			}
		})
	}
}

// ---------------------------------------------------------------------------
// replay of behaviours generated by TLC

type genStep struct {
	Op   string `json:"op"`
	X    int    `json:"x"`
	S    []int  `json:"s"`
	Rel  []int  `json:"rel"`
	Done []int  `json:"done"`
}
type genBehaviour struct {
	N    int       `json:"n"`
	Mem  int       `json:"mem"`
	Hist []genStep `json:"hist"`
}

func sameSet(a, b []int) bool {
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	if len(m) != len(a) || len(a) != len(b) {
		return false
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return true
}

func replay(cd codec, path string, seed int64) {
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	r := rand.New(rand.NewSource(seed))
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n, steps := 0, 0
	var base *world
	for sc.Scan() {
		var g genBehaviour
		if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
			fmt.Fprintln(os.Stderr, "bad behaviour:", err)
			os.Exit(2)
		}
		line := append([]byte{}, sc.Bytes()...)
		if base == nil || len(base.txs) != g.N {
			base = newWorld(cd, r, "")
			nonces = map[payload]uint64{}
			for id := 1; id <= g.N; id++ {
				base.register(id, cd.random(r, id))
			}
		}
		w := base
		n++
		tr.session(20*time.Second, func() {
			s := &dstate{d: cd.newDecoder(w.salt, g.Mem)}
			w.decs[1] = s
			for i, st := range g.Hist {
				steps++
				var rs []released
				if st.Op == "tx" {
					rs = s.d.addTransaction(w.txs[st.X])
				} else {
					var sb stub
					sb, rs = s.d.addCodeword(w.combine(st.S))
					s.stubs = append(s.stubs, sb)
					s.freed = append(s.freed, false)
				}
				ids, _ := w.rel(1, rs)
				done := []int{}
				for k, sb := range s.stubs {
					if sb.decoded() {
						done = append(done, k+1)
					}
				}
				if !sameSet(ids, st.Rel) || !sameSet(done, st.Done) {
					tr.emit(ev{"ev": "mismatch", "codec": cd.name(), "step": i + 1, "why": fmt.Sprint("released ", ids, " decoded ", done), "behaviour": json.RawMessage(line)})
					return
				}
			}
		})
	}
	fmt.Printf("REPLAYED behaviours=%d steps=%d\n", n, steps)
}

func main() {
	kind := flag.String("kind", "plain", "")
	name := flag.String("codec", "lt", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "sessions")
	out := flag.String("out", "trace.ndjson", "")
	in := flag.String("in", "", "")
	depth := flag.Int("depth", 3, "")
	ntx := flag.Int("tx", 3, "")
	mem := flag.Int("mem", 1000, "")
	from := flag.Int("from", 0, "")
	step := flag.Int("step", 1, "")
	flag.Parse()
	var cd codec
	for _, c := range []codec{ltCodec{}, ibltCodec{}, ldpcCodec{}} {
		if c.name() == *name {
			cd = c
		}
	}
	tr = newTracer(*out)
	defer tr.close()
	r := rand.New(rand.NewSource(*seed * 7919))
	rand.Seed(*seed)
	switch *kind {
	case "replay":
		replay(cd, *in, *seed)
		return
	case "exh":
		exhaustive(cd, r, *ntx, *depth, *mem, *from, *step)
		return
	}
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		cd := cd
		if i%3 == 2 {
			// transactions held by pointer
			switch cd.(type) {
			case ltCodec:
				cd = ltpCodec{}
			case ibltCodec:
				cd = ibltpCodec{}
			}
		}
		tr.session(60*time.Second, func() {
			switch *kind {
			case "window":
				sessWindow(cd, r)
			case "pipe":
				sessPipe(cd, r, "plain")
			case "plain":
				if r.Intn(3) == 0 {
					sessPipe(cd, r, "plain")
				} else {
					sessPlain(cd, r, "plain")
				}
			case "memory":
				sessPlain(cd, r, "memory")
			case "bigwindow":
				sessBigWindow(cd, r)
			case "bigplain":
				sessBigDecode(cd, r, "plain", int(*seed%100)**n+i)
			case "bigpool":
				sessBigDecode(cd, r, "pool", int(*seed%100)**n+i)
			case "bigmemory":
				sessBigMemory(cd, r)
			case "conflict":
				sessConflict(cd, r)
			case "pool":
				sessPool(cd, r)
			default:
				fmt.Fprintln(os.Stderr, "unknown kind", *kind)
				os.Exit(2)
			}
		})
	}
}
