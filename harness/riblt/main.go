//go:build go1.21

// Conformance driver for package riblt. Uses the public API only; the fields
// of coded symbols are read by their types.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

const words = 8 // symbols 1..512

// payload: a bit per symbol plus a tail that depends on the symbol
type payload struct {
	Bits [words]uint64
	Tail [2]uint64
}

var hashOf = map[[words]uint64]uint64{}

// the hash function of a session may leave some of the 64 bits fixed
var famMask, famFixed = ^uint64(0), uint64(0)
var tailOf = map[[words]uint64][2]uint64{}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (p *payload) hash() uint64 {
	if h, ok := hashOf[p.Bits]; ok && tailOf[p.Bits] == p.Tail {
		return h
	}
	h := uint64(0x1234567)
	for _, w := range p.Bits {
		h = mix(h ^ w)
	}
	h = mix(h ^ p.Tail[0])
	return mix(h^p.Tail[1])&famMask | famFixed
}

func (p *payload) xor(q *payload) {
	for i := range p.Bits {
		p.Bits[i] ^= q.Bits[i]
	}
	p.Tail[0] ^= q.Tail[0]
	p.Tail[1] ^= q.Tail[1]
}

// ids projects a payload onto the set of symbols it combines. A payload that
// is no combination of symbols yields the impossible symbol 0.
func (p *payload) ids() []int {
	res := []int{}
	q := payload{}
	for i := 1; i <= words*64; i++ {
		if p.Bits[(i-1)/64]&(1<<((i-1)%64)) != 0 {
			res = append(res, i)
			s := mkPayload(i)
			if _, ok := hashOf[s.Bits]; !ok {
				return []int{0}
			}
			q.xor(&s)
		}
	}
	if q != *p {
		return append([]int{0}, res...)
	}
	return res
}

func mkPayload(i int) payload {
	p := payload{}
	p.Bits[(i-1)/64] = 1 << ((i - 1) % 64)
	p.Tail = tailOf[p.Bits]
	return p
}

func register(i int, hash uint64, r *rand.Rand) {
	p := payload{}
	p.Bits[(i-1)/64] = 1 << ((i - 1) % 64)
	hashOf[p.Bits] = hash
	tailOf[p.Bits] = [2]uint64{r.Uint64(), r.Uint64()}
}

func clearSymbols() {
	hashOf = map[[words]uint64]uint64{}
	tailOf = map[[words]uint64][2]uint64{}
	famMask, famFixed = ^uint64(0), 0
}

// value representation
type vsym payload

func (a vsym) XOR(b vsym) vsym {
	p := payload(a)
	q := payload(b)
	p.xor(&q)
	return vsym(p)
}
func (a vsym) Hash() uint64 { p := payload(a); return p.hash() }

// pointer representation; XOR modifies the receiver as the interface allows
type psym struct{ p payload }

func (a *psym) XOR(b *psym) *psym {
	if a == nil {
		a = &psym{}
	}
	a.p.xor(&b.p)
	return a
}
func (a *psym) Hash() uint64 { return a.p.hash() }

type rep[T riblt.Symbol[T]] struct {
	mk  func(i int) T
	get func(T) *payload // nil: default value
}

var valueRep = rep[vsym]{
	mk:  func(i int) vsym { return vsym(mkPayload(i)) },
	get: func(s vsym) *payload { p := payload(s); return &p },
}
var pointerRep = rep[*psym]{
	mk: func(i int) *psym { return &psym{mkPayload(i)} },
	get: func(s *psym) *payload {
		if s == nil {
			return nil
		}
		return &s.p
	},
}

var tr *tracer

// project reads a coded symbol by the types of its fields
func project[T riblt.Symbol[T]](rp rep[T], c riblt.CodedSymbol[T]) ev {
	v := reflect.ValueOf(&c).Elem()
	var sum T
	sumType := reflect.TypeOf((*T)(nil)).Elem()
	var count int64
	var check uint64
	var found int
	for i := 0; i < v.NumField(); i++ {
		f := reflect.NewAt(v.Field(i).Type(), v.Field(i).Addr().UnsafePointer()).Elem()
		switch {
		case f.Type() == sumType:
			sum = f.Interface().(T)
			found |= 1
		case f.Kind() == reflect.Int64 || f.Kind() == reflect.Int || f.Kind() == reflect.Int32:
			count = f.Int()
			found |= 2
		case f.Kind() == reflect.Uint64:
			check = f.Uint()
			found |= 4
		}
	}
	if found != 7 {
		fmt.Fprintln(os.Stderr, "coded symbols do not have the expected fields")
		os.Exit(2)
	}
	p := rp.get(sum)
	if p == nil {
		p = &payload{}
	}
	ids := p.ids()
	var want uint64
	for _, i := range ids {
		if i > 0 {
			q := mkPayload(i)
			want ^= hashOf[q.Bits]
		}
	}
	if count > 1000000 || count < -1000000 {
		count = 1000000
	}
	return ev{"s": ids, "n": count, "c": check == want}
}

type world[T riblt.Symbol[T]] struct {
	rp   rep[T]
	r    *rand.Rand
	encs map[int]*riblt.Encoder[T]
	decs map[int]*riblt.Decoder[T]
	sks  map[int]riblt.Sketch[T]
}

func newWorld[T riblt.Symbol[T]](rp rep[T], r *rand.Rand) *world[T] {
	return &world[T]{rp, r, map[int]*riblt.Encoder[T]{}, map[int]*riblt.Decoder[T]{}, map[int]riblt.Sketch[T]{}}
}

func (w *world[T]) hs(i int) riblt.HashedSymbol[T] {
	s := w.rp.mk(i)
	return riblt.HashedSymbol[T]{Symbol: s, Hash: s.Hash()}
}

func (w *world[T]) encNew(e int) {
	w.encs[e] = &riblt.Encoder[T]{}
	tr.emit(ev{"ev": "en", "e": e})
}
func (w *world[T]) encAdd(e, i int) {
	if w.r.Intn(2) == 0 {
		w.encs[e].AddSymbol(w.rp.mk(i))
	} else {
		w.encs[e].AddHashedSymbol(w.hs(i))
	}
	tr.emit(ev{"ev": "ea", "e": e, "s": i})
}
func (w *world[T]) encProduce(e int) riblt.CodedSymbol[T] {
	c := w.encs[e].ProduceNextCodedSymbol()
	tr.emit(ev{"ev": "ep", "e": e, "cell": project(w.rp, c)})
	return c
}
func (w *world[T]) encReset(e int) {
	w.encs[e].Reset()
	tr.emit(ev{"ev": "er", "e": e})
}

func (w *world[T]) results(res []riblt.HashedSymbol[T]) ([]int, bool) {
	ids := []int{}
	ok := true
	for _, h := range res {
		p := w.rp.get(h.Symbol)
		if p == nil {
			p = &payload{}
		}
		x := p.ids()
		if len(x) == 1 && x[0] > 0 {
			q := mkPayload(x[0])
			if hashOf[q.Bits] != h.Hash {
				ok = false
			}
			ids = append(ids, x[0])
		} else {
			ok = false
			ids = append(ids, 0)
		}
	}
	return ids, ok
}

func (w *world[T]) decState(e ev, d *riblt.Decoder[T]) ev {
	R, ok1 := w.results(d.Remote())
	L, ok2 := w.results(d.Local())
	e["R"], e["L"], e["ok"], e["dec"] = R, L, ok1 && ok2, d.Decoded()
	return e
}

func (w *world[T]) decNew(d int) {
	w.decs[d] = &riblt.Decoder[T]{}
	tr.emit(w.decState(ev{"ev": "dn", "d": d}, w.decs[d]))
}
func (w *world[T]) decAdd(d, i int) {
	if w.r.Intn(2) == 0 {
		w.decs[d].AddSymbol(w.rp.mk(i))
	} else {
		w.decs[d].AddHashedSymbol(w.hs(i))
	}
	tr.emit(ev{"ev": "da", "d": d, "s": i})
}
func (w *world[T]) decCoded(d int, c riblt.CodedSymbol[T]) {
	cell := project(w.rp, c) // the decoder takes ownership
	w.decs[d].AddCodedSymbol(c)
	tr.emit(w.decState(ev{"ev": "dc", "d": d, "cell": cell}, w.decs[d]))
}
func (w *world[T]) decTry(d int) {
	w.decs[d].TryDecode()
	tr.emit(w.decState(ev{"ev": "dt", "d": d}, w.decs[d]))
}
func (w *world[T]) decReset(d int) {
	w.decs[d].Reset()
	tr.emit(w.decState(ev{"ev": "dr", "d": d}, w.decs[d]))
}

func (w *world[T]) cells(s riblt.Sketch[T]) []ev {
	res := []ev{}
	for _, c := range s {
		res = append(res, project(w.rp, c))
	}
	return res
}
func (w *world[T]) skNew(k, n int) {
	w.sks[k] = make(riblt.Sketch[T], n)
	tr.emit(ev{"ev": "sn", "k": k, "len": n})
}
func (w *world[T]) skAdd(k, i int) {
	if w.r.Intn(2) == 0 {
		w.sks[k].AddSymbol(w.rp.mk(i))
	} else {
		w.sks[k].AddHashedSymbol(w.hs(i))
	}
	tr.emit(ev{"ev": "sa", "k": k, "s": i})
}
func (w *world[T]) skDump(k int) {
	tr.emit(ev{"ev": "sd", "k": k, "cells": w.cells(w.sks[k])})
}
func (w *world[T]) skSub(k, j int) {
	refused := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if len(w.sks[k]) == len(w.sks[j]) {
					panic(r)
				}
				refused = true
			}
		}()
		w.sks[k] = w.sks[k].Subtract(w.sks[j])
	}()
	tr.emit(ev{"ev": "ss", "k": k, "j": j, "refused": refused, "cells": w.cells(w.sks[k]), "cells2": w.cells(w.sks[j])})
}
func (w *world[T]) skDecode(k int) {
	R, L, dec := w.sks[k].Decode()
	r, ok1 := w.results(R)
	l, ok2 := w.results(L)
	tr.emit(ev{"ev": "sx", "k": k, "R": r, "L": l, "ok": ok1 && ok2, "dec": dec})
	delete(w.sks, k) // decoding may consume the sketch
}

// maps logs where each symbol goes, as seen in the stream of the set that
// contains only that symbol
func (w *world[T]) maps(n, m int) {
	for i := 1; i <= n; i++ {
		e := riblt.Encoder[T]{}
		e.AddSymbol(w.rp.mk(i))
		cells := []ev{}
		for k := 0; k < m; k++ {
			cells = append(cells, project(w.rp, e.ProduceNextCodedSymbol()))
		}
		tr.emit(ev{"ev": "map", "s": i, "cells": cells})
	}
}

func extremeHash(r *rand.Rand) uint64 {
	const mult = 0xda942042e4dd58b5
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - mult*inv
	}
	// hashes whose first, second or third random number is extreme
	var x uint64
	switch r.Intn(8) {
	case 0:
		x = 0
	case 1:
		x = uint64(r.Intn(4096))
	case 2, 3:
		x = -uint64(r.Intn(4096))
	case 4:
		x = 1 << (52 + uint(r.Intn(12)))
	case 5:
		x = -(uint64(1) << uint(r.Intn(64)))
	case 6:
		x = uint64(1) << uint(r.Intn(64))
	case 7:
		return []uint64{0, 1, ^uint64(0), 1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1}[r.Intn(7)]
	}
	for k := r.Intn(4); k > 0; k-- {
		x *= inv
	}
	return x
}

func setup(n int, r *rand.Rand, extreme bool) {
	clearSymbols()
	used := map[uint64]bool{}
	// hashes may agree in any half; they stay random enough that no two sets of
	// symbols have equal checksums
	mask := ^uint64(0)
	if r.Intn(3) == 0 {
		mask = []uint64{0xffffffff, 0xffffffff << 32, 0xffff00000000ffff, 0x0000ffffffff0000, 0xffffffffffff, 0xffffffffffff << 16}[r.Intn(6)]
	}
	fixed := r.Uint64() &^ mask
	famMask, famFixed = mask, fixed
	for i := 1; i <= n; i++ {
		h := r.Uint64()
		if extreme && r.Intn(2) == 0 {
			h = extremeHash(r)
		} else {
			h = h&mask | fixed
		}
		for used[h] {
			h = r.Uint64()&mask | fixed
		}
		used[h] = true
		register(i, h, r)
	}
}

func subset(n int, r *rand.Rand) []int {
	res := []int{}
	p := []float64{0, 0.2, 0.5, 0.8, 1}[r.Intn(5)]
	for i := 1; i <= n; i++ {
		if r.Float64() < p {
			res = append(res, i)
		}
	}
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func pairOfSets(n int, r *rand.Rand) ([]int, []int) {
	a, b := subset(n, r), subset(n, r)
	switch r.Intn(10) {
	case 3, 4: // common base, one to three differences
		b = append([]int{}, a...)
		for k := r.Intn(3); k >= 0; k-- {
			x, at := 1+r.Intn(n), -1
			for i, y := range b {
				if y == x {
					at = i
				}
			}
			if at >= 0 {
				b = append(b[:at], b[at+1:]...)
			} else {
				b = append(b, x)
			}
		}
		r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	case 0:
		b = append([]int{}, a...)
		r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	case 1: // equal except one element
		b = append([]int{}, a...)
		if len(b) > 0 {
			b = b[1:]
		}
	case 2: // disjoint
		in := map[int]bool{}
		for _, x := range a {
			in[x] = true
		}
		c := []int{}
		for _, x := range b {
			if !in[x] {
				c = append(c, x)
			}
		}
		b = c
	}
	return a, b
}

// one encoder/decoder run over the given objects
func recon[T riblt.Symbol[T]](w *world[T], e, d, n, m int) {
	r := w.r
	a, b := pairOfSets(n, r)
	for _, x := range a {
		w.encAdd(e, x)
	}
	for _, x := range b {
		w.decAdd(d, x)
	}
	mode := r.Intn(4)
	for i := 0; i < m; i++ {
		w.decCoded(d, w.encProduce(e))
		switch mode {
		case 0:
			w.decTry(d)
		case 1:
			if r.Intn(3) == 0 {
				w.decTry(d)
			}
		case 2:
			if r.Intn(8) == 0 {
				w.decTry(d)
				w.decTry(d)
			}
		}
	}
	w.decTry(d)
}

func sessRecon[T riblt.Symbol[T]](rp rep[T], r *rand.Rand, extreme bool) {
	n, m := 1+r.Intn(14), 1+r.Intn(40)
	setup(n, r, extreme)
	tr.emit(ev{"ev": "new", "kind": "recon"})
	w := newWorld(rp, r)
	w.maps(n, m)
	w.encNew(1)
	w.decNew(1)
	recon(w, 1, 1, n, m)
}

func sessStream[T riblt.Symbol[T]](rp rep[T], r *rand.Rand) {
	n, m := 1+r.Intn(16), 1+r.Intn(50)
	setup(n, r, r.Intn(4) == 0)
	if r.Intn(4) == 0 {
		// different symbols of equal hash
		for k := 1 + r.Intn(n); k > 0; k-- {
			p := mkPayload(1 + r.Intn(n))
			register(1+r.Intn(n), hashOf[p.Bits], r)
		}
	}
	tr.emit(ev{"ev": "new", "kind": "stream"})
	w := newWorld(rp, r)
	w.maps(n, m)
	a := subset(n, r)
	for e := 1; e <= 2; e++ {
		w.encNew(e)
		for _, x := range a {
			w.encAdd(e, x)
		}
		r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	}
	kept := []riblt.CodedSymbol[T]{}
	for i := 0; i < m; i++ {
		kept = append(kept, w.encProduce(1))
	}
	for i := 0; i < m; i++ {
		w.encProduce(2)
	}
	// what was produced belongs to the caller: it stays what it was
	if r.Intn(2) == 0 {
		w.encReset(1)
		for _, x := range subset(n, r) {
			w.encAdd(1, x)
		}
		for i := r.Intn(m + 1); i > 0; i-- {
			w.encProduce(1)
		}
	}
	w.encNew(3)
	for _, x := range a {
		w.encAdd(3, x)
	}
	tr.emit(ev{"ev": "ek", "e": 3, "cells": w.cells(kept)})
	w.skNew(1, m)
	for _, x := range a {
		w.skAdd(1, x)
	}
	w.skDump(1)
}

func sessSketch[T riblt.Symbol[T]](rp rep[T], r *rand.Rand, extreme bool) {
	n, m := 1+r.Intn(14), r.Intn(40)
	setup(n, r, extreme)
	tr.emit(ev{"ev": "new", "kind": "sketch"})
	w := newWorld(rp, r)
	w.maps(n, m)
	a, b := pairOfSets(n, r)
	w.skNew(1, m)
	w.skNew(2, m)
	w.skNew(3, m+1+r.Intn(3))
	for _, x := range a {
		w.skAdd(1, x)
	}
	for _, x := range b {
		w.skAdd(2, x)
	}
	w.skDump(1)
	w.skDump(2)
	if r.Intn(3) == 0 {
		w.skSub(1, 3) // refused
	}
	w.skSub(1, 2)
	if r.Intn(3) == 0 {
		// subtracting a third set
		w.skNew(4, m)
		for _, x := range subset(n, r) {
			w.skAdd(4, x)
		}
		w.skSub(4, 2)
		w.skDecode(4)
	}
	w.skDump(2)
	if r.Intn(3) == 0 {
		// subtracting a difference
		w.skNew(5, m)
		for _, x := range subset(n, r) {
			w.skAdd(5, x)
		}
		w.skSub(5, 1)
	}
	w.skDecode(1)
}

func sessReset[T riblt.Symbol[T]](rp rep[T], r *rand.Rand) {
	n, m := 1+r.Intn(12), 30
	setup(n, r, r.Intn(4) == 0)
	tr.emit(ev{"ev": "new", "kind": "reset"})
	w := newWorld(rp, r)
	w.maps(n, m)
	w.encNew(1)
	w.decNew(1)
	rounds := 2 + r.Intn(3)
	for k := 0; k < rounds; k++ {
		mm := r.Intn(m)
		if k == rounds-1 {
			mm = m
		}
		a, b := pairOfSets(n, r)
		for _, x := range a {
			w.encAdd(1, x)
		}
		for _, x := range b {
			w.decAdd(1, x)
		}
		tries := r.Intn(3)
		for i := 0; i < mm; i++ {
			w.decCoded(1, w.encProduce(1))
			if tries == 0 || (tries == 1 && r.Intn(4) == 0) {
				w.decTry(1)
			}
		}
		if k == rounds-1 {
			w.decTry(1)
		} else {
			w.encReset(1)
			w.decReset(1)
			if r.Intn(4) == 0 {
				w.encReset(1)
				w.decReset(1)
			}
		}
	}
}

func sessOverhead[T riblt.Symbol[T]](rp rep[T], r *rand.Rand) {
	n := 1 + r.Intn(500)
	setup(n, r, false)
	tr.emit(ev{"ev": "new", "kind": "overhead"})
	enc := riblt.Encoder[T]{}
	dec := riblt.Decoder[T]{}
	A, B := []int{}, []int{}
	pcommon := []float64{0, 0.5, 0.9}[r.Intn(3)]
	for i := 1; i <= n; i++ {
		s := rp.mk(i)
		s2 := rp.mk(i)
		if r.Float64() < pcommon {
			enc.AddSymbol(s)
			dec.AddSymbol(s2)
		} else if r.Intn(2) == 0 {
			enc.AddSymbol(s)
			A = append(A, i)
		} else {
			dec.AddSymbol(s)
			B = append(B, i)
		}
	}
	m := 0
	for lim := 50*n + 1000; m < lim; {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		m++
		dec.TryDecode()
		if dec.Decoded() {
			break
		}
	}
	w := newWorld(rp, r)
	tr.emit(w.decState(ev{"ev": "ovh", "A": A, "B": B, "m": m}, &dec))
}

// sessHash: where single symbols of (extreme) hashes go, over a long stream
func sessHash[T riblt.Symbol[T]](rp rep[T], r *rand.Rand) {
	n, m := 4, 60+r.Intn(60)
	setup(n, r, true)
	tr.emit(ev{"ev": "new", "kind": "hash"})
	w := newWorld(rp, r)
	w.maps(n, m)
	w.encNew(1)
	w.decNew(1)
	recon(w, 1, 1, n, m)
	w.skNew(1, m)
	w.skNew(2, m)
	for _, x := range subset(n, r) {
		w.skAdd(1, x)
	}
	for _, x := range subset(n, r) {
		w.skAdd(2, x)
	}
	w.skDump(1)
	w.skSub(1, 2)
	w.skDecode(1)
}

// counter symbols: the sum is not looked at
type tiny uint64

func (a tiny) XOR(b tiny) tiny { return a ^ b }
func (a tiny) Hash() uint64    { return mix(uint64(a)) }

// cellsDigest folds runs of cells into short strings, which are equal iff the
// cells are (up to hash collisions)
type cellFold struct {
	out  []string
	h    uint64
	n    int
	step int
}

func (f *cellFold) add(c riblt.CodedSymbol[tiny]) {
	sum, check, count := rawCell(&c)
	f.h = mix(f.h ^ sum)
	f.h = mix(f.h ^ check)
	f.h = mix(f.h ^ uint64(count))
	f.n++
	if f.n%f.step == 0 {
		f.flush()
	}
}
func (f *cellFold) flush() {
	f.out = append(f.out, fmt.Sprintf("%d:%016x", f.n, f.h))
	f.h = 0
}

// rawCell reads a coded symbol by the types of its fields
func rawCell(c *riblt.CodedSymbol[tiny]) (sum, check uint64, count int64) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == reflect.TypeOf(tiny(0)):
			sum = f.Uint()
		case f.Kind() == reflect.Uint64:
			check = f.Uint()
		default:
			count = f.Int()
		}
	}
	return
}

func foldCells(n int, get func(i int) riblt.CodedSymbol[tiny]) []string {
	f := &cellFold{step: 2048, out: []string{}}
	for i := 0; i < n; i++ {
		f.add(get(i))
	}
	f.flush()
	return f.out
}

// runs describes a list of symbols by its size and the intervals it covers
func runs(hs []riblt.HashedSymbol[tiny]) (ev, bool) {
	ids, ok := []int{}, true
	for _, h := range hs {
		if h.Hash != h.Symbol.Hash() || uint64(h.Symbol) > 1<<40 {
			ok = false
			continue
		}
		ids = append(ids, int(h.Symbol))
	}
	sort.Ints(ids)
	res := [][]int{}
	for i, x := range ids {
		if i > 0 && x == ids[i-1]+1 {
			res[len(res)-1][1] = x
		} else {
			res = append(res, []int{x, x})
		}
		if len(res) > 20 {
			break
		}
	}
	return ev{"n": len(hs), "runs": res}, ok
}

// sessBig: sets of thousands of symbols. 1..a are only the encoder's, a+1..a+b
// only the decoder's, the rest is common.
func sessBig(r *rand.Rand, i int) {
	a, b := r.Intn(1500), r.Intn(1500)
	common := r.Intn(3000)
	switch i % 4 {
	case 0:
		a = 17000 + r.Intn(16000)
	case 1:
		common = 20000 + r.Intn(30000)
	case 2:
		b = 17000 + r.Intn(16000)
	}
	tr.emit(ev{"ev": "new", "kind": "big"})
	remote, local := []int{}, []int{}
	for x := 1; x <= a; x++ {
		remote = append(remote, x)
	}
	for x := a + 1; x <= a+b; x++ {
		local = append(local, x)
	}
	for x := a + b + 1; x <= a+b+common; x++ {
		remote = append(remote, x)
		local = append(local, x)
	}
	r.Shuffle(len(remote), func(i, j int) { remote[i], remote[j] = remote[j], remote[i] })
	r.Shuffle(len(local), func(i, j int) { local[i], local[j] = local[j], local[i] })
	enc, enc2 := riblt.Encoder[tiny]{}, riblt.Encoder[tiny]{}
	dec := riblt.Decoder[tiny]{}
	for k := 1 + r.Intn(3); k > 1; k-- { // objects that were in use
		for x := 0; x < r.Intn(300); x++ {
			enc.AddSymbol(tiny(x))
			dec.AddSymbol(tiny(2 * x))
		}
		for x := 0; x < r.Intn(300); x++ {
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		}
		dec.TryDecode()
		enc.Reset()
		dec.Reset()
	}
	d := a + b
	M := 3*d + 40
	length := M
	if length < 70000 && r.Intn(2) == 0 {
		length = 70000 + r.Intn(3000)
	}
	sk, sk2 := make(riblt.Sketch[tiny], length), make(riblt.Sketch[tiny], length)
	for _, x := range remote {
		enc.AddSymbol(tiny(x))
		sk.AddSymbol(tiny(x))
	}
	for _, x := range local {
		enc2.AddSymbol(tiny(x))
		dec.AddSymbol(tiny(x))
		sk2.AddSymbol(tiny(x))
	}
	every := 1 + r.Intn(40)
	if r.Intn(4) == 0 {
		every = 2*d + 20
	}
	m := 0
	stream, stream2 := []riblt.CodedSymbol[tiny]{}, []riblt.CodedSymbol[tiny]{}
	done := false
	for k := 0; k < length; k++ {
		c := enc.ProduceNextCodedSymbol()
		stream = append(stream, c)
		stream2 = append(stream2, enc2.ProduceNextCodedSymbol())
		if done || k >= M {
			continue
		}
		dec.AddCodedSymbol(c)
		m++
		if m%every == 0 || m == M {
			dec.TryDecode()
			done = dec.Decoded()
		}
	}
	R, ok1 := runs(dec.Remote())
	L, ok2 := runs(dec.Local())
	tr.emit(ev{"ev": "bigdec", "a": a, "b": b, "m": m, "every": every, "R": R, "L": L, "ok": ok1 && ok2, "dec": dec.Decoded()})
	tr.emit(ev{"ev": "bigsk", "stream": foldCells(length, func(i int) riblt.CodedSymbol[tiny] { return stream[i] }),
		"sketch": foldCells(length, func(i int) riblt.CodedSymbol[tiny] { return sk[i] })})
	// linear: the symbols of both sides cancel
	only, only2 := riblt.Encoder[tiny]{}, riblt.Encoder[tiny]{}
	for x := 1; x <= a; x++ {
		only.AddSymbol(tiny(x))
	}
	for x := a + 1; x <= a+b; x++ {
		only2.AddSymbol(tiny(x))
	}
	sub := func(c, c2 riblt.CodedSymbol[tiny]) ev {
		s, h, n := rawCell(&c)
		s2, h2, n2 := rawCell(&c2)
		return ev{"s": s ^ s2, "h": h ^ h2, "n": n - n2}
	}
	digest := func(get func(i int) ev) []string {
		out := []string{}
		h := uint64(0)
		for i := 0; i < length; i++ {
			e := get(i)
			h = mix(mix(mix(h^e["s"].(uint64))^e["h"].(uint64)) ^ uint64(e["n"].(int64)))
			if i%2048 == 2047 || i == length-1 {
				out = append(out, fmt.Sprintf("%d:%016x", i, h))
				h = 0
			}
		}
		return out
	}
	sk = sk.Subtract(sk2)
	tr.emit(ev{"ev": "biglin",
		"only":   digest(func(i int) ev { return sub(only.ProduceNextCodedSymbol(), only2.ProduceNextCodedSymbol()) }),
		"stream": digest(func(i int) ev { return sub(stream[i], stream2[i]) }),
		"sketch": digest(func(i int) ev { return sub(sk[i], riblt.CodedSymbol[tiny]{}) })})
	r1, l1, dn := sk.Decode()
	R, ok1 = runs(r1)
	L, ok2 = runs(l1)
	tr.emit(ev{"ev": "bigskdec", "a": a, "b": b, "R": R, "L": L, "ok": ok1 && ok2, "dec": dn})
}

// sessDensity: how many of N random symbols go to each range of indices
func sessDensity(r *rand.Rand, N int) {
	const M = 1024
	cnt := make([]int, M)
	for i := 0; i < N; i++ {
		e := riblt.Encoder[tiny]{}
		e.AddHashedSymbol(riblt.HashedSymbol[tiny]{Symbol: 1, Hash: r.Uint64()})
		for k := 0; k < M; k++ {
			c := e.ProduceNextCodedSymbol()
			if c != (riblt.CodedSymbol[tiny]{}) {
				cnt[k]++
			}
		}
	}
	tr.emit(ev{"ev": "new", "kind": "density"})
	for lo := 0; lo < M; {
		hi := lo
		if lo >= 4 {
			hi = lo*3/2 - 1
		}
		if hi >= M {
			break
		}
		c := 0
		for k := lo; k <= hi; k++ {
			c += cnt[k]
		}
		tr.emit(ev{"ev": "density", "n": N, "lo": lo, "hi": hi, "cnt": c})
		lo = hi + 1
	}
}

// sessDensityFar: the same for large indices, in the stream of one large set.  A
// new octave of indices is begun within the time limit only.
func sessDensityFar(r *rand.Rand, bits int, limit time.Duration) {
	const N = 20000
	e := riblt.Encoder[tiny]{}
	for i := 0; i < N; i++ {
		e.AddHashedSymbol(riblt.HashedSymbol[tiny]{Symbol: 1, Hash: r.Uint64()})
	}
	tr.emit(ev{"ev": "new", "kind": "density"})
	began := time.Now()
	k := int64(0)
	for b := 0; b < bits && time.Since(began) < limit; b++ {
		cnt := int64(0)
		for ; k < 2<<b-1; k++ { // indices 2^b-1 .. 2^(b+1)-2
			c := e.ProduceNextCodedSymbol()
			if c != (riblt.CodedSymbol[tiny]{}) {
				_, _, n := rawCell(&c)
				cnt += n
			}
		}
		if b >= 8 {
			tr.emit(ev{"ev": "densfar", "n": N, "b": b, "cnt": cnt})
		}
	}
}

// ---------------------------------------------------------------------------
// replay of behaviours that TLC generated from the design specification

type genStep struct {
	Op  string `json:"op"`
	R   []int  `json:"R"`
	L   []int  `json:"L"`
	Dec bool   `json:"dec"`
}
type genBehaviour struct {
	Map  [][]int   `json:"map"`
	A    []int     `json:"A"`
	B    []int     `json:"B"`
	M    int       `json:"M"`
	Hist []genStep `json:"hist"`
}

func sameSet(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	if len(m) != len(a) {
		return false
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return true
}

func replay(path string, seed int64) {
	r := rand.New(rand.NewSource(seed))
	f, err := os.Open(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	hashFor := map[string][]uint64{} // mapping prefix -> hashes that have it
	hashM := 0
	fill := func(M int) {
		hashM = M
		hashFor = map[string][]uint64{}
		clearSymbols()
		for k := 0; k < 4000; k++ {
			h := r.Uint64()
			e := riblt.Encoder[vsym]{}
			s := vsym(payload{})
			s.Bits[0] = 1
			e.AddHashedSymbol(riblt.HashedSymbol[vsym]{Symbol: s, Hash: h})
			idx := []int{}
			for i := 0; i < M; i++ {
				if project(valueRep, e.ProduceNextCodedSymbol())["n"].(int64) != 0 {
					idx = append(idx, i)
				}
			}
			hashFor[fmt.Sprint(idx)] = append(hashFor[fmt.Sprint(idx)], h)
		}
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n, steps, unreal := 0, 0, 0
	for sc.Scan() {
		var g genBehaviour
		if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
			fmt.Fprintln(os.Stderr, "bad behaviour:", err)
			os.Exit(2)
		}
		if hashM != g.M {
			fill(g.M)
		}
		clearSymbols()
		ok := true
		used := map[uint64]bool{}
		for i, m := range g.Map {
			hs := hashFor[fmt.Sprint(m)]
			var h uint64
			for try := 0; try < 50 && len(hs) > 0; try++ {
				h = hs[r.Intn(len(hs))]
				if !used[h] {
					break
				}
			}
			if len(hs) == 0 || used[h] {
				ok = false
				break
			}
			used[h] = true
			register(i+1, h, r)
		}
		if !ok {
			unreal++
			continue
		}
		n++
		line := append([]byte{}, sc.Bytes()...)
		fail := func(step int, why string) {
			tr.emit(ev{"ev": "mismatch", "step": step, "why": why, "behaviour": json.RawMessage(line)})
		}
		tr.session(20*time.Second, func() {
			enc := riblt.Encoder[vsym]{}
			dec := riblt.Decoder[vsym]{}
			for _, x := range g.A {
				enc.AddSymbol(valueRep.mk(x))
			}
			for _, x := range g.B {
				dec.AddSymbol(valueRep.mk(x))
			}
			w := newWorld(valueRep, r)
			for i, s := range g.Hist {
				steps++
				if s.Op == "recv" {
					dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
				} else {
					dec.TryDecode()
				}
				R, ok1 := w.results(dec.Remote())
				L, ok2 := w.results(dec.Local())
				if !ok1 || !ok2 || !sameSet(R, s.R) || !sameSet(L, s.L) {
					fail(i, fmt.Sprint("recovered ", R, L))
					return
				}
				if dec.Decoded() != s.Dec {
					fail(i, fmt.Sprint("decoded ", dec.Decoded()))
					return
				}
			}
		})
	}
	fmt.Printf("REPLAYED behaviours=%d steps=%d unrealisable=%d\n", n, steps, unreal)
}

func main() {
	kind := flag.String("kind", "recon", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 100, "sessions")
	out := flag.String("out", "trace.ndjson", "")
	in := flag.String("in", "", "behaviours to replay")
	bits := flag.Int("bits", 33, "far: octaves of indices")
	flag.Parse()
	tr = newTracer(*out)
	defer tr.close()
	if *kind == "replay" {
		replay(*in, *seed)
		return
	}
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		lim := 60 * time.Second
		if *kind == "far" {
			lim = 800 * time.Second
		}
		tr.session(lim, func() {
			ptr := r.Intn(2) == 0
			switch *kind {
			case "recon":
				if ptr {
					sessRecon(pointerRep, r, r.Intn(3) == 0)
				} else {
					sessRecon(valueRep, r, r.Intn(3) == 0)
				}
			case "stream":
				if ptr {
					sessStream(pointerRep, r)
				} else {
					sessStream(valueRep, r)
				}
			case "sketch":
				if ptr {
					sessSketch(pointerRep, r, r.Intn(3) == 0)
				} else {
					sessSketch(valueRep, r, r.Intn(3) == 0)
				}
			case "reset":
				if ptr {
					sessReset(pointerRep, r)
				} else {
					sessReset(valueRep, r)
				}
			case "overhead":
				if ptr {
					sessOverhead(pointerRep, r)
				} else {
					sessOverhead(valueRep, r)
				}
			case "hash":
				if ptr {
					sessHash(pointerRep, r)
				} else {
					sessHash(valueRep, r)
				}
			case "big":
				sessBig(r, i)
			case "density":
				sessDensity(r, 8000)
			case "far":
				limit := 40 * time.Second
				if *bits > 33 {
					limit = 250 * time.Second
				}
				sessDensityFar(r, *bits, limit)
			default:
				fmt.Fprintln(os.Stderr, "unknown kind", *kind)
				os.Exit(2)
			}
		})
	}
}
