//go:build go1.21

// Adapter for package lt; the one for package iblt is generated from this file
// (lt -> iblt, lines marked "only lt" removed), and so are those for data that is
// held by pointer (payload -> *ppayload).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"

	"github.com/yangl1996/rateless-set-reconcile/lt"
)

type ltCodec struct{}

func (ltCodec) name() string { return "lt" }

func (ltCodec) random(r *rand.Rand, id int) content {
	c := content{w: 8, nonce: r.Uint64()}
	return marked(c, id, r)
}

func (ltCodec) newEncoder(salt [16]byte, deg *degrees, ws int, r *rand.Rand) encoder {
	return &ltEncoder{lt.NewEncoder[payload](r, salt, deg, ws)}
}
func (ltCodec) newDecoder(salt [16]byte, memory int) decoder {
	return &ltDecoder{lt.NewDecoder[payload](salt, memory)}
}

type ltEncoder struct{ e *lt.Encoder[payload] }

func (e *ltEncoder) add(c content) bool {
	return e.e.AddTransaction(ltSharedTx(c))
}
func (e *ltEncoder) produce() raw {
	cw := e.e.ProduceCodeword()
	nat := any(&cw)
	res := ltCodec{}.view(nat)
	res.nat = &nat
	return res
}
func (ltCodec) view(nat any) raw {
	s, m := ltFields(nat.(*lt.Codeword[payload]))
	res := raw{members: append([]uint32{}, *m...)}
	copy(res.words[:8], plWords(*s))
	return res
}
func (e *ltEncoder) reset(deg *degrees, ws int) { e.e.Reset(deg, ws) }

// ltFields finds the fields of a codeword by their types
func ltFields(cw *lt.Codeword[payload]) (*payload, *[]uint32) {
	var s *payload
	var m *[]uint32
	v := reflect.ValueOf(cw).Elem()
	for i := 0; i < v.NumField(); i++ {
		p := reflect.NewAt(v.Field(i).Type(), v.Field(i).Addr().UnsafePointer()).Interface()
		switch x := p.(type) {
		case *payload:
			s = x
		case *[]uint32:
			m = x
		}
	}
	if s == nil || m == nil {
		fmt.Fprintln(os.Stderr, "codewords do not have the expected fields")
		os.Exit(2)
	}
	return s, m
}

type ltDecoder struct{ d *lt.Decoder[payload] }

// transactions that encoders and decoders were given or released: every other
// time the very same one is used again
var ltShared = map[[16]uint64]lt.Transaction[payload]{}
var ltSharedUse int

func init() { onNewWorld(func() { clear(ltShared) }) }

func ltSharedTx(c content) lt.Transaction[payload] {
	t, ok := ltShared[c.words]
	if ltSharedUse++; !ok || ltSharedUse%2 == 0 {
		t = lt.NewTransaction[payload](toPayload(c.words))
		ltShared[c.words] = t
	}
	return t
}

func (d *ltDecoder) addCodeword(w raw) (stub, []released) {
	var nat any
	if w.nat == nil {
		w.nat = &nat
	}
	if *w.nat == nil {
		*w.nat = ltCodeword(w.words, w.members)
	}
	cw := (*w.nat).(*lt.Codeword[payload])
	if plOwned { // the decoder may change what it is given
		r := ltCodec{}.view(cw)
		*w.nat = ltCodeword(r.words, r.members)
	}
	st, txs := d.d.AddCodeword(*cw)
	return ltStub{st}, ltReleased(txs)
}
func ltCodeword(words [16]uint64, members []uint32) *lt.Codeword[payload] {
	cw := &lt.Codeword[payload]{}
	s, m := ltFields(cw)
	*s = toPayload(words)
	*m = append([]uint32{}, members...)
	return cw
}
func (d *ltDecoder) addTransaction(c content) []released {
	return ltReleased(d.d.AddTransaction(ltSharedTx(c)))
}
func (d *ltDecoder) count() int { return -1 }
func (d *ltDecoder) known(c content) int {
	if d.d.HasDecoded(lt.NewTransaction[payload](toPayload(c.words))) { // only lt
		return 1 // only lt
	} // only lt
	return 0 // only lt
	return -1
}

func ltReleased(txs []lt.Transaction[payload]) []released {
	res := []released{}
	for i := range txs {
		t := &txs[i] // the list itself is kept: it belongs to the caller
		var words [16]uint64
		copy(words[:8], plWords(t.Data()))
		ltShared[words] = *t
		res = append(res, released{get: func() []uint64 { return plWords(t.Data()) },
			hashOK: func() bool { return string(t.Hash()) == string(t.Data().Hash()) }})
	}
	return res
}

type ltStub struct{ s *lt.PendingCodeword[payload] }

func (s ltStub) decoded() bool { return s.s.Decoded() }
func (s ltStub) free() bool    { return false }
