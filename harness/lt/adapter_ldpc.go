//go:build go1.21

package main

import (
	"encoding/binary"
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

type ldpcCodec struct{}

func (ldpcCodec) name() string { return "ldpc" }

func (ldpcCodec) random(r *rand.Rand, id int) content {
	c := content{w: 16}
	return marked(c, id, r)
}

func toBytes(w [16]uint64) []byte {
	b := make([]byte, 128)
	for i := range w {
		binary.LittleEndian.PutUint64(b[i*8:], w[i])
	}
	return b
}
func fromBytes(b []byte) []uint64 {
	w := make([]uint64, 16)
	for i := range w {
		w[i] = binary.LittleEndian.Uint64(b[i*8:])
	}
	return w
}

func ldpcTx(c content) *ldpc.Transaction {
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(toBytes(c.words)); err != nil {
		panic(err)
	}
	return t
}

func (ldpcCodec) newEncoder(salt [16]byte, deg *degrees, ws int, r *rand.Rand) encoder {
	return &ldpcEncoder{ldpc.NewEncoder(salt, deg, ws)}
}
func (ldpcCodec) newDecoder(salt [16]byte, memory int) decoder {
	return &ldpcDecoder{ldpc.NewDecoder(salt, memory)}
}

type ldpcEncoder struct{ e *ldpc.Encoder }

func (e *ldpcEncoder) add(c content) bool { return e.e.AddTransaction(ldpcSharedTx(c)) }
func (e *ldpcEncoder) produce() raw {
	nat := any(e.e.ProduceCodeword())
	r := ldpcCodec{}.view(nat)
	r.nat = &nat
	return r
}
func (ldpcCodec) view(nat any) raw {
	cw := nat.(*ldpc.Codeword)
	r := raw{members: append([]uint32{}, cw.Members...)}
	copy(r.words[:], fromBytes(cw.Symbol[:]))
	return r
}
func (e *ldpcEncoder) reset(deg *degrees, ws int) { e.e.Reset(deg, ws) }

type ldpcDecoder struct{ d *ldpc.Decoder }

// see ltShared
var ldpcShared = map[[16]uint64]*ldpc.Transaction{}
var ldpcSharedUse int

func init() { onNewWorld(func() { clear(ldpcShared) }) }

func ldpcSharedTx(c content) *ldpc.Transaction {
	t, ok := ldpcShared[c.words]
	if ldpcSharedUse++; !ok || ldpcSharedUse%2 == 0 {
		t = ldpcTx(c)
		ldpcShared[c.words] = t
	}
	return t
}

func (d *ldpcDecoder) addCodeword(w raw) (stub, []released) {
	var nat any
	if w.nat == nil {
		w.nat = &nat
	}
	if *w.nat == nil {
		cw := &ldpc.Codeword{Members: append([]uint32{}, w.members...)}
		copy(cw.Symbol[:], toBytes(w.words))
		*w.nat = cw
	}
	st, txs := d.d.AddCodeword((*w.nat).(*ldpc.Codeword))
	return ldpcStub{st}, ldpcReleased(txs)
}
func (d *ldpcDecoder) addTransaction(c content) []released {
	return ldpcReleased(d.d.AddTransaction(ldpcSharedTx(c)))
}
func (d *ldpcDecoder) count() int          { return d.d.NumTransactionsReceived() }
func (d *ldpcDecoder) known(c content) int { return -1 }

func ldpcReleased(txs []ldpc.DecodedTransaction) []released {
	res := []released{}
	for i := range txs {
		t := &txs[i] // the list itself is kept: it belongs to the caller
		var words [16]uint64
		copy(words[:], fromBytes(t.Serialized()))
		ldpcShared[words] = t.Transaction
		res = append(res, released{expired: t.Expired, get: func() []uint64 { return fromBytes(t.Serialized()) },
			hashOK: func() bool { return true }, late: func() bool { return t.Expired }})
	}
	return res
}

type ldpcStub struct{ s *ldpc.PendingCodeword }

func (s ldpcStub) decoded() bool { return s.s.Decoded() }
func (s ldpcStub) free() bool    { s.s.Free(); return true }
