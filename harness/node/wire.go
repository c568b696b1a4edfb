//go:build go1.25

package main

// The loops that put codewords on a connection and take them off it, on their own.

import (
	"encoding/gob"
	"fmt"
	"math/rand"
	"testing/synctest"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

func init() { wire = wireSession }

func spell(c Codeword) string {
	if c.Codeword == nil {
		return "none"
	}
	return fmt.Sprintf("%x/%x/%d/%d", c.Symbol, c.Members, c.Loss, c.UnixMicro)
}

func wireSession(r *rand.Rand) {
	p := newPipe(r, fragments(r))
	s := &sender{tx: gob.NewEncoder(p)}
	rc := &receiver{rx: gob.NewDecoder(p)}
	in, out := make(chan Codeword, 1000), make(chan Codeword, []int{0, 1, 1000}[r.Intn(3)])
	ended := make(chan error, 2)
	go func() { ended <- s.sendCodewords(in) }()
	go func() { ended <- rc.receive(out) }()

	sent, got := []string{}, []string{}
	var keep []Codeword
	n := 1 + r.Intn(30)
	shape := r.Intn(4)
	pick := func(v ...int) int { return v[r.Intn(len(v))] }
	for i := 0; i < n; i++ {
		c := Codeword{Codeword: &ldpc.Codeword{}}
		if pick(0, 0, 1) == 0 || shape == 1 {
			r.Read(c.Symbol[:])
		}
		for k := pick(0, 1, 1, 2, 3, 50); k > 0; k-- {
			c.Members = append(c.Members, uint32(pick(0, 1, int(r.Uint32()))))
		}
		c.Loss = pick(0, 0, 0, 1, 2, 5, 1000, 1<<40)
		c.UnixMicro = int64(pick(0, -1, int(time.Now().UnixMicro())))
		sent = append(sent, spell(c))
		in <- c
		if r.Intn(3) == 0 {
			time.Sleep(time.Millisecond)
			synctest.Wait()
		}
		for len(out) > 0 && r.Intn(2) == 0 {
			keep = append(keep, <-out)
		}
	}
	full := r.Intn(3) > 0
	if !full { // the connection breaks
		synctest.Wait()
		p.set(func() {
			p.buf = p.buf[:r.Intn(len(p.buf)+1)]
			p.eof = true
		})
	} else {
		close(in)
	}
	for {
		synctest.Wait()
		select {
		case c := <-out:
			keep = append(keep, c)
			continue
		case <-time.After(time.Second):
		}
		break
	}
	// only now, so that nothing changes what was received before
	for _, c := range keep {
		got = append(got, spell(c))
	}
	tr.emit(ev{"ev": "wire", "full": full, "sent": sent, "got": got, "ended": len(ended)})
	p.set(func() { p.eof = true })
}
