//go:build go1.25

package main

// The decoding loop on its own, with a sender and a controller that are slow to
// take what it reports.

import (
	"math/rand"
	"testing/synctest"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

func init() { slowLoop = slowSession }

// set sets a part if it exists
func set[T any](p *T, v T) bool {
	if p != nil {
		*p = v
	}
	return p != nil
}

func slowSession(r *rand.Rand) {
	w := newWorld(r)
	sk, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	var salt [ldpc.SaltSize]byte
	r.Read(salt[:])
	timeout := time.Duration(1+r.Intn(50)) * time.Millisecond
	room := []int{0, 0, 1, 5}[r.Intn(4)]
	own, peer := make(chan int, room), make(chan int, room)
	decoded, fresh := make(chan ldpc.DecodedTransaction, room), make(chan *ldpc.Transaction, room)
	rc := &receiver{}
	fits := set(find[chan<- int](rc, "ourLoss"), own) && set(find[chan<- int](rc, "peerLoss"), peer) &&
		set(find[chan<- ldpc.DecodedTransaction](rc, "decodedTransaction"), decoded) &&
		set(find[<-chan *ldpc.Transaction](rc, "newTransaction"), fresh) &&
		set(find[*ldpc.Decoder](rc, "decoder"), ldpc.NewDecoder(salt, 100000)) &&
		set(find[time.Duration](rc, "timeout"), timeout)
	if !fits { // made of other parts: the sessions of whole peers have to do
		return
	}
	if s := find[*ddsketch.DDSketchWithExactSummaryStatistics](rc, "delaySketch"); s != nil {
		*s = sk
	}
	in := make(chan Codeword, 1000)
	go rc.decode(in)

	slow := func() time.Duration {
		return []time.Duration{0, time.Microsecond, time.Millisecond, 20 * time.Millisecond}[r.Intn(4)]
	}
	so, sp, sd := slow(), slow(), slow()
	sumOwn, sumPeer, got := 0, 0, []int{}
	take := func(ch chan int, sum *int, d time.Duration) {
		for v := range ch {
			*sum += v
			time.Sleep(d)
		}
	}
	go take(own, &sumOwn, so)
	go take(peer, &sumPeer, sp)
	go func() {
		for d := range decoded {
			got = append(got, w.idOf(d.Transaction))
			time.Sleep(sd)
		}
	}()

	cws := [][]int{} // reported loss, members
	send := func(loss int, ids ...int) {
		in <- Codeword{w.codeword(salt, ids), loss, time.Now().UnixMicro()}
		cws = append(cws, append([]int{loss}, ids...))
	}
	for n := 5 + r.Intn(80); n > 0; n-- {
		loss := []int{0, 0, 1, 2, 7}[r.Intn(5)]
		if r.Intn(2) == 0 {
			send(loss, w.newTx()) // decoded at once
		} else {
			send(loss, w.newTx(), w.newTx()) // never decoded
		}
		if r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
	}
	time.Sleep(10*time.Second + timeout)
	synctest.Wait()
	send(0, w.newTx())
	time.Sleep(10 * time.Second)
	synctest.Wait()
	tr.emit(ev{"ev": "slow", "cws": cws, "own": sumOwn, "peer": sumPeer, "got": ints(got)})
}
