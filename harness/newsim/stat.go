//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// runEvent runs the program, and the same simulation on its own: what the program
// prints are statistics of what happens in it.
func runEvent(r *rand.Rand, dir string) {
	n := 2 + r.Intn(4)
	es := []edge{}
	for _, l := range topology(r, n) {
		es = append(es, edge{l.a, l.b, int(l.delay.Milliseconds())})
	}
	writeTopology(filepath.Join(dir, "net"), es)
	alg := []string{"coding", "pull"}[r.Intn(2)]
	burst, rate, size := 1+r.Intn(3), 2+r.Intn(8), 50+r.Intn(500)
	warm, dur := time.Duration(500+r.Intn(2500))*time.Millisecond, time.Duration(0)
	dur = warm + time.Duration(2500+r.Intn(3000))*time.Millisecond
	shards, c8, flood := []int{1, 2, 4, 8}[r.Intn(4)], 1+r.Intn(8), r.Intn(3) == 0
	args := []string{"-topo", "net", "-a", alg, "-b", fmt.Sprint(burst), "-txgen", fmt.Sprint(rate), "-txsize", fmt.Sprint(size),
		"-w", warm.String(), "-dur", dur.String(), "-s", fmt.Sprint(shards), "-c", fmt.Sprint(float64(c8) / 8)}
	if flood {
		args = append(args, "-flood")
	}
	out, ok := program(dir, args)
	again, ok2 := program(dir, args)

	RNG = rand.New(rand.NewSource(1))
	TXSIZE = size
	txgen = &transactionGenerator{}
	s := &des.Simulator{}
	ss := newServers(s, n, serverConfig{blockArrivalIntv: float64(rate) / float64(burst) / float64(time.Second), blockArrivalBurst: burst, initialFlood: flood})
	for _, x := range ss {
		x.latencySketch = newDistributionSketch(warm)
	}
	for _, e := range es {
		connect(alg, ss, link{a: e.a, b: e.b, delay: time.Duration(e.delay) * time.Millisecond},
			senderConfig{controlOverhead: float64(c8) / 8, numShards: shards})
	}
	at := []int64{} // ms
	rx, dec, dup, bytes := [][]int{}, [][]int{}, [][]int{}, [][]int{}
	for cur := time.Duration(0); cur < dur; cur += time.Second {
		s.RunUntil(cur)
		at = append(at, s.Time().Milliseconds())
		each := func(name string, to *[][]int) {
			v := []int{}
			for _, x := range ss {
				v = append(v, count(x, name))
			}
			*to = append(*to, v)
		}
		each("receivedTransactions", &rx)
		each("decodedTransactions", &dec)
		each("duplicateTransactions", &dup)
		each("receivedBytes", &bytes)
	}
	lat := [][]int64{{}, {}, {}}
	full := true
	for _, x := range ss {
		c, q := sketchOf(x.latencySketch, 1000, []float64{0.05, 0.5, 0.95})
		full = full && c > 0
		for i, v := range q {
			lat[i] = append(lat[i], v)
		}
	}
	if !full { // nothing was measured at some node
		return
	}
	tr.emit(ev{"ev": "run", "ok": ok && ok2, "same": equalLines(out, again), "n": n, "warm": warm.Milliseconds(), "size": size, "rate": rate, "alg": alg,
		"at": at, "rx": rx, "dec": dec, "dup": dup, "bytes": bytes, "lat": lat,
		"prx": numbers(out, "received transaction rate", 10), "pdup": numbers(out, "duplicate transaction rate", 10),
		"pov":  numbers(out, "overhead", 100),
		"plat": [][]int64{numbers(out, "latency p5 ", 1000), numbers(out, "latency p50 ", 1000), numbers(out, "latency p95 ", 1000)}})
}
