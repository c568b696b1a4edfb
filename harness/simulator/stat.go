//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// runEvent runs the program, and the same simulation on its own: what the program
// prints are statistics of what happens in it. There are two nodes, because the
// order in which a node serves several peers is not determined.
func runEvent(r *rand.Rand, dir string) {
	delay := 1 + r.Intn(100)
	a := r.Intn(2)
	writeTopology(filepath.Join(dir, "net"), []edge{{a, 1 - a, delay}})
	burst, rate, th := 1+r.Intn(3), 20+r.Intn(40), 1+r.Intn(5)
	c64, loss64 := []int{4, 8, 16, 32}[r.Intn(4)], []int{0, 0, 1, 4}[r.Intn(4)]
	smooth := []int{100, 1000, 100000}[r.Intn(3)]
	period := []time.Duration{0, 0, 100 * time.Millisecond, 400 * time.Millisecond}[r.Intn(4)]
	intv := []time.Duration{250 * time.Millisecond, 500 * time.Millisecond, time.Second}[r.Intn(3)]
	warm := time.Duration(1000+r.Intn(2500)) * time.Millisecond
	dur := warm + time.Duration(4000+r.Intn(6000))*time.Millisecond
	seed := r.Int63()
	mem := []int{50000, 5000}[r.Intn(2)]
	args := []string{"-topo", "net", "-b", fmt.Sprint(burst), "-txgen", fmt.Sprint(rate), "-th", fmt.Sprint(th), "-c", fmt.Sprint(float64(c64) / 64),
		"-l", fmt.Sprint(float64(loss64) / 64), "-smooth", fmt.Sprint(smooth), "-sync", period.String(), "-r", intv.String(), "-w", warm.String(),
		"-dur", dur.String(), "-seed", fmt.Sprint(seed), "-prefix", "out", "-mem", fmt.Sprint(mem)}
	out, ok := program(dir, args)
	again, ok2 := program(dir, args)

	txgen = newTransactionGenerator()
	s := &des.Simulator{}
	ss := newServers(s, 2, seed, serverConfig{
		blockArrivalIntv: float64(rate) / float64(burst) / float64(time.Second), blockArrivalBurst: burst, decoderMemory: mem,
		senderConfig:     senderConfig{detectThreshold: th, controlOverhead: float64(c64) / 64},
		receiverConfig:   receiverConfig{detectThreshold: th, targetCodewordLoss: float64(loss64) / 64},
		forceSynchronize: period})
	for _, x := range ss {
		x.latencySketch = newDistributionSketch(warm)
		x.overlapSketch = newDistributionSketch(warm)
		limit(x, time.Second/time.Duration(smooth))
	}
	connectServers(ss[a], ss[1-a], time.Duration(delay)*time.Millisecond)
	at := []int64{}
	dec, cws := [][]int{}, [][]int{}
	for cur := time.Duration(0); cur < dur; cur += intv {
		s.RunUntil(cur)
		at = append(at, s.Time().Milliseconds())
		d, c := []int{}, []int{}
		for _, x := range ss {
			v, w := -1, -1
			if p := find[int](x, "decodedTransactions"); p != nil {
				v = *p
			}
			if p := find[int](x, "receivedCodewords"); p != nil {
				w = *p
			}
			d, c = append(d, v), append(c, w)
		}
		dec, cws = append(dec, d), append(cws, c)
	}
	lat, ovl := [][]int64{{}, {}, {}}, [][]int64{}
	full := true
	for _, x := range ss {
		c, q := sketchOf(x.latencySketch, 1000, []float64{0.05, 0.5, 0.95})
		full = full && c > 0
		for i, v := range q {
			lat[i] = append(lat[i], v)
		}
		c, q = sketchOf(x.overlapSketch, 1000, []float64{0, 0.05, 0.5, 0.95, 0.99})
		full = full && c > 0
		ovl = append(ovl, q)
	}
	if !full { // nothing was measured at some node
		return
	}
	series := [][]int64{}
	for _, l := range out {
		var t, v float64
		if n, _ := fmt.Sscan(l, &t, &v); n == 2 {
			series = append(series, []int64{scaled(t, 1000), scaled(v, 1)})
		}
	}
	povl, plen := [][]int64{}, []int{}
	for i := range ss {
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out-overlap-%d.csv", i)))
		q := []int64{}
		ls := strings.Split(strings.TrimSpace(string(b)), "\n")
		for _, k := range []int{0, 5, 50, 95, 99} {
			var p, v float64
			if k < len(ls) {
				if n, _ := fmt.Sscan(ls[k], &p, &v); n == 2 && scaled(p, 100) == int64(k) {
					q = append(q, scaled(v, 1000))
				}
			}
		}
		povl, plen = append(povl, q), append(plen, len(ls))
	}
	tr.emit(ev{"ev": "srun", "ok": ok && ok2, "same": equalLines(out, again), "warm": warm.Milliseconds(), "intv": intv.Milliseconds(),
		"at": at, "dec": dec, "cws": cws, "lat": lat, "ovl": ovl, "povl": povl, "plen": plen, "series": series,
		"pdec": numbers(out, "decoded transaction rate", 10), "pov": numbers(out, "overhead", 100),
		"plat": [][]int64{numbers(out, "latency p5 ", 1000), numbers(out, "latency p50 ", 1000), numbers(out, "latency p95 ", 1000)}})
}
