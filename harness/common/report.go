//go:build go1.21

package main

// What the simulators report: statistics of samples, topologies read from files,
// and whole runs of the programs.

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
)

func init() {
	if os.Getenv("VERIF_MAIN") != "" { // this process is a run of the program itself
		flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
		main()
		os.Exit(0)
	}
	statistics = statSession
}

// scaled rounds v*scale; values that are no numbers are reported as -2e9
func scaled(v, scale float64) int64 {
	v = math.Round(v * scale)
	if math.IsNaN(v) || v > 2e9 || v < -2e9 {
		v = -2e9
	}
	return int64(v)
}

func scaledAll(vs []float64, scale float64) []int64 {
	res := []int64{}
	for _, v := range vs {
		res = append(res, scaled(v, scale))
	}
	return res
}

type edge struct {
	a, b  int
	delay int // ms
}

func writeTopology(path string, es []edge) {
	var b bytes.Buffer
	for _, e := range es {
		fmt.Fprintf(&b, "%d,%d,%d\n", e.a, e.b, e.delay)
	}
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func topologyEvent(r *rand.Rand, dir string) {
	es := []edge{}
	lines := [][]int{}
	for k := 1 + r.Intn(30); k > 0; k-- {
		e := edge{r.Intn([]int{3, 12, 200}[r.Intn(3)]), r.Intn([]int{3, 12, 200}[r.Intn(3)]), r.Intn([]int{10, 500, 100000}[r.Intn(3)])}
		es = append(es, e)
		lines = append(lines, []int{e.a, e.b, e.delay})
	}
	p := filepath.Join(dir, "topo")
	writeTopology(p, es)
	cs, n := loadTopology(p)
	got := [][]int64{}
	for _, c := range cs {
		v := reflect.ValueOf(c)
		l := []int64{}
		var d int64 = -1
		for i := 0; i < v.NumField(); i++ {
			switch {
			case v.Field(i).Type() == reflect.TypeOf(time.Duration(0)):
				d = us(time.Duration(v.Field(i).Int()))
			case v.Field(i).Kind() == reflect.Int:
				l = append(l, v.Field(i).Int())
			}
		}
		got = append(got, append(l, d))
	}
	tr.emit(ev{"ev": "topo", "lines": lines, "got": got, "n": n})
}

func momentsEvent(r *rand.Rand) {
	var ss []*server
	val := map[*server]int{}
	xs := []int{}
	top := []int{3, 50, 2000}[r.Intn(3)]
	for k := 1 + r.Intn(8); k > 0; k-- {
		s := &server{}
		v := r.Intn(2*top+1) - top
		if r.Intn(2) == 0 && v < 0 {
			v = -v
		}
		ss = append(ss, s)
		val[s] = v
		xs = append(xs, v)
	}
	res := collectMoments(ss, func(s *server) float64 { return float64(val[s]) / 1000 })
	tr.emit(ev{"ev": "mom", "xs": xs, "out": scaledAll(res, 1000)})
}

func filterEvent(r *rand.Rand) {
	d, m := difference[int]{}, maximum[int]{}
	dif, max := [][]int{}, [][]int{}
	cur := 0
	for k := r.Intn(30); k > 0; k-- {
		if r.Intn(3) == 0 {
			dif = append(dif, []int{0, d.get()})
		} else {
			if r.Intn(10) == 0 {
				cur = 0
			}
			cur += r.Intn(1000)
			d.record(cur)
			dif = append(dif, []int{1, cur})
		}
		if r.Intn(3) == 0 {
			max = append(max, []int{0, m.get()})
		} else {
			v := r.Intn(1000)
			m.record(v)
			max = append(max, []int{1, v})
		}
	}
	tr.emit(ev{"ev": "filt", "dif": dif, "max": max})
}

// program runs the program in dir and returns the lines it prints
func program(dir string, args []string) ([]string, bool) {
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c := exec.Command(exe, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_MAIN=1")
	out, err := c.Output()
	lines := []string{}
	sc := bufio.NewScanner(bytes.NewReader(out))
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	return lines, err == nil
}

// numbers are those between brackets at the end of the line that starts with "# label"
func numbers(lines []string, label string, scale float64) []int64 {
	res := []int64{}
	for _, l := range lines {
		l = strings.TrimSpace(strings.TrimLeft(l, "# "))
		if !strings.HasPrefix(l, label) || !strings.HasSuffix(l, "]") {
			continue
		}
		i := strings.Index(l, "[")
		if i < 0 {
			continue
		}
		for _, f := range strings.Fields(l[i+1 : len(l)-1]) {
			v, err := strconv.ParseFloat(f, 64)
			if err != nil {
				v = math.NaN()
			}
			res = append(res, scaled(v, scale))
		}
		break
	}
	return res
}

func equalLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func statSession(r *rand.Rand) {
	dir, err := os.MkdirTemp("", "verif-stat")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	tr.emit(ev{"ev": "new"})
	topologyEvent(r, dir)
	for i := 0; i < 4; i++ {
		momentsEvent(r)
		filterEvent(r)
		sketchEvent(r)
	}
	runEvent(r, dir)
}

// sketchEvent records values before and after the warm-up
func sketchEvent(r *rand.Rand) {
	warm := r.Intn(100)
	s := newDistributionSketch(time.Duration(warm) * time.Millisecond)
	pts := [][]int{}
	for k := r.Intn(30); k > 0; k-- {
		t := r.Intn(200)
		if r.Intn(5) == 0 {
			t = warm + r.Intn(3) - 1
		}
		if t < 0 {
			t = 0
		}
		b := r.Intn(t + 1)
		s.recordTxLatency(transaction{ts: time.Duration(b) * time.Millisecond}, time.Duration(t)*time.Millisecond)
		pts = append(pts, []int{t, b})
	}
	n, qs := sketchOf(s, 1e6, []float64{0, 0.05, 0.5, 0.95, 1})
	tr.emit(ev{"ev": "sk", "warm": warm, "pts": pts, "cnt": n, "qs": qs})
}
