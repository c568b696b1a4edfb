//go:build go1.21

// Shared by all conformance drivers: trace output, crash and hang capture.
// This file is overlaid into the driver's own package.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type ev map[string]any

type tracer struct {
	mu  sync.Mutex
	f   *os.File
	w   *bufio.Writer
	n   int
	err error
	// begun: the session recorded its first event
	begun bool
}

func newTracer(path string) *tracer {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &tracer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *tracer) emit(e ev) {
	b, err := json.Marshal(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode event:", err, e)
		os.Exit(2)
	}
	t.mu.Lock()
	if e["ev"] == "new" {
		t.begun = true
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
	t.mu.Unlock()
}

// broken records the end of a session that crashed or hung; "early": before it
// recorded anything (the specification then has no state to judge it in)
func (t *tracer) broken(why string) {
	if t.begun {
		t.emit(ev{"ev": "crash", "why": why})
	} else {
		t.emit(ev{"ev": "early", "why": why})
	}
}

func (t *tracer) flush() {
	t.mu.Lock()
	t.w.Flush()
	t.mu.Unlock()
}

func (t *tracer) close() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.w.Flush()
	t.f.Close()
}

// session runs one session of the driver. A panic of the code under test
// becomes a "crash" event, and so does a session that does not end within the
// time limit; in the latter case nothing else can be recorded and the program
// ends (exit status 0: the trace says what happened).
func (t *tracer) session(limit time.Duration, body func()) bool {
	done := make(chan bool, 1)
	t.begun = false
	go func() {
		ok := true
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 600 {
					st = st[:600]
				}
				fmt.Fprintf(os.Stderr, "session crashed: %v\n%s\n", r, st)
				t.broken(fmt.Sprint("panic: ", r))
				ok = false
			}
			done <- ok
		}()
		body()
	}()
	deadline := time.After(limit)
	watch := time.NewTicker(100 * time.Millisecond)
	defer watch.Stop()
	why := "hang"
	for {
		select {
		case ok := <-done:
			return ok
		case <-watch.C:
			// code that runs away may exhaust the memory long before the time
			// limit
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc < memoryLimit {
				continue
			}
			why = "memory grows without bound"
		case <-deadline:
		}
		t.broken(why)
		fmt.Fprintln(os.Stderr, "session ended:", why)
		t.close()
		os.Exit(0)
	}
}

const memoryLimit = 1500 << 20

// ints makes sure that nothing is encoded as JSON null
func ints(a []int) []int {
	if a == nil {
		return []int{}
	}
	return a
}
