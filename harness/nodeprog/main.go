//go:build go1.25

// Conformance driver for the node program (overlaid into its package for the
// type of its messages). It runs the program itself, as processes on loopback
// addresses, and is the peers they are connected to.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/gob"
	"flag"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/soliton"
)

var tr *tracer
var nodeBin string

// ---------------------------------------------------------------- messages
// the fields of a message by their types
func fields(c *Codeword) (cw **ldpc.Codeword, loss *int, stamp *int64) {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch p := v.Field(i).Addr().Interface().(type) {
		case **ldpc.Codeword:
			cw = p
		case *int:
			loss = p
		case *int64:
			stamp = p
		}
	}
	return
}

type content = ldpc.TransactionData

func txOf(d content) *ldpc.Transaction {
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(d[:]); err != nil {
		panic(err)
	}
	return t
}

type fixed int

func (f fixed) Uint64() uint64 { return uint64(f) }

func combine(key [ldpc.SaltSize]byte, ds ...content) *ldpc.Codeword {
	e := ldpc.NewEncoder(key, fixed(len(ds)), len(ds))
	for _, d := range ds {
		e.AddTransaction(txOf(d))
	}
	return e.ProduceCodeword()
}

// ---------------------------------------------------------------- session
type box struct {
	mu    sync.Mutex
	r     *rand.Rand
	t0    time.Time
	dir   string
	evs   []func() ev // in order of observation, evaluated at the end
	nodes []*proc
	conns []*conn
	ids   map[content]int
	list  []content // by id-1: transactions of the driver
	own   map[content]int
	keys  map[string]int
	last  int
}

func (b *box) add(f func() ev) {
	b.evs = append(b.evs, f)
}
func (b *box) emit(e ev) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.add(func() ev { return e })
}
func (b *box) us(t time.Time) int64 { return t.Sub(b.t0).Microseconds() }
func (b *box) key(k []byte) int {
	s := string(k)
	if _, ok := b.keys[s]; !ok {
		b.keys[s] = len(b.keys) + 1
	}
	return b.keys[s]
}

// a new transaction with the given age
func (b *box) tx(age time.Duration) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	var d content
	b.r.Read(d[:])
	binary.LittleEndian.PutUint64(d[:8], uint64(time.Now().Add(-age).UnixMicro()))
	b.list = append(b.list, d)
	b.ids[d] = len(b.list)
	return len(b.list)
}

func (b *box) wait(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for {
		b.mu.Lock()
		ok := f()
		b.mu.Unlock()
		if ok || time.Now().After(end) {
			return ok
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// ---------------------------------------------------------------- process
type opts struct {
	K                int
	M                int
	C, delta         float64
	tx               float64
	r0, min, inc     int // in 1/64
	dec              int // in 1/64
	warm, timeout    time.Duration
	peers            []string
	explicitDefaults bool
	buffer           int // -tcpbuffer
	files            int // limit of open files
}

type proc struct {
	b     *box
	i     int
	addr  string
	cmd   *exec.Cmd
	o     opts
	done  chan bool
	peers int // connections registered
	total int
	warm  bool
	dead  bool
	count map[string]int // lines by kind
}

func host(r *rand.Rand) string {
	// an address of its own for every node and listener
	return fmt.Sprintf("127.%d.%d.%d", 2+r.Intn(250), os.Getpid()%250+1, 1+r.Intn(250))
}

func f64(n int) string { return strconv.FormatFloat(float64(n)/64, 'g', -1, 64) }

func (b *box) start(o opts) *proc {
	p := &proc{b: b, i: len(b.nodes) + 1, o: o, done: make(chan bool), count: map[string]int{}}
	h := host(b.r)
	l, err := net.Listen("tcp", h+":0")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p.addr = l.Addr().String()
	l.Close()
	return b.launch(p)
}

func (b *box) launch(p *proc) *proc {
	o := p.o
	args := []string{"-l", p.addr}
	if len(o.peers) > 0 {
		args = append(args, "-p", strings.Join(o.peers, ","))
	}
	if o.K != 50 || o.explicitDefaults {
		args = append(args, "-k", fmt.Sprint(o.K))
	}
	if o.M != 262144 || o.explicitDefaults {
		args = append(args, "-m", fmt.Sprint(o.M))
	}
	if o.C != 0.03 {
		args = append(args, "-c", fmt.Sprint(o.C))
	}
	if o.delta != 0.5 {
		args = append(args, "-delta", fmt.Sprint(o.delta))
	}
	if o.min != 64 || o.explicitDefaults {
		args = append(args, "-rmin", f64(o.min))
	}
	if o.r0 != 0 || o.explicitDefaults {
		args = append(args, "-r0", f64(o.r0))
	}
	args = append(args, "-tx", fmt.Sprint(o.tx), "-inc", f64(o.inc), "-t", o.timeout.String(), "-warmup", o.warm.String())
	loss := 0.0
	if o.inc > 0 {
		loss = float64(o.dec) / float64(o.inc)
	}
	args = append(args, "-loss", strconv.FormatFloat(loss, 'g', -1, 64))
	if o.buffer > 0 {
		args = append(args, "-tcpbuffer", fmt.Sprint(o.buffer))
	}
	p.cmd = exec.Command(nodeBin, args...)
	if o.files > 0 {
		p.cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, o.files), nodeBin}, args...)...)
	}
	p.cmd.Env = []string{"TZ=UTC", "GOMAXPROCS=2", "HOME=" + b.dir, "PATH=/nonexistent"}
	p.cmd.Dir = b.dir
	rd, wr, err := os.Pipe()
	if err == nil {
		p.cmd.Stderr, p.cmd.Stdout = wr, wr
		err = p.cmd.Start()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	wr.Close()
	init := o.r0
	if init == 0 {
		init = int(o.tx * 64)
	}
	b.mu.Lock()
	b.nodes = append(b.nodes, p)
	b.mu.Unlock()
	b.emit(ev{"ev": "node", "i": p.i, "k": o.K, "init": init, "min": o.min, "inc": o.inc, "dec": o.dec, "tx": int(o.tx),
		"dial": len(o.peers), "timeout": o.timeout.Microseconds(), "warm": o.warm.Microseconds(), "t": b.us(time.Now())})
	go func() {
		s := bufio.NewScanner(rd)
		s.Buffer(nil, 1<<20)
		tail := []string{}
		for s.Scan() {
			p.line(s.Text())
			if len(tail) < 40 && (len(tail) > 0 || strings.Contains(s.Text(), "panic") || strings.Contains(s.Text(), "fatal")) {
				tail = append(tail, s.Text())
			}
		}
		p.cmd.Wait()
		b.mu.Lock()
		if !p.dead {
			why := "the program ended"
			if len(tail) > 0 {
				why = tail[0]
			}
			b.add(func() ev { return ev{"ev": "died", "i": p.i, "why": why} })
			p.dead = true
		}
		b.mu.Unlock()
		rd.Close()
		close(p.done)
	}()
	return p
}

var (
	reLine  = regexp.MustCompile(`^(\d{4}/\d\d/\d\d \d\d:\d\d:\d\d) (.*)$`)
	reTotal = regexp.MustCompile(`^total tx (\d+)$`)
	reRate  = regexp.MustCompile(`^peer (\S+) codeword rate ([\d.]+) dropped (\d+)$`)
	reRecv  = regexp.MustCompile(`^peer (\S+) received cws (\d+) last second delay ms median (\S+) p95 (\S+) mean (\S+)$`)
	reLat   = regexp.MustCompile(`^since warm up tx=(-?\d+), p5_latency_ms=(\S+), p95_latency_ms=(\S+), p50_latency_ms=(\S+), mean_latency_ms=(\S+)$`)
	reGen   = regexp.MustCompile(`^generated tx (\d+)$`)
	reKey   = regexp.MustCompile(`^key exchanged with peer (\S+), our key ([0-9a-f]+), peer key ([0-9a-f]+)$`)
)

func num(s string) int { n, _ := strconv.Atoi(s); return n }

// a decimal in hundredths; -1 when it is not a number
func cents(s string) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) > 1e7 {
		return -100
	}
	return int(math.Round(f * 100))
}
func (p *proc) line(s string) {
	m := reLine.FindStringSubmatch(s)
	if m == nil {
		return
	}
	at, err := time.Parse("2006/01/02 15:04:05", m[1])
	if err != nil {
		return
	}
	b := p.b
	b.mu.Lock()
	defer b.mu.Unlock()
	if q := reTotal.FindStringSubmatch(m[2]); q != nil {
		p.total = num(q[1])
		p.count["total"]++
		b.add(func() ev { return ev{"ev": "total", "i": p.i, "n": num(q[1])} })
	} else if q := reRate.FindStringSubmatch(m[2]); q != nil {
		c := b.peer(p, q[1])
		if c == nil {
			return
		}
		c.rates++
		settled := c.settled && c.rates > c.settledAt+1
		b.add(func() ev {
			lo, hi, full := c.produced(at)
			return ev{"ev": "rate", "c": c.i, "v": cents(q[2]), "dropped": num(q[3]), "lo": lo, "hi": hi, "full": full, "settled": settled}
		})
	} else if q := reRecv.FindStringSubmatch(m[2]); q != nil {
		c := b.peer(p, q[1])
		if c == nil {
			return
		}
		c.recv = num(q[2])
		if c.final && c.recv >= c.sent && !c.settled {
			c.settled, c.settledAt = true, c.rates
		}
		sent := c.sent
		b.add(func() ev {
			return ev{"ev": "recv", "c": c.i, "n": num(q[2]), "sent": sent, "med": cents(q[3]), "p95": cents(q[4]), "mean": cents(q[5])}
		})
	} else if q := reLat.FindStringSubmatch(m[2]); q != nil {
		p.count["lat"]++
		b.add(func() ev {
			return ev{"ev": "lat", "i": p.i, "n": num(q[1]), "p5": cents(q[2]), "p95": cents(q[3]), "p50": cents(q[4]), "mean": cents(q[5])}
		})
	} else if q := reGen.FindStringSubmatch(m[2]); q != nil {
		p.count["gen"]++
		b.add(func() ev {
			lo := 0
			for d := range b.own {
				if stampOf(d) < at.UnixMicro() {
					lo++
				}
			}
			return ev{"ev": "generated", "i": p.i, "n": num(q[1]), "lo": lo, "t": b.us(at.Add(time.Second))}
		})
	} else if q := reKey.FindStringSubmatch(m[2]); q != nil {
		c := b.peer(p, q[1])
		if c == nil {
			return
		}
		ours, theirs := hexKey(q[2]), hexKey(q[3])
		b.add(func() ev { return ev{"ev": "keys", "c": c.i, "ours": b.key(ours), "theirs": b.key(theirs)} })
	} else if strings.HasPrefix(m[2], "new peer") {
		p.peers++
		n := p.peers
		b.add(func() ev { return ev{"ev": "peers", "i": p.i, "n": n} })
	} else if strings.HasPrefix(m[2], "data logging warmup completed") {
		p.warm = true
		b.add(func() ev { return ev{"ev": "warm", "i": p.i, "t": b.us(at.Add(time.Second))} })
	}
}

func hexKey(s string) []byte {
	k := []byte{}
	for i := 0; i+1 < len(s); i += 2 {
		n, _ := strconv.ParseUint(s[i:i+2], 16, 8)
		k = append(k, byte(n))
	}
	return k
}

func stampOf(d content) int64 { return int64(binary.LittleEndian.Uint64(d[:8])) }

// ---------------------------------------------------------------- peers
type got struct {
	stamp   int64
	loss    int
	members []uint32
	symbol  content
}
type conn struct {
	b          *box
	i          int
	p          *proc
	c          net.Conn
	id         string // how the program calls it
	ours       [ldpc.SaltSize]byte
	theirs     [ldpc.SaltSize]byte
	enc        *gob.Encoder
	dec        *ldpc.Decoder
	all        []got
	seen       map[int]bool // transactions of the driver that were decoded
	sent, recv int
	rates      int
	final      bool
	settled    bool
	settledAt  int
	closed     chan bool
	hash       map[uint32]int
	delay      time.Duration
	lossGot    int
	hold       chan bool // reading stops while something is in it
}

func (b *box) peer(p *proc, id string) *conn {
	for _, c := range b.conns {
		if c.p == p && c.id == id {
			return c
		}
	}
	return nil
}

// number of codewords produced before the second of a log line began, and before
// it ended; full: all of them have arrived
func (c *conn) produced(at time.Time) (int, int, bool) {
	a := at.UnixMicro()
	lo := sort.Search(len(c.all), func(i int) bool { return c.all[i].stamp >= a })
	hi := sort.Search(len(c.all), func(i int) bool { return c.all[i].stamp >= a+1000000 })
	return lo, hi, hi < len(c.all)
}

// attach performs the handshake as the peer of p
func (b *box) attach(p *proc, nc net.Conn, id string, dir string, delay time.Duration) *conn {
	c := &conn{b: b, p: p, c: nc, id: id, seen: map[int]bool{}, closed: make(chan bool), hash: map[uint32]int{}, delay: delay, hold: make(chan bool, 1)}
	b.mu.Lock()
	b.r.Read(c.ours[:])
	cut := b.r.Intn(17)
	pause := time.Duration(b.r.Intn(3)) * 20 * time.Millisecond
	b.mu.Unlock()
	nc.Write(c.ours[:cut])
	time.Sleep(pause)
	nc.Write(c.ours[cut:])
	nc.SetReadDeadline(time.Now().Add(15 * time.Second))
	if _, err := io.ReadFull(nc, c.theirs[:]); err != nil {
		b.emit(ev{"ev": "nokey", "i": p.i, "dir": dir, "why": err.Error()})
		nc.Close()
		return nil
	}
	nc.SetReadDeadline(time.Time{})
	c.enc = gob.NewEncoder(nc)
	c.dec = ldpc.NewDecoder(c.theirs, 1<<30)
	b.mu.Lock()
	c.i = len(b.conns) + 1
	b.conns = append(b.conns, c)
	b.add(func() ev {
		return ev{"ev": "conn", "c": c.i, "i": p.i, "dir": dir, "ours": b.key(c.ours[:]), "theirs": b.key(c.theirs[:]), "delay": int(delay.Milliseconds())}
	})
	b.mu.Unlock()
	go c.read()
	return c
}

func (c *conn) read() {
	defer close(c.closed)
	d := gob.NewDecoder(c.c)
	b := c.b
	for {
		m := Codeword{}
		c.hold <- true
		<-c.hold
		if err := d.Decode(&m); err != nil {
			return
		}
		cw, loss, stamp := fields(&m)
		g := got{stamp: *stamp, loss: *loss}
		if *cw != nil {
			g.members = append(g.members, (*cw).Members...)
			g.symbol = (*cw).Symbol
		}
		b.mu.Lock()
		c.all = append(c.all, g)
		c.lossGot += g.loss
		_, txs := c.dec.AddCodeword(&ldpc.Codeword{Symbol: g.symbol, Members: g.members})
		for _, t := range txs {
			var s content
			copy(s[:], t.Serialized())
			if id, ok := b.ids[s]; ok {
				c.seen[id] = true
			} else if _, ok := b.own[s]; !ok {
				b.own[s] = 1000 + len(b.own) + 1
			}
		}
		b.add(func() ev {
			ms := []int{}
			var sum content
			ok := true
			for _, h := range g.members {
				id := c.hash[h]
				ms = append(ms, id)
				if id == 0 {
					ok = false
				} else {
					x := b.of(id)
					sum.XOR(&x)
				}
			}
			return ev{"ev": "got", "c": c.i, "m": ms, "loss": g.loss, "at": g.stamp - b.t0.UnixMicro(), "ok": !ok || sum == g.symbol}
		})
		b.mu.Unlock()
	}
}

func (b *box) of(id int) content {
	if id <= 1000 {
		return b.list[id-1]
	}
	for d, i := range b.own {
		if i == id {
			return d
		}
	}
	panic("no such transaction")
}

// send gives the program a codeword
func (c *conn) send(loss int, ids ...int) {
	b := c.b
	b.mu.Lock()
	ds := []content{}
	for _, id := range ids {
		ds = append(ds, b.list[id-1])
	}
	c.sent++
	b.add(func() ev { return ev{"ev": "send", "c": c.i, "m": ids, "loss": loss} })
	b.mu.Unlock()
	m := Codeword{}
	cw, l, stamp := fields(&m)
	*cw = combine(c.ours, ds...)
	*l = loss
	*stamp = time.Now().Add(-c.delay).UnixMicro()
	c.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	if err := c.enc.Encode(m); err != nil {
		b.emit(ev{"ev": "cut", "c": c.i, "why": err.Error()})
	}
}

// dial connects to the program
func (b *box) dial(p *proc, delay time.Duration) *conn {
	nc := b.open(p)
	if nc == nil {
		return nil
	}
	return b.attach(p, nc, nc.LocalAddr().String(), "in", delay)
}

func (b *box) open(p *proc) net.Conn {
	end := time.Now().Add(15 * time.Second)
	for {
		nc, err := net.DialTimeout("tcp", p.addr, 5*time.Second)
		if err == nil {
			return nc
		}
		if time.Now().After(end) {
			b.emit(ev{"ev": "nokey", "i": p.i, "dir": "in", "why": err.Error()})
			return nil
		}
		time.Sleep(50 * time.Millisecond)
	}
}

type listener struct {
	addr string
	late time.Duration
	l    net.Listener
}

func (b *box) listener(late time.Duration) *listener {
	l, err := net.Listen("tcp", host(b.r)+":0")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	a := &listener{addr: l.Addr().String(), late: late}
	if late > 0 {
		l.Close()
	} else {
		a.l = l
	}
	return a
}

// accept waits for the connection of the program
func (b *box) accept(p *proc, a *listener, delay time.Duration) *conn {
	if a.l == nil {
		time.Sleep(a.late)
		l, err := net.Listen("tcp", a.addr)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		a.l = l
	}
	a.l.(*net.TCPListener).SetDeadline(time.Now().Add(15 * time.Second))
	nc, err := a.l.Accept()
	if err != nil {
		b.emit(ev{"ev": "nokey", "i": p.i, "dir": "out", "why": "no connection"})
		return nil
	}
	return b.attach(p, nc, a.addr, "out", delay)
}

// more connections than asked for
func (b *box) extra(p *proc, ls []*listener) {
	n := 0
	for _, a := range ls {
		if a.l == nil {
			continue
		}
		a.l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Millisecond))
		if c, err := a.l.Accept(); err == nil {
			n++
			c.Close()
		}
		a.l.Close()
	}
	b.emit(ev{"ev": "extra", "i": p.i, "n": n})
}

// finish ends the session: all programs are killed, everything they wrote is read
func (b *box) finish(end ev) {
	// the codewords of the second of the last line that counts
	time.Sleep(1100 * time.Millisecond)
	b.mu.Lock()
	for _, p := range b.nodes {
		if !p.dead {
			p.dead = true
			p.cmd.Process.Kill()
		}
	}
	b.mu.Unlock()
	for _, p := range b.nodes {
		<-p.done
	}
	for _, c := range b.conns {
		c.c.SetReadDeadline(time.Now().Add(5 * time.Second))
		<-c.closed
		c.c.Close()
	}
	for _, c := range b.conns {
		for id, d := range b.list {
			c.hash[combine(c.theirs, d).Members[0]] = id + 1
		}
		for d, id := range b.own {
			c.hash[combine(c.theirs, d).Members[0]] = id
		}
	}
	// transactions of the programs themselves
	type o struct {
		id   int
		st   int64
		rest string
	}
	os := []o{}
	for d, id := range b.own {
		os = append(os, o{id, stampOf(d) - b.t0.UnixMicro(), string(d[8:])})
	}
	sort.Slice(os, func(i, j int) bool { return os[i].st < os[j].st })
	xs, sts, rest := []int{}, []int64{}, map[string]bool{}
	for _, x := range os {
		xs = append(xs, x.id)
		if x.st < -1e9 || x.st > 1e9 {
			x.st = -1e9
		}
		sts = append(sts, x.st)
		rest[x.rest] = true
	}
	tr.emit(ev{"ev": "own", "x": xs, "st": sts, "distinct": len(rest)})
	for _, f := range b.evs {
		tr.emit(f())
	}
	seen := [][]int{}
	for _, c := range b.conns {
		s := []int{}
		for id := range c.seen {
			s = append(s, id)
		}
		sort.Ints(s)
		seen = append(seen, s)
	}
	end["ev"] = "end"
	end["seen"] = seen
	tr.emit(end)
	tr.flush()
}

func newBox(r *rand.Rand, kind string) *box {
	d, err := os.MkdirTemp("", "nodeprog")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tr.emit(ev{"ev": "new", "kind": kind})
	return &box{r: r, t0: time.Now().Truncate(time.Microsecond), dir: d, ids: map[content]int{}, own: map[content]int{}, keys: map[string]int{}}
}

func pick[T any](r *rand.Rand, a ...T) T { return a[r.Intn(len(a))] }

func defaults() opts {
	return opts{K: 50, M: 262144, C: 0.03, delta: 0.5, r0: 200 * 64, min: 64, warm: time.Minute, timeout: 30 * time.Second}
}

// everyone: all transactions were decoded by every peer, every line that has to
// come has come
func (b *box) everyone(ids []int, cs []*conn) {
	b.wait(20*time.Second, func() bool {
		for _, c := range cs {
			for _, id := range ids {
				if !c.seen[id] {
					return false
				}
			}
		}
		return true
	})
}

// settle: nothing more is sent; wait for what the program says about it
func (b *box) settle(cs []*conn) {
	b.mu.Lock()
	for _, c := range cs {
		c.final = true
	}
	b.mu.Unlock()
	b.wait(15*time.Second, func() bool {
		for _, c := range cs {
			if !c.settled || c.rates < c.settledAt+2 {
				return false
			}
		}
		return true
	})
}

// one program, peers in both directions
func optsSession(r *rand.Rand) {
	b := newBox(r, "opts")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.K = pick(r, 50, 50, 20, 33, 100)
	o.explicitDefaults = r.Intn(3) == 0
	nOut, nIn := pick(r, 0, 1, 2, 3, 5), r.Intn(3)
	if nOut+nIn == 0 {
		nOut, nIn = 1, 1
	}
	o.r0 = (150 + r.Intn(250)) * 64
	o.min = pick(r, 64, 64, 128, 640)
	clamp := r.Intn(4) == 0
	if clamp {
		o.inc, o.dec = 64, 32
		o.min = o.r0 - (1+r.Intn(60))*64
		if r.Intn(3) == 0 {
			o.r0, o.min = o.min-640, o.min // below the minimum
		}
	} else {
		k := r.Intn(4)
		o.inc, o.dec = []int{0, 32, 64, 128}[k], []int{0, 1, 2, 1}[k]
	}
	ls := []*listener{}
	for i := 0; i < nOut; i++ {
		a := b.listener(time.Duration(pick(r, 0, 0, 0, 0, 200, 1300, 1300, 5600)) * time.Millisecond)
		ls = append(ls, a)
		o.peers = append(o.peers, a.addr)
	}
	p := b.start(o)
	// a peer that does not say anything
	var silent net.Conn
	if r.Intn(3) == 0 {
		if silent = b.open(p); silent != nil {
			k := make([]byte, r.Intn(16))
			silent.Write(k)
		}
	}
	// and one that goes away before it has said all
	for r.Intn(2) == 0 {
		if x := b.open(p); x != nil {
			x.Write(make([]byte, r.Intn(16)))
			time.Sleep(time.Duration(r.Intn(2)) * 10 * time.Millisecond)
			x.Close()
		}
	}
	delays := make([]time.Duration, nOut+nIn)
	for i := range delays {
		delays[i] = time.Duration(2+i*3) * 10 * time.Second
	}
	var wg sync.WaitGroup
	cs := make([]*conn, nOut+nIn)
	for i := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i < nOut {
				cs[i] = b.accept(p, ls[i], delays[i])
			} else {
				cs[i] = b.dial(p, delays[i])
			}
		}()
	}
	wg.Wait()
	open := []*conn{}
	for _, c := range cs {
		if c != nil {
			open = append(open, c)
		}
	}
	if b.wait(15*time.Second, func() bool { return p.peers >= len(cs) }); len(open) == 0 {
		b.finish(ev{"n": 0})
		return
	}
	n := 4 + r.Intn(o.K-3)
	if n > 30 {
		n = 30
	}
	ids := []int{}
	injected := map[*conn][]int{}
	for len(ids) < n {
		c := pick(r, open...)
		loss := 0
		if !clamp && r.Intn(3) == 0 {
			loss = 1 + r.Intn(5)
		}
		x := b.tx(time.Duration(r.Intn(1000)) * time.Millisecond)
		switch k := injected[c]; {
		case r.Intn(3) == 0 && len(k) > 0:
			c.send(loss, x, pick(r, k...))
		case r.Intn(3) == 0 && len(ids)+1 < n:
			y := b.tx(0)
			c.send(loss, x, y)
			c.send(0, y)
			injected[c] = append(injected[c], y)
			ids = append(ids, y)
		default:
			c.send(loss, x)
		}
		injected[c] = append(injected[c], x)
		ids = append(ids, x)
		if r.Intn(4) == 0 {
			// again what its decoder knows
			c.send(0, pick(r, injected[c]...))
		}
		if r.Intn(10) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
		}
	}
	b.everyone(ids, open)
	b.wait(10*time.Second, func() bool { return p.total >= n })
	b.settle(open)
	b.extra(p, ls)
	if silent != nil {
		defer silent.Close()
	}
	b.finish(ev{"n": n})
}

// the program's own transactions
func genSession(r *rand.Rand) {
	b := newBox(r, "gen")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.tx = float64(30 + r.Intn(50))
	o.K = pick(r, 50, 50, 80)
	switch r.Intn(3) {
	case 0:
		o.r0 = 0
		o.min = pick(r, 64, int(o.tx)*64*3)
	case 1:
		o.r0 = int(o.tx) * 64 * 3
	default:
		o.r0, o.min = 64, int(o.tx)*64*3
	}
	p := b.start(o)
	c := b.dial(p, 0)
	if c == nil {
		b.finish(ev{"n": 0})
		return
	}
	b.wait(30*time.Second, func() bool { return p.count["gen"] >= 6 && c.rates >= 3 })
	b.finish(ev{"n": 0})
}

// codewords that time out
func lossSession(r *rand.Rand) {
	b := newBox(r, "loss")
	defer os.RemoveAll(b.dir)
	o := defaults()
	short := r.Intn(4) > 0
	o.timeout = 40 * time.Second
	if short {
		o.timeout = time.Duration(200+r.Intn(300)) * time.Millisecond
	}
	p := b.start(o)
	c := b.dial(p, 50*time.Second)
	var d *conn
	if r.Intn(2) == 0 {
		d = b.dial(p, 60*time.Second)
	}
	cs := []*conn{}
	for _, c := range []*conn{c, d} {
		if c != nil {
			cs = append(cs, c)
		}
	}
	b.wait(15*time.Second, func() bool { return p.peers >= len(cs) })
	if c == nil {
		b.finish(ev{"n": 0})
		return
	}
	fresh, late := []int{}, []int{}
	lost := 0
	for k := 0; k < 2; k++ {
		pairs := [][2]int{}
		for i := 0; i < 1+r.Intn(4); i++ {
			q := [2]int{b.tx(0), b.tx(0)}
			pairs = append(pairs, q)
			c.send(0, q[0], q[1])
			lost++
			if r.Intn(2) == 0 {
				x := b.tx(0)
				c.send(0, x)
				fresh = append(fresh, x)
			}
		}
		if short {
			time.Sleep(o.timeout + 400*time.Millisecond)
		} else {
			time.Sleep(time.Second)
		}
		x := b.tx(0)
		c.send(0, x)
		fresh = append(fresh, x)
		if short {
			// the report tells that they expired
			b.wait(15*time.Second, func() bool { return c.lossGot >= lost })
		}
		for _, q := range pairs {
			if r.Intn(2) == 0 {
				c.send(0, q[0])
				fresh = append(fresh, q[0])
				late = append(late, q[1])
			}
		}
	}
	if !short {
		fresh = append(fresh, late...)
		late, lost = []int{}, 0
	}
	b.everyone(fresh, cs)
	b.wait(10*time.Second, func() bool { return p.total >= len(fresh)+len(late) })
	b.settle(cs)
	b.finish(ev{"n": len(fresh) + len(late), "late": late, "lost": lost})
}

// latencies of transactions since the end of the warm-up
func latSession(r *rand.Rand) {
	b := newBox(r, "lat")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.K = 100
	o.warm = time.Duration(1200+r.Intn(1500)) * time.Millisecond
	begun := time.Now()
	p := b.start(o)
	c := b.dial(p, time.Minute)
	if c == nil {
		b.finish(ev{"n": 0})
		return
	}
	b.wait(15*time.Second, func() bool { return p.peers >= 1 })
	a := 0
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		c.send(0, b.tx(100*time.Second))
		a++
		// until a little before the warm-up ends; the total tells that they were all counted by then
		if time.Since(begun) > o.warm-time.Duration(200+r.Intn(300))*time.Millisecond {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	b.wait(20*time.Second, func() bool { return p.warm })
	ages := []int{}
	n := 20 + r.Intn(20)
	// a fifth is 10 s old, a fifth 40 s, the others 20 s
	for i := 0; i < n; i++ {
		age := 20
		if i < n/5 {
			age = 10
		} else if i >= n-n/5 {
			age = 40
		}
		ages = append(ages, age)
	}
	r.Shuffle(n, func(i, j int) { ages[i], ages[j] = ages[j], ages[i] })
	for _, s := range ages {
		c.send(0, b.tx(time.Duration(s)*time.Second))
	}
	b.wait(10*time.Second, func() bool { return p.total >= a+n })
	b.mu.Lock()
	lat := p.count["lat"]
	b.add(func() ev { return ev{"ev": "done", "i": p.i} })
	b.mu.Unlock()
	b.wait(10*time.Second, func() bool { return p.count["lat"] >= lat+2 })
	b.finish(ev{"n": a + n, "before": a, "ages": ages})
}

// more transactions than the window holds
func windowSession(r *rand.Rand) {
	b := newBox(r, "window")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.K = 3 + r.Intn(20)
	p := b.start(o)
	c := b.dial(p, time.Minute)
	d := b.dial(p, time.Minute)
	if c == nil || d == nil {
		b.finish(ev{"n": 0})
		return
	}
	b.wait(15*time.Second, func() bool { return p.peers >= 2 })
	n := o.K + 1 + r.Intn(2*o.K)
	for i := 0; i < n; i++ {
		c.send(0, b.tx(0))
	}
	b.wait(10*time.Second, func() bool { return p.total >= n })
	// known to its decoder, long out of the window
	c.send(0, 1)
	b.settle([]*conn{c, d})
	b.emit(ev{"ev": "quiet", "t": b.us(time.Now())})
	last := []int{}
	for i := n - o.K; i < n; i++ {
		last = append(last, i+1)
	}
	b.everyone(last, []*conn{c, d})
	time.Sleep(700 * time.Millisecond)
	b.finish(ev{"n": n})
}

// transactions that the decoder has forgotten count again
func memSession(r *rand.Rand) {
	b := newBox(r, "mem")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.K = 10
	o.M = 30 + r.Intn(20)
	p := b.start(o)
	c := b.dial(p, time.Minute)
	if c == nil {
		b.finish(ev{"n": 0})
		return
	}
	b.wait(15*time.Second, func() bool { return p.peers >= 1 })
	n := 2 * o.M
	for i := 0; i < n; i++ {
		c.send(0, b.tx(0))
		// what the controller tells the decoder must not be as late as its memory is long
		time.Sleep(20 * time.Millisecond)
	}
	b.wait(10*time.Second, func() bool { return p.total >= n })
	c.send(0, n-o.M/2)
	again := 0
	for i := 1; i <= o.M/3; i++ {
		if r.Intn(4) == 0 {
			c.send(0, i)
			again++
		}
	}
	b.wait(10*time.Second, func() bool { return p.total >= n+again })
	b.settle([]*conn{c})
	b.finish(ev{"n": n, "again": again})
}

// a peer that stops reading for a while does not disturb the others
func heldSession(r *rand.Rand) {
	b := newBox(r, "held")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.r0 = (1200 + r.Intn(800)) * 64
	o.buffer = pick(r, 0, 65000, 200000)
	p := b.start(o)
	c := b.dial(p, 20*time.Second)
	d := b.dial(p, 40*time.Second)
	if c == nil || d == nil {
		b.finish(ev{"n": 0})
		return
	}
	b.wait(15*time.Second, func() bool { return p.peers >= 2 })
	n := 10 + r.Intn(20)
	ids := []int{}
	x := b.tx(0)
	c.send(0, x)
	ids = append(ids, x)
	b.everyone(ids, []*conn{c, d})
	c.hold <- true
	at := r.Intn(n)
	for i := 1; i < n; i++ {
		x := b.tx(0)
		pick(r, c, d).send(0, x)
		ids = append(ids, x)
		if i == at {
			b.everyone(ids, []*conn{d})
			time.Sleep(3 * time.Second)
		}
	}
	b.everyone(ids, []*conn{d})
	time.Sleep(3 * time.Second)
	<-c.hold
	// it has caught up
	b.wait(20*time.Second, func() bool { return time.Now().UnixMicro()-c.all[len(c.all)-1].stamp < 200000 })
	b.everyone(ids, []*conn{c})
	b.wait(10*time.Second, func() bool { return p.total >= n })
	b.settle([]*conn{c, d})
	b.finish(ev{"n": n, "held": c.i})
}

// so many silent connections that the program cannot open any more
func filesSession(r *rand.Rand) {
	b := newBox(r, "files")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.files = 16 + r.Intn(8)
	o.peers = []string{}
	a := b.listener(0)
	o.peers = append(o.peers, a.addr)
	p := b.start(o)
	cs := []*conn{b.accept(p, a, time.Minute)}
	xs := []net.Conn{}
	for i := 0; i < o.files+4; i++ {
		if x := b.open(p); x != nil {
			xs = append(xs, x)
		}
	}
	time.Sleep(100 * time.Millisecond)
	for _, x := range xs {
		x.Close()
	}
	cs = append(cs, b.dial(p, 40*time.Second))
	open := []*conn{}
	for _, c := range cs {
		if c != nil {
			open = append(open, c)
		}
	}
	b.wait(15*time.Second, func() bool { return p.peers >= 2 })
	n := 0
	ids := []int{}
	if len(open) > 0 {
		n = 10
		for i := 0; i < n; i++ {
			x := b.tx(0)
			pick(r, open...).send(0, x)
			ids = append(ids, x)
		}
	}
	b.everyone(ids, open)
	b.wait(10*time.Second, func() bool { return p.total >= n })
	b.settle(open)
	b.finish(ev{"n": n})
}

// degrees of the codewords
func degSession(r *rand.Rand) {
	b := newBox(r, "deg")
	defer os.RemoveAll(b.dir)
	o := defaults()
	o.K = pick(r, 50, 30, 64)
	o.C = pick(r, 0.03, 0.03, 0.3)
	o.delta = pick(r, 0.5, 0.5, 0.05)
	o.r0 = 1200 * 64
	p := b.start(o)
	c := b.dial(p, time.Minute)
	if c == nil {
		b.finish(ev{"n": 0})
		return
	}
	b.wait(15*time.Second, func() bool { return p.peers >= 1 })
	for i := 0; i < o.K; i++ {
		c.send(0, b.tx(0))
	}
	b.wait(10*time.Second, func() bool { return p.total >= o.K })
	b.mu.Lock()
	n0 := len(c.all)
	b.mu.Unlock()
	time.Sleep(300 * time.Millisecond)
	b.wait(20*time.Second, func() bool { return len(c.all) >= n0+2500 })
	b.mu.Lock()
	// shares of the degrees 1, 2, 3, 4-8, 9-K
	class := func(d int) int {
		switch {
		case d <= 3:
			return max(d, 1) - 1
		case d <= 8:
			return 3
		}
		return 4
	}
	obs, exp := make([]int, 5), make([]int, 5)
	for _, g := range c.all[n0:] {
		if g.stamp > 0 {
			obs[class(len(g.members))]++
		}
	}
	num := len(c.all) - n0
	b.mu.Unlock()
	dist := soliton.NewRobustSoliton(rand.New(rand.NewSource(1)), uint64(o.K), o.C, o.delta)
	for i := 0; i < 200000; i++ {
		exp[class(int(dist.Uint64()))]++
	}
	for i := range exp {
		exp[i] /= 20 // of 10000
	}
	b.emit(ev{"ev": "deg", "obs": obs, "exp": exp, "num": num})
	b.finish(ev{"n": o.K})
}

// several programs connected to each other
func chainSession(r *rand.Rand) {
	b := newBox(r, "chain")
	defer os.RemoveAll(b.dir)
	k := 2 + r.Intn(3)
	ps := []*proc{}
	// reserve the addresses first: programs may start before those they dial
	for i := 0; i < k; i++ {
		l, err := net.Listen("tcp", host(r)+":0")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		o := defaults()
		o.K = pick(r, 50, 30)
		o.r0 = (200 + r.Intn(200)) * 64
		p := &proc{b: b, i: i + 1, addr: l.Addr().String(), o: o, done: make(chan bool), count: map[string]int{}}
		l.Close()
		ps = append(ps, p)
	}
	deg := make([]int, k)
	for i := 1; i < k; i++ {
		j := r.Intn(i)
		deg[i]++
		deg[j]++
		if r.Intn(2) == 0 {
			i, j := i, j
			ps[i].o.peers = append(ps[i].o.peers, ps[j].addr)
		} else {
			ps[j].o.peers = append(ps[j].o.peers, ps[i].addr)
		}
	}
	for _, i := range r.Perm(k) {
		b.launch(ps[i])
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
		}
	}
	cs := []*conn{}
	for i := 0; i < k; i++ {
		if deg[i] == 1 || r.Intn(2) == 0 {
			if c := b.dial(ps[i], time.Minute); c != nil {
				cs = append(cs, c)
				deg[i]++
			}
		}
	}
	ok := b.wait(20*time.Second, func() bool {
		for i, p := range ps {
			if p.peers < deg[i] {
				return false
			}
		}
		return true
	})
	b.emit(ev{"ev": "wired", "ok": ok})
	n := 0
	ids := []int{}
	if ok && len(cs) > 0 {
		n = 3 + r.Intn(15)
		for i := 0; i < n; i++ {
			x := b.tx(0)
			pick(r, cs...).send(0, x)
			ids = append(ids, x)
		}
		b.everyone(ids, cs)
		b.wait(10*time.Second, func() bool {
			for _, p := range ps {
				if p.total < n {
					return false
				}
			}
			return true
		})
	}
	b.finish(ev{"n": n})
}

func TestMain(m *testing.M) {
	kind := flag.String("kind", "opts", "")
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 10, "sessions")
	out := flag.String("out", "trace.ndjson", "")
	bin := flag.String("bin", "", "the program")
	flag.Parse()
	tr = newTracer(*out)
	nodeBin, _ = filepath.Abs(*bin)
	kinds := map[string]func(*rand.Rand){"opts": optsSession, "gen": genSession, "loss": lossSession, "lat": latSession,
		"window": windowSession, "mem": memSession, "held": heldSession, "files": filesSession, "deg": degSession, "chain": chainSession}
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		k := *kind
		if k == "mix" {
			k = pick(r, "opts", "opts", "opts", "gen", "loss", "loss", "lat", "window", "mem", "held", "files", "deg", "chain")
		}
		f, ok := kinds[k]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown kind", k)
			os.Exit(2)
		}
		tr.session(150*time.Second, func() { f(r) })
	}
	tr.close()
	os.Exit(0)
}
