//go:build go1.21

package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/crypto/ssh"
)

// scpStub stands in for scp: it reports its arguments and does nothing else
func scpStub() {
	c, err := net.Dial("unix", os.Getenv("VERIF_SCP"))
	if err != nil {
		os.Exit(9)
	}
	b, _ := json.Marshal(os.Args[1:])
	c.Write(append(b, '\n'))
	var code [1]byte
	if _, err := io.ReadFull(c, code[:]); err != nil {
		os.Exit(9)
	}
	os.Exit(int(code[0]))
}

// host is one server of an experiment
type host struct {
	i       int
	ip      string
	port    int
	l       net.Listener
	refuse  bool // no connection
	failing string
	nth     int // the request that fails
	seen    int
	procs   int
}

type lab struct {
	mu    sync.Mutex
	r     *rand.Rand
	hosts []*host
	cfg   *ssh.ServerConfig
	rtt   map[string]int // tenths of a millisecond, even
	dead  bool
}

var runRe = regexp.MustCompile(`\./txcode-node\b(.*)`)

var killRe = regexp.MustCompile(`\b(killall|pkill)\b[^;&|]*\btxcode-node`)
var logRe = regexp.MustCompile(`>\s*(\./)?log\.txt`)

func (l *lab) index(ip string) int {
	for _, h := range l.hosts {
		if h.ip == ip {
			return h.i
		}
	}
	return -1
}

// fails tells whether the request at hand of the host fails
func (l *lab) fails(h *host, what string) bool {
	if h.failing != what {
		return false
	}
	h.seen++
	if h.seen == h.nth {
		tr.emit(ev{"ev": "xfault", "srv": h.i, "act": what})
		return true
	}
	return false
}

func (l *lab) serve(h *host) {
	for {
		c, err := h.l.Accept()
		if err != nil {
			return
		}
		l.mu.Lock()
		refuse := h.refuse
		l.mu.Unlock()
		if refuse {
			c.Close()
			continue
		}
		go l.conn(h, c)
	}
}

func (l *lab) conn(h *host, c net.Conn) {
	sc, chans, reqs, err := ssh.NewServerConn(c, l.cfg)
	if err != nil {
		return
	}
	go ssh.DiscardRequests(reqs)
	for nc := range chans {
		l.mu.Lock()
		bad := l.fails(h, "session")
		l.mu.Unlock()
		if bad {
			nc.Reject(ssh.Prohibited, "no")
			continue
		}
		ch, reqs, err := nc.Accept()
		if err != nil {
			continue
		}
		go func() {
			defer ch.Close()
			for rq := range reqs {
				if rq.Type != "exec" {
					rq.Reply(false, nil)
					continue
				}
				var p struct{ Cmd string }
				ssh.Unmarshal(rq.Payload, &p)
				rq.Reply(true, nil)
				l.mu.Lock()
				out, code := l.exec(h, p.Cmd, sc.User())
				l.mu.Unlock()
				io.WriteString(ch, out)
				ch.SendRequest("exit-status", false, ssh.Marshal(struct{ S uint32 }{uint32(code)}))
				return
			}
		}()
	}
}

func (l *lab) exec(h *host, cmd, user string) (string, int) {
	if l.dead {
		return "", 1
	}
	if user != "ubuntu" {
		tr.emit(ev{"ev": "exec", "srv": h.i, "c": "other", "cmd": "as " + user})
		return "", 1
	}
	m := runRe.FindStringSubmatch(cmd)
	if k := killRe.FindString(cmd); k != "" {
		n := h.procs
		h.procs = 0
		// without waiting the old node may still be there
		waits := strings.Contains(k, " -w") || strings.Contains(k, "--wait") || strings.Contains(cmd, "pidwait")
		tr.emit(ev{"ev": "exec", "srv": h.i, "c": "kill", "left": n > 0 && !waits})
		if m == nil {
			if n == 0 {
				return "txcode-node: no process found\n", 1
			}
			return "", 0
		}
	}
	if strings.HasPrefix(cmd, "ping ") {
		ip := ""
		for _, w := range strings.Fields(cmd) {
			if net.ParseIP(w) != nil {
				ip = w
			}
		}
		if l.fails(h, "ping") {
			return "", 2
		}
		tr.emit(ev{"ev": "exec", "srv": h.i, "c": "ping", "to": l.index(ip)})
		rtt := l.rtt[fmt.Sprint(h.i, l.index(ip))]
		return fmt.Sprintf("%d.%d00\n", rtt/10, rtt%10), 0
	}
	if m != nil {
		if l.fails(h, "run") {
			return "", 1
		}
		s := m[1]
		if k := strings.IndexAny(s, ">&'"); k >= 0 {
			s = s[:k]
		}
		peers, listen, rest := []ev{}, 0, []string{}
		w := []string{}
		for _, a := range strings.Fields(s) {
			if strings.HasPrefix(a, "--") {
				a = a[1:]
			}
			if strings.HasPrefix(a, "-p=") || strings.HasPrefix(a, "-l=") {
				w = append(w, a[:2])
				a = a[3:]
			}
			w = append(w, a)
		}
		for i := 0; i < len(w); i++ {
			switch {
			case w[i] == "-p" && i+1 < len(w):
				i++
				for _, p := range strings.Split(w[i], ",") {
					a, pt, _ := net.SplitHostPort(p)
					n, _ := strconv.Atoi(pt)
					peers = append(peers, ev{"srv": l.index(a), "port": n})
				}
			case w[i] == "-l" && i+1 < len(w):
				i++
				_, pt, _ := net.SplitHostPort(w[i])
				listen, _ = strconv.Atoi(pt)
			default:
				rest = append(rest, w[i])
			}
		}
		h.procs++
		tr.emit(ev{"ev": "exec", "srv": h.i, "c": "run", "peers": peers, "port": listen, "args": strings.Join(rest, " "), "log": logRe.MatchString(cmd)})
		return "", 0
	}
	tr.emit(ev{"ev": "exec", "srv": h.i, "c": "other", "cmd": cmd})
	return "", 127
}

func (l *lab) scp(c net.Conn, key string) {
	defer c.Close()
	var args []string
	if json.NewDecoder(c).Decode(&args) != nil || len(args) < 2 {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.dead {
		return
	}
	from, to := args[len(args)-2], args[len(args)-1]
	e := ev{"ev": "scp", "srv": -1, "up": false, "far": "", "near": "", "key": false}
	for i, a := range args {
		if a == "-i" && i+1 < len(args) {
			e["key"] = args[i+1] == key
		}
	}
	remote, local := from, to
	if strings.Contains(to, "@") {
		remote, local = to, from
		e["up"] = true
	}
	srv := -1
	if m := regexp.MustCompile(`^ubuntu@([0-9.]+):(.*)$`).FindStringSubmatch(remote); m != nil {
		srv = l.index(m[1])
		e["srv"], e["far"], e["near"] = srv, m[2], local
	}
	if srv >= 0 && l.fails(l.hosts[srv], "scp") {
		c.Write([]byte{1})
		return
	}
	tr.emit(e)
	c.Write([]byte{0})
}

var lineRe = regexp.MustCompile(`(?m)^\s*node\[(\d+)\]\.peer\+\+ <--> \{\s*delay = ([0-9.]+)ms;\s*\} <--> node\[(\d+)\]\.peer\+\+;\s*$`)

func expSession(bin, base string, seed int64) bool {
	r := rand.New(rand.NewSource(seed))
	dir := must(os.MkdirTemp(base, "x"))
	defer os.RemoveAll(dir)
	l := &lab{r: r, rtt: map[string]int{}, cfg: &ssh.ServerConfig{}}
	ck := must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader))
	der := must(x509.MarshalECPrivateKey(ck))
	key := filepath.Join(dir, "key")
	check(os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}), 0o600))
	pub := must(ssh.NewSignerFromKey(ck)).PublicKey()
	l.cfg.PublicKeyCallback = func(_ ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
		if string(k.Marshal()) != string(pub.Marshal()) {
			return nil, fmt.Errorf("unknown key")
		}
		return nil, nil
	}
	l.cfg.AddHostKey(must(ssh.NewSignerFromKey(must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader)))))
	n := 1 + r.Intn(6)
	var open atomic.Int64
	var list []entry
	first := 2 + r.Intn(200)
	for i := 0; i < n; i++ {
		h := &host{i: i, ip: fmt.Sprintf("127.0.0.%d", first+i)}
		h.l = counted{must(net.Listen("tcp", h.ip+":0")), &open}
		defer h.l.Close()
		h.port = h.l.Addr().(*net.TCPAddr).Port
		l.hosts = append(l.hosts, h)
		list = append(list, entry{ID: fmt.Sprint("id", i), PublicIP: h.ip, PrivateIP: fmt.Sprintf("10.0.0.%d", i+1), User: "ubuntu", KeyPath: key, Location: fmt.Sprint("loc", i/2), Tag: "t", Provider: "aws", Port: h.port})
		go l.serve(h)
	}
	lf := filepath.Join(dir, "servers.json")
	check(os.WriteFile(lf, must(json.Marshal(list)), 0o600))
	check(os.Symlink(must(os.Executable()), filepath.Join(dir, "scp")))
	env := []string{"HOME=" + dir, "PATH=" + dir, "GORACE=atexit_sleep_ms=0", "GOMAXPROCS=4"}
	tr.emit(ev{"ev": "new", "kind": "exp", "n": n})
	steps := 2 + r.Intn(4)
	for s := 0; s < steps; s++ {
		ops := []string{}
		for _, o := range []string{"install", "ping", "run", "dl"} {
			if r.Intn(3) == 0 {
				ops = append(ops, o)
			}
		}
		if len(ops) == 0 {
			ops = append(ops, pick(r, "run", "run", "ping", "dl", "install"))
		}
		type pair struct{ From, To int }
		topo := []pair{}
		if n > 1 {
			for k := r.Intn(2 * n); k > 0; k-- {
				i, j := r.Intn(n), r.Intn(n)
				dup := i == j
				for _, p := range topo {
					dup = dup || p.From == i && p.To == j
				}
				if !dup {
					topo = append(topo, pair{i, j})
				}
			}
		}
		tf := filepath.Join(dir, "topo.json")
		check(os.WriteFile(tf, must(json.Marshal(map[string]any{"Topology": topo})), 0o600))
		args := []string{"exp", "-l", lf}
		prefix := fmt.Sprintf("res%d", s)
		for _, o := range ops {
			args = append(args, "-"+o, map[string]string{"install": "build/node", "ping": tf, "run": tf, "dl": prefix}[o])
		}
		rest := pick(r, "", "-t 0.02", "-q 5 -t 0.1")
		args = append(args, strings.Fields(rest)...)
		if rest != "" {
			args = append(args[:len(args)-len(strings.Fields(rest))], append([]string{"--"}, strings.Fields(rest)...)...)
		}
		tp, rtts := []ev{}, []ev{}
		l.mu.Lock()
		l.rtt, l.dead = map[string]int{}, false
		for _, p := range topo {
			v := 2 * (1 + r.Intn(2000))
			l.rtt[fmt.Sprint(p.From, p.To)] = v
			tp = append(tp, ev{"a": p.From, "b": p.To})
			rtts = append(rtts, ev{"a": p.From, "b": p.To, "d": v / 2})
		}
		for _, h := range l.hosts {
			h.refuse, h.failing, h.seen, h.nth = false, "", 0, 1+r.Intn(2)
		}
		refused := false
		if r.Intn(2) == 0 {
			h := l.hosts[r.Intn(n)]
			h.failing = pick(r, "session", "run", "run", "ping", "scp", "scp")
			if r.Intn(6) == 0 {
				h.refuse, refused = true, true
			}
		}
		tr.emit(ev{"ev": "xcmd", "ops": ops, "topo": tp, "rtt": rtts, "args": rest, "prefix": prefix, "refused": refused})
		l.mu.Unlock()
		// copies that outlive their command find nobody to copy from or to
		sock := filepath.Join(dir, fmt.Sprintf("scp%d.sock", s))
		us := counted{must(net.Listen("unix", sock)), &open}
		go func() {
			for {
				c, err := us.Accept()
				if err != nil {
					return
				}
				go l.scp(c, key)
			}
		}()
		o := runTool(bin, dir, append([]string{"VERIF_SCP=" + sock}, env...), args, "", 60*time.Second, nil)
		l.mu.Lock()
		l.dead = true
		l.mu.Unlock()
		us.Close()
		settleAll(&open)
		if ended(o) {
			return false
		}
		lines := []ev{}
		for _, m := range lineRe.FindAllStringSubmatch(o.out, -1) {
			a, _ := strconv.Atoi(m[1])
			b, _ := strconv.Atoi(m[3])
			f, _ := strconv.ParseFloat(m[2], 64)
			lines = append(lines, ev{"a": a, "b": b, "d": int(f*10 + 0.5)})
		}
		tr.emit(ev{"ev": "xend", "rc": o.rc, "lines": lines})
	}
	return true
}
