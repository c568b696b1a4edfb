//go:build go1.21

// Conformance driver for the testbed tool: runs the real program against a
// cloud that this driver plays (both providers' APIs behind an intercepting
// proxy on the loopback interface) and records what the program makes of it.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"flag"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var tr *tracer

// ------------------------------------------------ interception of requests

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  string // file
	mu   sync.Mutex
	have map[string]*tls.Certificate
}

func newAuthority(dir string) *authority {
	a := &authority{have: map[string]*tls.Certificate{}}
	a.key = must(ecdsa.GenerateKey(elliptic.P256(), crand.Reader))
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "driver"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(100 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der := must(x509.CreateCertificate(crand.Reader, t, t, &a.key.PublicKey, a.key))
	a.cert = must(x509.ParseCertificate(der))
	a.pem = filepath.Join(dir, "ca.pem")
	check(os.WriteFile(a.pem, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	return a
}

func (a *authority) get(name string) (*tls.Certificate, error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if c, ok := a.have[name]; ok {
		return c, nil
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(a.have) + 2)), DNSNames: []string{name}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(100 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(crand.Reader, t, a.cert, &a.key.PublicKey, a.key)
	if err != nil {
		return nil, err
	}
	a.have[name] = &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: a.key}
	return a.have[name], nil
}

type chanListener struct {
	c    chan net.Conn
	done chan struct{}
}

func (l chanListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l chanListener) Close() error   { return nil }
func (l chanListener) Addr() net.Addr { return &net.TCPAddr{} }

var quiet = log.New(io.Discard, "", 0)

// counted counts the connections that are open: those of a program that has ended
// are closed once everything that it still sent has been served
type counted struct {
	net.Listener
	open *atomic.Int64
}

type countedConn struct {
	net.Conn
	once sync.Once
	open *atomic.Int64
}

func (l counted) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.open.Add(1)
	return &countedConn{Conn: c, open: l.open}, nil
}

func (c *countedConn) Close() error {
	err := c.Conn.Close()
	c.once.Do(func() { c.open.Add(-1) })
	return err
}

func settleAll(open *atomic.Int64) {
	for i := 0; i < 2000 && open.Load() > 0; i++ {
		time.Sleep(5 * time.Millisecond)
	}
}

// proxy serves every request that a program makes through it with h; settle waits
// for the requests of a program that has ended
func proxy(a *authority, h http.Handler) (addr string, settle, stop func()) {
	inner := chanListener{make(chan net.Conn), make(chan struct{})}
	tc := &tls.Config{GetCertificate: func(i *tls.ClientHelloInfo) (*tls.Certificate, error) { return a.get(i.ServerName) }}
	is := &http.Server{Handler: h, ErrorLog: quiet}
	go is.Serve(inner)
	var open atomic.Int64
	outer := counted{must(net.Listen("tcp", "127.0.0.1:0")), &open}
	os := &http.Server{ErrorLog: quiet, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method != http.MethodConnect {
			h.ServeHTTP(w, r)
			return
		}
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		c.Write([]byte("HTTP/1.1 200 OK\r\n\r\n"))
		select {
		case inner.c <- tls.Server(c, tc):
		case <-inner.done:
		}
	})}
	go os.Serve(outer)
	settle = func() { settleAll(&open) }
	return outer.Addr().String(), settle, func() { close(inner.done); os.Close(); is.Close() }
}

func must[T any](v T, err error) T {
	check(err)
	return v
}
func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(2)
	}
}

// -------------------------------------------------------------- the cloud

type machine struct {
	id, loc, tag, st string // pending running stopping stopped gone | pending ok locked closed installing
	pub, priv        string
	vid              int  // region id (vultr)
	unmarked         bool // carries no tag of the tool
}

type region struct {
	name   string
	id     int // vultr
	ami    string
	keys   int
	sg     string
	sgNew  bool
	tokens map[string][]*machine
	page   int
	off    bool // not available to the account
	sold   bool // vultr: the plan is available there
}

// fault: how the nth request of a kind at a location is answered
type fault struct {
	act, loc string
	nth      int
	kind     string // deny, dead, lost, drop, trunc
	seen     int
}

type cloud struct {
	mu      sync.Mutex
	r       *rand.Rand
	vendor  string
	regs    []*region
	ms      []*machine
	nid     int
	faults  []*fault
	reqs    int
	killAt  int // before (positive) or after (negative) this request
	kill    func()
	dead    bool
	price   string
	unknown string
}

func (c *cloud) reg(name string) *region {
	for _, g := range c.regs {
		if g.name == name {
			return g
		}
	}
	return nil
}

// hit tells how a request is to be answered ("" regularly)
func (c *cloud) hit(act, loc string) string {
	for _, f := range c.faults {
		if f.act == act && f.loc == loc {
			f.seen++
			if f.seen == f.nth || (f.kind == "dead" && f.seen > f.nth) {
				tr.emit(ev{"ev": "fault", "act": act, "loc": loc})
				return f.kind
			}
		}
	}
	return ""
}

func (c *cloud) fresh(loc, tag string, g *region) *machine {
	c.nid++
	m := &machine{loc: loc, tag: tag, st: "pending", vid: g.id}
	if c.vendor == "aws" {
		m.id = fmt.Sprintf("i-%08x%03x", c.r.Uint32(), c.nid)
		m.priv = fmt.Sprintf("172.31.%d.%d", c.nid/200, c.nid%200+1)
	} else {
		m.id = strconv.Itoa(100000 + c.r.Intn(800000) + c.nid*1000000)
	}
	c.ms = append(c.ms, m)
	return m
}

func (c *cloud) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	c.mu.Lock()
	c.reqs++
	if c.dead || c.reqs == c.killAt {
		c.die()
		c.mu.Unlock()
		panic(http.ErrAbortHandler)
	}
	host := r.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}
	status, out, act := 404, "", ""
	switch {
	case host == "cloud-images.ubuntu.com":
		status, out, act = c.images(r)
	case strings.HasPrefix(host, "ec2.") && strings.HasSuffix(host, ".amazonaws.com"):
		f, _ := url.ParseQuery(string(body))
		status, out, act = c.ec2(strings.TrimSuffix(strings.TrimPrefix(host, "ec2."), ".amazonaws.com"), f)
	case host == "api.vultr.com":
		f, _ := url.ParseQuery(string(body))
		for k, v := range r.URL.Query() {
			f[k] = v
		}
		if r.Header.Get("API-Key") != "testkey" && r.URL.Path != "/v1/plans/list" && r.URL.Path != "/v1/regions/list" && r.URL.Path != "/v1/os/list" {
			status, out = 403, "Invalid API key"
		} else {
			status, out, act = c.vultr(r.Method, r.URL.Path, f)
		}
	default:
		c.unknown = r.Host + r.URL.Path
	}
	if c.reqs == -c.killAt {
		c.die()
		act = "drop"
	}
	c.mu.Unlock()
	switch act {
	case "drop":
		panic(http.ErrAbortHandler)
	case "trunc":
		w.Header().Set("Content-Length", strconv.Itoa(len(out)+100))
		w.WriteHeader(status)
		io.WriteString(w, out)
		panic(http.ErrAbortHandler)
	}
	w.WriteHeader(status)
	io.WriteString(w, out)
}

func (c *cloud) die() {
	if !c.dead {
		c.dead = true
		tr.emit(ev{"ev": "kill"})
		c.kill()
	}
}

func (c *cloud) images(r *http.Request) (int, string, string) {
	var b strings.Builder
	b.WriteString("{\n  \"aaData\": [\n")
	line := func(loc, rel, ver, arch, id string) {
		fmt.Fprintf(&b, "[\"%s\",\"%s\",\"%s\",\"%s\",\"hvm:ebs-ssd\",\"20220404\",\"<a href=\"https://console.aws.amazon.com/ec2/home?region=%s#launchAmi=%s\">%s</a>\",\"hvm\"],\n",
			loc, rel, ver, arch, loc, id, id)
	}
	for _, g := range c.regs {
		line(g.name, "focal", "20.04 LTS", "arm64", g.ami+"f1")
		line(g.name, "bionic", "18.04 LTS", "amd64", g.ami+"f2")
		line(g.name, "focal", "20.04 LTS", "amd64", g.ami)
		line(g.name, "jammy", "22.04 LTS", "amd64", g.ami+"f3")
	}
	b.WriteString("]\n}\n")
	if k := c.hit("image", "*"); k == "trunc" || k == "drop" {
		return 200, b.String(), k
	} else if k != "" {
		return 200, b.String(), "drop"
	}
	return 200, b.String(), ""
}

func ec2err(code string) string {
	return "<Response><Errors><Error><Code>" + code + "</Code><Message>" + code + "</Message></Error></Errors><RequestID>x</RequestID></Response>"
}

var ec2code = map[string]int{"pending": 0, "running": 16, "going": 32, "gone": 48, "stopping": 64, "stopped": 80}
var ec2name = map[string]string{"pending": "pending", "running": "running", "going": "shutting-down", "gone": "terminated", "stopping": "stopping", "stopped": "stopped"}

func filters(f url.Values) map[string][]string {
	res := map[string][]string{}
	for i := 1; f.Get(fmt.Sprintf("Filter.%d.Name", i)) != ""; i++ {
		n := f.Get(fmt.Sprintf("Filter.%d.Name", i))
		for j := 1; f.Has(fmt.Sprintf("Filter.%d.Value.%d", i, j)); j++ {
			res[n] = append(res[n], f.Get(fmt.Sprintf("Filter.%d.Value.%d", i, j)))
		}
	}
	return res
}
func has(l []string, s string) bool {
	for _, v := range l {
		if v == s {
			return true
		}
	}
	return false
}
func listParam(f url.Values, name string) []string {
	var res []string
	for i := 1; f.Has(fmt.Sprintf("%s.%d", name, i)); i++ {
		res = append(res, f.Get(fmt.Sprintf("%s.%d", name, i)))
	}
	return res
}

func (c *cloud) ec2(loc string, f url.Values) (int, string, string) {
	act := f.Get("Action")
	g := c.reg(loc)
	if act == "DescribeRegions" {
		loc = "*"
	} else if g == nil || g.off {
		return 401, ec2err("AuthFailure"), ""
	}
	k := c.hit(act, loc)
	switch k {
	case "deny":
		return 400, ec2err("UnauthorizedOperation"), ""
	case "dead":
		return 500, ec2err("InternalError"), ""
	case "drop":
		return 500, "", "drop"
	}
	done := func(s string) (int, string, string) {
		if k == "lost" {
			return 500, ec2err("InternalError"), ""
		}
		return 200, "<" + act + "Response xmlns=\"http://ec2.amazonaws.com/doc/2016-11-15/\"><requestId>x</requestId>" + s + "</" + act + "Response>", ""
	}
	fl := filters(f)
	var b strings.Builder
	switch act {
	case "DescribeRegions":
		b.WriteString("<regionInfo>")
		for _, g := range c.regs {
			st := "opt-in-not-required"
			if g.off {
				st = "not-opted-in"
			}
			if w, ok := fl["opt-in-status"]; ok && !has(w, st) || !ok && g.off && f.Get("AllRegions") != "true" {
				continue
			}
			fmt.Fprintf(&b, "<item><regionName>%s</regionName><regionEndpoint>ec2.%s.amazonaws.com</regionEndpoint><optInStatus>%s</optInStatus></item>", g.name, g.name, st)
		}
		b.WriteString("</regionInfo>")
	case "DescribeKeyPairs":
		b.WriteString("<keySet>")
		if g.keys > 0 {
			if w, ok := fl["tag-key"]; ok && has(w, "pika2") {
				fmt.Fprintf(&b, "<item><keyPairId>key-1</keyPairId><keyName>key-%s</keyName></item>", g.name)
			}
		}
		b.WriteString("</keySet>")
	case "DescribeSecurityGroups":
		b.WriteString("<securityGroupInfo>")
		if w, ok := fl["tag-key"]; g.sg != "" && ok && has(w, "pika") {
			fmt.Fprintf(&b, "<item><groupId>%s</groupId><groupName>x</groupName></item>", g.sg)
		}
		b.WriteString("</securityGroupInfo>")
	case "DescribeVpcs":
		fmt.Fprintf(&b, "<vpcSet><item><vpcId>vpc-%s</vpcId></item></vpcSet>", g.name)
	case "CreateSecurityGroup":
		if g.sg != "" {
			return 400, ec2err("InvalidGroup.Duplicate"), ""
		}
		if f.Get("VpcId") != "vpc-"+g.name {
			return 400, ec2err("InvalidVpcID.NotFound"), ""
		}
		g.sg = "sg-" + g.name
		fmt.Fprintf(&b, "<groupId>%s</groupId>", g.sg)
	case "AuthorizeSecurityGroupIngress":
		b.WriteString("<return>true</return>")
	case "RunInstances":
		n, err := strconv.Atoi(f.Get("MaxCount"))
		lo, err2 := strconv.Atoi(f.Get("MinCount"))
		if err != nil || err2 != nil || n < lo || lo < 1 {
			return 400, ec2err("InvalidParameterValue"), ""
		}
		if f.Get("ImageId") != g.ami {
			return 400, ec2err("InvalidAMIID.NotFound"), ""
		}
		if f.Get("KeyName") != "key-"+g.name {
			return 400, ec2err("InvalidKeyPair.NotFound"), ""
		}
		if s := listParam(f, "SecurityGroupId"); len(s) != 1 || s[0] != g.sg {
			return 400, ec2err("InvalidGroup.NotFound"), ""
		}
		tag, marked := "", false
		for i := 1; f.Has(fmt.Sprintf("TagSpecification.%d.ResourceType", i)); i++ {
			if f.Get(fmt.Sprintf("TagSpecification.%d.ResourceType", i)) != "instance" {
				continue
			}
			for j := 1; f.Has(fmt.Sprintf("TagSpecification.%d.Tag.%d.Key", i, j)); j++ {
				if f.Get(fmt.Sprintf("TagSpecification.%d.Tag.%d.Key", i, j)) == "pika" {
					tag, marked = f.Get(fmt.Sprintf("TagSpecification.%d.Tag.%d.Value", i, j)), true
				}
			}
		}
		tok := f.Get("ClientToken")
		ms, again := g.tokens[tok]
		if !again || tok == "" {
			ms = nil
			ids := []string{}
			for i := 0; i < n; i++ {
				m := c.fresh(loc, tag, g)
				m.unmarked = !marked
				ms = append(ms, m)
				ids = append(ids, m.id)
			}
			if tok != "" {
				g.tokens[tok] = ms
			}
			tr.emit(ev{"ev": "create", "loc": loc, "tag": tag, "ids": ids})
		}
		b.WriteString("<reservationId>r-1</reservationId><instancesSet>")
		for _, m := range ms {
			fmt.Fprintf(&b, "<item><instanceId>%s</instanceId><instanceState><code>0</code><name>pending</name></instanceState></item>", m.id)
		}
		b.WriteString("</instancesSet>")
	case "DescribeInstances":
		var ms []*machine
		want := listParam(f, "InstanceId")
		for _, m := range c.ms {
			if m.loc != loc {
				continue
			}
			if len(want) > 0 && !has(want, m.id) {
				continue
			}
			ok := true
			for n, v := range fl {
				switch n {
				case "tag:pika":
					ok = ok && !m.unmarked && has(v, m.tag)
				case "tag-key":
					ok = ok && !m.unmarked && has(v, "pika")
				case "instance-state-name":
					ok = ok && has(v, ec2name[m.st])
				case "instance-state-code":
					ok = ok && has(v, strconv.Itoa(ec2code[m.st]))
				default:
					return 400, ec2err("InvalidParameterValue"), ""
				}
			}
			if ok {
				ms = append(ms, m)
			}
		}
		from := 0
		if t := f.Get("NextToken"); t != "" {
			from, _ = strconv.Atoi(strings.Split(strings.TrimPrefix(t, "tok"), ".")[0])
		}
		if from > len(ms) {
			from = len(ms)
		}
		to := len(ms)
		if g.page > 0 && from+g.page < to {
			to = from + g.page
		}
		if g.page > 0 && c.r.Intn(4) == 0 {
			to = from // a page may be empty and not be the last one
		}
		b.WriteString("<reservationSet>")
		open := false
		for i, m := range ms[from:to] {
			if !open || c.r.Intn(2) == 0 {
				if open {
					b.WriteString("</instancesSet></item>")
				}
				fmt.Fprintf(&b, "<item><reservationId>r-%d</reservationId><instancesSet>", i)
				open = true
			}
			fmt.Fprintf(&b, "<item><instanceId>%s</instanceId><instanceState><code>%d</code><name>%s</name></instanceState>", m.id, ec2code[m.st]+256*c.r.Intn(3), ec2name[m.st])
			if m.priv != "" {
				fmt.Fprintf(&b, "<privateIpAddress>%s</privateIpAddress>", m.priv)
			}
			if m.pub != "" {
				fmt.Fprintf(&b, "<ipAddress>%s</ipAddress>", m.pub)
			}
			b.WriteString("<tagSet>")
			if !m.unmarked {
				fmt.Fprintf(&b, "<item><key>pika</key><value>%s</value></item>", m.tag)
			}
			b.WriteString("</tagSet></item>")
		}
		if open {
			b.WriteString("</instancesSet></item>")
		}
		b.WriteString("</reservationSet>")
		if to < len(ms) {
			fmt.Fprintf(&b, "<nextToken>tok%d.%d</nextToken>", to, c.reqs)
		}
	case "TerminateInstances":
		ids := listParam(f, "InstanceId")
		var ms []*machine
		for _, id := range ids {
			var m *machine
			for _, o := range c.ms {
				if o.id == id && o.loc == loc {
					m = o
				}
			}
			if m == nil {
				return 400, ec2err("InvalidInstanceID.NotFound"), ""
			}
			ms = append(ms, m)
		}
		if len(ms) == 0 {
			return 400, ec2err("MissingParameter"), ""
		}
		tr.emit(ev{"ev": "delete", "ids": ids})
		b.WriteString("<instancesSet>")
		for _, m := range ms {
			if m.st != "gone" {
				m.st = "going"
			}
			fmt.Fprintf(&b, "<item><instanceId>%s</instanceId><currentState><code>%d</code><name>%s</name></currentState></item>", m.id, ec2code[m.st], ec2name[m.st])
		}
		b.WriteString("</instancesSet>")
	default:
		return 400, ec2err("InvalidAction"), ""
	}
	return done(b.String())
}

// vultr: version 1 of the API
func (c *cloud) vultr(method, path string, f url.Values) (int, string, string) {
	act := strings.TrimPrefix(path, "/v1/")
	loc := "*"
	var m *machine
	switch act {
	case "server/create":
		for _, g := range c.regs {
			if strconv.Itoa(g.id) == f.Get("DCID") {
				loc = g.name
			}
		}
	case "server/destroy", "server/reboot":
		for _, o := range c.ms {
			if o.id == f.Get("SUBID") {
				m = o
				loc = o.id
			}
		}
	}
	// the nth request of a kind, wherever it goes
	switch k := c.hit(act, "*"); k {
	case "":
	case "dead":
		return 503, "Internal error", ""
	case "drop":
		return 500, "", "drop"
	default:
		return 412, "Unable to comply", ""
	}
	obj := func(kv map[string]any) (int, string, string) {
		if len(kv) == 0 {
			return 200, "[]", ""
		}
		b, _ := json.Marshal(kv)
		return 200, string(b), ""
	}
	post := method == http.MethodPost
	switch act {
	case "plans/list":
		av := []int{}
		for _, g := range c.regs {
			if g.sold {
				av = append(av, g.id)
			}
		}
		return obj(map[string]any{
			"523": map[string]any{"VPSPLANID": "523", "name": "p", "vcpu_count": "4", "price_per_month": c.price, "available_locations": av},
			"201": map[string]any{"VPSPLANID": "201", "name": "q", "vcpu_count": "1", "price_per_month": "5.00", "available_locations": []int{1, 2, 3}},
			"524": map[string]any{"VPSPLANID": "524", "name": "o", "vcpu_count": "4", "price_per_month": c.price, "available_locations": []int{1, 2, 3, 4}},
		})
	case "regions/list":
		kv := map[string]any{}
		for _, g := range c.regs {
			kv[strconv.Itoa(g.id)] = map[string]any{"DCID": strconv.Itoa(g.id), "name": g.name, "country": "X"}
		}
		return obj(kv)
	case "sshkey/list":
		return obj(map[string]any{"k0": map[string]any{"SSHKEYID": "k0", "name": "other"}, "k1": map[string]any{"SSHKEYID": "k1", "name": "macOS Testbed"}})
	case "os/list":
		return obj(map[string]any{"387": map[string]any{"OSID": 387, "name": "Ubuntu 20.04 x64"}, "1743": map[string]any{"OSID": 1743, "name": "Ubuntu 22.04 x64"}})
	case "startupscript/list":
		return obj(map[string]any{"5": map[string]any{"SCRIPTID": "5", "name": "none"}, "7": map[string]any{"SCRIPTID": "7", "name": "increase-sshmaxsessions"}})
	case "server/list":
		kv := map[string]any{}
		for _, o := range c.ms {
			if o.st == "gone" || f.Has("tag") && o.tag != f.Get("tag") {
				continue
			}
			st, ss := "active", "ok"
			switch o.st {
			case "pending":
				st, ss = "pending", "none"
			case "closed":
				st, ss = "closed", "ok"
			case "locked":
				ss = "locked"
			case "installing":
				ss = "installingbooting"
			}
			kv[o.id] = map[string]any{"SUBID": o.id, "main_ip": o.pub, "location": o.loc, "DCID": strconv.Itoa(o.vid), "status": st, "server_state": ss, "tag": o.tag,
				"vcpu_count": "4", "VPSPLANID": "523"}
		}
		return obj(kv)
	case "server/create":
		g := c.reg(loc)
		if !post || g == nil || !g.sold || f.Get("VPSPLANID") != "523" || f.Get("OSID") != "1743" || f.Get("SSHKEYID") != "k1" || f.Get("SCRIPTID") != "7" {
			return 412, "Invalid server options", ""
		}
		n := c.fresh(loc, f.Get("tag"), g)
		tr.emit(ev{"ev": "create", "loc": loc, "tag": n.tag, "ids": []string{n.id}})
		return obj(map[string]any{"SUBID": n.id})
	case "server/destroy", "server/reboot":
		if !post || m == nil || m.st == "gone" {
			return 412, "Invalid server", ""
		}
		if m.st == "pending" || m.st == "closed" || m.st == "locked" {
			return 412, "Unable to change the server in its state", ""
		}
		if act == "server/destroy" {
			tr.emit(ev{"ev": "delete", "ids": []string{m.id}})
			m.st = "gone"
		} else {
			tr.emit(ev{"ev": "reboot", "id": m.id})
		}
		return 200, "", ""
	}
	c.unknown = path
	return 404, "Invalid API location", ""
}

// evolve lets time pass in the cloud
func (c *cloud) evolve(settle bool) {
	for _, m := range c.ms {
		if !settle && c.r.Intn(3) == 0 {
			continue
		}
		old := m.st
		switch m.st {
		case "pending":
			m.st = "running"
			if c.vendor == "vultr" {
				m.st = pick(c.r, "installing", "ok")
			}
			if c.vendor == "vultr" || c.r.Intn(8) > 0 {
				m.pub = fmt.Sprintf("10.%d.%d.%d", c.r.Intn(250), c.r.Intn(250), c.r.Intn(250)+1)
			}
		case "going":
			m.st = "gone"
		case "stopping":
			m.st = "stopped"
		case "running":
			if !settle && c.r.Intn(8) == 0 {
				m.st = pick(c.r, "stopping", "stopped")
				m.pub = ""
			}
		case "locked", "installing":
			m.st = "ok"
		case "ok":
			if !settle && c.r.Intn(8) == 0 {
				m.st = "locked"
			}
		case "closed":
			if settle {
				m.st = "ok"
			}
		}
		if m.st != old {
			tr.emit(ev{"ev": "evolve", "id": m.id, "st": m.st, "pub": m.pub, "priv": m.priv})
		}
	}
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// ------------------------------------------------------------- commands

type command struct {
	op, vendor, tag, loc string
	n                    int
	yes                  bool
	answer               string
	list                 bool
	env                  []string
}

type outcome struct {
	rc          int // -1 killed, -2 hangs
	out, stderr string
}

func runTool(bin, dir string, env []string, args []string, stdin string, limit time.Duration, started func(kill func())) outcome {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	check(cmd.Start())
	killed := false
	var mu sync.Mutex
	kill := func() {
		mu.Lock()
		killed = true
		mu.Unlock()
		cmd.Process.Kill()
	}
	if started != nil {
		started(kill)
	}
	hang := false
	t := time.AfterFunc(limit, func() { mu.Lock(); hang = true; mu.Unlock(); cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	mu.Lock()
	defer mu.Unlock()
	o := outcome{0, so.String(), se.String()}
	switch {
	case killed:
		o.rc = -1
	case hang:
		o.rc = -2
	case err != nil:
		o.rc = cmd.ProcessState.ExitCode()
	}
	return o
}

var crashRe = regexp.MustCompile(`(?m)^(panic: |fatal error: ).*$`)

// verdict on how the program ended, whatever it was to do
func ended(o outcome) bool {
	if o.rc == -2 {
		tr.emit(ev{"ev": "crash", "why": "the command does not end"})
		return true
	}
	if strings.Contains(o.stderr, "DATA RACE") {
		fmt.Fprintln(os.Stderr, o.stderr)
		tr.emit(ev{"ev": "crash", "why": "workers of one command race"})
		return true
	}
	if m := crashRe.FindString(o.stderr); m != "" {
		tr.emit(ev{"ev": "crash", "why": m})
		return true
	}
	return false
}

type entry struct {
	ID, PublicIP, PrivateIP, User, KeyPath, Location, Tag, Provider string
	Port                                                            int
}

func clusterSession(a *authority, bin, base string, seed int64) bool {
	r := rand.New(rand.NewSource(seed))
	dir := must(os.MkdirTemp(base, "s"))
	defer os.RemoveAll(dir)
	check(os.MkdirAll(filepath.Join(dir, ".ssh"), 0o700))
	check(os.WriteFile(filepath.Join(dir, "cred"), []byte("[default]\naws_access_key_id = X\naws_secret_access_key = Y\n[pika]\naws_access_key_id = A\naws_secret_access_key = B\n"), 0o600))
	c := &cloud{r: r, vendor: pick(r, "aws", "aws", "aws", "vultr", "vultr"), price: "80.00"}
	names := []string{"us-east-1", "us-east-2", "us-west-1", "us-west-2", "eu-west-1", "eu-central-1", "ap-south-1", "ap-northeast-1"}
	if c.vendor == "vultr" {
		names = []string{"New Jersey", "New York", "Seoul", "Tokyo", "London", "Silicon Valley", "Paris"}
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	hasEast := false
	for i, nm := range names[:2+r.Intn(len(names)-2)] {
		hasEast = hasEast || nm == "us-east-1"
		c.regs = append(c.regs, c.region(nm, i+1))
	}
	if c.vendor == "aws" && !hasEast {
		// the tool asks this one for the list
		c.regs[0].name = "us-east-1"
	}
	if c.vendor == "aws" {
		c.reg("us-east-1").off = false
	}
	tags := []string{"ouroboros", "exp1", "exp1b"}
	// sometimes many servers are there already, most of them of one tag
	tag, crowd, have := pick(r, tags...), r.Intn(3) == 0, r.Intn(8)
	if crowd {
		have = 5 + r.Intn(9)
	}
	for i := have; i > 0; i-- {
		g := c.regs[r.Intn(len(c.regs))]
		if g.off || c.vendor == "vultr" && !g.sold {
			continue
		}
		m := c.fresh(g.name, pick(r, "ouroboros", "exp1", "exp1b", "", "web"), g)
		if crowd && r.Intn(4) > 0 {
			m.tag = tag
		}
		if c.vendor == "aws" {
			m.unmarked = r.Intn(4) == 0
			m.st = pick(r, "pending", "running", "running", "running", "stopping", "stopped", "going", "gone")
		} else {
			m.st = pick(r, "pending", "ok", "ok", "ok", "locked", "closed", "installing")
		}
		if m.st == "running" && r.Intn(6) > 0 || m.st == "ok" || m.st == "locked" || m.st == "installing" {
			m.pub = fmt.Sprintf("10.%d.%d.%d", r.Intn(250), r.Intn(250), r.Intn(250)+1)
		}
		if c.vendor == "aws" && (m.st == "going" || m.st == "gone") {
			m.priv = ""
		}
	}
	regs, servers := []ev{}, []ev{}
	for _, g := range c.regs {
		regs = append(regs, ev{"name": g.name, "off": g.off, "sold": g.sold})
	}
	for _, m := range c.ms {
		servers = append(servers, ev{"id": m.id, "loc": m.loc, "tag": m.tag, "st": m.st, "pub": m.pub, "priv": m.priv, "marked": !m.unmarked})
	}
	tr.emit(ev{"ev": "new", "kind": "cluster", "vendor": c.vendor, "regs": regs, "servers": servers})
	addr, settle, stop := proxy(a, c)
	defer stop()
	env := []string{"HOME=" + dir, "PATH=/nonexistent", "HTTPS_PROXY=http://" + addr, "HTTP_PROXY=http://" + addr, "SSL_CERT_FILE=" + a.pem, "SSL_CERT_DIR=/nonexistent",
		"AWS_SHARED_CREDENTIALS_FILE=" + filepath.Join(dir, "cred"), "AWS_CONFIG_FILE=" + filepath.Join(dir, "none"), "AWS_EC2_METADATA_DISABLED=true",
		"VULTR_KEY=testkey", "GORACE=atexit_sleep_ms=0", "GOMAXPROCS=4"}
	n := 3 + r.Intn(4)
	for i := 0; i < n; i++ {
		k := command{op: pick(r, "start", "start", "stop", "status", "status"), vendor: c.vendor, tag: pick(r, tag, tag, pick(r, tags...)), n: 1 + r.Intn(3),
			yes: r.Intn(4) > 0, answer: pick(r, "y\n", "Y\n", "n\n", "", "no\n", "yes\n"), list: r.Intn(3) > 0}
		if c.vendor == "vultr" && r.Intn(4) == 0 {
			k.op = "reboot"
		}
		if r.Intn(12) == 0 {
			k.tag = ""
		}
		if crowd && i == 0 {
			k.op, k.tag, k.yes = pick(r, "stop", "stop", "status"), tag, true
			if c.vendor == "vultr" {
				k.op = pick(r, "stop", "stop", "reboot", "status")
			}
		} else if i == 0 && r.Intn(3) > 0 {
			k.op, k.tag = "start", tag
		}
		if r.Intn(2) == 0 {
			k.loc = pick(r, "us", "US-East", "east", "eu", "ap-", "w", "york", "Seoul", "TOKYO", "nowhere")
		}
		c.plan(k)
		if crowd && i == 0 && r.Intn(2) == 0 {
			c.faults, c.killAt = nil, 0
		}
		last := i == n-1
		if last {
			// whatever happened before: everything settles, and one more stop
			c.mu.Lock()
			c.evolve(true)
			c.mu.Unlock()
			k = command{op: "stop", vendor: c.vendor, tag: tag, yes: true, n: 1}
			c.faults, c.killAt = nil, 0
		}
		if !c.one(bin, dir, env, k) {
			return false
		}
		settle()
		c.mu.Lock()
		if r.Intn(3) > 0 {
			c.evolve(r.Intn(3) == 0)
		}
		c.mu.Unlock()
	}
	return true
}

func (c *cloud) region(name string, id int) *region {
	g := &region{name: name, id: id, ami: fmt.Sprintf("ami-%08x", c.r.Uint32()), keys: 1, tokens: map[string][]*machine{}, page: c.r.Intn(4), sold: c.r.Intn(5) > 0, off: c.r.Intn(6) == 0}
	if c.vendor == "vultr" {
		g.off = false
	} else {
		g.sold = true
		if c.r.Intn(2) == 0 {
			g.sg = "sg-" + name
		}
	}
	return g
}

// plan chooses what goes wrong during a command
func (c *cloud) plan(k command) {
	c.faults, c.killAt = nil, 0
	r := c.r
	for r.Intn(2) == 0 && len(c.faults) < 3 {
		f := &fault{nth: 1, kind: pick(r, "deny", "deny", "dead", "drop")}
		if c.vendor == "vultr" {
			f.act, f.loc = pick(r, "server/list", "server/create", "server/create", "plans/list", "regions/list", "sshkey/list", "os/list", "startupscript/list"), "*"
			if k.op == "stop" {
				f.act = pick(r, "server/list", "server/destroy", "server/destroy")
			} else if k.op == "reboot" {
				f.act = pick(r, "server/list", "server/reboot", "server/reboot")
			}
			f.nth = 1 + r.Intn(3)
			if f.act == "server/create" || f.act == "server/destroy" {
				f.kind = "deny"
			}
		} else {
			f.loc = c.regs[r.Intn(len(c.regs))].name
			switch k.op {
			case "start":
				f.act = pick(r, "image", "image", "DescribeKeyPairs", "DescribeSecurityGroups", "DescribeVpcs", "CreateSecurityGroup", "AuthorizeSecurityGroupIngress", "RunInstances", "RunInstances")
				if f.act == "image" {
					f.loc, f.nth, f.kind = "*", 1+r.Intn(2), pick(r, "drop", "trunc", "dead")
				} else if f.act == "RunInstances" {
					f.kind = pick(r, "deny", "lost", "dead")
				}
			case "stop":
				f.act = pick(r, "DescribeInstances", "TerminateInstances")
				f.nth = 1 + r.Intn(2)
				if f.act == "TerminateInstances" {
					f.nth, f.kind = 1, pick(r, "deny", "lost")
				}
			default:
				f.act, f.nth = "DescribeInstances", 1+r.Intn(2)
			}
			if r.Intn(12) == 0 {
				f.act, f.loc, f.nth = "DescribeRegions", "*", 1
			}
		}
		c.faults = append(c.faults, f)
	}
	if r.Intn(5) == 0 {
		c.killAt = 1 + r.Intn(12)
		if r.Intn(2) == 0 {
			c.killAt = -c.killAt
		}
	}
}

// one runs one command
func (c *cloud) one(bin, dir string, env []string, k command) bool {
	args := []string{"cluster", k.op, "-vendor", k.vendor, "-t", k.tag}
	if k.yes {
		args = append(args, "-y")
	}
	if k.op == "start" {
		args = append(args, "-n", strconv.Itoa(k.n))
		if k.loc != "" {
			args = append(args, "-d", k.loc)
		}
		if c.vendor == "vultr" {
			c.price = "80.00"
			if c.r.Intn(3) == 0 {
				c.price = "40.00"
				args = append(args, "-p", "40")
			}
		}
	} else {
		k.loc = ""
	}
	lf := filepath.Join(dir, "servers.json")
	os.Remove(lf)
	if k.op != "status" && k.op != "start" || k.op == "start" && c.vendor == "aws" {
		k.list = false
	}
	if k.list {
		args = append(args, "-l", lf)
	}
	// locations the command is about
	match := []string{}
	for _, g := range c.regs {
		if g.off || !g.sold || c.vendor == "vultr" && g.name == "Seoul" {
			continue
		}
		if strings.Contains(strings.ToLower(g.name), strings.ToLower(k.loc)) {
			match = append(match, g.name)
		}
	}
	sort.Strings(match)
	conf := k.yes || k.answer == "y\n" || k.answer == "Y\n"
	tr.emit(ev{"ev": "cmd", "op": k.op, "tag": k.tag, "at": match, "n": k.n, "ok": conf, "list": k.list})
	c.mu.Lock()
	c.reqs, c.dead = 0, false
	ready := make(chan struct{})
	c.mu.Unlock()
	var kill func()
	c.kill = func() { <-ready; kill() }
	o := runTool(bin, dir, env, args, k.answer, 60*time.Second, func(f func()) { kill = f; close(ready) })
	c.mu.Lock()
	c.dead = true // nothing that was still under way has an effect
	defer c.mu.Unlock()
	if c.unknown != "" {
		fmt.Fprintln(os.Stderr, "unexpected request to the cloud:", c.unknown)
	}
	if ended(o) {
		return false
	}
	e := ev{"ev": "end", "rc": o.rc, "wrote": false, "list": []ev{}}
	if k.list && o.rc != -1 {
		if b, err := os.ReadFile(lf); err == nil {
			var l []entry
			if err := json.Unmarshal(b, &l); err != nil {
				tr.emit(ev{"ev": "crash", "why": "unreadable list: " + err.Error()})
				return false
			}
			out := []ev{}
			for _, s := range l {
				out = append(out, ev{"id": s.ID, "loc": s.Location, "tag": s.Tag, "pub": s.PublicIP, "priv": s.PrivateIP, "prov": s.Provider, "user": s.User, "port": s.Port})
			}
			byteOrder := sort.SliceIsSorted(l, func(i, j int) bool {
				return l[i].Location < l[j].Location || l[i].Location == l[j].Location && l[i].ID < l[j].ID
			})
			e["wrote"], e["list"], e["sorted"] = true, out, byteOrder
		}
	}
	tr.emit(e)
	return true
}

func main() {
	if filepath.Base(os.Args[0]) == "scp" {
		scpStub()
	}
	kind := flag.String("kind", "cluster", "cluster, exp")
	n := flag.Int("n", 10, "sessions")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "trace")
	bin := flag.String("bin", "", "the tool")
	flag.Parse()
	tr = newTracer(*out)
	defer tr.close()
	base := must(os.MkdirTemp(filepath.Dir(*out), "tb"))
	defer os.RemoveAll(base)
	base = must(filepath.Abs(base))
	a := newAuthority(base)
	for i := 0; i < *n; i++ {
		s := *seed*100000 + int64(i)
		ok := true
		if *kind == "exp" {
			ok = expSession(*bin, base, s)
		} else {
			ok = clusterSession(a, *bin, base, s)
		}
		if !ok {
			break // what happened is the end of the trace
		}
	}
}
