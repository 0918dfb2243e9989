package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"go.f110.dev/go-memcached/client"
)

func init() {
	registry["X04"] = checkX04
}

const routerAddr = "127.0.0.1:8090"

func checkX04(r *Run) {
	r.Rule("the router binary, built with the race detector, is started on generated configuration files (1-4 primaries, 1-4 secondaries on several loopback addresses, shared ports, any names, entry order, field order and YAML style); everything set and read through it is judged on the contents of every listed server and of unlisted decoys; it is then killed and restarted with the entries permuted, and with names moved to other addresses, and the placement must follow the names; distinct = (topology, style, restart kind, placements)")
	r.Assume("the router listens on port 8090, its documented default and only choice; hosts are names or IPv4 addresses")
	if os.Getenv("VERIF_ROUTER") == "" {
		r.HarnessError("VERIF_ROUTER does not name the router binary")
		return
	}
	r.Cases("topology", r.N(30, 400), 1, x04Case)
}

type xentry struct {
	name string
	be   *RefMC
	host string
}

// ylist writes entries as YAML.
func ylist(r *rand.Rand, es []xentry) string {
	var b strings.Builder
	str := func(s string) string {
		plain := s != ""
		for _, c := range s {
			plain = plain && (c >= 'a' && c <= 'z' || c == '.' || c == '-' && s[0] != '-')
		}
		switch {
		case plain && r.Intn(2) == 0 && s != "null" && s != "true" && s != "false" && s != "y" && s != "n" && s != "yes" && s != "no" && s != "on" && s != "off":
			return s
		case r.Intn(2) == 0 && !strings.ContainsAny(s, "'\n\r\t\x7f") && strconv.QuoteToGraphic(s) == `"`+s+`"`:
			return "'" + s + "'"
		}
		return strconv.QuoteToASCII(s)
	}
	flow := r.Intn(3) == 0
	if flow {
		b.WriteString(" [")
	}
	b.WriteString("\n")
	for i, e := range es {
		_, port, _ := net.SplitHostPort(e.be.Addr())
		fs := []string{"name: " + str(e.name), "host: " + str(e.host), "port: " + port}
		r.Shuffle(3, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		switch {
		case flow:
			b.WriteString("  {" + strings.Join(fs, ", ") + "}")
			if i < len(es)-1 {
				b.WriteString(",")
			}
			b.WriteString("\n")
		case r.Intn(4) == 0:
			b.WriteString("  - {" + strings.Join(fs, ", ") + "}\n")
		default:
			b.WriteString("  - " + strings.Join(fs, "\n    ") + "\n")
		}
		if !flow && r.Intn(4) == 0 {
			b.WriteString("# - name: commented out\n\n")
		}
	}
	if flow {
		b.WriteString("  ]\n")
	}
	return b.String()
}

func yaml(r *rand.Rand, pri, sec []xentry) string {
	a, b := "primary:"+ylist(r, pri), "secondary:"+ylist(r, sec)
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	return pick(r, "", "---\n", "# router\n") + a + b
}

type rproc struct {
	cmd  *exec.Cmd
	err  lockedBuf
	done chan struct{}
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) tail() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func listening(addr string) bool {
	x, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	x.Close()
	return true
}

func (c *Case) startRouter(conf string) *rproc {
	for i := 0; listening(routerAddr); i++ {
		if i > 600 {
			c.Must(fmt.Errorf("something else listens on %s", routerAddr))
		}
		time.Sleep(50 * time.Millisecond)
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "router")
	c.Must(err)
	c.Defer(func() { os.RemoveAll(dir) })
	f := filepath.Join(dir, "conf.yaml")
	c.Must(os.WriteFile(f, []byte(conf), 0o600))
	p := &rproc{done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_ROUTER"), "-conf", f)
	p.cmd.Dir = dir
	p.cmd.Stderr = &p.err
	c.Must(p.cmd.Start())
	go func() { p.cmd.Wait(); close(p.done) }()
	c.Defer(p.stop)
	t0 := time.Now()
	for !listening(routerAddr) {
		select {
		case <-p.done:
			c.Fail("the router ended (%s) with a valid configuration:\n%s\n%s", p.cmd.ProcessState, conf, p.err.tail())
		default:
		}
		if time.Since(t0) > 60*time.Second {
			c.Fail("the router does not listen on %s a minute after it was started with\n%s\n%s", routerAddr, conf, p.err.tail())
		}
		time.Sleep(5 * time.Millisecond)
	}
	c.R.Count("router_starts", 1)
	return p
}

func (p *rproc) stop() {
	p.cmd.Process.Signal(syscall.SIGKILL)
	<-p.done
}

func (p *rproc) alive(c *Case) {
	select {
	case <-p.done:
		c.Fail("the router ended by itself (%s): %s", p.cmd.ProcessState, p.err.tail())
	default:
	}
}

// refAt starts a model server on another loopback address, on the port given if it is free there.
func (c *Case) refAt(host, port string) *RefMC {
	m := c.ref()
	if host != "127.0.0.1" || port != "0" {
		l, err := net.Listen("tcp", net.JoinHostPort(host, port))
		if err != nil {
			l, err = listenOn(host)
		}
		c.Must(err)
		old := m.l
		m.mu.Lock()
		m.l = l
		m.mu.Unlock()
		old.Close()
		go m.accept(l)
	}
	return m
}

func x04Names(r *rand.Rand, n int) []string {
	for {
		ns := genNames(r, n)
		ok := true
		for _, s := range ns {
			ok = ok && utf8.ValidString(s)
		}
		if ok {
			return ns
		}
	}
}

func x04Case(c *Case) {
	r := c.Rng
	np, ns := 1+r.Intn(4), 1+r.Intn(4)
	switch r.Intn(12) { // a large cluster
	case 0:
		np = 9 + r.Intn(24)
	case 1:
		ns = 9 + r.Intn(24)
	}
	hosts := []string{"127.0.0.1", "127.0.0.1", "127.0.0.2", "127.0.0.3"}
	var all []*RefMC
	mk := func(names []string) (es []xentry) {
		for _, n := range names {
			port, host := "0", pick(r, hosts...)
			if len(all) > 0 && r.Intn(3) == 0 { // the same port on another address
				_, port, _ = net.SplitHostPort(all[r.Intn(len(all))].Addr())
				host = "127.0.0." + strconv.Itoa(2+len(all))
			}
			m := c.refAt(host, port)
			all = append(all, m)
			host, _, _ = net.SplitHostPort(m.Addr())
			if host == "127.0.0.1" && r.Intn(3) == 0 {
				host = "localhost"
			}
			es = append(es, xentry{n, m, host})
		}
		return
	}
	pn, sn := x04Names(r, np), x04Names(r, ns)
	if r.Intn(3) == 0 && np == ns { // both sides named alike
		sn = append([]string(nil), pn...)
	}
	var must []string // keys of a point that two servers share
	if np >= 2 && r.Intn(2) == 0 {
		ps, at := collisions()
		i := r.Intn(len(ps))
		j := r.Intn(np)
		pn[j], pn[(j+1)%np] = ps[i][0], ps[i][1]
		must = append(must, crcKeyLegal(r, at[i]), crcKeyLegal(r, at[i]+1))
	}
	pri, sec := mk(pn), mk(sn)
	var decoys []*RefMC // on the ports of listed servers, at other addresses
	for i := 0; i < 2; i++ {
		_, port, _ := net.SplitHostPort(all[r.Intn(len(all))].Addr())
		decoys = append(decoys, c.refAt("127.0.0."+strconv.Itoa(100+i), port))
	}
	keys := uniqStr(append(must, ringKeys(r, 24, append(append([]string(nil), pn...), sn...))...))

	serve := func(what string, pri, sec []xentry) map[string]string {
		// the side of the configuration the model knows is in the original order
		conf := yaml(r, reordered(r, pri), reordered(r, sec))
		c.Logf("configuration (%s):\n%s", what, conf)
		marks := map[*RefMC]int{}
		for _, m := range append(append([]*RefMC(nil), all...), decoys...) {
			marks[m] = m.Accepted()
		}
		p := c.startRouter(conf)
		for _, d := range decoys {
			if d.Accepted() > marks[d] || d.LogLen() > 0 {
				c.Fail("the router contacted %s, which the configuration does not list:\n%s", d.Addr(), conf)
			}
		}
		w := c.x4World(pri, sec)
		cl := map[string]client.Server{}
		for _, p := range protos {
			cl[p] = c.connect(p, routerAddr, c.honest())
		}
		where := map[string]string{}
		for n, k := range keys {
			proto := pick(r, protos...)
			if n < len(must) || r.Intn(3) > 0 { // where the key is now, observed without the ring
				val := fmt.Sprintf("%s %d", what, n)
				seen := map[*RefMC]int{}
				for _, m := range all {
					seen[m] = m.LogLen()
				}
				res := c.Call(proto+" client of the router", cl[proto], Op{Kind: "set", Key: k, Val: []byte(val), Flags: be32(uint32(n)), Exp: 0})
				if res.Err != nil {
					c.Fail("%s: set of %q through the router failed: %v", what, k, res.Err)
				}
				var ps, ss []string
				for _, e := range pri {
					if s := e.be.Inspect(k); s.Ok && s.Val == val && s.Flags == uint32(n) && s.TTL == -1 {
						ps = append(ps, e.name)
					} else if touched(e.be, seen[e.be], k) {
						c.Fail("%s: a Set of %q also reached primary %q", what, k, e.name)
					}
				}
				for _, e := range sec {
					if s := e.be.Inspect(k); s.Ok && s.Val == val && s.Flags == uint32(n) && s.TTL == -1 {
						ss = append(ss, e.name)
					} else if touched(e.be, seen[e.be], k) {
						c.Fail("%s: a Set of %q also reached secondary %q", what, k, e.name)
					}
				}
				if len(ps) != 1 || len(ss) != 1 {
					c.Fail("%s: %q was set through the router; it is on the primaries %q and the secondaries %q", what, k, ps, ss)
				}
				where[k] = fmt.Sprintf("primary %q, secondary %q", ps[0], ss[0])
				pb, sb := w.home(k)
				// the primary's copy is the one read
				place(sb, k, "secondary's", 9, 0)
				if r.Intn(2) == 0 {
					place(pb, k, "primary's", uint32(n+1), 0)
				}
				_ = pb
				c.R.Count("placements_observed", 1)
			}
			for j := 0; j < 2; j++ {
				proto = pick(r, protos...)
				o := w.poolOp(keys, w.now(), false)
				switch {
				case o.Kind == "mget" && proto == "meta", o.Kind == "set" && proto == "text" && o.Cas != 0:
					proto = "binary"
				case o.Kind != "get" && o.Kind != "set" && o.Kind != "mget":
					o = Op{Kind: "get", Key: keys[r.Intn(len(keys))]}
				}
				if proto == "binary" && o.Exp < 0 {
					proto = "meta"
				}
				if rr := x01Step(w, cl[proto], proto, keys, o); rr.Class() == "error" {
					cl[proto] = c.connect(proto, routerAddr, c.honest())
				}
			}
		}
		p.alive(c)
		for _, e := range append(append([]xentry(nil), pri...), sec...) {
			if e.be.Accepted() == marks[e.be] {
				c.Fail("the router never connected to %q at %s", e.name, e.be.Addr())
			}
		}
		for _, d := range decoys {
			if d.LogLen() > 0 {
				c.Fail("the router used %s, which the configuration does not list", d.Addr())
			}
		}
		p.stop()
		var pl []string
		for k, v := range where {
			pl = append(pl, k+v)
		}
		sort.Strings(pl)
		c.R.Eval(fmt.Sprintf("%d|%d|%s|%s", np, ns, what, strings.Join(pl, "|")))
		return where
	}
	same := func(what string, a, b map[string]string) {
		for k, v := range b {
			if u, ok := a[k]; ok && u != v {
				c.Fail("%s: key %q moved from %s to %s", what, k, u, v)
			}
		}
	}
	w1 := serve("first start", pri, sec)
	w2 := serve("restart", pri, sec)
	same("restart with the entries in another order", w1, w2)
	if r.Intn(2) == 0 { // names move to other machines
		move := func(es []xentry) []xentry {
			n := append([]xentry(nil), es...)
			for i, j := range r.Perm(len(es)) {
				n[i].name = es[j].name
			}
			return n
		}
		w3 := serve("names moved", move(pri), move(sec))
		same("restart with the names on other machines", w1, w3)
	}
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"primaries": np, "secondaries": ns, "placements": len(w1), "log": c.tail(5)})
	}
}

func reordered(r *rand.Rand, es []xentry) []xentry {
	n := append([]xentry(nil), es...)
	r.Shuffle(len(n), func(i, j int) { n[i], n[j] = n[j], n[i] })
	return n
}

// touched: a command naming the key has reached the server.
func touched(m *RefMC, from int, key string) bool {
	for _, cmd := range m.LogFrom(from) {
		if has(cmd.Keys, key) {
			return true
		}
	}
	return false
}
