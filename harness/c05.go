package main

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

func init() { registry["C05"] = checkC05 }

type c05Shape struct {
	name string
	op   func(i int) Op
}

// the operations faulted; keys k0..k5 exist ("cnt" a number), "none*" do not
func c05Shapes(proto string) []c05Shape {
	v := func(n int) []byte { return []byte(strings.Repeat("x", n)) }
	sh := []c05Shape{
		{"get", func(int) Op { return Op{Kind: "get", Key: "k1"} }},
		{"getmiss", func(int) Op { return Op{Kind: "get", Key: "none"} }},
		{"getbig", func(int) Op { return Op{Kind: "get", Key: "big"} }},
		{"mget", func(int) Op { return Op{Kind: "mget", Keys: []string{"k0", "none1", "k1", "k2", "none2", "k3"}} }},
		{"mgetmany", func(int) Op {
			// more keys than a client asks for at once
			ks := make([]string, 230)
			for i := range ks {
				ks[i] = fmt.Sprintf("no%d", i)
			}
			ks[3], ks[120], ks[229] = "k0", "k3", "k2"
			return Op{Kind: "mget", Keys: ks}
		}},
		{"mgetmiss", func(int) Op { return Op{Kind: "mget", Keys: []string{"none1", "none2"}} }},
		{"set", func(int) Op { return Op{Kind: "set", Key: "k1", Val: []byte("fresh"), Flags: be32(9)} }},
		{"setnew", func(int) Op { return Op{Kind: "set", Key: "new", Val: []byte("fresh\r\nEND\r\n")} }},
		{"setbig", func(int) Op { return Op{Kind: "set", Key: "k2", Val: v(9000)} }},
		{"cas", func(int) Op { return Op{Kind: "set", Key: "k1", Val: []byte("cased"), Cas: 1} }}, // token filled in
		{"casstale", func(int) Op { return Op{Kind: "set", Key: "k1", Val: []byte("cased"), Cas: 1<<60 + 7} }},
		{"add", func(int) Op { return Op{Kind: "add", Key: "new", Val: []byte("added")} }},
		{"addexists", func(int) Op { return Op{Kind: "add", Key: "k1", Val: []byte("added")} }},
		{"replace", func(int) Op { return Op{Kind: "replace", Key: "k1", Val: []byte("replaced")} }},
		{"replaceabsent", func(int) Op { return Op{Kind: "replace", Key: "none", Val: []byte("replaced")} }},
		{"delete", func(int) Op { return Op{Kind: "delete", Key: "k1"} }},
		{"deleteabsent", func(int) Op { return Op{Kind: "delete", Key: "none"} }},
		{"incr", func(int) Op { return Op{Kind: "incr", Key: "cnt", Delta: 7} }},
		{"decr", func(int) Op { return Op{Kind: "decr", Key: "cnt", Delta: 7} }},
		{"incrabsent", func(int) Op { return Op{Kind: "incr", Key: "none", Delta: 7} }},
		{"incrbad", func(int) Op { return Op{Kind: "incr", Key: "k1", Delta: 7} }},
		{"touch", func(int) Op { return Op{Kind: "touch", Key: "k1", Exp: 1000} }},
		{"touchabsent", func(int) Op { return Op{Kind: "touch", Key: "none", Exp: 1000} }},
		{"flush", func(int) Op { return Op{Kind: "flush"} }},
		{"version", func(int) Op { return Op{Kind: "version"} }},
	}
	return sh
}

func c05Fill(m *RefMC) {
	m.SetCas(1 << 20) // replies of known length
	for i := 0; i < 6; i++ {
		m.Put(fmt.Sprintf("k%d", i), fmt.Sprintf("value-%d-of-many", i), uint32(100+i), 0)
	}
	m.Put("cnt", "1000", 5, 0)
	m.Put("big", strings.Repeat("0123456789abcdef", 600), 5, 0)
}

func c05Fix(m *RefMC, o Op) Op {
	if o.Cas == 1 {
		o.Cas = m.Inspect(o.Key).Cas
	}
	return o
}

type c05Point struct {
	proto string
	sh    c05Shape
	side  string // reply request
	at    int
	of    int
	stall bool
}

// c05Huge: an item no memcached of default size holds, and the reads of it.
func c05Huge(m *RefMC) { m.Put("huge", strings.Repeat("0123456789abcdef", 80000), 5, 0) }

var c05HugeShapes = []c05Shape{
	{"gethuge", func(int) Op { return Op{Kind: "get", Key: "huge"} }},
	{"mgethuge", func(int) Op { return Op{Kind: "mget", Keys: []string{"k0", "huge", "none1", "k1"}} }},
}

// c05Measure: lengths of the request and the reply of one operation on an honest server.
func c05Measure(c *Case, proto string, sh c05Shape) (in, out int) {
	m := c.ref()
	c05Fill(m)
	if strings.HasSuffix(sh.name, "huge") {
		c05Huge(m)
	}
	cl := c.connect(proto, m.Addr(), 0)
	f := NewFault()
	f.InAfter, f.OutAfter = 1<<30, 1<<30
	m.Arm(f)
	c.Call(proto, cl, c05Fix(m, sh.op(0)))
	c.Call(proto, cl, Op{Kind: "version"}) // so that the counts above are complete
	m.Arm(nil)
	in = int(atomic.LoadInt64(&f.in)) - map[string]int{"text": 9, "meta": 9, "binary": 24}[proto]
	out = int(atomic.LoadInt64(&f.out)) - len(m.Ver) - map[string]int{"text": 10, "meta": 10, "binary": 24}[proto]
	if in <= 0 || out <= 0 {
		c.Must(fmt.Errorf("measured %s %s: in=%d out=%d", proto, sh.name, in, out))
	}
	return
}

func checkC05(r *Run) {
	r.Rule("27 operation shapes x 3 protocols x {cut, stall past the timeout and deliver later} x positions of the reply (every byte up to 160, a sample beyond) and of the request; after the fault 7 further calls on the same client that must fail or be right, then Reconnect and 7 calls that must be right; plus servers that dribble, stop reading, and stalls under concurrent callers; distinct = (protocol, operation, side, position, cut or stall)")
	r.Assume("'within the timeout' is judged with slack for the machine: ten timeouts and 2 s")
	var mu sync.Mutex
	var pts []c05Point
	type job struct {
		p string
		s c05Shape
	}
	var jobs []job
	for _, p := range protos {
		for _, s := range append(c05Shapes(p), c05HugeShapes...) {
			jobs = append(jobs, job{p, s})
		}
	}
	only := r.Only
	r.Only = ""
	r.Cases("measure", len(jobs), 8, func(c *Case) {
		j := jobs[c.Idx()]
		in, out := c05Measure(c, j.p, j.s)
		var x []c05Point
		for _, stall := range []bool{false, true} {
			for at := 0; at <= out; at++ {
				if out > 1<<20 && at > 40 && at < out-8 && at%99991 != 3 && at != 4096 && at != 1<<20 {
					continue
				}
				if at > 160 && out < 1<<20 && at < out-8 && at%997 != 3 && at%4096 > 1 && !(j.s.name == "mgetmany" && at%61 == 0) {
					continue
				}
				if !r.Thorough() && (at+len(j.s.name))%3 != 0 && at > 4 && at < out-4 && (stall || out > 60) {
					continue
				}
				x = append(x, c05Point{j.p, j.s, "reply", at, out, stall})
			}
			for at := 0; at <= in; at++ {
				if !r.Thorough() && at%7 != 0 && at < in-2 && at != 1 && at != 24 || at > 200 && at < in-3 && at%997 != 3 && !(j.s.name == "mgetmany" && at%411 == 0) {
					continue
				}
				x = append(x, c05Point{j.p, j.s, "request", at, in, stall})
			}
		}
		mu.Lock()
		pts = append(pts, x...)
		mu.Unlock()
	})
	r.Only = only
	r.mu.Lock()
	nv := len(r.violations)
	r.mu.Unlock()
	if nv > 0 {
		return
	}
	sort.Slice(pts, func(i, j int) bool {
		a, b := pts[i], pts[j]
		return fmt.Sprint(a.proto, a.sh.name, a.side, a.stall, a.at) < fmt.Sprint(b.proto, b.sh.name, b.side, b.stall, b.at)
	})
	r.Count("fault_points", int64(len(pts)))
	r.Cases("point", len(pts), 24, func(c *Case) { c05Run(c, pts[c.Idx()]) })
	r.Cases("dribble", 3*r.N(6, 30), 12, c05Dribble)
	r.Cases("noread", 3*r.N(4, 16), 12, c05NoRead)
	r.Cases("dialing", r.N(12, 120), 12, c05Dialing)
	r.Cases("herd", r.N(18, 240), 8, c05Herd)
}

const c05Timeout = 90 * time.Millisecond

func c05Run(c *Case, p c05Point) {
	m := c.ref()
	c05Fill(m)
	if strings.HasSuffix(p.sh.name, "huge") {
		c05Huge(m)
	}
	cl := c.connect(p.proto, m.Addr(), 0)
	// a first exchange so that the connection is warm
	c.Call(p.proto, cl, Op{Kind: "version"})
	o := c05Fix(m, p.sh.op(0))
	f := NewFault()
	f.Stall = p.stall
	if p.side == "reply" {
		f.OutAfter = p.at
	} else {
		f.InAfter = p.at
	}
	released := false
	release := func() {
		if !released {
			released = true
			close(f.Release)
		}
	}
	c.Defer(release)
	full := p.at == p.of
	tmo := time.Duration(0)
	if p.stall {
		tmo = c05Timeout
	} else if c.Rng.Intn(2) == 0 {
		tmo = 2 * time.Minute
	}
	setTimeout(cl, tmo)
	c.Logf("fault after %d of %d bytes of the %s, stall=%v", p.at, p.of, p.side, p.stall)
	before := map[string]State{}
	keys := []string{"k0", "k1", "k2", "k3", "cnt", "big", "huge", "new", "none", "none1", "none2", "other"}
	for _, k := range keys {
		before[k] = m.Inspect(k)
	}
	n0 := m.LogLen()
	m.Arm(f)
	t0 := time.Now()
	res := c.Call(p.proto, cl, o)
	el := time.Since(t0)
	if p.stall && el > 10*c05Timeout+2*time.Second {
		c.Report("%s %s with a timeout of %v returned after %v", p.proto, o, c05Timeout, el)
	}
	if res.Err != nil {
		c.R.Count("calls_failed_by_fault", 1)
	}
	// what the server executed by now
	time.Sleep(time.Millisecond)
	cx := stepCtx{proto: p.proto, now: m.Now(), max: 1 << 20}
	cls := res.Class()
	complete := full
	if !complete && cls == "ok" {
		c.Fail("%s %s reported success (%s) although only %d of %d bytes of the %s got through", p.proto, o, res, p.at, p.of, p.side)
	}
	after := map[string]State{}
	snap := func() {
		for _, k := range keys {
			after[k] = m.Inspect(k)
		}
	}
	snap()
	if complete || cls != "error" {
		var y string
		switch o.Kind {
		case "mget":
			y = judgeMulti(o.Keys, res, before, cx)
		case "version":
			if res.Ver != m.Ver {
				y = res.String()
			}
		default:
			y = judge(o, res, before[o.Key], after[o.Key], cx)
		}
		if y != "" && !(cls == "error" && p.stall) {
			c.Fail("%s %s: %s", p.proto, o, y)
		}
	}
	// the reply arrives after all, now or between two later calls
	when := c.Rng.Intn(3)
	if when == 0 {
		release()
		time.Sleep(2 * time.Millisecond)
	}
	follow := func(strict bool, phase string) {
		ops := []Op{
			{Kind: "get", Key: "k3"}, {Kind: "get", Key: "none"}, {Kind: "mget", Keys: []string{"k0", "k3", "none2"}},
			{Kind: "set", Key: "other", Val: []byte("o" + phase)}, {Kind: "version"}, {Kind: "delete", Key: "none2"},
			{Kind: "incr", Key: "cnt", Delta: 1}, {Kind: "get", Key: "big"}, {Kind: "touch", Key: "none1", Exp: 5}, {Kind: "add", Key: "k3", Val: []byte("zz")},
		}
		if p.sh.name == "flush" || p.sh.name == "version" || o.Kind == "get" || o.Kind == "mget" {
			ops = append(ops, o, o)
		}
		c.Rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		for i, q := range ops[:7] {
			if i == 1 && when == 1 {
				release()
				time.Sleep(2 * time.Millisecond)
			}
			s0 := map[string]State{}
			for _, k := range keys {
				s0[k] = m.Inspect(k)
			}
			l0 := m.LogLen()
			rr := c.Call(p.proto, cl, q)
			if rr.Class() == "error" {
				if strict {
					c.Fail("after Reconnect %s %s failed: %v", p.proto, q, rr.Err)
				}
				// it may or may not have been executed, once
				if n := countOp(m, l0, q); n > 1 {
					c.Fail("%s %s was executed %d times", p.proto, q, n)
				}
				continue
			}
			var y string
			switch q.Kind {
			case "mget":
				y = judgeMulti(q.Keys, rr, s0, cx)
			case "version":
				if rr.Ver != m.Ver {
					y = "returned " + rr.String()
				}
			default:
				y = judge(q, rr, s0[q.Key], m.Inspect(q.Key), cx)
			}
			if y != "" {
				c.Fail("%s the fault (%s after %d bytes of the %s of %s), %s %s: %s", phase, map[bool]string{true: "stall", false: "cut"}[p.stall], p.at, p.side, o, p.proto, q, y)
			}
			c.R.Count("later_calls_answered_"+phase, 1)
		}
	}
	// while the fault may still deliver, states move under us only by the faulted call itself: wait until it settled
	if when != 0 && p.side == "request" && p.stall {
		// the server has not executed anything yet; releasing later may execute it between our inspections
		release()
		time.Sleep(2 * time.Millisecond)
	}
	if p.stall && p.side == "request" {
		c.eventually("server reads the rest", func() bool { return m.Quiet() })
	}
	follow(false, "after")
	release()
	m.Arm(nil)
	setTimeout(cl, 2*time.Minute)
	var err error
	c.Do(p.proto+".Reconnect", func() { err = cl.Reconnect() })
	if err != nil {
		c.Fail("Reconnect to a healthy server failed: %v", err)
	}
	c.eventually("old connection drained", func() bool { return m.Open() <= 1 })
	follow(true, "after_reconnect")
	if n := countOp(m, n0, o); n > 1 && !(o.Kind == "get" || o.Kind == "mget" || o.Kind == "flush" || o.Kind == "version" || o.Kind == "add" && o.Key == "k3") {
		c.Fail("%s %s was executed %d times by the server", p.proto, o, n)
	}
	c.R.Eval(fmt.Sprintf("%s|%s|%s|%d|%v", p.proto, p.sh.name, p.side, p.at, p.stall))
	if p.at == 3 && p.sh.name == "get" {
		c.R.Sample(map[string]any{"protocol": p.proto, "operation": o.String(), "side": p.side, "byte": p.at, "of": p.of, "stall": p.stall, "result": res.String()})
	}
}

// countOp: how often the operation was executed since log position n0.
func countOp(m *RefMC, n0 int, o Op) (n int) {
	for _, l := range m.LogFrom(n0) {
		if l.Name == o.Kind || l.Name == "cas" && o.Kind == "set" || o.Kind == "mget" && l.Name == "get" {
			if o.Key == "" && o.Kind != "mget" {
				n++
				continue
			}
			k := o.Key
			if o.Kind == "mget" {
				k = o.Keys[0]
			}
			for _, x := range l.Keys {
				if x == k {
					if o.Kind == "set" && l.Val != string(o.Val) || (o.Kind == "incr" || o.Kind == "decr") && l.Delta != uint64(o.Delta) {
						continue
					}
					n++
					break
				}
			}
		}
	}
	return
}

// c05Dribble: a server that sends a byte now and then does not keep a call beyond its timeout.
func c05Dribble(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.ref()
	c05Fill(m)
	gap := 50 * time.Millisecond
	kind := (c.Idx() / 3) % 6
	o := []Op{
		{Kind: "mget", Keys: []string{"k0", "k1", "k2", "k3", "k4", "k5", "none"}}, {Kind: "get", Key: "k1"}, {Kind: "version"},
		{Kind: "get", Key: "big"}, {Kind: "mget", Keys: []string{"none1", "none2", "k1", "k2", "k3"}}, {Kind: "get", Key: "k4"},
	}[kind]
	done := make(chan struct{})
	s := newScript(func(i int, cn net.Conn) {
		// a proxy that slows the replies down
		up, err := net.Dial("tcp", m.Addr())
		if err != nil {
			cn.Close()
			return
		}
		defer up.Close()
		go func() {
			buf := make([]byte, 4096)
			for {
				n, err := cn.Read(buf)
				if err != nil {
					up.Close()
					return
				}
				up.Write(buf[:n])
			}
		}()
		b := make([]byte, 1)
		for {
			if _, err := up.Read(b); err != nil {
				cn.Close()
				return
			}
			select {
			case <-done:
			case <-time.After(gap):
			}
			if _, err := cn.Write(b); err != nil {
				return
			}
		}
	})
	c.Defer(s.Close)
	c.Defer(func() { close(done) })
	tmo := 120 * time.Millisecond
	cl := c.connect(proto, s.Addr(), tmo)
	s0 := atomic.LoadInt64(&canarySteps)
	t0 := time.Now()
	res := c.Call(proto, cl, o)
	el := time.Since(t0)
	// the whole reply takes >= 24*50ms; a call that ends within its timeout cannot have read it
	if el > 3*tmo+500*time.Millisecond && atomic.LoadInt64(&canarySteps)-s0 > 400 {
		c.Fail("%s %s with a timeout of %v took %v while the server sent one byte every %v: %s", proto, o, tmo, el, gap, res)
	}
	if res.Err == nil {
		c.Fail("%s %s succeeded within %v: impossible at one byte every %v: %s", proto, o, el, gap, res)
	}
	c.R.Eval(fmt.Sprintf("dribble|%s|%d", proto, kind))
}

// c05NoRead: a server that accepts and never reads must not keep a large write beyond its timeout.
func c05NoRead(c *Case) {
	proto := protos[c.Idx()%3]
	s := newScript(func(i int, cn net.Conn) {})
	c.Defer(s.Close)
	cl := c.connect(proto, s.Addr(), c05Timeout)
	kind := []string{"set", "add", "replace", "mget"}[(c.Idx()/3)%4]
	o := Op{Kind: kind, Key: "k", Val: make([]byte, 24<<20)}
	if kind == "mget" {
		o = Op{Kind: kind}
		big := strings.Repeat("k", 240)
		for i := 0; i < 40000; i++ {
			o.Keys = append(o.Keys, fmt.Sprintf("%s%d", big, i))
		}
	}
	t0 := time.Now()
	var res Res
	c.Do(proto+" "+kind+" to a server that does not read", func() { res = do(cl, o) })
	if el := time.Since(t0); el > 10*c05Timeout+3*time.Second {
		c.Fail("%s %s to a server that does not read returned after %v, timeout %v", proto, kind, el, c05Timeout)
	}
	if res.Err == nil {
		c.Fail("%s %s to a server that does not read succeeded", proto, kind)
	}
	// and the next call, which meets half a request in the stream, fails too
	r2 := c.Call(proto, cl, Op{Kind: "get", Key: "k"})
	if r2.Err == nil || r2.Class() != "error" {
		c.Fail("after a write that timed out, Get returned %s", r2)
	}
	c.R.Eval("noread|" + proto + kind)
}

// c05Herd: callers queueing behind a stalled call get an error or their own answer.
func c05Herd(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.ref()
	n := 6
	for i := 0; i < n; i++ {
		m.Put(fmt.Sprintf("key%d", i), fmt.Sprintf("own-%d", i), uint32(i), 0)
	}
	var opts []client.ServerOpt
	cl := c.connect(proto, m.Addr(), c05Timeout, opts...)
	f := NewFault()
	f.Stall = c.Rng.Intn(3) != 0
	f.OutAfter = c.Rng.Intn(120)
	m.Arm(f)
	rel := time.AfterFunc(time.Duration(60+c.Rng.Intn(200))*time.Millisecond, func() { close(f.Release) })
	c.Defer(func() {
		if rel.Stop() {
			close(f.Release)
		}
	})
	var wg sync.WaitGroup
	var bad atomic.Value
	var answered int64
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad.Store(fmt.Sprintf("panic: %v", p))
				}
			}()
			k, v := fmt.Sprintf("key%d", i), fmt.Sprintf("own-%d", i)
			for j := 0; j < 12; j++ {
				if j%3 == 2 {
					items, err := cl.GetMulti(k, "absent")
					if err == nil && (len(items) != 1 || string(items[0].Value) != v) {
						bad.Store(fmt.Sprintf("GetMulti(%s) returned %v", k, Res{Items: items}))
					}
					continue
				}
				it, err := cl.Get(k)
				if err == nil {
					atomic.AddInt64(&answered, 1)
				}
				if err == nil && (it.Key != k || string(it.Value) != v) || errClass(err) == "notfound" {
					bad.Store(fmt.Sprintf("Get(%s) returned %v %v", k, itemStr(it), err))
				}
			}
		}()
	}
	c.Do("concurrent calls around a stall", wg.Wait)
	if b := bad.Load(); b != nil {
		c.Fail("%s, reply stalled after %d bytes (stall=%v): %s", proto, f.OutAfter, f.Stall, b)
	}
	c.R.Count("herd_calls_answered", answered)
	c.R.Eval(fmt.Sprintf("herd|%s|%d|%v", proto, f.OutAfter, f.Stall))
}
