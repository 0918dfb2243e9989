package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

func init() {
	registry["C06"] = checkC06
	registry["C07"] = checkC07
}

func hbEvery(d time.Duration) client.ServerOpt {
	return func(o *client.ServerOption) { o.HeartbeatInterval = d }
}

// countLog: commands of a name the server has executed since n0.
func countLog(m *RefMC, n0 int, name string) (n int) {
	for _, l := range m.LogFrom(n0) {
		if l.Name == name {
			n++
		}
	}
	return
}

// probe: a few judged operations that must work.
func probe(c *Case, m *RefMC, proto string, cl client.Server, phase string) {
	n := c.Rng.Intn(1 << 30)
	k := fmt.Sprintf("p%d", n%5)
	ops := []Op{
		{Kind: "set", Key: k, Val: []byte(fmt.Sprint("v", n)), Flags: be32(uint32(n))},
		{Kind: "get", Key: k}, {Kind: "get", Key: "absent"}, {Kind: "mget", Keys: []string{k, "absent"}}, {Kind: "version"},
	}
	for _, o := range ops {
		s0 := m.Inspect(k)
		r := c.Call(proto, cl, o)
		cx := stepCtx{proto: proto, now: m.Now(), max: 1 << 20}
		y := ""
		switch o.Kind {
		case "mget":
			y = judgeMulti(o.Keys, r, map[string]State{k: s0}, cx)
		case "version":
			if r.Err != nil || r.Ver != m.Ver {
				y = r.String()
			}
		default:
			if o.Key == "absent" {
				s0 = State{}
			}
			y = judge(o, r, s0, m.Inspect(o.Key), cx)
		}
		if y != "" {
			c.Fail("%s: %s %s: %s", phase, proto, o, y)
		}
	}
}

func checkC06(r *Run) {
	r.Rule("random sequences of server up / down, connection loss, stalls, calls and Reconnect attempts per protocol, without and with heartbeats (10-30 ms) and auto-reconnect, repeated over many cycles; the server counts connections and probes; distinct = sequence of events and outcomes")
	r.Assume("'bounded number of heartbeat intervals' is decided as: within the time a bystander connection makes 3000 round trips and at least 6 s, that is over 200 intervals")
	r.Cases("cycles", r.N(60, 1200), 8, c06Cycles)
	r.Cases("timeout", r.N(48, 600), 24, c06Timeout)
	r.Cases("probes", r.N(9, 60), 9, c06Probes)
	r.Cases("auto", r.N(18, 240), 9, c06Auto)
	r.Cases("noauto", r.N(9, 90), 9, c06NoAuto)
	r.Cases("many", 9, 9, c06Many)
	r.Cases("default", 3, 3, c06Default)
}

// c06Many: hundreds of failed attempts, of lost connections and of probes in the life of one client.
func c06Many(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	atomic.AddInt64(&c.grace, int64(20*time.Second))
	n := c.R.N(300, 1500)
	switch c.Idx() / 3 % 3 {
	case 0: // by hand
		cl := c.connect(proto, m.Addr(), c.honest())
		m.SetDown()
		for i := 0; i < n; i++ {
			var err error
			c.Do("Reconnect", func() { err = cl.Reconnect() })
			if err == nil {
				c.Fail("Reconnect reported success while the server is down")
			}
			if i%40 == 0 {
				if r := c.Call(proto, cl, Op{Kind: "get", Key: "absent"}); r.Class() != "error" {
					c.Fail("answered while the server is down: %s", r)
				}
			}
		}
		c.R.Count("failed_reconnects", int64(n))
		c.Must(m.SetUp())
		for i := 0; i < n; i++ {
			var err error
			c.Do("Reconnect", func() { err = cl.Reconnect() })
			if err != nil {
				c.Fail("Reconnect %d after %d failed ones failed although the server accepts connections: %v", i, n, err)
			}
			if r := do(cl, Op{Kind: "get", Key: "absent"}); r.Class() != "notfound" {
				c.Fail("after reconnecting %d times Get returned %s", i+1, r)
			}
			if i%3 == 0 {
				m.DropConns()
			}
		}
		c.R.Count("reconnects", int64(n))
		probe(c, m, proto, cl, "after many reconnects")
		if !c.eventually("one connection left", func() bool { return m.Open() <= 1 }) {
			c.Fail("after %d reconnects the server has %d connections of this client open", n, m.Open())
		}
	case 1: // probes for as long as the client is open
		cl := c.connect(proto, m.Addr(), 0, hbEvery(time.Millisecond))
		want := n
		if !c.eventually("many probes", func() bool { return countLog(m, 0, "version") >= want }) {
			c.Fail("heartbeat every ms: the server saw %d probes and no more", countLog(m, 0, "version"))
		}
		probe(c, m, proto, cl, "after many probes")
		c.R.Count("probes_seen", int64(want))
	case 2: // a long outage, then many short ones
		cl := c.connect(proto, m.Addr(), 0, hbEvery(time.Millisecond), client.EnableAutoReconnect)
		recovered := func() bool { return do(cl, Op{Kind: "get", Key: "absent"}).Class() == "notfound" }
		m.SetDown()
		time.Sleep(time.Duration(c.R.N(1500, 20000)) * time.Millisecond)
		c.Must(m.SetUp())
		if !c.eventually("recovery", recovered) {
			c.Fail("heartbeat every ms, auto-reconnect: no recovery after an outage of a second or more")
		}
		for i := 0; i < n/3; i++ {
			m.DropConns()
			if !c.eventually("recovery", recovered) {
				c.Fail("heartbeat every ms, auto-reconnect: no recovery after connection loss number %d", i+1)
			}
		}
		c.R.Count("auto_recoveries", int64(n/3+1))
		probe(c, m, proto, cl, "after many recoveries")
	}
	c.R.Eval(fmt.Sprintf("many|%s|%d", proto, c.Idx()/3%3))
}

func c06Cycles(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	cl := c.connect(proto, m.Addr(), c.honest())
	probe(c, m, proto, cl, "at the start")
	up := true
	trace := proto
	broken := false // the connection may be dead
	reconnect := func() {
		var err error
		c.Do(proto+".Reconnect", func() { err = cl.Reconnect() })
		c.Logf("Reconnect (server up=%v) -> %v", up, err)
		trace += fmt.Sprintf(",R%v", err == nil)
		if up {
			if err != nil {
				c.Fail("Reconnect failed although the server accepts connections: %v", err)
			}
			probe(c, m, proto, cl, "after Reconnect")
			broken = false
			if !c.eventually("one connection left", func() bool { return m.Open() == 1 }) {
				c.Fail("after Reconnect the server has %d connections of this client open, expected 1", m.Open())
			}
			c.R.Count("reconnects", 1)
		} else {
			if err == nil {
				c.Fail("Reconnect reported success while the server is down")
			}
			broken = true
			c.R.Count("failed_reconnects", 1)
		}
	}
	n := 8 + c.Rng.Intn(20)
	for i := 0; i < n; i++ {
		switch c.Rng.Intn(9) {
		case 0, 1:
			if up {
				m.SetDown()
				up, broken = false, true
				trace += ",down"
				c.Logf("server down")
			}
		case 2, 3:
			if !up {
				c.Must(m.SetUp())
				up = true
				trace += ",up"
				c.Logf("server up")
			}
		case 4:
			if up {
				m.DropConns()
				broken = true
				trace += ",drop"
				c.Logf("connections dropped")
			}
		case 5, 6:
			reconnect()
			for c.Rng.Intn(3) == 0 {
				reconnect()
			}
		default:
			o := pick(c.Rng, Op{Kind: "get", Key: "absent"}, Op{Kind: "version"}, Op{Kind: "set", Key: "x", Val: []byte("y")}, Op{Kind: "mget", Keys: []string{"absent", "absent2"}})
			res := c.Call(proto, cl, o)
			if broken && !up && res.Class() != "error" {
				c.Fail("%s answered while the server is down: %s", o, res)
			}
			if !broken {
				if want := map[string]string{"get": "notfound"}[o.Kind]; want == "" && res.Err != nil || want != "" && res.Class() != want {
					c.Fail("%s on a healthy connection returned %s", o, res)
				}
			}
			trace += "," + o.Kind
		}
	}
	if !up {
		c.Must(m.SetUp())
		up = true
	}
	reconnect()
	c.R.Eval(trace)
	if c.Idx() < 2 {
		c.R.Sample(trace)
	}
}

// c06Timeout: Reconnect at any distance from the last operation of a client with a short timeout, whatever became of it.
func c06Timeout(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	tmo := time.Duration(pick(c.Rng, 60, 150, 300)) * time.Millisecond
	cl := c.connect(proto, m.Addr(), tmo)
	trace := fmt.Sprintf("timeout|%s|%v", proto, tmo)
	for i, n := 0, 3+c.Rng.Intn(3); i < n; i++ {
		what := pick(c.Rng, "none", "stall", "drop", "down", "close")
		hold := make(chan struct{})
		switch what {
		case "stall":
			a := pick(c.Rng, Act{Gate: hold}, Act{After: hold})
			m.SetHook(func(*Cmd) *Act { x := a; return &x })
		case "drop":
			m.DropConns()
		case "down", "close":
			m.SetDown()
		}
		for j := c.Rng.Intn(3); j >= 0; j-- {
			o := pick(c.Rng, Op{Kind: "get", Key: "a"}, Op{Kind: "set", Key: "a", Val: []byte("1")}, Op{Kind: "mget", Keys: []string{"a", "b"}},
				Op{Kind: "add", Key: "b", Val: []byte("1")}, Op{Kind: "replace", Key: "a", Val: []byte("1")}, Op{Kind: "delete", Key: "b"}, Op{Kind: "incr", Key: "a", Delta: 1},
				Op{Kind: "touch", Key: "a", Exp: 100}, Op{Kind: "version"}, Op{Kind: "flush"})
			res := c.Call(proto, cl, o)
			if what == "stall" && res.Class() != "error" {
				c.Fail("%s answered while the server holds all replies: %s", o, res)
			}
			trace += "," + o.Kind
		}
		if what == "down" && c.Rng.Intn(2) == 0 {
			var err error
			c.Do("Reconnect", func() { err = cl.Reconnect() })
			if err == nil {
				c.Fail("Reconnect reported success while the server is down")
			}
		}
		pause := time.Duration(pick(c.Rng, 0, 0, 50, 120, 200)) * tmo / 100
		time.Sleep(pause)
		close(hold)
		m.SetHook(nil)
		if what == "down" || what == "close" {
			c.Must(m.SetUp())
		}
		// the timeout is short enough for a busy machine to miss it, but not again and again
		var err error
		var res Res
		if !c.eventually("recovery by Reconnect", func() bool {
			if err = cl.Reconnect(); err != nil {
				return false
			}
			res = do(cl, Op{Kind: "get", Key: "absent"})
			return res.Class() == "notfound"
		}) {
			c.Fail("%v after the last call (timeout %v, %s), the server accepts connections: Reconnect returned %v, then Get %s", pause, tmo, what, err, res)
		}
		trace += fmt.Sprintf(",%s%v", what, pause)
		c.R.Count("reconnects", 1)
	}
	if !c.eventually("one connection left", func() bool { return m.Open() == 1 }) {
		c.Fail("after Reconnect the server has %d connections of this client open, expected 1", m.Open())
	}
	c.R.Eval(trace)
}

func c06Probes(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	iv := time.Duration(10+c.Rng.Intn(20)) * time.Millisecond
	opts := []client.ServerOpt{hbEvery(iv)}
	if c.Rng.Intn(2) == 0 {
		opts = append(opts, client.EnableAutoReconnect)
	}
	cl := c.connect(proto, m.Addr(), 0, opts...)
	last := 0
	for round := 0; round < 4; round++ {
		n0 := m.LogLen()
		for i := 0; i < 3; i++ {
			probe(c, m, proto, cl, "with heartbeats")
		}
		base := countLog(m, n0, "version")
		if !c.eventually("more probes", func() bool { return countLog(m, n0, "version") >= base+4 }) {
			c.Fail("heartbeat every %v: the server saw %d probes in the first rounds and then only %d more", iv, last, countLog(m, n0, "version")-base)
		}
		last += countLog(m, n0, "version") - 3
		// a manual reconnect must not stop the probing
		if round == 1 {
			var err error
			c.Do("Reconnect", func() { err = cl.Reconnect() })
			if err != nil {
				c.Fail("Reconnect with heartbeats failed: %v", err)
			}
		}
	}
	if m.Open() != 1 {
		c.Fail("%d connections open, expected 1", m.Open())
	}
	c.R.Count("probes_seen", int64(last))
	c.R.Eval(fmt.Sprintf("probes|%s|%v|%d", proto, iv, len(opts)))
}

func c06Auto(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	iv := time.Duration(8+c.Rng.Intn(20)) * time.Millisecond
	cl := c.connect(proto, m.Addr(), 0, hbEvery(iv), client.EnableAutoReconnect)
	probe(c, m, proto, cl, "at the start")
	trace := "auto|" + proto
	n := 3 + c.Rng.Intn(3)
	for i := 0; i < n; i++ {
		kind := pick(c.Rng, "drop", "down", "down", "longdown", "flap")
		trace += "," + kind
		acc := m.Accepted()
		switch kind {
		case "drop":
			m.DropConns()
		case "down":
			m.SetDown()
			time.Sleep(time.Duration(c.Rng.Intn(3*int(iv/time.Millisecond))) * time.Millisecond)
			c.Must(m.SetUp())
		case "longdown": // several attempts fail
			m.SetDown()
			time.Sleep(6 * iv)
			res := c.Call(proto, cl, Op{Kind: "get", Key: "absent"})
			if res.Class() != "error" {
				c.Fail("answered while the server is down: %s", res)
			}
			time.Sleep(2 * iv)
			c.Must(m.SetUp())
		case "flap":
			for j := 0; j < 3; j++ {
				m.SetDown()
				time.Sleep(time.Duration(c.Rng.Intn(2*int(iv/time.Millisecond))) * time.Millisecond)
				c.Must(m.SetUp())
				time.Sleep(time.Duration(c.Rng.Intn(int(iv/time.Millisecond))) * time.Millisecond)
			}
		}
		c.Logf("connection lost: %s", kind)
		calls := 0
		t0 := time.Now()
		if !c.eventually("recovery", func() bool {
			calls++
			var r Res
			c.Do("Get", func() { r = do(cl, Op{Kind: "get", Key: "absent"}) })
			if r.Class() == "ok" {
				c.Fail("Get of an absent key returned %s", r)
			}
			return r.Class() == "notfound"
		}) {
			c.Fail("auto-reconnect with a heartbeat every %v: the server has been back for %v (cycle %d, after %s) and calls still fail", iv, time.Since(t0).Round(time.Millisecond), i, kind)
		}
		c.R.Max("recovery_ms_max", time.Since(t0).Milliseconds())
		probe(c, m, proto, cl, "after auto-reconnect")
		if !c.eventually("one connection left", func() bool { return m.Open() == 1 }) {
			c.Fail("after auto-reconnect the server has %d connections of this client open", m.Open())
		}
		if m.Accepted() == acc {
			c.Fail("recovered without a new connection?")
		}
		c.R.Count("auto_recoveries", 1)
		// and it is probed again
		n0 := m.LogLen()
		if !c.eventually("probes after recovery", func() bool { return countLog(m, n0, "version") >= 3 }) {
			c.Fail("after auto-reconnect the connection is not probed any more (%s)", trace)
		}
	}
	c.R.Eval(trace)
}

func c06NoAuto(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	iv := time.Duration(8+c.Rng.Intn(20)) * time.Millisecond
	cl := c.connect(proto, m.Addr(), 0, hbEvery(iv))
	probe(c, m, proto, cl, "at the start")
	n0 := m.LogLen()
	c.eventually("a probe", func() bool { return countLog(m, n0, "version") >= 2 })
	acc := m.Accepted()
	kind := pick(c.Rng, "drop", "half", "down")
	switch kind {
	case "drop":
		m.DropConns()
	case "half": // the probe is answered with half a reply
		f := NewFault()
		f.OutAfter = 5
		m.Arm(f)
	case "down":
		m.SetDown()
		time.Sleep(3 * iv)
		c.Must(m.SetUp())
	}
	failing := 0
	if !c.eventually("calls fail", func() bool {
		r := do(cl, Op{Kind: "get", Key: "absent"})
		if r.Class() == "error" {
			failing++
		}
		return failing > 3
	}) {
		c.Fail("the connection was lost (%s), calls do not fail", kind)
	}
	if !c.eventually("no connection left", func() bool { return m.Open() == 0 }) {
		c.Fail("heartbeat without auto-reconnect: %d connections are open after the connection was found dead (%s)", m.Open(), kind)
	}
	time.Sleep(5 * iv)
	for i := 0; i < 5; i++ {
		r := c.Call(proto, cl, plainOp(c, pick(c.Rng, allKinds...), []string{"absent", "b"}))
		if r.Class() != "error" {
			c.Fail("without auto-reconnect a call after the connection was found dead returned %s", r)
		}
	}
	if m.Accepted() != acc {
		c.Fail("without auto-reconnect the client opened %d new connections", m.Accepted()-acc)
	}
	// The heartbeat that finds the connection dead closes the client: then Reconnect fails too.
	// One that comes before the heartbeat may succeed, so it is given the next lost connection to find.
	if !c.eventually("closed for good", func() bool {
		time.Sleep(3 * iv)
		if cl.Reconnect() != nil {
			return true
		}
		m.DropConns()
		return false
	}) {
		c.Fail("heartbeat without auto-reconnect: a client whose connection was lost again and again was never closed (%s)", kind)
	}
	c.R.Eval("noauto|" + proto + kind + fmt.Sprint(iv))
}

// c06Default: the documented options as they are.
func c06Default(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	cl := c.connect(proto, m.Addr(), 0, client.EnableHeartbeat, client.EnableAutoReconnect)
	if !c.eventually("three probes", func() bool { return countLog(m, 0, "version") >= 3 }) {
		c.Fail("EnableHeartbeat: only %d probes", countLog(m, 0, "version"))
	}
	m.DropConns()
	if !c.eventually("recovery", func() bool { return do(cl, Op{Kind: "get", Key: "absent"}).Class() == "notfound" }) {
		c.Fail("EnableHeartbeat+EnableAutoReconnect: calls keep failing after the connection was lost")
	}
	c.R.Eval("default|" + proto)
}

// ---- C07

func checkC07(r *Run) {
	r.Rule("Close at every kind of moment: idle, with calls blocked on a silent or non-reading server, with queued callers, during Reconnect and heartbeat cycles, twice, from many goroutines; afterwards every operation, Reconnect included, must fail, no connection may be (re)opened and no goroutine of the client may remain; under the race detector; distinct = (protocol, options, moment, outcome pattern)")
	r.Cases("after", r.N(144, 1500), 9, c07After)
	r.Cases("blocked", r.N(144, 1500), 9, c07Blocked)
	r.Cases("dialing", r.N(36, 300), 12, c07Dialing)
	r.Cases("race", r.N(400, 6000), 6, c07Race)
	r.Cases("reconnrace", r.N(120, 2000), 6, c07ReconnRace)
	r.Cases("goroutines", 1, 1, func(c *Case) {
		var dump string
		if !c.eventually("client goroutines end", func() bool {
			n, d := repoGoroutines("/repo/client/")
			dump = d
			return n == 0
		}) {
			c.Fail("all clients are closed and goroutines of the client remain:\n%s", dump)
		}
		c.R.Eval("goroutines")
	})
}

func c07Opts(i int, iv time.Duration) []client.ServerOpt {
	switch i % 3 {
	case 1:
		return []client.ServerOpt{hbEvery(iv)}
	case 2:
		return []client.ServerOpt{hbEvery(iv), client.EnableAutoReconnect}
	}
	return nil
}

func closeIt(c *Case, cl client.Server) error {
	var err error
	c.Do("Close", func() { err = cl.Close() })
	c.Logf("Close -> %v", err)
	return err
}

// dead: everything fails, nothing reopens.
func dead(c *Case, m *RefMC, proto string, cl client.Server, iv time.Duration) {
	if !c.eventually("connections closed", func() bool { return m.Open() == 0 }) {
		c.Fail("after Close %d connections are still open at the server", m.Open())
	}
	acc := m.Accepted()
	n0 := m.LogLen()
	kinds := append([]string(nil), allKinds...)
	c.Rng.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for i, k := range kinds {
		r := c.Call(proto, cl, plainOp(c, k, []string{"a", "b"}))
		if r.Class() != "error" {
			c.Fail("%s after Close returned %s", k, r)
		}
		if i == 4 {
			var err error
			c.Do("Reconnect after Close", func() { err = cl.Reconnect() })
			if err == nil {
				c.Fail("Reconnect after Close succeeded")
			}
		}
		if i == 6 {
			c.Do("second Close", func() { cl.Close() })
		}
	}
	if !c.eventually("connections closed", func() bool { return m.Open() == 0 }) {
		c.Fail("after Close %d connections are still open at the server", m.Open())
	}
	if iv > 0 {
		time.Sleep(4 * iv)
	}
	// a dial that was under way when Close was called may still arrive, to be closed at once
	if m.Accepted() > acc+1 {
		c.Fail("after Close the client opened %d connections", m.Accepted()-acc)
	}
	if !c.eventually("connections closed", func() bool { return m.Open() == 0 }) {
		c.Fail("after Close a connection was opened and left open")
	}
	if m.LogLen() != n0 {
		l := m.LogFrom(n0)
		for _, x := range l {
			if x.Name != "quit" {
				c.Fail("after Close the server received %s %v", x.Name, x.Keys)
			}
		}
	}
}

func c07After(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	iv := time.Duration(4+c.Rng.Intn(12)) * time.Millisecond
	opts := c07Opts(c.Idx()/3, iv)
	cl := c.connect(proto, m.Addr(), 0, opts...)
	probe(c, m, proto, cl, "before Close")
	moment := pick(c.Rng, "idle", "dropped", "down", "afterfail", "afterreconnect")
	switch moment {
	case "dropped":
		m.DropConns()
		time.Sleep(time.Duration(c.Rng.Intn(15)) * time.Millisecond)
	case "down":
		m.SetDown()
		time.Sleep(time.Duration(c.Rng.Intn(20)) * time.Millisecond)
	case "afterfail":
		m.SetDown()
		c.Call(proto, cl, Op{Kind: "get", Key: "a"})
		c.Do("Reconnect", func() { cl.Reconnect() })
	case "afterreconnect":
		c.Do("Reconnect", func() { cl.Reconnect() })
	}
	closeIt(c, cl)
	if moment == "down" || moment == "afterfail" {
		c.Must(m.SetUp())
	}
	dead(c, m, proto, cl, iv)
	c.R.Eval(fmt.Sprintf("after|%s|%d|%s|%v", proto, len(opts), moment, iv))
}

func c07Blocked(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	iv := 5 * time.Millisecond
	opts := c07Opts(c.Idx()/3, iv)
	how := pick(c.Rng, "silent", "silent", "halfreply", "noread")
	gate := make(chan struct{})
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	c.Defer(open)
	var blocked int32
	addr := m.Addr()
	cl := c.connect(proto, addr, 0, opts...)
	if len(opts) == 0 && c.Rng.Intn(2) == 0 {
		setTimeout(cl, 5*time.Minute)
	}
	m.Put("k", strings.Repeat("z", 100), 0, 0)
	switch how {
	case "silent":
		m.SetHook(func(*Cmd) *Act {
			atomic.AddInt32(&blocked, 1)
			return &Act{Gate: gate, Close: true}
		})
	case "halfreply":
		f := NewFault()
		f.Stall = true
		f.OutAfter = 7
		f.Release = gate
		m.Arm(f)
		go func() {
			select {
			case <-f.hitCh:
				atomic.AddInt32(&blocked, 1)
			case <-gate:
			}
		}()
	case "noread":
		f := NewFault()
		f.Stall = true
		f.InAfter = 0
		f.Release = gate
		m.Arm(f)
		go func() {
			select {
			case <-f.hitCh:
				atomic.AddInt32(&blocked, 1)
			case <-gate:
			}
		}()
	}
	n := 1 + c.Rng.Intn(6)
	type ret struct {
		op  Op
		res Res
		pan any
	}
	rets := make(chan ret, n)
	for i := 0; i < n; i++ {
		o := plainOp(c, pick(c.Rng, allKinds...), []string{"k", "b"})
		if how == "noread" {
			o = Op{Kind: pick(c.Rng, "set", "add", "replace"), Key: "k", Val: make([]byte, 16<<20)}
		}
		if how == "halfreply" {
			o = Op{Kind: "get", Key: "k"}
		}
		go func() {
			x := ret{op: o}
			defer func() { x.pan = recover(); rets <- x }()
			x.res = do(cl, o)
		}()
	}
	if !c.eventually("a call is blocked", func() bool { return atomic.LoadInt32(&blocked) > 0 }) {
		c.Skip("no call blocked")
	}
	time.Sleep(time.Duration(c.Rng.Intn(4000)) * time.Microsecond)
	closers := 1 + c.Rng.Intn(3)
	var wg sync.WaitGroup
	for i := 0; i < closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					c.Report("Close panicked: %v", p)
				}
			}()
			cl.Close()
		}()
	}
	c.Do(fmt.Sprintf("Close with %d calls blocked on a server that is %s", n, how), wg.Wait)
	done := make(chan struct{})
	var all []ret
	go func() {
		for i := 0; i < n; i++ {
			all = append(all, <-rets)
		}
		close(done)
	}()
	switch c.waitDone(done) {
	case 1:
		c.Fail("Close did not release the calls blocked on a server that is %s", how)
	case 2:
		c.Skip("no progress")
	}
	for _, x := range all {
		if x.pan != nil {
			c.Fail("%s panicked when Close interrupted it: %v", x.op, x.pan)
		}
		if x.res.Class() != "error" {
			c.Fail("%s, blocked on a server that is %s, returned %s after Close", x.op, how, x.res)
		}
	}
	c.R.Count("blocked_calls_released", int64(n))
	open()
	m.SetHook(nil)
	m.Arm(nil)
	if !c.eventually("connections closed", func() bool { return m.Open() == 0 }) {
		c.Fail("after Close %d connections are still open at the server", m.Open())
	}
	dead(c, m, proto, cl, iv)
	c.R.Eval(fmt.Sprintf("blocked|%s|%d|%s|%d|%d", proto, len(opts), how, n, closers))
}

// c07Race: calls, Reconnects, heartbeats and connection losses while Close happens.
func c07Race(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	iv := time.Duration(1+c.Rng.Intn(3)) * time.Millisecond
	opts := c07Opts(c.Rng.Intn(3), iv)
	cl := c.connect(proto, m.Addr(), 0, opts...)
	if c.Rng.Intn(2) == 0 {
		m.SetHook(jitter(c.Rng.Int63()))
	}
	var closed int32
	stop := make(chan struct{})
	var wg sync.WaitGroup
	run := func(fn func(r *rand.Rand)) {
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 4096)
					c.Report("panic while closing: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			for {
				select {
				case <-stop:
					return
				default:
				}
				fn(r)
			}
		}()
	}
	var okAfter, calls int64
	for i := 0; i < 3+c.Rng.Intn(4); i++ {
		run(func(r *rand.Rand) {
			was := atomic.LoadInt32(&closed)
			o := Op{Kind: pick(r, "get", "set", "mget", "version", "incr", "delete", "add", "replace", "touch", "flush"), Key: "k", Keys: []string{"k", "l"}, Val: []byte("v"), Delta: 1}
			x := do(cl, o)
			atomic.AddInt64(&calls, 1)
			if was == 1 && x.Class() != "error" {
				if atomic.AddInt64(&okAfter, 1) == 1 {
					c.Report("%s started after Close had returned and returned %s", o, x)
				}
			}
			if was == 1 {
				time.Sleep(100 * time.Microsecond)
			}
		})
	}
	nre := c.Rng.Intn(3)
	for i := 0; i < nre; i++ {
		run(func(r *rand.Rand) {
			was := atomic.LoadInt32(&closed)
			err := cl.Reconnect()
			if was == 1 && err == nil {
				c.Report("Reconnect started after Close had returned and succeeded")
			}
			time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
		})
	}
	drop := c.Rng.Intn(2) == 0
	if drop {
		run(func(r *rand.Rand) {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			m.DropConns()
		})
	}
	time.Sleep(time.Duration(c.Rng.Intn(8000)) * time.Microsecond)
	closers := 1 + c.Rng.Intn(3)
	var cw sync.WaitGroup
	for i := 0; i < closers; i++ {
		cw.Add(1)
		go func() {
			defer cw.Done()
			defer func() {
				if p := recover(); p != nil {
					c.Report("Close panicked: %v", p)
				}
			}()
			cl.Close()
		}()
	}
	c.Do("Close during calls", cw.Wait)
	atomic.StoreInt32(&closed, 1)
	time.Sleep(time.Duration(2+c.Rng.Intn(4)) * time.Millisecond)
	close(stop)
	c.Do("calls after Close", wg.Wait)
	m.SetHook(nil)
	dead(c, m, proto, cl, iv)
	c.R.Count("calls_around_close", calls)
	c.R.Eval(fmt.Sprintf("race|%s|%d|%d|%v|%d|%d", proto, len(opts), nre, drop, closers, calls))
}

// c07ReconnRace: Close and Reconnect at the same instant, many times; whoever wins, no connection survives Close.
func c07ReconnRace(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.refNet()
	order := ""
	for i := 0; i < 12; i++ {
		cl, err := dial(proto, "x", m.Addr(), 0, c07Opts(c.Rng.Intn(3), time.Millisecond)...)
		c.Must(err)
		var wg sync.WaitGroup
		start := make(chan struct{})
		n := 1 + c.Rng.Intn(3)
		var ok int32
		for j := 0; j < n; j++ {
			wg.Add(1)
			d := time.Duration(c.Rng.Intn(200)) * time.Microsecond
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						c.Report("Reconnect panicked: %v", p)
					}
				}()
				<-start
				time.Sleep(d)
				if cl.Reconnect() == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		wg.Add(1)
		d := time.Duration(c.Rng.Intn(300)) * time.Microsecond
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					c.Report("Close panicked: %v", p)
				}
			}()
			<-start
			time.Sleep(d)
			cl.Close()
		}()
		close(start)
		c.Do("Close and Reconnect", wg.Wait)
		order += fmt.Sprint(ok)
		if r := do(cl, Op{Kind: "get", Key: "a"}); r.Class() != "error" {
			c.Fail("Get after Close (raced with %d Reconnects, %d of them succeeded) returned %s", n, ok, r)
		}
		if !c.eventually("connections closed", func() bool { return m.Open() == 0 }) {
			c.Fail("Close raced with %d Reconnects (%d succeeded): %d connections remain open", n, ok, m.Open())
		}
	}
	c.R.Eval("reconnrace|" + proto + order)
}
