package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
)

func init() {
	registry["P01"] = checkP01
	registry["P02"] = checkP02
	registry["P03"] = checkP03
}

// ---- a replica pool over servers that can be inspected

type repWorld struct {
	c        *Case
	pri, sec []Backend
	pn, sn   []string
	pcl, scl []*client.ServerWithMetaProtocol
	pool     *cluster.ReplicaPool
	pr, sr   *client.Ring
	pi, si   map[string]int
	slack    int64
}

func (c *Case) repWorld(pri, sec []Backend, timeout func() time.Duration) *repWorld {
	w := &repWorld{c: c, pri: pri, sec: sec, pi: map[string]int{}, si: map[string]int{}}
	w.pn, w.sn = genNames(c.Rng, len(pri)), genNames(c.Rng, len(sec))
	if c.Rng.Intn(3) == 0 && len(pri) == len(sec) { // both sides named alike
		w.sn = w.pn
	}
	if c.Rng.Intn(4) == 0 { // the sides share some names
		for i := range w.sn {
			if i < len(w.pn) && !has(w.sn, w.pn[len(w.pn)-1-i]) {
				w.sn[i] = w.pn[len(w.pn)-1-i]
			}
		}
	}
	mk := func(b Backend, name string) *client.ServerWithMetaProtocol {
		addr := b.Addr()
		if !b.Exact() {
			w.slack = 2
			if c.Rng.Intn(3) == 0 {
				p := c.SegProxy(addr, randSeg(c.Rng.Int63()))
				c.Defer(p.Close)
				addr = p.Addr()
			}
		}
		return c.connectMeta(name, addr, timeout())
	}
	for i, b := range pri {
		w.pi[w.pn[i]] = i
		w.pcl = append(w.pcl, mk(b, w.pn[i]))
	}
	for i, b := range sec {
		w.si[w.sn[i]] = i
		w.scl = append(w.scl, mk(b, w.sn[i]))
	}
	w.pool = cluster.NewReplicaPool(w.pcl, w.scl)
	var a, b []client.Server
	for _, x := range w.pcl {
		a = append(a, x)
	}
	for _, x := range w.scl {
		b = append(b, x)
	}
	w.pr, w.sr = client.NewRing(a...), client.NewRing(b...)
	return w
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (w *repWorld) home(key string) (Backend, Backend) {
	return w.pri[w.pi[w.pr.Pick(key).Name()]], w.sec[w.si[w.sr.Pick(key).Name()]]
}

func (w *repWorld) all() []Backend { return append(append([]Backend(nil), w.pri...), w.sec...) }

// place puts an item on one server behind the pool's back; ttl is relative, 0 = never.
func place(b Backend, key, val string, flags uint32, ttl int64) {
	if m, ok := b.(*RefMC); ok && ttl > 0 {
		ttl += m.Now()
	}
	b.Put(key, val, flags, ttl)
}

func backends(ms []*RefMC) (r []Backend) {
	for _, m := range ms {
		r = append(r, m)
	}
	return
}

// grid reads every watched key on every server.
func (w *repWorld) grid(keys []string) map[string]State {
	g := map[string]State{}
	for i, b := range w.all() {
		for _, k := range keys {
			g[fmt.Sprintf("%d|%s", i, k)] = b.Inspect(k)
		}
	}
	return g
}

func alike(a, b State, slack int64) bool {
	if a.Ok != b.Ok {
		// on a running clock one of two items about to expire may have gone first
		return a.Ok && a.TTL >= 0 && a.TTL <= slack || b.Ok && b.TTL >= 0 && b.TTL <= slack
	}
	if !a.Ok {
		return true
	}
	if a.Val != b.Val || a.Flags != b.Flags || a.Stale != b.Stale {
		return false
	}
	if (a.TTL == -1) != (b.TTL == -1) {
		return false
	}
	return absdiff(a.TTL, b.TTL) <= slack
}

var poolWrites = []string{"set", "set", "cas", "add", "replace", "delete", "incr", "incr", "decr"}

// poolOp draws a write (or read) for one of the keys.
func (w *repWorld) poolOp(keys []string, now int64, relOnly bool) Op {
	r := w.c.Rng
	k := keys[r.Intn(len(keys))]
	o := Op{Kind: pick(r, append(poolWrites, "get", "mget")...), Key: k}
	p, s := w.home(k)
	exp := func() int {
		for {
			e := genExp(r, now)
			if r.Intn(12) == 0 {
				e = pick(r, -1, -100, 1, 2, 3, genPast(r, "meta", now))
			}
			if relOnly && e > day30 {
				continue
			}
			if !p.Exact() && 0 < e && e <= 3 {
				continue // might expire between a call and the look at the servers
			}
			return e
		}
	}
	switch o.Kind {
	case "set", "cas", "add", "replace":
		o.Val, o.Flags, o.Exp = genVal(r), genFlags(r), exp()
		if r.Intn(3) == 0 {
			o.Val = []byte(pick(r, "0", "1", "9", "10", "99", "100", "4294967295", "18446744073709551", "12 ", strconv.Itoa(r.Intn(1000000))))
		}
		if r.Intn(150) == 0 {
			o.Val = rbytes(r, 900000+r.Intn(200000))
		}
		if o.Kind != "set" && o.Kind != "cas" && r.Intn(3) == 0 { // an item read earlier, with its token
			o.Cas = pick(r, p.Inspect(k).Cas, s.Inspect(k).Cas, 1+uint64(r.Intn(1000)))
		}
		if o.Kind == "cas" {
			o.Kind = "set"
			switch r.Intn(5) {
			case 0:
				o.Cas = s.Inspect(k).Cas
			case 1:
				o.Cas = 1 + uint64(r.Intn(1000))
			default:
				o.Cas = p.Inspect(k).Cas
			}
		}
	case "incr", "decr":
		o.Delta = pick(r, 0, 1, 2, 9, 10, 100, 1<<31, 1<<40, r.Intn(1000000))
		if r.Intn(2) == 0 {
			o.Exp = exp()
		}
		if st := p.Inspect(k); !p.Exact() && ambiguousNumber(st.Val) {
			return Op{Kind: "get", Key: k}
		} else if st.Ok && r.Intn(4) > 0 {
			if _, ok := parseCounter(st.Val); !ok {
				ttl := pick(r, int64(0), 100, 86400, day30-5)
				if !relOnly && r.Intn(4) == 0 {
					ttl = day30 + 1000
				}
				w.place(p, k, strconv.Itoa(r.Intn(2000)), uint32(r.Int63()), ttl)
			}
		}
	case "mget":
		o.Key = ""
		for _, x := range keys {
			if r.Intn(2) == 0 {
				o.Keys = append(o.Keys, x)
			}
		}
		if len(o.Keys) == 0 {
			o.Keys = keys[:1]
		}
	}
	return o
}

func (w *repWorld) place(b Backend, key, val string, flags uint32, ttl int64) {
	if !b.Exact() && ttl > day30 {
		ttl += time.Now().Unix()
	}
	place(b, key, val, flags, ttl)
	w.c.Logf("(placed %q = %s flags=%d ttl=%d on %s)", key, sh(val), flags, ttl, b.Addr())
}

func (w *repWorld) now() int64 {
	if m, ok := w.pri[0].(*RefMC); ok {
		return m.Now()
	}
	return time.Now().Unix()
}

// ---- P01

func checkP01(r *Run) {
	r.Rule("random sequences of writes and reads through replica pools of 1-4 primaries and 1-4 secondaries, model servers (frozen or jumping clocks) or real memcached, with items placed, changed and lost on single servers in between; after every call every watched key on every server is compared; distinct = (operation, outcome, state of primary and secondary before, lifetime class)")
	r.Cases("model", r.N(300, 6000), 6, func(c *Case) { p01Case(c, false, false) })
	r.Cases("clock", r.N(150, 3000), 6, func(c *Case) { p01Case(c, false, true) })
	r.Cases("real", r.N(50, 1200), 3, func(c *Case) { p01Case(c, true, false) })
	r.Cases("big", r.N(12, 80), 4, p01Big)
}

func ttlClass(t int64) string {
	switch {
	case t == -1:
		return "never"
	case t < 10:
		return "soon"
	case t <= day30:
		return "short"
	}
	return "long"
}

func stClass(s State) string {
	if !s.Ok {
		return "absent"
	}
	n := "text"
	if _, ok := parseCounter(s.Val); ok {
		n = "number"
	}
	return n + ttlClass(s.TTL)
}

func p01Case(c *Case, real, clock bool) {
	np, ns := 1+c.Rng.Intn(4), 1+c.Rng.Intn(4)
	var pri, sec []Backend
	var refs []*RefMC
	wall := time.Now().Unix()
	for i := 0; i < np+ns; i++ {
		var b Backend
		if real {
			if i >= 2 && i != np { // few processes: at most two on each side
				if i < np {
					continue
				}
				if i > np+1 {
					continue
				}
			}
			b = c.real()
		} else {
			m := c.ref()
			m.Advance(wall - m.Now())
			if c.Rng.Intn(3) == 0 {
				m.SetSeg(randSeg(c.Rng.Int63()))
			}
			refs = append(refs, m)
			b = m
		}
		if i < np {
			pri = append(pri, b)
		} else {
			sec = append(sec, b)
		}
	}
	w := c.repWorld(pri, sec, c.honest)
	keys := ringKeys(c.Rng, 3+c.Rng.Intn(6), append(append([]string(nil), w.pn...), w.sn...))
	keys = uniqStr(keys)
	n := 40
	if real {
		n = 25
	}
	for i := 0; i < n; i++ {
		k := keys[c.Rng.Intn(len(keys))]
		p, s := w.home(k)
		switch c.Rng.Intn(10) {
		case 0:
			w.place(s, k, "diverged "+strconv.Itoa(i), 7, pick(c.Rng, int64(0), 50, 5000))
		case 1:
			w.place(p, k, pick(c.Rng, "41", "8999999999999999999", "9007199254740993", "x", "99", "4294967295"), uint32(c.Rng.Int63()), pick(c.Rng, int64(0), 60, 5000, day30, day30-1))
		case 2:
			lose(pick(c.Rng, p, s), k)
			c.Logf("(lost %q on a server)", k)
		case 3:
			if clock {
				d := pick(c.Rng, int64(1), 30, 1000, 86400, 20*86400)
				for _, m := range refs {
					m.Advance(d)
				}
				c.Logf("(%d seconds pass)", d)
			}
		}
		o := w.poolOp(keys, w.now(), clock)
		p01Step(w, keys, o)
	}
}

// lose removes an item from one server only.
func lose(b Backend, key string) {
	switch m := b.(type) {
	case *RefMC:
		m.mu.Lock()
		delete(m.items, key)
		m.mu.Unlock()
	case *RealMC:
		m.mu.Lock()
		fmt.Fprintf(m.c, "delete %s\r\n", key)
		m.r.ReadString('\n')
		m.mu.Unlock()
	}
}

func uniqStr(xs []string) (r []string) {
	for _, x := range xs {
		if !has(r, x) {
			r = append(r, x)
		}
	}
	return
}

func p01Step(w *repWorld, keys []string, o Op) {
	c := w.c
	cx := stepCtx{proto: "meta", now: w.now(), slack: w.slack, max: 1024 * 1024}
	if w.slack > 0 {
		cx.max -= 512
	}
	began := time.Now()
	g0 := w.grid(keys)
	t0 := time.Now().Unix()
	r := c.Call("pool", w.pool, o)
	g1 := w.grid(keys)
	stretch(&w.slack, began)
	cx.slack = w.slack
	drift := w.slack
	if w.slack == 0 {
		drift = time.Now().Unix() - t0 + absdiff(t0, w.now()) // an absolute expiration comes from the wall clock
	}
	if o.Kind == "mget" {
		st := map[string]State{}
		for _, k := range o.Keys {
			st[k] = g0[fmt.Sprintf("%d|%s", w.pi[w.pr.Pick(k).Name()], k)]
		}
		if y := judgeMulti(o.Keys, r, st, cx); y != "" {
			c.Fail("batch read through the pool: %s", y)
		}
		return
	}
	pid := fmt.Sprintf("%d|%s", w.pi[w.pr.Pick(o.Key).Name()], o.Key)
	sid := fmt.Sprintf("%d|%s", len(w.pri)+w.si[w.sr.Pick(o.Key).Name()], o.Key)
	p0, p1, s0, s1 := g0[pid], g1[pid], g0[sid], g1[sid]
	rj := r
	secMissing := o.Kind == "delete" && p0.Ok && !s0.Ok && r.Err != nil
	if secMissing {
		rj = Res{} // whether deleting what the secondary does not have counts as success is open
	}
	if y := judge(o, rj, p0, p1, cx); y != "" {
		c.Fail("%s through the pool: primary: %s", o, y)
	}
	for id, s := range g0 {
		if id == pid || id == sid {
			continue
		}
		if !sameState(s, g1[id], w.slack, false) {
			c.Fail("%s through the pool changed %s on a server that is not its primary or secondary, or another key: %s -> %s", o, id, s, g1[id])
		}
	}
	switch {
	case o.Kind == "get":
		if !sameState(s0, s1, w.slack, false) {
			c.Fail("a read changed the secondary: %s -> %s", s0, s1)
		}
	case r.Err == nil:
		if !alike(p1, s1, max(w.slack, longDrift(p1, drift))) {
			c.Fail("%s succeeded; primary %s, secondary %s", o, p1, s1)
		}
	case p0.Ok == p1.Ok && p0.Cas == p1.Cas: // the primary refused
		if !sameState(s0, s1, w.slack, false) {
			c.Fail("%s was refused by the primary (%v) but changed the secondary: %s -> %s", o, r.Err, s0, s1)
		}
	}
	c.R.Eval(fmt.Sprintf("%s%v|%s|%s|%s|%s", o.Kind, o.Cas != 0, r.Class(), stClass(p0), stClass(s0), stClass(p1)))
	c.R.Count("replicated_calls", 1)
	if r.Err == nil && o.Kind != "get" {
		c.R.Count("successful_writes_compared_on_both_replicas", 1)
	}
}

func longDrift(s State, drift int64) int64 {
	if s.TTL > day30-100 {
		return drift
	}
	return 0
}

// ---- P02

func checkP02(r *Run) {
	r.Rule("2-16 goroutines write and read a few keys through one replica pool over model servers with delayed replies or real memcached; the history is checked for linearizability per key, and both replicas are compared when all calls have returned; distinct = order in which calls started and ended")
	r.Cases("model", r.N(150, 4000), 4, func(c *Case) { p02Case(c, false) })
	r.Cases("real", r.N(40, 1500), 3, func(c *Case) { p02Case(c, true) })
	r.Cases("gate", r.N(60, 1000), 6, p02Gate)
	r.Cases("slow", r.N(72, 1200), 36, p02Slow)
	r.Cases("crowd", r.N(16, 200), 4, p02Crowd)
	r.Cases("hot", r.N(6, 40), 3, p02Hot)
	r.Cases("duel", r.N(32, 128), 4, p02Duel)
	r.Cases("shared", r.N(60, 600), 6, p02Shared)
	r.Cases("queue", r.N(12, 150), 3, p02Queue)
}

// p02Queue: many more calls wait for one key than a table or a counter may be sized for.
func p02Queue(c *Case) {
	pri, sec := c.refs(1), c.refs(1+c.Rng.Intn(2))
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		m.SetHook(jitter(c.Rng.Int63()))
	}
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	name, kinds := p02Mix(c.Rng)
	keys := []string{"q0", "q1"}[:1+c.Rng.Intn(2)]
	init := map[string]kstate{}
	for _, k := range keys {
		p, s := w.home(k)
		place(p, k, "17", 3, 0)
		place(s, k, "17", 3, 0)
		init[k] = kstate{true, "17", 3, 0, 0}
	}
	g := pick(c.Rng, 20, 33, 40, 70)
	h := newHistory(c)
	c.stress(h, []handle{{"meta", w.pool}}, keys, g, 3+c.Rng.Intn(4), kinds)
	final := map[string]State{}
	for _, k := range keys {
		p, s := w.home(k)
		final[k] = p.Inspect(k)
		if st := s.Inspect(k); !alike(final[k], st, w.slack) {
			c.Fail("all of %d concurrent callers' writes returned; key %q: primary %s, secondary %s", g, k, final[k], st)
		}
	}
	h.check(false, init, final)
	c.R.Max("callers_at_once", int64(g))
	c.R.Eval(fmt.Sprintf("queue|%d|", g) + name + h.sig())
}

func p02Mix(r *rand.Rand) (string, []string) {
	switch r.Intn(9) {
	case 0:
		return "sets", []string{"set"}
	case 1:
		return "counters", []string{"incr", "incr", "decr", "setnum"}
	case 2:
		return "incr", []string{"incr"}
	case 3:
		return "cas", []string{"get", "cas", "cas", "set"}
	case 4:
		return "deletes", []string{"set", "delete", "add"}
	case 5:
		return "addreplace", []string{"add", "replace", "delete", "get"}
	case 6:
		return "reads", []string{"get", "mget", "set", "incr"}
	}
	return "mix", []string{"get", "mget", "set", "cas", "add", "replace", "delete", "setnum", "incr", "decr"}
}

func p02Case(c *Case, real bool) {
	np, ns := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3)
	var pri, sec []Backend
	mk := func(n int, out *[]Backend) {
		for i := 0; i < n; i++ {
			if real {
				*out = append(*out, c.real())
				continue
			}
			m := c.ref()
			if c.Rng.Intn(4) > 0 {
				m.SetHook(jitter(c.Rng.Int63()))
			}
			if c.Rng.Intn(3) == 0 {
				m.SetSeg(randSeg(c.Rng.Int63()))
			}
			*out = append(*out, m)
		}
	}
	if real {
		np, ns = 1, 1
	}
	mk(np, &pri)
	mk(ns, &sec)
	w := c.repWorld(pri, sec, c.honest)
	name, kinds := p02Mix(c.Rng)
	keys := make([]string, 1+c.Rng.Intn(4))
	for i := range keys {
		keys[i] = fmt.Sprintf("k%d", i) + strings.Repeat("y", pick(c.Rng, 0, 0, 0, 62, 126, 248))
	}
	init := map[string]kstate{}
	for _, k := range keys {
		if c.Rng.Intn(2) == 0 {
			v := pick(c.Rng, "0", "17", "99", "text")
			p, s := w.home(k)
			place(p, k, v, 3, 0)
			place(s, k, v, 3, 0)
			init[k] = kstate{true, v, 3, 0, 0}
		}
	}
	g := pick(c.Rng, 2, 3, 4, 6, 8, 12, 16)
	h := newHistory(c)
	c.stress(h, []handle{{"meta", w.pool}}, keys, g, 10+c.Rng.Intn(160/g+1), kinds)
	final := map[string]State{}
	for _, k := range keys {
		p, s := w.home(k)
		final[k] = p.Inspect(k)
		st := s.Inspect(k)
		if !alike(final[k], st, w.slack) {
			for _, e := range h.ev {
				if e.Op.Key == k {
					c.Logf("%s", e)
				}
			}
			c.Fail("all concurrent writes returned; key %q: primary %s, secondary %s", k, final[k], st)
		}
	}
	for _, e := range h.ev {
		if e.Res.Class() == "error" && !(e.Op.Kind == "incr" || e.Op.Kind == "decr") {
			c.Fail("%s failed on healthy servers", e)
		}
	}
	h.check(false, init, final)
	c.R.Eval(name + h.sig())
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"primaries": np, "secondaries": ns, "goroutines": g, "operations": name, "first_calls": evStrings(h.ev, 4)})
	}
}

// p02Gate holds the secondary's (or primary's) part of one write until others have had every chance to overtake it.
func p02Gate(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.repWorld(backends(pri), backends(sec), func() time.Duration { return 0 })
	key := "k" + strings.Repeat("y", pick(c.Rng, 0, 0, 0, 31, 63, 127, 249))
	kinds := []string{"set", "add", "replace", "delete", "incr", "decr", "cas"}
	start := pick(c.Rng, "", "5", "50", "999")
	if start != "" {
		place(pri[0], key, start, 1, 0)
		place(sec[0], key, start, 1, 0)
	}
	type rule struct {
		primary bool
		nth     int32
		after   bool
	}
	ru := rule{c.Rng.Intn(3) == 0, int32(1 + c.Rng.Intn(3)), c.Rng.Intn(2) == 0}
	h := newHistory(c)
	first := pri[0].Inspect(key)
	h.do(99, "meta", w.pool, Op{Kind: "get", Key: key})
	gate := make(chan struct{})
	held := make(chan struct{})
	var n int32
	hook := func(cmd *Cmd) *Act {
		if atomic.AddInt32(&n, 1) == ru.nth {
			close(held)
			if ru.after {
				return &Act{After: gate}
			}
			return &Act{Gate: gate}
		}
		return nil
	}
	target := sec[0]
	if ru.primary {
		target = pri[0]
	}
	other := sec[0]
	if !ru.primary {
		other = pri[0]
	}
	target.SetHook(hook)
	calls := 2 + c.Rng.Intn(4)
	var ops []Op
	for i := 0; i < calls; i++ {
		o := Op{Kind: pick(c.Rng, kinds...), Key: key, Delta: pick(c.Rng, 0, 0, 1, 1+c.Rng.Intn(60), 1+c.Rng.Intn(60), 1<<33), Val: []byte(strconv.Itoa(100*i + c.Rng.Intn(100))), Flags: be32(uint32(i))}
		if o.Kind == "cas" {
			o.Kind, o.Cas = "set", first.Cas
		}
		ops = append(ops, o)
	}
	var wg sync.WaitGroup
	for i, o := range ops {
		i, o := i, o
		wg.Add(1)
		go func() {
			defer wg.Done()
			h.do(i, "meta", w.pool, o)
		}()
		if i == 0 {
			continue
		}
		// let each one get as far as it can
		if c.Rng.Intn(2) == 0 {
			last, quiet := -1, 0
			for t := 0; t < 200 && quiet < 4; t++ {
				time.Sleep(500 * time.Microsecond)
				if x := other.LogLen(); x == last {
					quiet++
				} else {
					last, quiet = x, 0
				}
			}
		}
	}
	time.Sleep(2 * time.Millisecond)
	close(gate)
	c.Do("writes held by a slow replica", wg.Wait)
	target.SetHook(nil)
	p, s := pri[0].Inspect(key), sec[0].Inspect(key)
	if !alike(p, s, 0) {
		for _, e := range h.ev {
			c.Logf("%s", e)
		}
		c.Fail("all concurrent writes returned; primary %s, secondary %s (the %s was slow)", p, s, map[bool]string{true: "primary", false: "secondary"}[ru.primary])
	}
	init := map[string]kstate{}
	if start != "" {
		init[key] = kstate{true, start, 1, 0, 0}
	}
	h.check(false, init, map[string]State{key: p})
	sig := fmt.Sprintf("gate%v%s", ru, start)
	for _, e := range h.ev {
		sig += e.Op.Kind + e.Res.Class()
	}
	select {
	case <-held:
		c.R.Count("writes_held_halfway", 1)
	default:
	}
	c.R.Eval(sig)
}

// p02Slow: a replica that answers late, by anything from a few milliseconds to seconds. Whatever the delay, once the calls have
// returned the replicas are alike, and stay so.
func p02Slow(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.repWorld(backends(pri), backends(sec), func() time.Duration { return 0 })
	key := "k"
	start := pick(c.Rng, "", "5", "50", "999")
	init := map[string]kstate{}
	if start != "" {
		place(pri[0], key, start, 1, 0)
		place(sec[0], key, start, 1, 0)
		init[key] = kstate{true, start, 1, 0, 0}
	}
	primary := c.Rng.Intn(4) == 0
	target := sec[0]
	if primary {
		target = pri[0]
	}
	delay := pick(c.Rng, 5, 20, 60, 150, 400, 800, 1300, 2600)
	after := c.Rng.Intn(2) == 0
	h := newHistory(c)
	first := pri[0].Inspect(key)
	h.do(99, "meta", w.pool, Op{Kind: "get", Key: key})
	budget := int64(4000) // milliseconds of delay in all
	atomic.AddInt64(&c.grace, int64(4*time.Second))
	target.SetHook(func(cmd *Cmd) *Act {
		if atomic.AddInt64(&budget, -int64(delay)) < 0 {
			return nil
		}
		g := make(chan struct{})
		time.AfterFunc(time.Duration(delay)*time.Millisecond, func() { close(g) })
		c.R.Count("pauses", 1)
		if after {
			return &Act{After: g}
		}
		return &Act{Gate: g}
	})
	var wg sync.WaitGroup
	var ops []string
	for i, n := 0, 1+c.Rng.Intn(3); i < n; i++ {
		o := Op{Kind: pick(c.Rng, "set", "add", "replace", "delete", "incr", "decr", "cas"), Key: key, Delta: 1 + c.Rng.Intn(60), Val: []byte(strconv.Itoa(100*i + c.Rng.Intn(100))), Flags: be32(uint32(i))}
		if i == 0 { // the first write finds the key as it needs it
			if start == "" {
				o.Kind = pick(c.Rng, "set", "add")
			} else {
				o.Kind = pick(c.Rng, "set", "replace", "delete", "incr", "decr", "cas")
			}
		}
		if o.Kind == "cas" {
			o.Kind, o.Cas = "set", first.Cas
		}
		ops = append(ops, o.Kind)
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			h.do(i, "meta", w.pool, o)
		}()
		if c.Rng.Intn(3) == 0 {
			time.Sleep(time.Duration(c.Rng.Intn(4)) * time.Millisecond)
		}
	}
	c.Do("writes to a slow replica", wg.Wait)
	look := func(when string) State {
		p, s := pri[0].Inspect(key), sec[0].Inspect(key)
		if !alike(p, s, 0) {
			for _, e := range h.ev {
				c.Logf("%s", e)
			}
			c.Fail("%s: primary %s, secondary %s (the %s takes %d ms)", when, p, s, map[bool]string{true: "primary", false: "secondary"}[primary], delay)
		}
		return p
	}
	p := look("all concurrent writes returned")
	time.Sleep(time.Duration(delay+30) * time.Millisecond)
	if q := look("some time after all writes returned"); p != q {
		c.Fail("all writes had returned with the key at %s, later it is %s", p, q)
	}
	target.SetHook(nil)
	for _, e := range h.ev {
		if e.Res.Class() == "error" && !(e.Op.Kind == "incr" || e.Op.Kind == "decr") {
			c.Fail("%s failed on servers that were only slow", e)
		}
	}
	h.check(false, init, map[string]State{key: p})
	c.R.Eval(fmt.Sprintf("slow%v%v%d%s%v", primary, after, delay, start, ops))
}

// ---- P03

func checkP03(r *Run) {
	r.Rule("every write and read of a replica pool x every kind of failure (refusal by reply, connection cut before or after the command took effect, reply cut at a byte, request cut at a byte, unreachable, natural refusals, stalls with a timeout) of the key's primary or secondary; the commands each server executed and its contents are compared with the call's result; distinct = (operation, replica, failure, outcome)")
	r.Cases("fault", r.N(3600, 60000), 8, p03Fault)
	r.Cases("refuse", r.N(150, 3000), 6, p03Refuse)
	r.Cases("reads", r.N(120, 2000), 6, p03Reads)
	r.Cases("again", r.N(36, 300), 6, p03Again)
}

var p03Kinds = []string{"set", "cas", "add", "replace", "delete", "incr", "decr", "get", "mget"}

// p03Setup: state in which the operation succeeds when nothing fails.
func p03Setup(c *Case, w *repWorld, kind string, keys []string) Op {
	k := keys[c.Rng.Intn(len(keys))]
	p, s := w.home(k)
	o := Op{Kind: kind, Key: k, Delta: 1 + c.Rng.Intn(50), Val: genVal(c.Rng), Flags: be32(c.Rng.Uint32()), Exp: pick(c.Rng, 0, 0, 1000)}
	if len(o.Val) > 20000 {
		o.Val = o.Val[:20000]
	}
	if c.Rng.Intn(6) == 0 {
		o.Val = bytes.Repeat([]byte("v"), pick(c.Rng, 32769, 65536, 65537, 131073, 300000, 600000)+c.Rng.Intn(50))
	}
	for _, x := range keys {
		a, b := w.home(x)
		place(a, x, "12", 5, 0)
		place(b, x, "12", 5, 0)
	}
	switch kind {
	case "add":
		lose(p, k)
		if c.Rng.Intn(2) == 0 {
			lose(s, k)
		}
	case "replace":
		if c.Rng.Intn(3) == 0 {
			o.Cas = p.Inspect(k).Cas
		}
	case "cas":
		o.Kind, o.Cas = "set", p.Inspect(k).Cas
	case "mget":
		o.Key, o.Keys = "", shuffled(c.Rng, keys)[:1+c.Rng.Intn(len(keys))]
	}
	return o
}

var writeNames = map[string]bool{"set": true, "add": true, "replace": true, "append": true, "prepend": true, "cas": true, "delete": true, "incr": true, "decr": true, "touch": true, "gat": true, "flush": true}

type execd struct {
	writes, reads, others int
	applied               int // writes that took effect, whether or not the client was told
}

func executed(m *RefMC, from int, key string) (e execd) {
	for _, x := range m.LogFrom(from) {
		mine := key == "" || has(x.Keys, key)
		switch {
		case writeNames[x.Name] && mine:
			e.writes++
			if x.Reply != "not applied" {
				e.applied++
			}
		case writeNames[x.Name]:
			e.others++
		default:
			e.reads++
		}
	}
	return
}

func p03Fault(c *Case) {
	np, ns := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3)
	pri, sec := c.refs(np), c.refs(ns)
	stall := c.Rng.Intn(12) == 0
	to := c.honest()
	if stall {
		to = 250 * time.Millisecond
	}
	w := c.repWorld(backends(pri), backends(sec), func() time.Duration { return to })
	keys := uniqStr(ringKeys(c.Rng, 4, append(append([]string(nil), w.pn...), w.sn...)))
	kind := p03Kinds[c.Idx()%len(p03Kinds)]
	o := p03Setup(c, w, kind, keys)
	hk := o.Key
	if kind == "mget" {
		hk = o.Keys[0]
	}
	pb, sb := w.home(hk)
	p, s := pb.(*RefMC), sb.(*RefMC)
	onPri := c.Idx()/len(p03Kinds)%2 == 0
	t := s
	if onPri {
		t = p
	}
	modes := []string{"refuse", "nomem", "cutbefore", "cutafter", "reply", "request", "down", "garbage", "refuse2", "wrong"}
	mode := modes[c.Idx()/len(p03Kinds)/2%len(modes)]
	if stall {
		mode = "stall"
	}
	nth := int32(1)
	if (kind == "incr" || kind == "decr") && onPri && c.Rng.Intn(2) == 0 {
		nth = 2 // the copy's read
	}
	var seen int32
	var hit int32
	on := func(a func(cmd *Cmd) *Act) {
		t.SetHook(func(cmd *Cmd) *Act {
			if cmd.Name == "noop" || cmd.Name == "version" {
				return nil
			}
			if atomic.AddInt32(&seen, 1) != nth {
				return nil
			}
			x := a(cmd)
			if x != nil {
				atomic.StoreInt32(&hit, 1)
			}
			return x
		})
	}
	var ft *Fault
	switch mode {
	case "refuse":
		line := pick(c.Rng, "SERVER_ERROR out of memory storing object", "SERVER_ERROR object too large for cache", "ERROR", "CLIENT_ERROR bad data chunk", "SERVER_ERROR")
		on(func(*Cmd) *Act { return &Act{NoApply: true, Reply: []byte(line + "\r\n")} })
	case "nomem": // a refusal after which the old item is gone
		on(func(cmd *Cmd) *Act {
			return &Act{NoApply: true, Reply: []byte("SERVER_ERROR out of memory storing object\r\n")}
		})
	case "refuse2": // the protocol's own refusals
		line := pick(c.Rng, "NS", "EX", "NF")
		if kind == "delete" { // for a delete NF is no failure
			line = "EX"
		}
		on(func(cmd *Cmd) *Act {
			if cmd.Name == "get" {
				return &Act{NoApply: true, Reply: []byte("EN\r\n")}
			}
			return &Act{NoApply: true, Reply: []byte(line + "\r\n")}
		})
	case "wrong": // a success of another kind is not a confirmation
		line := pick(c.Rng, "", "OK", "VERSION 1", "XX", "TOUCHED", "OK 0", "BUSY")
		on(func(cmd *Cmd) *Act { return &Act{NoApply: true, Reply: []byte(line + "\r\n")} })
	case "cutbefore":
		on(func(*Cmd) *Act { return &Act{NoApply: true, Close: true} })
	case "cutafter":
		on(func(*Cmd) *Act { return &Act{Close: true} })
	case "garbage":
		g := append([]byte{'#'}, rbytes(c.Rng, c.Rng.Intn(30))...)
		on(func(*Cmd) *Act { return &Act{NoApply: true, Close: true, Mutate: func([]byte) []byte { return g }} })
	case "reply":
		ft = NewFault()
		ft.OutAfter = c.Rng.Intn(6)
		t.Arm(ft)
	case "request":
		ft = NewFault()
		ft.InAfter = c.Rng.Intn(40)
		t.Arm(ft)
	case "stall":
		ch := make(chan struct{})
		c.Defer(func() { close(ch) })
		if c.Rng.Intn(2) == 0 {
			on(func(*Cmd) *Act { return &Act{Gate: ch, NoApply: true} })
		} else {
			on(func(*Cmd) *Act { return &Act{After: ch} })
		}
	case "down":
		t.SetDown()
		atomic.StoreInt32(&hit, 1)
	}
	mp, ms := p.LogLen(), s.LogLen()
	marks := map[*RefMC]int{}
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		marks[m] = m.LogLen()
	}
	p0, s0 := p.Inspect(hk), s.Inspect(hk)
	r := c.Call("pool", w.pool, o)
	if ft != nil {
		atomic.StoreInt32(&hit, atomic.LoadInt32(&ft.Hit))
	}
	wasHit := atomic.LoadInt32(&hit) == 1
	t.SetHook(nil)
	role := map[bool]string{true: "primary", false: "secondary"}[onPri]
	ctx := fmt.Sprintf("%s failing (%s)", role, mode)
	pe, se := executed(p, mp, hk), executed(s, ms, hk)
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		if m == p || m == s {
			continue
		}
		for _, x := range m.LogFrom(marks[m]) {
			if x.Name != "get" && x.Name != "noop" || kind != "mget" {
				c.Fail("%s reached a server that is neither its primary nor its secondary: %s %q", o, x.Name, x.Keys)
			}
		}
	}
	if pe.writes > 1 || se.writes > 1 {
		c.Fail("%s, %s: write sent %d times to the primary, %d times to the secondary", o, ctx, pe.writes, se.writes)
	}
	if pe.others+se.others > 0 {
		c.Fail("%s wrote other keys", o)
	}
	read := kind == "get" || kind == "mget"
	if read {
		if pe.writes+se.writes+se.reads > 0 {
			c.Fail("the read %s sent %d commands to the secondary, %d writes to the primary", o, se.reads+se.writes, pe.writes)
		}
		if !onPri && r.Err != nil {
			c.Fail("%s, %s: a read needs only the primary but returned %s", o, ctx, r)
		}
		if onPri && wasHit && r.Err == nil && !(mode == "refuse2" && kind == "mget") {
			c.Fail("%s, %s: returned %s", o, ctx, r)
		}
	} else {
		if r.Err == nil && (wasHit || pe.applied != 1 || se.applied != 1) {
			c.Fail("%s, %s: reported success; primary executed it %d times, secondary %d times", o, ctx, pe.applied, se.applied)
		}
		if r.Err != nil && !wasHit {
			c.Fail("%s, %s but the failure never struck: returned %s", o, ctx, r)
		}
		if onPri && wasHit {
			if se.writes+se.reads > 0 || !sameState(s0, s.Inspect(hk), 0, false) {
				c.Fail("%s, %s: the secondary received %d commands", o, ctx, se.writes+se.reads)
			}
		}
		if !onPri && pe.writes != 1 && (mode != "down" || pe.writes != 0) {
			c.Fail("%s, %s: the primary received the write %d times", o, ctx, pe.writes)
		}
	}
	_ = p0
	c.R.Eval(fmt.Sprintf("%s|%s|%s|%d|%s|%v", kind, role, mode, nth, r.Class(), wasHit))
	c.R.Count("faults_struck", int64(atomic.LoadInt32(&hit)))
	// the other keys' servers are not affected
	for _, k := range keys {
		a, b := w.home(k)
		if a == Backend(t) || b == Backend(t) {
			continue
		}
		a0, b0 := a.Inspect(k), b.Inspect(k)
		x := Op{Kind: "set", Key: k, Val: []byte("later"), Flags: be32(1)}
		r := c.Call("pool", w.pool, x)
		if y := judge(x, r, a0, a.Inspect(k), stepCtx{proto: "meta", now: w.now(), max: 1 << 20}); y != "" {
			c.Fail("after %s on other servers: %s", ctx, y)
		}
		if !alike(a.Inspect(k), b.Inspect(k), 0) {
			c.Fail("after %s on other servers: primary %s, secondary %s (was %s)", ctx, a.Inspect(k), b.Inspect(k), b0)
		}
		c.R.Count("later_calls_on_healthy_servers", 1)
	}
	if !read && !onPri && wasHit { // reads go on while the secondary is broken
		a0 := p.Inspect(hk)
		x := Op{Kind: "get", Key: hk}
		r := c.Call("pool", w.pool, x)
		if y := judge(x, r, a0, p.Inspect(hk), stepCtx{proto: "meta", now: w.now(), max: 1 << 20}); y != "" {
			c.Fail("reading after %s: %s", ctx, y)
		}
	}
}

// p03Refuse: the primary or the secondary refuses by memcached's own rules.
func p03Refuse(c *Case) {
	pri, sec := c.refs(1+c.Rng.Intn(2)), c.refs(1+c.Rng.Intn(2))
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	for i := 0; i < 12; i++ {
		k := fmt.Sprintf("key%d", c.Rng.Intn(3))
		pb, sb := w.home(k)
		p, s := pb.(*RefMC), sb.(*RefMC)
		p.Max, s.Max = 1<<20, 1<<20
		o := Op{Key: k, Val: rbytes(c.Rng, 200), Flags: be32(9), Delta: 1}
		what := pick(c.Rng, "cas", "cas0", "add", "replace", "incr0", "decr0", "incrtext", "decrtext", "delete", "toolong", "secsmall", "decrease")
		place(p, k, "7", 1, 0)
		place(s, k, pick(c.Rng, "7", "other"), 1, 0)
		primaryRefuses := true
		switch what {
		case "cas":
			o.Kind, o.Cas = "set", p.Inspect(k).Cas+1
		case "cas0":
			o.Kind, o.Cas = "set", 77
			lose(p, k)
		case "add":
			o.Kind = "add"
			if c.Rng.Intn(2) == 0 {
				o.Cas = pick(c.Rng, p.Inspect(k).Cas, 77)
			}
			if c.Rng.Intn(2) == 0 {
				lose(s, k)
			}
		case "replace":
			o.Kind = "replace"
			if c.Rng.Intn(2) == 0 {
				o.Cas = pick(c.Rng, p.Inspect(k).Cas, s.Inspect(k).Cas, 77)
			}
			lose(p, k)
		case "incr0", "decr0":
			o.Kind = what[:4]
			lose(p, k)
		case "incrtext", "decrtext":
			o.Kind = what[:4]
			place(p, k, "text", 1, 0)
			place(s, k, "5", 1, 0)
		case "delete":
			o.Kind = "delete"
			lose(p, k)
		case "toolong":
			o.Kind, o.Val = "set", make([]byte, 1<<20+1)
		case "secsmall":
			o.Kind, primaryRefuses = pick(c.Rng, "set", "replace", "add", "incr"), false
			s.Max = 100
			place(p, k, strings.Repeat("0", 0)+"99", 1, 0)
			if o.Kind == "add" {
				lose(p, k)
			}
			if o.Kind == "incr" {
				s.Max = 1
			}
		case "decrease":
			o.Kind = "incr"
			place(p, k, strings.Repeat("9", 30), 1, 0)
		}
		p0, s0, n := p.Inspect(k), s.Inspect(k), s.LogLen()
		r := c.Call("pool", w.pool, o)
		s1 := s.Inspect(k)
		if primaryRefuses {
			if y := judge(o, r, p0, p.Inspect(k), stepCtx{proto: "meta", now: w.now(), max: 1 << 20}); y != "" {
				c.Fail("%s: %s", what, y)
			}
			if r.Err != nil && (!sameState(s0, s1, 0, false) || s.LogLen() != n) {
				c.Fail("%s was refused by the primary (%v) yet reached the secondary: %s -> %s", o, r.Err, s0, s1)
			}
			if r.Err == nil && o.Kind != "delete" {
				c.Fail("%s: %s returned success", what, o)
			}
		} else if r.Err == nil {
			c.Fail("the secondary refused %s (too large) but the call succeeded", o)
		}
		c.R.Eval(fmt.Sprintf("refuse%s%s%s%v", what, o.Kind, r.Class(), s0.Ok))
	}
}

// p03Reads: reads are served while the secondary, or a write waiting for it, is stuck.
func p03Reads(c *Case) {
	pri, sec := c.refs(1+c.Rng.Intn(2)), c.refs(1+c.Rng.Intn(2))
	w := c.repWorld(backends(pri), backends(sec), func() time.Duration { return 0 })
	keys := []string{"a", "b", "c", "d", "e"}
	for _, k := range keys {
		p, s := w.home(k)
		place(p, k, "100", 1, 0)
		place(s, k, "stale", 2, 0)
	}
	k := pick(c.Rng, keys...)
	_, sb := w.home(k)
	s := sb.(*RefMC)
	ch := make(chan struct{})
	reached := make(chan struct{})
	var once sync.Once
	s.SetHook(func(*Cmd) *Act { once.Do(func() { close(reached) }); return &Act{Gate: ch} })
	kind := pick(c.Rng, "set", "replace", "delete", "incr", "decr")
	mark := s.LogLen()
	done := make(chan Res, 1)
	go func() { done <- do(w.pool, Op{Kind: kind, Key: k, Delta: 1, Val: []byte("200"), Flags: be32(1)}) }()
	ok := c.eventually("write reaches the secondary", func() bool {
		select {
		case <-reached:
			return true
		default:
			return false
		}
	})
	if !ok {
		close(ch)
		c.Fail("%s through the pool never reached the secondary", kind)
	}
	for i := 0; i < 4; i++ {
		o := Op{Kind: "get", Key: pick(c.Rng, keys...)}
		if i == 0 {
			o.Key = k
		}
		if i == 2 {
			o = Op{Kind: "mget", Keys: shuffled(c.Rng, keys)[:3]}
		}
		st := map[string]State{}
		for _, x := range keys {
			p, _ := w.home(x)
			st[x] = p.Inspect(x)
		}
		out := c.Try(func() {
			r := do(w.pool, o)
			cx := stepCtx{proto: "meta", now: w.now(), max: 1 << 20}
			y := ""
			if o.Kind == "mget" {
				y = judgeMulti(o.Keys, r, st, cx)
			} else {
				y = judge(o, r, st[o.Key], st[o.Key], cx)
			}
			if y != "" {
				c.Report("%s while a %s waits for the secondary: %s", o, kind, y)
			}
		})
		if out.hung || out.panicked != "" {
			close(ch)
			c.Fail("%s did not return while a %s waits for its secondary (%s)", o, kind, out.panicked)
		}
		if out.incon {
			close(ch)
			c.Skip("machine too slow")
		}
	}
	select {
	case r := <-done:
		close(ch)
		c.Fail("%s returned %s although the secondary had not answered", kind, r)
	default:
	}
	if x := s.LogLen(); x != mark {
		close(ch)
		c.Fail("the secondary executed %d commands while stuck?", x-mark)
	}
	close(ch)
	var r Res
	c.Do("released write", func() { r = <-done })
	if r.Err != nil {
		c.Fail("%s failed after the secondary recovered: %s", kind, r)
	}
	c.R.Eval(fmt.Sprintf("reads%s%s%d%d", kind, k, len(pri), len(sec)))
}
