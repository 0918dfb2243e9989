package main

import (
	"bufio"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
)

// Quantities: what holds for a few keys, servers, calls, failures or callers holds for many.

// bigBatch draws how many keys a large batch has.
func bigBatch(r *rand.Rand) int {
	return pick(r, 60, 101, 129, 257, 300, 513, 1025, 1500, 2100, 3000)
}

// p01Big: a long life of one replica pool: batches of many keys, and thousands of writes.
func p01Big(c *Case) {
	np, ns := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3)
	pri, sec := c.refs(np), c.refs(ns)
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	n := bigBatch(c.Rng)
	atomic.AddInt64(&c.grace, int64(20*time.Second))
	var keys []string
	st := map[string]State{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("key-%d", i)
		keys = append(keys, k)
		p, s := w.home(k)
		switch i % 4 {
		case 0, 1:
			place(p, k, "value of "+k, uint32(i), pick[int64](c.Rng, 0, 5000))
			place(s, k, "stale", 1, 0)
		case 2:
			place(s, k, "only there", 1, 0)
		}
		st[k] = p.Inspect(k)
	}
	cx := stepCtx{proto: "meta", now: w.now(), max: 1 << 20}
	for i := 0; i < 3; i++ {
		ask := shuffled(c.Rng, keys)
		if i > 0 {
			ask = ask[:c.Rng.Intn(n)+1]
		}
		o := Op{Kind: "mget", Keys: ask}
		r := c.Call("pool", w.pool, o)
		if y := judgeMulti(ask, r, st, cx); y != "" {
			c.Fail("batch of %d keys through the pool (%d keys on %d primaries): %s", len(ask), n, np, y)
		}
		c.R.Max("largest_batch", int64(len(ask)))
	}
	// thousands of writes: every one leaves its two replicas alike
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		m.SetQuiet(true)
	}
	total := c.R.N(4500, 20000)
	for i := 0; i < total; i++ {
		o := w.poolOp(keys[:min(n, 40)], w.now(), false)
		if o.Kind == "mget" {
			continue
		}
		if len(o.Val) > 2000 && i%50 > 0 {
			o.Val = o.Val[:c.Rng.Intn(2000)]
		}
		p, s := w.home(o.Key)
		p0, s0 := p.Inspect(o.Key), s.Inspect(o.Key)
		var r Res
		if i%100 == 0 {
			r = c.Call("pool", w.pool, o)
		} else {
			r = do(w.pool, o)
		}
		p1, s1 := p.Inspect(o.Key), s.Inspect(o.Key)
		rj := r
		if o.Kind == "delete" && p0.Ok && !s0.Ok && r.Err != nil {
			rj = Res{}
		}
		if y := judge(o, rj, p0, p1, cx); y != "" {
			c.Fail("write or read %d of a pool: %s: primary: %s", i, o, y)
		}
		if o.Kind != "get" && r.Err == nil && !alike(p1, s1, longDrift(p1, 120)) {
			c.Fail("call %d of a pool: %s succeeded; primary %s, secondary %s", i, o, p1, s1)
		}
		if r.Err != nil && p0.Ok == p1.Ok && p0.Cas == p1.Cas && !sameState(s0, s1, 0, false) {
			c.Fail("call %d of a pool: %s was refused by the primary (%v) but changed the secondary: %s -> %s", i, o, r.Err, s0, s1)
		}
	}
	c.R.Count("replicated_calls_of_long_lived_pools", int64(total))
	c.R.Eval(fmt.Sprintf("big%d%d%d", n, np, ns))
}

// p02Crowd: many keys are being written at the same moment, each by several callers.
func p02Crowd(c *Case) {
	np, ns := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3)
	pri, sec := c.refs(np), c.refs(ns)
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	n := pick(c.Rng, 20, 70, 100, 150, 300)
	writers, times := 2+c.Rng.Intn(2), 1
	deep := c.Idx()%3 == 2
	if deep { // few keys, a queue for each that is still served when others join it
		n, writers, times = 3+c.Rng.Intn(12), pick(c.Rng, 9, 12, 17, 20, 34, 40), 2+c.Rng.Intn(3)
	}
	kinds := pick(c.Rng, []string{"set"}, []string{"set", "incr"}, []string{"incr", "decr"}, []string{"set", "delete", "add"}, []string{"set", "replace", "incr", "delete", "add"})
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("k%d", i)
		p, s := w.home(k)
		place(p, k, "500", 1, 0)
		place(s, k, "500", 1, 0)
	}
	rounds := c.R.N(6, 20)
	if deep {
		rounds *= 5
	}
	for round := 0; round < rounds; round++ {
		// the first write to reach a server of one side is held until all have had the time to begin
		side := sec
		if c.Rng.Intn(4) == 0 {
			side = pri
		}
		gate := make(chan struct{})
		for _, m := range side {
			var once int32
			m.SetHook(func(*Cmd) *Act {
				if atomic.CompareAndSwapInt32(&once, 0, 1) {
					return &Act{Gate: gate}
				}
				return nil
			})
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad string
		for _, i := range c.Rng.Perm(n * writers) {
			k := fmt.Sprintf("k%d", i%n)
			o := Op{Kind: pick(c.Rng, kinds...), Key: k, Delta: 1 + i/n, Val: []byte(strconv.Itoa(1000*round + i)), Flags: be32(uint32(i))}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for t := 0; t < times; t++ {
					r := do(w.pool, o)
					if r.Class() == "error" {
						mu.Lock()
						bad = fmt.Sprintf("%s failed on healthy servers: %s", o, r)
						mu.Unlock()
					}
				}
			}()
		}
		time.Sleep(time.Duration(1+c.Rng.Intn(12)) * time.Millisecond)
		close(gate)
		c.Do(fmt.Sprintf("%d concurrent writes of %d keys", n*writers, n), wg.Wait)
		for _, m := range side {
			m.SetHook(nil)
		}
		if bad != "" && !has(kinds, "incr") {
			c.Fail("%s", bad)
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", i)
			p, s := w.home(k)
			if a, b := p.Inspect(k), s.Inspect(k); !alike(a, b, 0) {
				c.Fail("%d callers wrote %d keys %d times each (%v, round %d) and all returned; key %q: primary %s, secondary %s", n*writers, n, times, kinds, round, k, a, b)
			}
		}
		c.R.Count("keys_written_by_several_at_once", int64(n))
		c.R.Eval(fmt.Sprintf("crowd%d.%d.%d%v%d%d%d%d", n, writers, times, kinds, np, ns, round, c.Idx()))
	}
}

// p03Again: the same replica fails again and again; no number of failures makes one of them a success.
func p03Again(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	to := c.honest()
	w := c.repWorld(backends(pri), backends(sec), func() time.Duration { return to })
	p, s := pri[0], sec[0]
	onPri := c.Idx()%3 == 0
	t := s
	role := "secondary"
	if onPri {
		t, role = p, "primary"
	}
	kinds := []string{"set", "cas", "add", "replace", "delete", "incr", "decr"}
	if c.Idx()%2 == 0 {
		kinds = []string{pick(c.Rng, kinds...)}
	}
	mode := pick(c.Rng, "refuse", "cut", "mix")
	n := c.R.N(150, 600)
	streak := 0
	for i := 0; i < n; i++ {
		key := "k" + strconv.Itoa(c.Rng.Intn(3))
		kind := pick(c.Rng, kinds...)
		o := Op{Kind: kind, Key: key, Delta: 1, Val: []byte(strconv.Itoa(i)), Flags: be32(uint32(i))}
		ready := func() {
			place(p, key, "70", 5, 0)
			place(s, key, "70", 5, 0)
			switch kind {
			case "add":
				lose(p, key)
			case "cas":
				o.Kind, o.Cas = "set", p.Inspect(key).Cas
			}
		}
		ready()
		fails := c.Rng.Intn(25) > 0
		var hit int32
		if fails {
			m := mode
			if m == "mix" {
				m = pick(c.Rng, "refuse", "cut")
			}
			t.SetHook(func(cmd *Cmd) *Act {
				if !writeNames[cmd.Name] {
					return nil
				}
				atomic.StoreInt32(&hit, 1)
				if m == "cut" {
					return &Act{NoApply: true, Close: true}
				}
				return &Act{NoApply: true, Reply: []byte("SERVER_ERROR out of memory storing object\r\n")}
			})
		}
		mp, ms := p.LogLen(), s.LogLen()
		p0, s0 := p.Inspect(key), s.Inspect(key)
		r := c.Call("pool", w.pool, o)
		t.SetHook(nil)
		pe, se := executed(p, mp, key), executed(s, ms, key)
		if fails {
			streak++
			if err := map[bool]*client.ServerWithMetaProtocol{true: w.pcl[0], false: w.scl[0]}[onPri].Reconnect(); err != nil {
				c.Fail("Reconnect: %v", err)
			}
			if r.Err == nil {
				c.Fail("failure %d in a row of the %s: %s reported success", streak, role, o)
			}
			if atomic.LoadInt32(&hit) == 0 {
				c.Fail("failure %d in a row of the %s: %s returned %s without writing to the %s", streak, role, o, r, role)
			}
			if onPri && (se.writes > 0 || !sameState(s0, s.Inspect(key), 0, false)) {
				c.Fail("failure %d in a row of the primary: %s wrote to the secondary", streak, o)
			}
			if !onPri && pe.writes != 1 {
				c.Fail("failure %d in a row of the secondary: %s was sent to the primary %d times", streak, o, pe.writes)
			}
			if pe.writes > 1 || se.writes > 1 {
				c.Fail("failure %d in a row of the %s: %s was sent %d times to the primary and %d times to the secondary", streak, role, o, pe.writes, se.writes)
			}
			c.R.Max("failures_in_a_row", int64(streak))
			c.R.Count("repeated_failures", 1)
		} else {
			if r.Err != nil {
				c.Fail("after %d failures the %s is well again: %s returned %s", streak, role, o, r)
			}
			if y := judge(o, r, p0, p.Inspect(key), stepCtx{proto: "meta", now: w.now(), max: 1 << 20}); y != "" {
				c.Fail("after %d failures: primary: %s", streak, y)
			}
			if !alike(p.Inspect(key), s.Inspect(key), 0) {
				c.Fail("after %d failures the %s is well again: %s succeeded; primary %s, secondary %s", streak, role, o, p.Inspect(key), s.Inspect(key))
			}
			streak = 0
		}
		g := Op{Kind: "get", Key: key}
		if !onPri {
			a := p.Inspect(key)
			if y := judge(g, c.Call("pool", w.pool, g), a, p.Inspect(key), stepCtx{proto: "meta", now: w.now(), max: 1 << 20}); y != "" {
				c.Fail("reading after %d failures of the secondary: %s", streak, y)
			}
		}
		c.R.Eval(fmt.Sprintf("again|%s|%s|%s|%v|%d", role, mode, kind, fails, min(streak, 40)))
	}
}

// r01Long: one ring asked hundreds of thousands of times, one pool tens of thousands.
func r01Long(c *Case) {
	names := genNames(c.Rng, 2+c.Rng.Intn(12))
	keys := ringKeys(c.Rng, 200, names)
	log := &fakeLog{}
	fs := asServers(fakes(log, names...))
	pool, err := client.NewSinglePool(fs...)
	c.Must(err)
	ring := client.NewRing(fs...)
	home := map[string]string{}
	for _, k := range keys { // a ring is new for every key
		home[k] = client.NewRing(asServers(fakes(&fakeLog{}, shuffled(c.Rng, names)...))...).Pick(k).Name()
	}
	atomic.AddInt64(&c.grace, int64(60*time.Second))
	n := c.R.N(300000, 3000000)
	c.Do("Pick", func() {
		for i := 0; i < n; i++ {
			k := keys[i%len(keys)]
			if x := ring.Pick(k).Name(); x != home[k] {
				c.Report("call %d of a ring's Pick: %q is on %q, a new ring has it on %q", i, k, x, home[k])
				return
			}
		}
	})
	m := c.R.N(30000, 200000)
	for i := 0; i < m; i++ {
		k := keys[c.Rng.Intn(len(keys))]
		o := routeOp(c.Rng, pick(c.Rng, routeKinds...), k)
		if i%1000 == 0 {
			c.Call("pool", pool, o)
		} else {
			do(pool, o)
		}
		for _, x := range log.take() {
			if x.Server != home[k] {
				c.Fail("call %d of a pool: %s went to %q, the home of %q is %q", i, o, x.Server, k, home[k])
			}
		}
	}
	c.R.Count("keys_located_by_one_ring", int64(n))
	c.R.Count("operations_routed_by_one_pool", int64(m))
	c.R.Eval(fmt.Sprintf("long%q", names))
}

// r03Many: dozens of servers, thousands of keys, the same failure many times over.
func r03Many(c *Case) {
	n := pick(c.Rng, 1, 2, 3, 9, 13, 17, 24, 33, 48)
	names := genNames(c.Rng, n)
	n = len(names)
	log := &fakeLog{}
	fs := fakes(log, names...)
	pool, err := client.NewSinglePool(asServers(fs)...)
	c.Must(err)
	ring := client.NewRing(asServers(fs)...)
	byName := map[string]*fake{}
	for _, f := range fs {
		byName[f.name] = f
	}
	var keys []string
	items := map[string]*client.Item{}
	for i, m := 0, bigBatch(c.Rng); i < m; i++ {
		k := fmt.Sprintf("key-%d", i)
		if i%5 == 4 {
			k = fmt.Sprintf("Key-%d", i-1)
		}
		keys = append(keys, k)
		if i%3 > 0 {
			items[k] = &client.Item{Key: k, Value: []byte("value of " + k), Flags: be32(uint32(i)), Cas: uint64(i)}
			byName[ring.Pick(k).Name()].store[k] = items[k]
		}
	}
	for round := 0; round < 3; round++ {
		ask := shuffled(c.Rng, keys)
		if round > 0 {
			ask = ask[:1+c.Rng.Intn(len(ask))]
		}
		r := c.Call("pool", pool, Op{Kind: "mget", Keys: ask})
		if r.Err != nil {
			c.Fail("GetMulti of %d keys on %d servers returned %s", len(ask), n, r)
		}
		got := map[string]bool{}
		want := map[string]bool{}
		for _, k := range ask {
			if items[k] != nil {
				want[k] = true
			}
		}
		for _, it := range r.Items {
			if it == nil || got[it.Key] || !want[it.Key] || string(it.Value) != "value of "+it.Key || flagVal(it.Flags) != flagVal(items[it.Key].Flags) || it.Cas != items[it.Key].Cas {
				c.Fail("GetMulti of %d keys on %d servers returned %s, which is not an item asked for once", len(ask), n, itemStr(it))
			}
			got[it.Key] = true
		}
		for k := range want {
			if !got[k] {
				c.Fail("GetMulti of %d keys on %d servers left out the present key %q (%d of %d present ones returned)", len(ask), n, k, len(got), len(want))
			}
		}
		c.R.Max("largest_batch", int64(len(ask)))
	}
	r := c.Call("pool", pool, Op{Kind: "version"})
	var want []string
	for _, nm := range names {
		want = append(want, nm+"=v-"+nm)
	}
	sort.Strings(want)
	if r.Err != nil || r.Ver != strings.Join(want, ",") {
		c.Fail("Version of %d servers returned %s, expected %q", n, r, want)
	}
	each := func(kind string, fail map[string]bool) {
		log.take()
		var err error
		c.Do(kind, func() {
			if kind == "flush" {
				err = pool.Flush()
			} else {
				err = pool.Close()
			}
		})
		seen := map[string]int{}
		for _, x := range log.take() {
			seen[x.Server]++
		}
		if (err != nil) != (len(fail) > 0) {
			c.Fail("%s of %d servers, %v failing, returned %v", kind, n, fail, err)
		}
		for _, nm := range names {
			if (err == nil || kind == "close") && seen[nm] != 1 {
				c.Fail("%s of %d servers reached %q %d times (failing: %v)", kind, n, nm, seen[nm], fail)
			}
		}
	}
	each("flush", nil)
	// one server fails, over and over
	bad := names[c.Rng.Intn(n)]
	f := byName[bad]
	e := pick[error](c.Rng, errors.New("fake failure"), merrors.ItemNotFound, merrors.ItemExists)
	f.mu.Lock()
	f.fail["mget"], f.fail["flush"], f.fail["version"] = e, e, e
	f.mu.Unlock()
	var on, off []string
	for _, k := range keys {
		if ring.Pick(k).Name() == bad {
			on = append(on, k)
		} else {
			off = append(off, k)
		}
	}
	for i := 0; i < 40; i++ {
		switch i % 4 {
		case 0:
			each("flush", map[string]bool{bad: true})
		case 1:
			if r := c.Call("pool", pool, Op{Kind: "version"}); r.Err == nil {
				c.Fail("%q fails for the %dth time, Version returned %s", bad, i, r)
			}
		case 2:
			if len(on) == 0 {
				continue
			}
			ask := append([]string{pick(c.Rng, on...)}, shuffled(c.Rng, keys)[:min(len(keys), 20)]...)
			if r := c.Call("pool", pool, Op{Kind: "mget", Keys: uniqStr(ask)}); r.Err == nil {
				c.Fail("%q fails for the %dth time, GetMulti returned %s", bad, i, r)
			}
		case 3:
			if len(off) == 0 {
				continue
			}
			ask := uniqStr(shuffled(c.Rng, off)[:min(len(off), 20)])
			if r := c.Call("pool", pool, Op{Kind: "mget", Keys: ask}); r.Err != nil {
				c.Fail("only %q fails, GetMulti of keys of others returned %s", bad, r)
			}
		}
	}
	f.mu.Lock()
	f.fail = map[string]error{}
	f.mu.Unlock()
	each("flush", nil)
	each("close", nil)
	c.R.Max("servers_in_one_pool", int64(n))
	c.R.Eval(fmt.Sprintf("many%d.%d", n, len(keys)))
}

// r03Batch: large batches through a pool of real clients.
func r03Batch(c *Case) {
	n := 1 + c.Rng.Intn(4)
	names := genNames(c.Rng, n)
	refs := c.refs(n)
	var srv []client.Server
	by := map[string]int{}
	proto := pick(c.Rng, append([]string{"mixed"}, protos...)...)
	for i, m := range refs {
		p := proto
		if p == "mixed" {
			p = pick(c.Rng, protos...)
		}
		srv = append(srv, c.connectNamed(p, names[i], m.Addr(), c.honest()))
		by[names[i]] = i
	}
	pool, err := client.NewSinglePool(srv...)
	c.Must(err)
	ring := client.NewRing(srv...)
	total := bigBatch(c.Rng)
	atomic.AddInt64(&c.grace, int64(20*time.Second))
	var keys []string
	st := map[string]State{}
	for i := 0; i < total; i++ {
		k := fmt.Sprintf("key-%d", i)
		if i%5 == 4 {
			k = fmt.Sprintf("Key-%d", i-1)
		}
		keys = append(keys, k)
		m := refs[by[ring.Pick(k).Name()]]
		if i%3 > 0 {
			m.Put(k, "value of "+k, uint32(i), 0)
		}
		st[k] = m.Inspect(k)
	}
	for round := 0; round < 3; round++ {
		ask := shuffled(c.Rng, keys)
		if round > 0 {
			ask = ask[:1+c.Rng.Intn(len(ask))]
		}
		r := c.Call("pool", pool, Op{Kind: "mget", Keys: ask})
		if y := judgeMulti(ask, r, st, stepCtx{proto: "text", now: refs[0].Now()}); y != "" {
			c.Fail("batch of %d keys over %d %s servers: %s", len(ask), n, proto, y)
		}
		c.R.Max("largest_batch", int64(len(ask)))
	}
	c.R.Eval(fmt.Sprintf("batch%d.%d%s", n, total, proto))
	c.Do("Close", func() { pool.Close() })
}

// x01Big: large batches through the router.
func x01Big(c *Case) {
	w := c.routerWorld(backends(c.refs(1+c.Rng.Intn(3))), backends(c.refs(1+c.Rng.Intn(2))), c.honest)
	n := bigBatch(c.Rng)
	atomic.AddInt64(&c.grace, int64(20*time.Second))
	var keys []string
	st := map[string]State{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("key-%d", i)
		keys = append(keys, k)
		p, s := w.home(k)
		if i%3 > 0 {
			place(p, k, "value of "+k, uint32(i), 0)
		}
		if i%4 == 0 {
			place(s, k, "stale", 1, 0)
		}
		st[k] = p.Inspect(k)
	}
	for _, proto := range []string{"text", "binary"} { // a meta batch ends with a no-op, which the router does not know
		s := c.connect(proto, w.addr, c.honest())
		for round := 0; round < 2; round++ {
			ask := shuffled(c.Rng, keys)
			if round > 0 {
				ask = ask[:1+c.Rng.Intn(n)]
			}
			r := c.Call(proto+" client of the router", s, Op{Kind: "mget", Keys: ask})
			if y := judgeMulti(ask, r, st, w.cx(proto)); y != "" {
				c.Fail("%s client's batch of %d keys through the router: %s", proto, len(ask), y)
			}
			c.R.Max("largest_batch", int64(len(ask)))
		}
	}
	c.R.Eval(fmt.Sprintf("big%d", n))
}

// x03Again: a backend of one router fails again and again.
func x03Again(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	p, s := pri[0], sec[0]
	onPri := c.Idx()%2 == 0
	t, role := s, "secondary"
	if onPri {
		t, role = p, "primary"
	}
	mode := pick(c.Rng, "refuse", "cut", "mix")
	only := pick(c.Rng, "", "", "set", "get")
	if !onPri {
		only = "set"
	}
	cl := map[string]client.Server{}
	n := c.R.N(60, 300)
	streak := 0
	for i := 0; i < n; i++ {
		proto := pick(c.Rng, protos...)
		if cl[proto] == nil {
			cl[proto] = c.connect(proto, w.addr, c.honest())
		}
		key := "k" + strconv.Itoa(c.Rng.Intn(3))
		place(p, key, "before", 5, 0)
		place(s, key, "before", 5, 0)
		kind := only
		if kind == "" {
			kind = pick(c.Rng, "set", "get", "mget")
		}
		o := Op{Kind: kind, Key: key, Val: []byte(strconv.Itoa(i)), Flags: be32(uint32(i))}
		if kind == "mget" && proto != "meta" { // a meta batch ends with a no-op, which the router does not know
			o.Key, o.Keys = "", []string{key}
		} else if kind == "mget" {
			o.Kind, kind = "get", "get"
		}
		fails := c.Rng.Intn(25) > 0
		if fails {
			m := mode
			if m == "mix" {
				m = pick(c.Rng, "refuse", "cut")
			}
			t.SetHook(func(cmd *Cmd) *Act {
				if cmd.Name == "noop" {
					return nil
				}
				if m == "cut" {
					return &Act{NoApply: true, Close: true}
				}
				return &Act{NoApply: true, Reply: []byte("SERVER_ERROR out of memory storing object\r\n")}
			})
		}
		mp, ms := p.LogLen(), s.LogLen()
		r := c.Call(proto+" client of the router", cl[proto], o)
		t.SetHook(nil)
		pe, se := executed(p, mp, key), executed(s, ms, key)
		switch {
		case fails:
			streak++
			if err := map[bool]*client.ServerWithMetaProtocol{true: w.pcl[0], false: w.scl[0]}[onPri].Reconnect(); err != nil {
				c.Fail("Reconnect: %v", err)
			}
			if r.Err == nil || r.Class() == "notfound" {
				c.Fail("failure %d in a row of the %s: a %s client's %s was answered %s", streak, role, proto, o, r)
			}
			if onPri && se.writes > 0 || pe.writes > 1 || se.writes > 1 || kind != "set" && pe.writes+se.writes > 0 {
				c.Fail("failure %d in a row of the %s: a %s client's %s was sent %d times to the primary and %d times to the secondary", streak, role, proto, o, pe.writes, se.writes)
			}
			c.R.Max("failures_in_a_row", int64(streak))
			c.R.Count("repeated_backend_failures", 1)
			cl[proto] = nil // the router may have closed the connection
		case r.Err != nil:
			c.Fail("after %d failures the %s is well again: a %s client's %s was answered %s", streak, role, proto, o, r)
		default:
			streak = 0
			if kind == "set" && (!alike(p.Inspect(key), s.Inspect(key), 0) || p.Inspect(key).Val != string(o.Val)) {
				c.Fail("after failures of the %s: %s succeeded; primary %s, secondary %s", role, o, p.Inspect(key), s.Inspect(key))
			}
		}
		c.R.Eval(fmt.Sprintf("again|%s|%s|%s|%s|%v|%d", role, mode, proto, kind, fails, min(streak, 40)))
	}
}

// c09Many: hundreds of reads by one client, all kept.
func c09Many(c *Case) {
	hs, _ := c09Handles(c)
	size := pick(c.Rng, 0, 1, 16, 100, 1000, 5000)
	keys := uniqueKeys(c, 4)
	for h, kv := range hs {
		for i, k := range keys {
			if err := kv.Set(&client.Item{Key: k, Value: rbytes(c.Rng, size), Flags: be32(uint32(i + 1))}); err != nil {
				c.Fail("%s.Set: %v", h, err)
			}
		}
	}
	n := c.R.N(220, 1000)
	for _, h := range handleNames {
		kv := hs[h]
		var ks []kept
		for i := 0; i < n; i++ {
			k := keys[c.Rng.Intn(len(keys))]
			var its []*client.Item
			var err error
			what := ".Get"
			if i%5 == 4 {
				what = ".GetMulti"
				its, err = kv.GetMulti(k)
			} else {
				var it *client.Item
				it, err = kv.Get(k)
				its = []*client.Item{it}
			}
			if err != nil || len(its) != 1 || its[0] == nil || len(its[0].Value) != size {
				c.Fail("%s%s(%q), read %d: %v, %v", h, what, k, i, its, err)
			}
			ks = append(ks, kept{it: its[0], cp: *its[0], sum: sumItem(its[0]), from: fmt.Sprintf("%s%s, read %d", h, what, i)})
			if i%40 == 0 && i > 0 { // the caller's memory is the caller's
				for j := range ks[i/2].it.Value {
					ks[i/2].it.Value[j] ^= 0xff
				}
				ks[i/2].sum = sumItem(ks[i/2].it)
			}
		}
		for _, k := range ks {
			if sumItem(k.it) != k.sum {
				c.Fail("an item returned by %s changed later: now %s", k.from, itemStr(k.it))
			}
		}
		if y := overlap(ks); y != "" {
			c.Fail("returned items share memory: %s", y)
		}
		c.R.Count("items_kept", int64(n))
	}
	c.R.Eval(fmt.Sprintf("many%d", size))
}

// s01Marathon: one connection with more requests than 16 bits can count.
func s01Marathon(c *Case) {
	bin := c.Idx()%2 == 1
	n := c.R.N(67000, 400000)
	queue := make(chan *sreq, n+1000)
	var done int64
	fin := make(chan struct{})
	var once sync.Once
	h := &streamHandler{fn: func(q *server.Request) ([]*server.Response, error) {
		select {
		case x := <-queue:
			if w := x.arrived(copyReq(q)); w != "" {
				c.Report("request %d of a connection: %s: %s", atomic.LoadInt64(&done), x, w)
				once.Do(func() { close(fin) })
				return nil, errors.New("stop")
			}
		default:
			c.Report("after %d requests the handler was called with %s, which was not sent", atomic.LoadInt64(&done), reqStr(copyReq(q)))
			once.Do(func() { close(fin) })
			return nil, errors.New("stop")
		}
		if atomic.AddInt64(&done, 1) == int64(n) {
			once.Do(func() { close(fin) })
		}
		return okReply(q)
	}}
	l, err := listenLocal()
	c.Must(err)
	s := &server.Server{Handler: h}
	go s.Serve(l)
	c.Defer(func() { l.Close() })
	x, err := net.Dial("tcp", l.Addr().String())
	c.Dialed(err)
	c.Defer(func() { x.Close() })
	ended := make(chan struct{})
	go func() {
		br := bufio.NewReaderSize(x, 1<<16)
		for {
			if _, err := br.Discard(1); err != nil {
				close(ended)
				return
			}
			br.Discard(br.Buffered())
		}
	}()
	atomic.AddInt64(&c.grace, int64(300*time.Second))
	r := rand.New(rand.NewSource(c.Rng.Int63()))
	sent := 0
	c.Do("a long conversation", func() {
		for sent < n {
			var b []byte
			for j := 0; j < 100 && sent < n; j++ {
				q := genSreq(r, bin)
				if len(q.wire) > 3000 && r.Intn(100) > 0 {
					j--
					continue
				}
				queue <- q
				b = append(b, q.wire...)
				sent++
			}
			if _, err := x.Write(b); err != nil {
				return
			}
		}
		select {
		case <-fin:
		case <-ended:
		}
	})
	select {
	case <-fin:
	default:
		if d := atomic.LoadInt64(&done); d < int64(n) {
			c.Fail("the connection ended after %d of %d well-formed requests", d, n)
		}
	}
	c.R.Count("requests_of_long_connections", atomic.LoadInt64(&done))
	c.R.Eval(fmt.Sprintf("marathon%v", bin))
}

type streamHandler struct {
	fn func(q *server.Request) ([]*server.Response, error)
}

func (h *streamHandler) ServeRequest(q *server.Request) ([]*server.Response, error) { return h.fn(q) }

// s04Verbs: while the handler is busy with one connection's command, whatever it is, every other command of every protocol is
// served on the others.
func s04Verbs(c *Case) {
	type pv struct{ proto, verb string }
	var all []pv
	for _, p := range []string{"text", "meta", "binary"} {
		for _, v := range uniqStr(echoVerbs[p]) {
			all = append(all, pv{p, v})
		}
	}
	tcp := c.Idx()%2 == 0
	first := all[c.Idx()/2%len(all)]
	w := newS4With(c, tcp, 0)
	holds := 1 + c.Rng.Intn(3)
	atomic.StoreInt64(&w.h.holds, int64(holds))
	type heldc struct {
		x net.Conn
		q *echoReq
	}
	var held []heldc
	for i := 0; i < holds; i++ {
		v := first
		if i > 0 {
			v = all[c.Rng.Intn(len(all))]
		}
		q := newEchoReq(v.proto, v.verb, echoKey(fmt.Sprintf("h%d", i), 0, 'n', c.Rng.Intn(500), 7), 5)
		x := w.dial()
		held = append(held, heldc{x, q})
		go x.Write(q.wire)
		if !c.eventually("call reaches the handler", func() bool {
			return atomic.LoadInt64(&w.h.gated) == int64(i+1)
		}) {
			if v.verb == "noop" || v.verb == "version" { // the server may answer these by itself
				c.Skip("not a handler's command")
			}
			c.Fail("%s %s never reached the handler while %d other calls are held", v.proto, v.verb, i)
		}
	}
	errs := make([]error, len(all))
	var wg sync.WaitGroup
	for i, v := range all {
		x := w.dial()
		i, v := i, v
		wg.Add(1)
		go func() {
			defer wg.Done()
			br := bufio.NewReader(x)
			for j := 0; j < 3; j++ {
				q := newEchoReq(v.proto, v.verb, echoKey(fmt.Sprintf("o%d", i), j, "nm"[j%2], 40, 7), uint32(j+1))
				go x.Write(q.wire)
				if err := q.check(br); err != nil {
					errs[i] = fmt.Errorf("%s: %v", q.desc, err)
					return
				}
			}
		}()
	}
	c.Do(fmt.Sprintf("every command while a %s %s is held in the handler", first.proto, first.verb), wg.Wait)
	for _, e := range errs {
		if e != nil {
			c.Fail("while a %s %s is held in the handler: %v", first.proto, first.verb, e)
		}
	}
	if n := atomic.LoadInt64(&w.h.gated); n != int64(holds) {
		c.Skip("gate leak")
	}
	close(w.h.gate)
	c.Do("the held calls", func() {
		for _, x := range held {
			if err := x.q.check(bufio.NewReader(x.x)); err != nil {
				c.Report("%s, released: %v", x.q.desc, err)
			}
		}
	})
	w.ok()
	c.R.Count("commands_served_while_another_is_held", int64(len(all)))
	c.R.Eval(fmt.Sprintf("verbs%v%v%d", tcp, first, holds))
}
