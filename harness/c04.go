package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"go.f110.dev/go-memcached/client"
)

func init() { registry["C04"] = checkC04 }

var mixKinds = []string{"get", "get", "get", "mget", "set", "set", "cas", "cas", "add", "replace", "delete", "setnum", "casnum", "incr", "incr", "decr", "touch", "version"}

// mix draws which operations a case stresses.
func mixOf(r *rand.Rand) (string, []string) {
	switch r.Intn(8) {
	case 0:
		return "counters", []string{"incr", "incr", "incr", "decr", "setnum", "get"}
	case 1:
		return "incronly", []string{"incr"}
	case 2:
		return "cas", []string{"get", "cas", "casnum", "mget"}
	case 3:
		return "adds", []string{"add", "add", "delete", "get"}
	case 4:
		return "reads", []string{"get", "mget", "mget", "get", "version", "set"}
	case 5:
		return "flush", append([]string{"flush"}, mixKinds...)
	}
	return "mix", mixKinds
}

// jitter delays replies a little so that calls pile up.
func jitter(seed int64) func(*Cmd) *Act {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	return func(*Cmd) *Act {
		mu.Lock()
		k := r.Intn(10)
		d := time.Duration(r.Intn(300)) * time.Microsecond
		mu.Unlock()
		if k > 3 {
			return nil
		}
		ch := make(chan struct{})
		time.AfterFunc(d, func() { close(ch) })
		if k%2 == 0 {
			return &Act{Gate: ch}
		}
		return &Act{After: ch}
	}
}

// late delays one command in `of` by up to seconds, before or after it is carried out.
func (c *Case) late(of int, next func() time.Duration) func(*Cmd) *Act {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(c.Rng.Int63()))
	return func(*Cmd) *Act {
		mu.Lock()
		skip, after := r.Intn(of) > 0, r.Intn(2) == 0
		mu.Unlock()
		if skip {
			return nil
		}
		d := next()
		if d == 0 {
			return nil
		}
		g := make(chan struct{})
		time.AfterFunc(d, func() { close(g) })
		if after {
			return &Act{After: g}
		}
		return &Act{Gate: g}
	}
}

func checkC04(r *Run) {
	r.Rule("2-16 goroutines issue 12-60 calls each on shared clients (one client, one per protocol, several per protocol, or a pool of servers), on a model server with jitter in both directions or a real memcached; the recorded history is checked for linearizability per key with porcupine against memcached's rules, the final server state read last; distinct = order in which calls started and ended")
	r.Assume("a batch read counts as one read per key")
	run := func(real bool) func(*Case) { return func(c *Case) { c04Case(c, real) } }
	r.Cases("model", r.N(160, 4000), 4, run(false))
	r.Cases("real", r.N(60, 2000), 3, run(true))
	r.Cases("pool", r.N(30, 800), 3, c04Pool)
	r.Cases("many", r.N(4, 40), 2, c04Many)
	r.Cases("hot", r.N(8, 40), 4, c04Hot)
	r.Cases("shared", r.N(60, 600), 6, c04Shared)
}

func c04Case(c *Case, real bool) {
	var be Backend
	addr := ""
	if real {
		m := c.real()
		be, addr = m, m.Addr()
		if c.Rng.Intn(3) == 0 {
			p := c.SegProxy(addr, randSeg(c.Rng.Int63()))
			c.Defer(p.Close)
			addr = p.Addr()
		}
	} else {
		m := c.ref()
		be, addr = m, m.Addr()
		if c.Rng.Intn(3) != 0 {
			m.SetHook(jitter(c.Rng.Int63()))
		}
		if c.Rng.Intn(2) == 0 {
			m.SetSeg(randSeg(c.Rng.Int63()))
		}
	}
	var hs []handle
	shape := pick(c.Rng, "one", "one", "perproto", "several")
	ps := []string{pick(c.Rng, protos...)}
	if shape != "one" {
		ps = protos
	}
	if shape == "several" {
		ps = append(append([]string(nil), protos...), pick(c.Rng, protos...), pick(c.Rng, protos...))
	}
	for _, p := range ps {
		hs = append(hs, handle{p, c.connect(p, addr, c.honest())})
	}
	name, kinds := mixOf(c.Rng)
	keys := make([]string, 1+c.Rng.Intn(4))
	for i := range keys {
		keys[i] = fmt.Sprintf("k%d", i) + strings.Repeat("y", pick(c.Rng, 0, 0, 0, 62, 126, 248))
	}
	init := map[string]kstate{}
	for _, k := range keys {
		if c.Rng.Intn(2) == 0 {
			v := pick(c.Rng, "0", "17", "100", "text")
			be.Put(k, v, 3, 0)
			init[k] = kstate{true, v, 3, 0, 0}
		}
	}
	g := pick(c.Rng, 2, 3, 4, 6, 8, 12, 16)
	h := newHistory(c)
	c.stress(h, hs, keys, g, 12+c.Rng.Intn(200/g+1), kinds)
	final := map[string]State{}
	for _, k := range keys {
		final[k] = be.Inspect(k)
	}
	h.check(false, init, final)
	c.R.Eval(shape + name + be.Kind() + h.sig())
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"server": be.Kind(), "clients": shape, "goroutines": g, "operations": name, "first_calls": evStrings(h.ev, 4)})
	}
}

func evStrings(es []Event, n int) (r []string) {
	for i, e := range es {
		if i < n {
			r = append(r, e.String())
		}
	}
	return
}

func c04Pool(c *Case) {
	n := 2 + c.Rng.Intn(3)
	var srv []client.Server
	var refs []*RefMC
	for i := 0; i < n; i++ {
		m := c.ref()
		if c.Rng.Intn(2) == 0 {
			m.SetHook(jitter(c.Rng.Int63()))
		}
		refs = append(refs, m)
		p := pick(c.Rng, "text", "meta")
		srv = append(srv, c.connectNamed(p, fmt.Sprintf("s%d", i), m.Addr(), c.honest()))
	}
	pool, err := client.NewSinglePool(srv...)
	c.Must(err)
	keys := []string{"a", "b", "c", "dd", "ee", "fff"}
	h := newHistory(c)
	g := pick(c.Rng, 2, 4, 8)
	kinds := []string{"get", "mget", "mget", "set", "cas", "add", "replace", "setnum", "incr", "decr", "version"}
	c.stress(h, []handle{{"pool", pool}}, keys, g, 15, kinds)
	final := map[string]State{}
	for _, k := range keys {
		for _, m := range refs {
			if s := m.Inspect(k); s.Ok {
				if final[k].Ok {
					c.Fail("key %q is on two servers", k)
				}
				final[k] = s
			}
		}
	}
	for _, k := range keys {
		if _, ok := final[k]; !ok {
			final[k] = State{}
		}
	}
	h.check(false, nil, final)
	c.R.Eval("pool" + h.sig())
}

// c04Many: exact conservation with many goroutines: every increment counts once, exactly one Add and one CAS write wins.
func c04Many(c *Case) {
	m := c.ref()
	real := c.Rng.Intn(2) == 0
	var be Backend = m
	addr := m.Addr()
	if real {
		x := c.real()
		be, addr = x, x.Addr()
	}
	G, N := 64, 40
	var hs []handle
	for i := 0; i < 4; i++ {
		p := protos[i%3]
		hs = append(hs, handle{p, c.connect(p, addr, c.honest())})
	}
	be.Put("cnt", "0", 0, 0)
	be.Put("casroot", "0", 0, 0)
	var mu sync.Mutex
	seen := map[int64]int{}
	adds := map[int]int{}
	wins := map[string]int{}
	var wg sync.WaitGroup
	var bad []string
	fail := func(f string, a ...any) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	for i := 0; i < G; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail("panic: %v", p)
				}
			}()
			x := hs[i%len(hs)]
			for j := 0; j < N; j++ {
				n, err := x.kv.Increment("cnt", 1, 0)
				if err != nil {
					fail("increment: %v", err)
					return
				}
				mu.Lock()
				seen[n]++
				mu.Unlock()
				err = x.kv.Add(&client.Item{Key: fmt.Sprintf("add%d", j), Value: []byte(fmt.Sprint(i))})
				switch errClass(err) {
				case "ok":
					mu.Lock()
					adds[j]++
					mu.Unlock()
				case "exists":
				default:
					fail("add: %v", err)
				}
				it, err := x.kv.Get("casroot")
				if err != nil {
					fail("get: %v", err)
					continue
				}
				err = x.kv.Set(&client.Item{Key: "casroot", Value: []byte(fmt.Sprintf("%d.%d", i, j)), Cas: it.Cas})
				switch errClass(err) {
				case "ok":
					mu.Lock()
					wins[fmt.Sprint(it.Cas)]++
					mu.Unlock()
				case "exists":
				default:
					fail("cas: %v", err)
				}
			}
		}()
	}
	c.Do("concurrent calls", wg.Wait)
	if len(bad) > 0 {
		c.Fail("calls on a healthy server failed: %s", bad[0])
	}
	for v := int64(1); v <= int64(G*N); v++ {
		if seen[v] != 1 {
			c.Fail("%d increments by one were issued; the value %d was returned %d times", G*N, v, seen[v])
		}
	}
	for j := 0; j < N; j++ {
		if adds[j] != 1 {
			c.Fail("%d clients added one key, %d were told they succeeded", G, adds[j])
		}
	}
	for t, n := range wins {
		if n != 1 {
			c.Fail("%d CAS writes with the same token %s succeeded", n, t)
		}
	}
	c.R.Count("conserved_increments", int64(G*N))
	c.R.Eval(fmt.Sprintf("many%d%v%d", c.Idx(), real, len(wins)))
}
