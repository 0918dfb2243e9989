package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

// hotRegister lets one writer count a key up while many readers watch it: no read may return less than what had been
// written, or read by a call that had returned, when it started, nor more than what the writer had begun to write.
// Linearizability of one register with increasing values, checked online, so that millions of reads need no history.
func (c *Case) hotRegister(what string, d time.Duration, write func(i int64) error, reads []func() (int64, error)) {
	var begun, floor, total int64
	var stop int32
	atomic.AddInt64(&c.grace, int64(2*time.Minute))
	raise := func(v int64) {
		for {
			f := atomic.LoadInt64(&floor)
			if v <= f || atomic.CompareAndSwapInt64(&floor, f, v) {
				return
			}
		}
	}
	var wg sync.WaitGroup
	bad := func(f string, a ...any) {
		if atomic.CompareAndSwapInt32(&stop, 0, 1) {
			c.Report("%s: %s", what, fmt.Sprintf(f, a...))
		}
	}
	if err := write(0); err != nil {
		c.Fail("%s: first write: %v", what, err)
	}
	var distinct sync.Map
	for i, rd := range reads {
		i, rd := i, rd
		wg.Add(1)
		go func() {
			defer wg.Done()
			var n int64
			for atomic.LoadInt32(&stop) == 0 {
				lo := atomic.LoadInt64(&floor)
				v, err := rd()
				hi := atomic.LoadInt64(&begun)
				n++
				switch {
				case err != nil:
					bad("reader %d: %v", i, err)
				case v < lo:
					bad("reader %d got %d, but %d had been written or read before its call began", i, v, lo)
				case v > hi:
					bad("reader %d got %d, but only %d had been written when its call ended", i, v, hi)
				default:
					raise(v)
					if n%64 == 0 {
						distinct.Store(v-lo, true)
					}
				}
			}
			atomic.AddInt64(&total, n)
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i, end := int64(1), time.Now().Add(d); atomic.LoadInt32(&stop) == 0; i++ {
			if time.Now().After(end) {
				atomic.StoreInt32(&stop, 1)
				return
			}
			atomic.StoreInt64(&begun, i)
			if err := write(i); err != nil {
				bad("write %d: %v", i, err)
				return
			}
			raise(i)
		}
	}()
	c.Do(what, wg.Wait)
	distinct.Range(func(k, _ any) bool {
		c.R.Eval(fmt.Sprintf("%s overtaken by %v writes", what, k))
		return true
	})
	c.R.Count("hot_register_reads", atomic.LoadInt64(&total))
	c.R.Count("hot_register_writes", atomic.LoadInt64(&begun))
}

type getter interface {
	Get(key string) (*client.Item, error)
	GetMulti(keys ...string) ([]*client.Item, error)
}

func number(it *client.Item, err error) (int64, error) {
	if err != nil {
		return 0, err
	}
	if it == nil {
		return 0, fmt.Errorf("no item and no error")
	}
	return strconv.ParseInt(string(it.Value), 10, 64)
}

func readOne(g getter, key string) func() (int64, error) {
	return func() (int64, error) { return number(g.Get(key)) }
}

// readMany reads the key in a batch with another one that never changes.
func readMany(g getter, key, other string) func() (int64, error) {
	return func() (int64, error) {
		its, err := g.GetMulti(other, key)
		if err != nil {
			return 0, err
		}
		for _, it := range its {
			if it.Key == key {
				return number(it, nil)
			}
		}
		return 0, fmt.Errorf("batch read without %q: %d items", key, len(its))
	}
}

func (c *Case) hotReaders(n int, multi bool, key, other string, gs ...getter) (r []func() (int64, error)) {
	for i := 0; i < n; i++ {
		g := gs[i%len(gs)]
		if multi && i/len(gs)%4 == 3 {
			r = append(r, readMany(g, key, other))
		} else {
			r = append(r, readOne(g, key))
		}
	}
	return
}

func (c *Case) hotFor() time.Duration {
	return time.Duration(c.R.N(1500, 15000)) * time.Millisecond
}

// c04Hot: shared clients of every protocol, one or all of them, the writer through one of them.
func c04Hot(c *Case) {
	m := c.ref()
	m.ClearLog()
	m.SetQuiet(true)
	var cls []client.Server
	shape := c.Idx() % 4
	for i, p := range protos {
		if shape == 3 || shape == i {
			cls = append(cls, c.connect(p, m.Addr(), c.honest()))
		}
	}
	var gs []getter
	for _, s := range cls {
		gs = append(gs, s)
	}
	w := cls[c.Rng.Intn(len(cls))]
	place(m, "other", "-1", 0, 0)
	incr := c.Rng.Intn(3) == 0
	write := func(i int64) error {
		if incr && i > 0 {
			_, err := w.Increment("hot", 1, 0)
			return err
		}
		return w.Set(&client.Item{Key: "hot", Value: []byte(strconv.FormatInt(i, 10)), Flags: []byte{0, 0, 0, 1}})
	}
	c.hotRegister("hot key on "+[]string{"text", "meta", "binary", "all"}[shape], c.hotFor(), write, c.hotReaders(pick(c.Rng, 8, 24, 64), true, "hot", "other", gs...))
}

func p02Hot(c *Case) {
	pri, sec := c.refs(1+c.Rng.Intn(2)), c.refs(1+c.Rng.Intn(2))
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		m.SetQuiet(true)
	}
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	p, s := w.home("hot")
	o, _ := w.home("other")
	place(o, "other", "-1", 0, 0)
	write := func(i int64) error {
		return w.pool.Set(&client.Item{Key: "hot", Value: []byte(strconv.FormatInt(i, 10)), Flags: []byte{0, 0, 0, 1}})
	}
	c.hotRegister("hot key of a replica pool", c.hotFor(), write, c.hotReaders(pick(c.Rng, 16, 64, 128), c.Idx()%2 == 1, "hot", "other", w.pool))
	if a, b := p.Inspect("hot"), s.Inspect("hot"); !alike(a, b, 0) {
		c.Fail("after the writes primary %s, secondary %s", a, b)
	}
}

func x02Hot(c *Case) {
	pri, sec := c.refs(1+c.Rng.Intn(2)), c.refs(1+c.Rng.Intn(2))
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		m.SetQuiet(true)
	}
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	p, s := w.home("hot")
	var gs []getter
	for i, n := 0, pick(c.Rng, 8, 24, 48); i < n; i++ {
		gs = append(gs, c.connect(protos[i%3], w.addr, c.honest()))
	}
	wr := c.connect(pick(c.Rng, protos...), w.addr, c.honest())
	write := func(i int64) error {
		return wr.Set(&client.Item{Key: "hot", Value: []byte(strconv.FormatInt(i, 10)), Flags: []byte{0, 0, 0, 1}})
	}
	c.hotRegister("hot key of a router", c.hotFor(), write, c.hotReaders(len(gs), false, "hot", "", gs...))
	if a, b := p.Inspect("hot"), s.Inspect("hot"); !alike(a, b, 0) {
		c.Fail("after the writes primary %s, secondary %s", a, b)
	}
}

// sharedRead: the reply to one read is held back while the key is overwritten over another connection; a read that
// starts after that must see the new value, whether or not the first one is still waiting.
func (c *Case) sharedRead(what string, m *RefMC, key string, overwrite func() error, a, b func() (int64, error)) {
	place(m, key, "1", 1, 0)
	gate, held := make(chan struct{}), make(chan struct{})
	var n int32
	m.SetHook(func(cmd *Cmd) *Act {
		if atomic.AddInt32(&n, 1) == 1 {
			close(held)
			return &Act{After: gate}
		}
		return nil
	})
	defer m.SetHook(nil)
	var va, vb int64
	var ea, eb error
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); va, ea = a() }()
	c.Do(what+": the first read reaching the server", func() { <-held })
	var open sync.Once
	release := func() { open.Do(func() { close(gate) }) }
	defer release()
	atomic.AddInt64(&c.grace, int64(time.Second))
	c.Do(what+": write", func() {
		if err := overwrite(); err != nil {
			c.Report("%s: write: %v", what, err)
		}
	})
	go func() { defer wg.Done(); vb, eb = b() }()
	time.Sleep(time.Duration(1+c.Rng.Intn(15)) * time.Millisecond)
	release()
	c.Do(what+": reads", wg.Wait)
	if ea != nil || va != 1 && va != 2 {
		c.Fail("%s: the first read returned %d, %v; the key held 1, then 2", what, va, ea)
	}
	if eb != nil || vb != 2 {
		c.Fail("%s: a read that began after the key had been set to 2 returned %d, %v", what, vb, eb)
	}
	c.R.Eval(fmt.Sprintf("%s: read behind a held read", what))
	c.R.Count("reads_behind_a_held_read", 1)
}

func (c *Case) anyRead(g getter, multi bool, key, other string) func() (int64, error) {
	if multi && c.Rng.Intn(2) == 0 {
		return readMany(g, key, other)
	}
	return readOne(g, key)
}

func c04Shared(c *Case) {
	m := c.ref()
	p := protos[c.Idx()%3]
	s := c.connect(p, m.Addr(), c.honest())
	o := c.connect(pick(c.Rng, protos...), m.Addr(), c.honest())
	place(m, "other", "-1", 0, 0)
	c.sharedRead(p+" client", m, "hot", func() error { return o.Set(&client.Item{Key: "hot", Value: []byte("2"), Flags: []byte{0, 0, 0, 1}}) },
		c.anyRead(s, true, "hot", "other"), c.anyRead(s, true, "hot", "other"))
}

func p02Shared(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	place(pri[0], "other", "-1", 0, 0)
	o := c.connect(pick(c.Rng, protos...), pri[0].Addr(), c.honest())
	c.sharedRead("replica pool", pri[0], "hot", func() error { return o.Set(&client.Item{Key: "hot", Value: []byte("2"), Flags: []byte{0, 0, 0, 1}}) },
		c.anyRead(w.pool, true, "hot", "other"), c.anyRead(w.pool, true, "hot", "other"))
}

func x02Shared(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	a, b := c.connect(pick(c.Rng, protos...), w.addr, c.honest()), c.connect(pick(c.Rng, protos...), w.addr, c.honest())
	o := c.connect(pick(c.Rng, protos...), pri[0].Addr(), c.honest())
	c.sharedRead("router", pri[0], "hot", func() error { return o.Set(&client.Item{Key: "hot", Value: []byte("2"), Flags: []byte{0, 0, 0, 1}}) },
		readOne(a, "hot"), readOne(b, "hot"))
}

// duel runs many short rounds: a few writes of one key at once, then a look at both replicas. Meanwhile others use the
// same connections, so that the two halves of a write wait for a lock, get woken, and can be overtaken.
func (c *Case) duel(what string, d time.Duration, writers int, noise []func(), write func(w, round int) string, key string, p, s Backend) {
	var stop int32
	var nw sync.WaitGroup
	atomic.AddInt64(&c.grace, int64(2*time.Minute))
	for _, f := range noise {
		f := f
		nw.Add(1)
		go func() {
			defer nw.Done()
			for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
				f()
				if i%3 > 0 {
					time.Sleep(time.Duration(i%5*20) * time.Microsecond)
				}
			}
		}()
	}
	type arm struct {
		start chan int
		done  chan string
	}
	var arms []arm
	for i := 0; i < writers; i++ {
		i, a := i, arm{make(chan int), make(chan string)}
		arms = append(arms, a)
		go func() {
			for r := range a.start {
				a.done <- write(i, r)
			}
		}()
	}
	rounds := 0
	var last []string
	c.Do(what, func() {
		defer func() {
			atomic.StoreInt32(&stop, 1)
			nw.Wait()
			for _, a := range arms {
				close(a.start)
			}
		}()
		for end := time.Now().Add(d); time.Now().Before(end); rounds++ {
			for _, a := range arms {
				a.start <- rounds
			}
			last = last[:0]
			for _, a := range arms {
				last = append(last, <-a.done)
			}
			if x, y := p.Inspect(key), s.Inspect(key); !alike(x, y, 0) {
				c.Report("%s: after the concurrent writes %v of round %d had returned: primary %s, secondary %s", what, last, rounds, x, y)
				return
			}
			if rounds%16 == 0 {
				c.R.Eval(fmt.Sprintf("%s %v", what, last))
			}
		}
	})
	c.R.Count("duel_rounds", int64(rounds))
	c.R.Count("duel_writes", int64(rounds*writers))
}

func p02Duel(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.repWorld(backends(pri), backends(sec), c.honest)
	pri[0].SetQuiet(true)
	sec[0].SetQuiet(true)
	key := "k"
	if c.Idx()%32 >= 16 {
		key += strings.Repeat("y", pick(c.Rng, 31, 63, 127, 249))
	}
	place(pri[0], key, "5", 1, 0)
	place(sec[0], key, "5", 1, 0)
	var noise []func()
	other := func(s client.Server, i int) func() {
		k := fmt.Sprintf("noise%d", i)
		return func() { s.Get(k) }
	}
	for i, n := 0, c.Rng.Intn(3); i < n; i++ {
		noise = append(noise, other(w.scl[0], i))
	}
	if c.Rng.Intn(3) == 0 {
		noise = append(noise, other(w.pcl[0], 9))
	}
	if c.Rng.Intn(3) == 0 {
		noise = append(noise, func() { w.pool.Set(&client.Item{Key: "noise", Value: []byte("1")}) })
	}
	all := []string{"set", "cas", "add", "replace", "delete", "incr", "decr"}
	kinds := [][]string{{"set"}, {"set", "incr"}, {"incr"}, {"set", "cas"}, {"set", "delete"}, {"add", "delete"}, {"replace", "set", "delete"}, all}[c.Idx()%8]
	if c.Idx()%16 >= 8 {
		kinds = []string{pick(c.Rng, all...), pick(c.Rng, all...), pick(c.Rng, "set", "incr", "cas")}[:2+c.Rng.Intn(2)]
	}
	writers := 2 + c.Rng.Intn(4)
	seed := c.Rng.Int63()
	rngs := make([]*rand.Rand, writers)
	for i := range rngs {
		rngs[i] = rand.New(rand.NewSource(seed + int64(i)))
	}
	write := func(i, round int) string {
		r := rngs[i]
		k := kinds[r.Intn(len(kinds))]
		if i < len(kinds) {
			k = kinds[i]
		}
		it := &client.Item{Key: key, Value: []byte(strconv.Itoa(round*10 + i)), Flags: []byte{0, 0, 0, byte(i)}}
		var err error
		switch k {
		case "set":
			err = w.pool.Set(it)
		case "cas":
			it.Cas = pri[0].Inspect(key).Cas
			err = w.pool.Set(it)
		case "add":
			err = w.pool.Add(it)
		case "replace":
			err = w.pool.Replace(it)
		case "delete":
			err = w.pool.Delete(key)
		case "incr":
			_, err = w.pool.Increment(key, r.Intn(4), pick(r, 0, 0, 100))
		case "decr":
			_, err = w.pool.Decrement(key, r.Intn(4), pick(r, 0, 0, 100))
		}
		return k + "=" + errClass(err)
	}
	c.duel(fmt.Sprintf("duel of %v", kinds), time.Duration(c.R.N(1200, 8000))*time.Millisecond, writers, noise, write, key, pri[0], sec[0])
}

// x02Duel: the same through a router, by clients of their own.
func x02Duel(c *Case) {
	pri, sec := c.refs(1), c.refs(1)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	pri[0].SetQuiet(true)
	sec[0].SetQuiet(true)
	key := "k" + strings.Repeat("y", pick(c.Rng, 0, 0, 63, 127, 249))
	var noise []func()
	for i, n := 0, 1+c.Rng.Intn(2); i < n; i++ {
		s, k := c.connect(protos[c.Rng.Intn(3)], w.addr, c.honest()), fmt.Sprintf("noise%d", i)
		noise = append(noise, func() { s.Set(&client.Item{Key: k, Value: []byte("1")}) })
	}
	writers := 2 + c.Rng.Intn(4)
	var cls []client.Server
	for i := 0; i < writers; i++ {
		cls = append(cls, c.connect(pick(c.Rng, protos...), w.addr, c.honest()))
	}
	cas := c.Rng.Intn(2) == 0
	write := func(i, round int) string {
		it := &client.Item{Key: key, Value: []byte(strconv.Itoa(round*10 + i)), Flags: []byte{0, 0, 0, byte(i)}}
		if _, text := cls[i].(*client.ServerWithTextProtocol); cas && i%2 == 1 && !text {
			it.Cas = pri[0].Inspect(key).Cas
		}
		return fmt.Sprintf("set%v=%s", it.Cas != 0, errClass(cls[i].Set(it)))
	}
	c.duel("duel of router clients", time.Duration(c.R.N(1200, 8000))*time.Millisecond, writers, noise, write, key, pri[0], sec[0])
}
