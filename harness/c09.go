package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"sync"
	"time"
	"unsafe"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
)

func init() { registry["C09"] = checkC09 }

// guarded is a slice inside a larger buffer of known bytes.
type guarded struct {
	buf  []byte
	copy []byte
	s    []byte
}

func guard(r *rand.Rand, content []byte) *guarded {
	pre, post := r.Intn(20), r.Intn(40)
	if r.Intn(5) == 0 {
		post = 5000
	}
	g := &guarded{buf: make([]byte, pre+len(content)+post)}
	for i := range g.buf {
		g.buf[i] = byte(0xA0 + i%50)
	}
	copy(g.buf[pre:], content)
	g.copy = append([]byte(nil), g.buf...)
	g.s = g.buf[pre : pre+len(content)] // capacity reaches over the rest
	return g
}

func (g *guarded) check() string {
	if !bytes.Equal(g.buf, g.copy) {
		for i := range g.buf {
			if g.buf[i] != g.copy[i] {
				return fmt.Sprintf("byte %d of a buffer of %d was changed from %#x to %#x", i, len(g.buf), g.copy[i], g.buf[i])
			}
		}
	}
	return ""
}

type kept struct {
	it   *client.Item
	cp   client.Item
	sum  uint64
	from string
}

func sumItem(i *client.Item) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%q %q %q %d %d %q", i.Key, i.Value, i.Flags, i.Expiration, i.Cas, i.Server)
	return h.Sum64()
}

type span struct {
	a, b, c uintptr // start, end of length, end of capacity
	what    string
	item    *client.Item
}

func spanOf(b []byte, what string) span {
	if cap(b) == 0 {
		return span{}
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return span{a: p, b: p + uintptr(len(b)), c: p + uintptr(cap(b)), what: what}
}

// overlap reports two returned slices sharing memory: one's bytes lie in what the other owns or may append into.
func overlap(ks []kept) string {
	var ss []span
	for i, k := range ks {
		for _, s := range []span{spanOf(k.it.Value, fmt.Sprintf("value of item %d (%s)", i, k.from)), spanOf(k.it.Flags, fmt.Sprintf("flags of item %d (%s)", i, k.from))} {
			if s.b > s.a {
				s.item = k.it
				ss = append(ss, s)
			}
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].a < ss[j].a })
	// slices of one item may share an array with each other, not with another item
	for i := range ss {
		for j := i + 1; j < len(ss) && ss[j].a < ss[i].c; j++ {
			if ss[i].item != ss[j].item {
				return ss[i].what + " and " + ss[j].what
			}
		}
	}
	return ""
}

func checkC09(r *Run) {
	r.Rule("items whose value, flags and key lists lie inside larger guarded buffers go through every write operation of the three clients, a SinglePool and a ReplicaPool (honest and faulty servers); buffers, items and key lists are compared afterwards and then overwritten; every item ever read is kept, checked at the end for changes and for shared memory, and scribbled over before further judged reads; one item is shared by concurrent writers under the race detector; distinct = (handle, operation, flags length, value size class, result)")
	r.Cases("guard", r.N(120, 2500), 8, c09Guard)
	r.Cases("shared", r.N(40, 800), 6, c09Shared)
	r.Cases("stable", r.N(60, 1200), 8, c09Stable)
	r.Cases("many", r.N(8, 60), 4, c09Many)
	r.Cases("fault", r.N(60, 900), 12, c09Fault)
	r.Cases("flags", 3, 3, c09Flags)
}

// handles: the three clients, a pool and a replica pool over model servers
func c09Handles(c *Case) (hs map[string]KV, all []*RefMC) {
	hs = map[string]KV{}
	m := c.ref()
	all = append(all, m)
	if c.Rng.Intn(2) == 0 {
		m.SetSeg(randSeg(c.Rng.Int63()))
	}
	for _, p := range protos {
		hs[p] = c.connect(p, m.Addr(), c.honest())
	}
	var srv []client.Server
	for i := 0; i < 3; i++ {
		x := c.ref()
		all = append(all, x)
		srv = append(srv, c.connectNamed(protos[i], fmt.Sprintf("s%d", i), x.Addr(), 0))
	}
	pool, err := client.NewSinglePool(srv...)
	c.Must(err)
	hs["pool"] = pool
	p1, p2 := c.ref(), c.ref()
	all = append(all, p1, p2)
	rp := cluster.NewReplicaPool([]*client.ServerWithMetaProtocol{c.connectMeta("a", p1.Addr(), 0)}, []*client.ServerWithMetaProtocol{c.connectMeta("b", p2.Addr(), 0)})
	hs["replica"] = rp
	return
}

var handleNames = []string{"text", "meta", "binary", "pool", "replica"}

func c09Guard(c *Case) {
	hs, all := c09Handles(c)
	peek := func(h, k string) State {
		if h == "replica" {
			return all[len(all)-2].Inspect(k)
		}
		if h == "pool" {
			for _, m := range all[1:4] {
				if s := m.Inspect(k); s.Ok {
					return s
				}
			}
			return State{}
		}
		return all[0].Inspect(k)
	}
	for i := 0; i < 25; i++ {
		h := pick(c.Rng, handleNames...)
		kv := hs[h]
		key := fmt.Sprintf("k%d", c.Rng.Intn(3))
		val := genVal(c.Rng)
		if len(val) > 9000 {
			val = val[:c.Rng.Intn(9000)]
		}
		gv := guard(c.Rng, val)
		fl := rbytes(c.Rng, pick(c.Rng, 0, 4, 4, 4, 1, 2, 3, 5, 8))
		gf := guard(c.Rng, fl)
		it := &client.Item{Key: key, Value: gv.s, Flags: gf.s, Expiration: pick(c.Rng, 0, 100, 10000), Server: "mine"}
		if c.Rng.Intn(6) == 0 {
			it.Flags = nil
		}
		if c.Rng.Intn(8) == 0 {
			it.Value = nil
		}
		kind := pick(c.Rng, "set", "set", "set", "set", "cas", "cas", "add", "add", "replace", "replace", "long")
		call := kind
		switch kind {
		case "cas":
			call = "set"
			it.Cas = peek(h, key).Cas
			if c.Rng.Intn(3) == 0 {
				it.Cas++
			}
		case "long":
			call = "set"
			gv = guard(c.Rng, rbytes(c.Rng, 1<<20+5))
			it.Value = gv.s
		}
		before := *it
		var err error
		c.Do(h+"."+kind, func() {
			switch call {
			case "set":
				err = kv.Set(it)
			case "add":
				err = kv.Add(it)
			case "replace":
				err = kv.Replace(it)
			}
		})
		c.Logf("%s.%s(%s %d bytes flags=%x) -> %v", h, kind, key, len(it.Value), fl, err)
		if y := gv.check(); y != "" {
			c.Fail("%s.%s wrote to the caller's memory around the value: %s", h, kind, y)
		}
		if y := gf.check(); y != "" {
			c.Fail("%s.%s wrote to the caller's memory around the flags: %s", h, kind, y)
		}
		if it.Key != before.Key || it.Expiration != before.Expiration || it.Cas != before.Cas || it.Server != before.Server ||
			len(it.Value) != len(before.Value) || len(it.Flags) != len(before.Flags) || unsafe.SliceData(it.Value) != unsafe.SliceData(before.Value) || unsafe.SliceData(it.Flags) != unsafe.SliceData(before.Flags) {
			c.Fail("%s.%s changed the item it was given: %s server=%q, was %s server=%q", h, kind, itemStr(it), it.Server, itemStr(&before), before.Server)
		}
		// the memory is the caller's again: what was stored must not follow it
		want := string(it.Value)
		for j := range gv.buf {
			gv.buf[j] = 'X'
		}
		for j := range gf.buf {
			gf.buf[j] = 'X'
		}
		if err == nil {
			if s := peek(h, key); !s.Ok || s.Val != want {
				c.Fail("%s.%s stored %s, was given %s", h, kind, s, sh(want))
			}
		}
		// key lists
		ks := make([]string, 3, 8)
		full := ks[:8]
		if i%5 == 4 { // a long list
			n := pick(c.Rng, 17, 33, 65, 101, 129, 257, 600)
			ks = make([]string, n, n+5)
			full = ks[:n+5]
		}
		for j := range full {
			full[j] = fmt.Sprintf("k%d", (j*7+i)%5)
		}
		if i%3 == 0 { // asked for more than once
			for j := range full {
				full[j] = fmt.Sprintf("k%d", c.Rng.Intn(2))
			}
		}
		cp := append([]string(nil), full...)
		{
			var items []*client.Item
			c.Do(h+".GetMulti", func() { items, err = kv.GetMulti(ks...) })
			for j := range full {
				if full[j] != cp[j] {
					c.Fail("%s.GetMulti changed the caller's key list: %q, was %q", h, full, cp)
				}
			}
			for _, x := range items {
				if x == nil {
					c.Fail("nil item")
				}
			}
		}
		c.R.Count("guarded_buffers", 2)
		c.R.Eval(fmt.Sprintf("guard|%s|%s|%d|%s|%s", h, kind, len(it.Flags), sizeClass(len(it.Value)), errClass(err)))
	}
}

// c09Shared: many goroutines write the same item at once; nobody may write to it.
func c09Shared(c *Case) {
	hs, _ := c09Handles(c)
	gv := guard(c.Rng, rbytes(c.Rng, pick(c.Rng, 0, 1, 10, 100, 5000)))
	gf := guard(c.Rng, rbytes(c.Rng, pick(c.Rng, 0, 3, 4, 4, 4, 5)))
	it := &client.Item{Key: "shared", Value: gv.s, Flags: gf.s, Expiration: pick(c.Rng, 0, 100), Cas: pick(c.Rng, uint64(0), 0, 12)}
	keys := []string{"a", "shared", "b", "c"}
	var wg sync.WaitGroup
	for i := 0; i < 10; i++ {
		h := handleNames[i%5]
		kv := hs[h]
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					c.Report("panic: %v", p)
				}
			}()
			for j := 0; j < 8; j++ {
				switch r.Intn(4) {
				case 0:
					kv.Add(it)
				case 1:
					kv.Replace(it)
				case 2:
					kv.GetMulti(keys...)
				default:
					kv.Set(it)
				}
			}
		}()
	}
	c.Do("concurrent writes of one item", wg.Wait)
	if y := gv.check(); y != "" {
		c.Fail("value of a shared item: %s", y)
	}
	if y := gf.check(); y != "" {
		c.Fail("flags of a shared item: %s", y)
	}
	c.R.Count("concurrent_uses_of_one_item", 80)
	c.R.Eval(fmt.Sprintf("shared|%d|%d|%d|%d", len(gv.s), len(gf.s), it.Expiration, it.Cas))
}

func c09Stable(c *Case) {
	hs, all := c09Handles(c)
	keys := uniqueKeys(c, 8)
	for i, k := range keys {
		n := pick(c.Rng, 0, 1, 5, 100, 3000, 9000)
		for h, kv := range hs {
			if err := kv.Set(&client.Item{Key: k, Value: rbytes(c.Rng, n), Flags: be32(uint32(i * 77))}); err != nil {
				c.Fail("%s.Set: %v", h, err)
			}
		}
	}
	var ks []kept
	keep := func(from string, its ...*client.Item) {
		for _, it := range its {
			ks = append(ks, kept{it: it, cp: *it, sum: sumItem(it), from: from})
		}
	}
	verify := func(when string) {
		for _, k := range ks {
			if sumItem(k.it) != k.sum {
				c.Fail("an item returned by %s changed later (%s): now %s server=%q", k.from, when, itemStr(k.it), k.it.Server)
			}
		}
		if y := overlap(ks); y != "" {
			c.Fail("returned items share memory: %s", y)
		}
	}
	check := func(h string, it *client.Item, key string) {
		ok := false
		for _, m := range all {
			if s := m.Inspect(key); s.Ok && s.Val == string(it.Value) && s.Flags == flagVal(it.Flags) {
				ok = true
			}
		}
		if !ok || it.Key != key {
			c.Fail("%s read of %q returned %s, which no server holds", h, key, itemStr(it))
		}
	}
	for i := 0; i < 40; i++ {
		h := pick(c.Rng, handleNames...)
		kv := hs[h]
		k := keys[c.Rng.Intn(len(keys))]
		switch c.Rng.Intn(6) {
		case 0, 1:
			var it *client.Item
			var err error
			c.Do(h+".Get", func() { it, err = kv.Get(k) })
			if err != nil {
				c.Fail("%s.Get(%q): %v", h, k, err)
			}
			check(h, it, k)
			keep(h+".Get", it)
		case 2, 3:
			asked := append([]string(nil), keys[:2+c.Rng.Intn(6)]...)
			if c.Rng.Intn(3) == 0 {
				asked = append(asked, asked[0], asked[0])
			}
			var its []*client.Item
			var err error
			c.Do(h+".GetMulti", func() { its, err = kv.GetMulti(asked...) })
			if err != nil {
				c.Fail("%s.GetMulti: %v", h, err)
			}
			for _, it := range its {
				check(h, it, it.Key)
			}
			keep(h+".GetMulti", its...)
		case 4:
			var err error
			v := rbytes(c.Rng, c.Rng.Intn(4000))
			c.Do(h+".Set", func() { err = kv.Set(&client.Item{Key: k, Value: v, Flags: genFlags(c.Rng)}) })
			if err != nil {
				c.Fail("%s.Set: %v", h, err)
			}
		case 5:
			// the items are the caller's: scribble over one, up to its capacity
			if len(ks) == 0 {
				continue
			}
			verify("before scribbling")
			x := ks[c.Rng.Intn(len(ks))]
			v := x.it.Value[:cap(x.it.Value)]
			for j := range v {
				v[j] = 0xEE
			}
			f := x.it.Flags[:cap(x.it.Flags)]
			for j := range f {
				f[j] = 0xEE
			}
			x.it.Key, x.it.Cas, x.it.Expiration = "scribbled", 1, 2
			for j := range ks {
				if ks[j].it == x.it {
					ks[j].sum = sumItem(x.it)
				}
			}
			verify("after scribbling over another returned item")
		}
		c.R.Eval(fmt.Sprintf("stable|%s|%d|%d", h, i/4, len(ks)))
	}
	verify("at the end")
	c.R.Count("items_kept", int64(len(ks)))
}

// c09Fault: a call that failed has let go of the caller's memory too.
func c09Fault(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.ref()
	cl := c.connect(proto, m.Addr(), 30*time.Millisecond)
	f := NewFault()
	f.Stall = c.Rng.Intn(2) == 0
	if c.Rng.Intn(2) == 0 {
		f.OutAfter = c.Rng.Intn(4)
	} else {
		f.InAfter = c.Rng.Intn(200)
	}
	m.Arm(f)
	var once sync.Once
	rel := func() { once.Do(func() { close(f.Release) }) }
	c.Defer(rel)
	size := pick(c.Rng, 10, 200, 6000, 12<<20)
	gv := guard(c.Rng, make([]byte, size))
	gf := guard(c.Rng, be32(7))
	it := &client.Item{Key: "k", Value: gv.s, Flags: gf.s}
	var err error
	c.Do(proto+".Set", func() {
		switch c.Idx() % 4 {
		case 0:
			err = cl.Add(it)
		case 1:
			err = cl.Replace(it)
		default:
			err = cl.Set(it)
		}
	})
	if y := gv.check(); y != "" {
		c.Fail("%s write that ended with %v: %s", proto, err, y)
	}
	if y := gf.check(); y != "" {
		c.Fail("%s write that ended with %v: %s", proto, err, y)
	}
	for i := range gv.buf { // a late use would be a data race
		gv.buf[i] = 'Y'
	}
	it.Key = "other"
	it.Value = nil
	rel()
	setTimeout(cl, time.Minute)
	c.Do("Reconnect", func() { cl.Reconnect() })
	c.Do("Get", func() { cl.Get("k") })
	c.R.Eval(fmt.Sprintf("fault|%s|%d|%v|%d|%d|%v", proto, c.Idx()%4, f.Stall, f.InAfter, f.OutAfter, err != nil))
}

// c09Flags: flags of any length are either the four bytes or none, and never spill over.
func c09Flags(c *Case) {
	proto := protos[c.Idx()%3]
	m := c.ref()
	cl := c.connect(proto, m.Addr(), 0)
	for n := 0; n <= 12; n++ {
		for _, kind := range []string{"set", "add", "replace"} {
			g := guard(c.Rng, rbytes(c.Rng, n))
			key := fmt.Sprintf("%s%d", kind, n)
			if kind == "replace" {
				m.Put(key, "x", 1, 0)
			}
			r := c.Call(proto, cl, Op{Kind: kind, Key: key, Val: []byte("v"), Flags: g.s})
			if y := g.check(); y != "" {
				c.Fail("%s.%s with %d bytes of flags: %s", proto, kind, n, y)
			}
			if n == 4 || n == 0 {
				if s := m.Inspect(key); r.Err != nil || s.Flags != flagVal(g.s) {
					c.Fail("%s.%s with flags %x stored %s (%v)", proto, kind, g.s, s, r.Err)
				}
			}
			// and the connection is in step
			r = c.Call(proto, cl, Op{Kind: "get", Key: "absent"})
			if r.Class() != "notfound" {
				c.Fail("%s: after %s with %d bytes of flags, Get of an absent key returned %s", proto, kind, n, r)
			}
			c.R.Eval(fmt.Sprintf("flags|%s|%s|%d", proto, kind, n))
		}
	}
}
