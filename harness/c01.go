package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
)

func init() { registry["C01"] = checkC01 }

// akin is a key like k but not k.
func akin(r *rand.Rand, k string) string {
	flip := func(c byte) byte {
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			return c ^ 32
		}
		return c
	}
	b := []byte(k)
	switch r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = flip(b[i])
		}
	case 1:
		i := r.Intn(len(b))
		b[i] = flip(b[i])
	case 2:
		b = append(b, pick(r, "0", "/", ".", "x", "=", "\\", ":", "a")...)
	case 3:
		b = append([]byte(pick(r, "0", "/", ".", "x", ":", "k", "-")), b...)
	case 4:
		b = b[:1+r.Intn(len(b))]
	case 5:
		i, j := r.Intn(len(b)), r.Intn(len(b))
		b[i], b[j] = b[j], b[i]
	}
	if len(b) > 250 {
		b = b[:250]
	}
	return string(b)
}

func uniqueKeys(c *Case, n int) []string {
	seen := map[string]bool{}
	ks := []string{}
	for len(ks) < n {
		k := genKey(c.Rng)
		if len(ks) > 0 && c.Rng.Intn(3) == 0 {
			k = akin(c.Rng, ks[c.Rng.Intn(len(ks))])
		} else if n > 12 && len(ks) > 3 {
			k = fmt.Sprintf("%s%d", k[:min(len(k), 8)], len(ks))
		}
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return ks
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 64:
		return "s"
	case n < 4096:
		return "m"
	case n < 65536:
		return "l"
	}
	return "xl"
}

func flagClass(f []byte) string {
	if len(f) != 4 {
		return fmt.Sprintf("len%d", len(f))
	}
	v := flagVal(f)
	switch {
	case v == 0:
		return "0"
	case v >= 1<<31:
		return "high"
	case v >= 1<<16:
		return "mid"
	}
	return "low"
}

func expClass(e int) string {
	switch {
	case e == 0:
		return "never"
	case e <= day30:
		return "relative"
	}
	return "absolute"
}

func checkC01(r *Run) {
	r.Rule("a case stores 1-8 (or 40-400) generated items through random protocols with Set/CAS-Set/Add/Replace, then reads all of them back through every protocol with Get and GetMulti (shuffled, with duplicates and absent keys), comparing value, flags, CAS and lifetime with the server's own state, and writes read items back; distinct = (server, writer protocol, operation, value size class, flags class, expiration class, reader protocol, read call)")
	r.Assume("the model memcached used as one of the two servers follows memcached 1.6.24; the other is the installed memcached itself")
	run := func(real, batch bool) func(*Case) {
		return func(c *Case) { c01Case(c, real, batch) }
	}
	r.Cases("model", r.N(150, 4000), 8, run(false, false))
	r.Cases("real", r.N(60, 1500), 6, run(true, false))
	r.Cases("batch", r.N(16, 300), 6, run(false, true))
	r.Cases("batchreal", r.N(8, 150), 6, run(true, true))
	r.Cases("sizes", r.N(12, 24), 6, c01Sizes)
}

// c01Sizes: every value length around the buffer sizes a client could use, through every protocol.
func c01Sizes(c *Case) {
	w := c.world(false)
	i := c.Idx()
	p := protos[i%3]
	sizes := []int{}
	for n := 0; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	for _, b := range []int{128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1 << 20} {
		for d := -4; d <= 4; d++ {
			if b+d <= 1<<20 {
				sizes = append(sizes, b+d)
			}
		}
		if b <= 8192 {
			for d := -64; d <= 64; d++ {
				sizes = append(sizes, b+d)
			}
		}
	}
	for n, sz := range sizes {
		if !c.R.Thorough() && (n+i/3)%4 != 0 {
			continue
		}
		key := fmt.Sprintf("k%0*d", n%20, sz)
		w.keys = nil
		o := Op{Kind: "set", Key: key, Val: rbytes(c.Rng, sz), Flags: genFlags(c.Rng)}
		w.step(p, o)
		for _, q := range protos {
			w.step(q, Op{Kind: "get", Key: key})
			w.step(q, Op{Kind: "mget", Keys: []string{key, key + "x"}})
			c.R.Eval(fmt.Sprintf("size|%s|%s|%d", p, q, sz))
		}
		c.R.Count("exact_value_sizes", 1)
	}
}

func c01Case(c *Case, real, batch bool) {
	w := c.world(real)
	n := 1 + c.Rng.Intn(8)
	if batch {
		n = 40 + c.Rng.Intn(360)
	}
	keys := uniqueKeys(c, n)
	type wr struct{ proto, kind, sz, fl, ex string }
	wrote := map[string]wr{}
	for _, k := range keys {
		p := pick(c.Rng, protos...)
		o := Op{Kind: pick(c.Rng, "set", "set", "add", "replace", "cas"), Key: k, Val: genVal(c.Rng), Flags: genFlags(c.Rng), Exp: genExp(c.Rng, w.now())}
		if p == "binary" && c.Rng.Intn(8) == 0 { // only this protocol carries times beyond 2038
			o.Exp = 1<<31 + int(c.Rng.Int63n(1<<31))
		}
		if batch && len(o.Val) > 3000 {
			o.Val = o.Val[:c.Rng.Intn(3000)]
		}
		if !batch && c.Rng.Intn(40) == 0 {
			o.Val = rbytes(c.Rng, 900000+c.Rng.Intn(140000))
		}
		kind := o.Kind
		if o.Kind != "set" && o.Kind != "add" {
			w.be.Put(k, "previous", 7, 0)
		}
		if o.Kind == "cas" {
			o.Kind = "set"
			o.Cas = w.be.Inspect(k).Cas
		}
		if batch {
			w.keys = []string{k}
		}
		w.step(p, o)
		wrote[k] = wr{p, kind, sizeClass(len(o.Val)), flagClass(o.Flags), expClass(o.Exp)}
	}
	if batch {
		w.keys = nil
		w.watch(keys...)
	}
	evals := func(k, q, call string) {
		x := wrote[k]
		c.R.Eval(strings.Join([]string{w.be.Kind(), x.proto, x.kind, x.sz, x.fl, x.ex, q, call}, "|"))
	}
	for _, q := range protos {
		for i, k := range keys {
			if batch && i > 20 {
				break
			}
			r := w.step(q, Op{Kind: "get", Key: k})
			evals(k, q, "get")
			if i == 0 && q == "meta" {
				c.R.Sample(map[string]any{"written": wrote[k], "key": k, "read": itemStr(r.Item)})
			}
		}
		// batch: all present keys plus absent ones, in random order, some twice
		ks := append([]string(nil), keys...)
		for i := 0; i < 1+n/4; i++ {
			ks = append(ks, fmt.Sprintf("absent-%d", i))
		}
		for i := 0; i < c.Rng.Intn(3); i++ {
			ks = append(ks, keys[c.Rng.Intn(n)])
		}
		c.Rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		w.step(q, Op{Kind: "mget", Keys: ks})
		for _, k := range keys {
			evals(k, q, "mget")
		}
	}
	// a read item given back to Set, unchanged, keeps its lifetime and flags
	for i := 0; i < 3; i++ {
		k := keys[c.Rng.Intn(n)]
		if w.ref != nil {
			w.ref.Advance(int64(c.Rng.Intn(20)))
		}
		t0 := time.Now()
		before := w.be.Inspect(k)
		if !before.Ok {
			continue
		}
		w.keys = []string{k}
		r := w.step("meta", Op{Kind: "get", Key: k})
		q := pick(c.Rng, protos...)
		if before.TTL > 0 && w.now()+before.TTL+1000 >= 1<<31 {
			q = "binary"
		}
		var err error
		it := &client.Item{}
		*it = *r.Item
		c.Do(q+".Set(item as read)", func() { err = w.cl[q].Set(it) })
		after := w.be.Inspect(k)
		c.Logf("%s.Set(item as read %s) -> %v: %s -> %s", q, itemStr(it), err, before, after)
		if err != nil {
			c.Fail("an item read with meta and given back to %s Set unchanged was refused: %v (item %s, server %s)", q, err, itemStr(it), before)
		}
		slack := w.slk
		stretch(&slack, t0)
		if before.TTL > day30 {
			slack += wallDrift(w.now())
		}
		if !after.Ok || after.Val != before.Val || after.Flags != before.Flags || !(after.TTL == before.TTL || after.TTL != -1 && before.TTL != -1 && absdiff(after.TTL, before.TTL) <= slack) {
			c.Fail("an item read with meta and given back to %s Set unchanged became %s, was %s", q, after, before)
		}
		evals(k, q, "giveback")
	}
	// and it lives exactly as long as it was told to
	if w.ref != nil {
		var best string
		var ttl int64
		for _, k := range keys {
			if s := w.be.Inspect(k); s.Ok && s.TTL > 0 {
				best, ttl = k, s.TTL
				break
			}
		}
		if best != "" {
			w.keys = []string{best}
			w.ref.Advance(ttl - 1)
			q := pick(c.Rng, protos...)
			w.step(q, Op{Kind: "get", Key: best})
			w.ref.Advance(1)
			w.step(q, Op{Kind: "get", Key: best})
			w.step(q, Op{Kind: "mget", Keys: []string{best}})
			evals(best, q, "expiry")
		}
	}
}
