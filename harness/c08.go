package main

import (
	"fmt"
	"math/rand"
	"strings"

	"go.f110.dev/go-memcached/client"
)

func init() { registry["C08"] = checkC08 }

var hostileKeys = []string{
	"", " ", "  ", "a b", " a", "a ", "\r\n", "\n", "\r", "k\n", "\nk", "k\r", "k\r\n", "\t", "k\tv", "\x00", "k\x00", "\x0b", "k\x0ck", "\x1f", "\x01",
	"k\r\nflush_all", "k\r\nflush_all\r\n", "k\nflush_all\n", "k\r\ndelete victim", "k\r\nset victim 0 0 1\r\nx", "k 0 0 1\r\nx\r\ndelete victim\r\nset k",
	"k 0 0 0\r\n\r\nset victim", "victim 0 0 1\r\nx", "victim noreply", "victim 5", "k victim", "victim k", "victim v f T0", "k T1", "victim S1", "k\r\nmd victim", "k\r\nmn", "k v\r\nmd victim q",
	"k 1\r\nincr victim 1\r\nincr k", "k 100\r\nflush_all\r\ntouch k", "k\r\nquit", "k\nget victim",
	"victim\r\n", "victim\x00x", "\x80\x08", "\x80\x08\x00\x00", "k\u0085v", "k\u00a0v", "k\u2028v", "\xff\xfe", "\x7f", "k\x7f",
	strings.Repeat("a", 249), strings.Repeat("a", 250), strings.Repeat("a", 251), strings.Repeat("a", 252), strings.Repeat("a", 255), strings.Repeat("a", 256), strings.Repeat("a", 257),
	strings.Repeat("a", 1000), strings.Repeat("a", 2048), strings.Repeat("a", 5000), strings.Repeat("a", 65535), strings.Repeat("a", 65536),
	"victim" + strings.Repeat("a", 65536), strings.Repeat("k", 65536+6), strings.Repeat("victim", 10922) + "abcdvictim",
	strings.Repeat("é", 125), strings.Repeat("é", 126), strings.Repeat("日本", 41) + "abcd", strings.Repeat("日本", 42),
	strings.Repeat("a", 240) + " victim", strings.Repeat("a", 240) + "\r\nget x",
	"%", "%%", "100%", "%s", "%d", "%d%s%v", "k%s", "%s%d", "%v", "%n", "%20", "k%0d%0avictim", "%!s(MISSING)", "%[2]d", "%*d", "%-5d", "\\r\\n", "\\x00", "$victim", "${victim}", "`victim`", "victim#", "victim;", "victim/", "../victim", "Victim", "VICTIM", "victim.", "{victim}k", "{k}victim", "victim,k", "victim|k", "victim&k", "victim=1", "-1", "0", "+5", "noreply", "END", "STORED", "VALUE", "gets", "v", "S0", "T0", "b", "\"victim\"", "'victim'", "=", "dmljdGlt",
}

func hostileKey(r *rand.Rand) string {
	switch r.Intn(3) {
	case 0:
		return hostileKeys[r.Intn(len(hostileKeys))]
	case 1:
		frag := []string{"victim", "k", " ", "\r\n", "\n", "\r", "\t", "\x00", "set ", "delete ", "flush_all", "ms ", "md ", "0 0 1", "noreply", "\x80", "\xff", "get ", "0", "1", "T0", " v", " S0", "mn", "END", "%s", "%d", "%v", "%", "%20", "\\", "{", "}", "\"", "#", "$", strings.Repeat("q", 100)}
		s := ""
		for i := 0; i < 1+r.Intn(7); i++ {
			s += frag[r.Intn(len(frag))]
		}
		return s
	}
	n := 1 + r.Intn(24)
	if r.Intn(4) == 0 {
		n = 240 + r.Intn(20)
	}
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(5) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = byte(r.Intn(0x24))
		default:
			b[i] = "abcdxyz019_"[r.Intn(11)]
		}
	}
	return string(b)
}

// keyRule: 0 the protocol carries it, 1 it must be refused, 2 either
func keyRule(proto, k string) int {
	if len(k) == 0 || len(k) > 250 {
		return 1
	}
	if proto == "binary" {
		return 0
	}
	r := 0
	for i := 0; i < len(k); i++ {
		if k[i] <= ' ' {
			return 1
		}
		if k[i] == 0x7f {
			r = 2
		}
	}
	return r
}

func checkC08(r *Run) {
	r.Rule("hostile keys (a table of injections and boundary lengths, random concatenations of protocol fragments, random bytes) in every operation, every position of a batch and every protocol, directly, through SinglePool and on a real memcached; the model server's command log and the state of all keys are compared with what the call may do, and 3 judged calls follow; distinct = (protocol, operation, key class, position, outcome)")
	// every byte inside a key and in pairs
	r.Cases("bytes", 64, 8, func(c *Case) {
		w := c08World(c, false)
		for b := c.Idx(); b < 256; b += 64 {
			for i, k := range []string{"k" + string([]byte{byte(b)}) + "d", "k" + string([]byte{byte(b), byte(b)}), string([]byte{byte(b)}) + "victim", "victim" + string([]byte{byte(b)}) + "s"} {
				for j, p := range protos {
					for n := 0; n < 3; n++ {
						c08One(c, w, p, c08Kinds[(b+i+j+3*n)%9], k)
					}
					c08After(c, w, p)
				}
			}
		}
	})
	n := len(hostileKeys) * 3 * 9
	r.Cases("table", n, 8, func(c *Case) {
		i := c.Idx()
		k := hostileKeys[i%len(hostileKeys)]
		i /= len(hostileKeys)
		w := c08World(c, false)
		c08One(c, w, protos[i%3], c08Kinds[i/3], k)
		c08After(c, w, protos[i%3])
	})
	r.Cases("random", r.N(250, 5000), 8, func(c *Case) {
		w := c08World(c, false)
		for i := 0; i < 30; i++ {
			p := pick(c.Rng, protos...)
			c08One(c, w, p, pick(c.Rng, c08Kinds...), hostileKey(c.Rng))
			if c.Rng.Intn(4) == 0 {
				c08After(c, w, p)
			}
		}
		for _, p := range protos {
			c08After(c, w, p)
		}
	})
	r.Cases("pool", r.N(40, 800), 8, c08Pool)
	r.Cases("real", r.N(30, 600), 6, func(c *Case) {
		w := c08World(c, true)
		for i := 0; i < 25; i++ {
			p := pick(c.Rng, protos...)
			c08One(c, w, p, pick(c.Rng, c08Kinds...), hostileKey(c.Rng))
			c08After(c, w, p)
		}
	})
}

var c08Kinds = []string{"get", "mget", "set", "add", "replace", "delete", "incr", "decr", "touch"}
var c08Victims = []string{"victim", "k", "a", "x", "b", "5"}

func c08World(c *Case, real bool) *World {
	w := c.world(real)
	for i, v := range c08Victims {
		w.be.Put(v, fmt.Sprint(10+i), uint32(i), 0)
		w.watch(v)
	}
	return w
}

// c08All: the state of everything the server holds.
func c08All(w *World) map[string]State {
	if w.ref != nil {
		return w.ref.Snapshot()
	}
	return w.states()
}

func c08One(c *Case, w *World, proto, kind, key string) {
	if w.ref == nil && proto == "binary" && keyRule("text", key) == 1 {
		if keyRule("binary", key) == 0 {
			return // cannot be inspected through the real server's text port
		}
	}
	o := Op{Kind: kind, Key: key}
	pos := 0
	switch kind {
	case "set", "add", "replace":
		o.Val = []byte("written")
		if c.Rng.Intn(4) == 0 {
			o.Val = []byte("x\r\nflush_all\r\ndelete victim\r\n")
		}
		if kind == "set" && c.Rng.Intn(4) == 0 {
			o.Cas = 77
		}
	case "incr", "decr":
		o.Delta = 1
	case "touch":
		o.Exp = 1000
	case "mget":
		o.Key = ""
		ks := []string{}
		n := c.Rng.Intn(4)
		for i := 0; i < n; i++ {
			ks = append(ks, c08Victims[c.Rng.Intn(len(c08Victims))])
		}
		if c.Rng.Intn(10) == 0 { // more than is asked for at once
			n = pick(c.Rng, 50, 99, 100, 101, 160, 201, 330)
			ks = ks[:0]
			for i := 0; i < n; i++ {
				ks = append(ks, fmt.Sprintf("filler%d", i))
			}
			ks[c.Rng.Intn(n)] = "victim"
		}
		pos = pick(c.Rng, c.Rng.Intn(n+1), n)
		ks = append(ks[:pos], append([]string{key}, ks[pos:]...)...)
		o.Keys = ks
	}
	rule := keyRule(proto, key)
	all0 := c08All(w)
	inspect := func(k string) State {
		if w.ref != nil {
			return w.ref.Inspect(k)
		}
		if keyRule("text", k) != 0 {
			return State{}
		}
		return w.be.Inspect(k)
	}
	s0 := inspect(key)
	n0 := 0
	if w.ref != nil {
		n0 = w.ref.LogLen()
	}
	res := c.Call(proto, w.cl[proto], o)
	all1 := c08All(w)
	s1 := inspect(key)
	cx := w.cx(proto)
	if rule == 1 && res.Class() != "error" {
		c.Fail("%s %s with a key the protocol cannot carry (%d bytes, %q) returned %s", proto, kind, len(key), short([]byte(key)), res)
	}
	if rule == 0 && !(w.ref == nil && keyRule("text", key) != 0) {
		y := ""
		if kind == "mget" {
			st := map[string]State{}
			for _, k := range o.Keys {
				st[k] = all0[k]
				if k == key {
					st[k] = s0
				}
			}
			y = judgeMulti(o.Keys, res, st, cx)
		} else {
			y = judge(o, res, s0, s1, cx)
		}
		if y != "" {
			c.Fail("%s %s with key %q: %s", proto, kind, key, y)
		}
	}
	for k, s := range all0 {
		if k == key && kind != "get" && kind != "mget" && rule != 1 {
			continue
		}
		if s2 := all1[k]; !sameState(s, s2, cx.slack, false) {
			c.Fail("%s %s with key %q changed key %q: %s -> %s", proto, kind, short([]byte(key)), k, s, s2)
		}
	}
	for k, s := range all1 {
		if _, ok := all0[k]; !ok && !(k == key && rule != 1) {
			c.Fail("%s %s with key %q created key %q: %s", proto, kind, short([]byte(key)), short([]byte(k)), s)
		}
	}
	if w.ref != nil {
		seen := map[string]int{}
		for _, l := range w.ref.LogFrom(n0) {
			if l.Name == "?" || l.Name == "noop" {
				continue
			}
			okName := l.Name == kind || kind == "mget" && l.Name == "get" || kind == "set" && l.Name == "cas"
			for _, k := range l.Keys {
				inReq := k == key && rule != 1
				for _, x := range o.Keys {
					inReq = inReq || x == k
				}
				if !inReq {
					okName = false
				}
				seen[k]++
			}
			if !okName {
				c.Fail("%s %s with key %q made the server execute %s %q", proto, kind, short([]byte(key)), l.Name, l.Keys)
			}
		}
		if kind != "mget" && seen[key] > 1 {
			c.Fail("%s %s with key %q was executed %d times", proto, kind, short([]byte(key)), seen[key])
		}
	}
	cls := "plain"
	switch {
	case len(key) == 0:
		cls = "empty"
	case len(key) > 60000:
		cls = "wrap"
	case len(key) > 250:
		cls = fmt.Sprint("long", min(len(key), 260))
	case strings.ContainsAny(key, "\r\n"):
		cls = "newline"
	case strings.ContainsAny(key, " \t"):
		cls = "space"
	case rule == 1:
		cls = "control"
	case len(key) > 240:
		cls = fmt.Sprint("near", len(key))
	}
	c.R.Count("hostile_calls", 1)
	if rule == 1 {
		c.R.Count("keys_refused", 1)
	} else {
		c.R.Count("unusual_keys_carried", 1)
	}
	c.R.Eval(fmt.Sprintf("%s|%s|%s|%s|%d|%s", w.be.Kind(), proto, kind, cls, pos, res.Class()))
	if strings.Contains(key, "flush_all") && kind == "set" {
		c.R.Sample(map[string]any{"protocol": proto, "operation": kind, "key": key, "result": res.String()})
	}
}

// c08After: the connection still answers its own requests.
func c08After(c *Case, w *World, proto string) {
	for i := 0; i < 3; i++ {
		k := c08Victims[c.Rng.Intn(len(c08Victims))]
		w.step(proto, pick(c.Rng, Op{Kind: "get", Key: k}, Op{Kind: "version"}, Op{Kind: "mget", Keys: []string{k, "absent", "victim"}}, Op{Kind: "incr", Key: k, Delta: 1}, Op{Kind: "set", Key: k, Val: []byte("12")}))
	}
}

// c08Pool: the same through a pool; batch reads with hostile keys in any position.
func c08Pool(c *Case) {
	n := 1 + c.Rng.Intn(3)
	var refs []*RefMC
	var srv []client.Server
	proto := pick(c.Rng, protos...)
	for i := 0; i < n; i++ {
		m := c.ref()
		refs = append(refs, m)
		srv = append(srv, c.connectNamed(proto, fmt.Sprintf("s%d", i), m.Addr(), 0))
	}
	pool, err := client.NewSinglePool(srv...)
	c.Must(err)
	for i, v := range c08Victims {
		if err := pool.Set(&client.Item{Key: v, Value: []byte(fmt.Sprint(i))}); err != nil {
			c.Fail("pool Set(%q): %v", v, err)
		}
	}
	all := func() map[string]State {
		r := map[string]State{}
		for i, m := range refs {
			for k, s := range m.Snapshot() {
				r[fmt.Sprintf("%d/%s", i, k)] = s
			}
		}
		return r
	}
	for i := 0; i < 20; i++ {
		key := hostileKey(c.Rng)
		kind := pick(c.Rng, c08Kinds...)
		o := Op{Kind: kind, Key: key, Val: []byte("1"), Delta: 1}
		if kind == "mget" {
			o.Keys = []string{"victim", key, "k"}
		}
		a0 := all()
		res := c.Call("pool", pool, o)
		if keyRule(proto, key) == 1 {
			if res.Class() != "error" {
				c.Fail("pool of %s servers: %s with key %q returned %s", proto, kind, short([]byte(key)), res)
			}
		} else if keyRule(proto, key) == 0 && res.Class() == "error" && !(kind == "incr" || kind == "decr") {
			c.Fail("pool of %s servers: %s with key %q failed: %v", proto, kind, key, res.Err)
		}
		a1 := all()
		for k, s := range a0 {
			if strings.HasSuffix(k, "/"+key) && keyRule(proto, key) != 1 {
				continue
			}
			if !sameState(s, a1[k], 0, false) {
				c.Fail("pool of %s servers: %s with key %q changed %q: %s -> %s", proto, kind, short([]byte(key)), k, s, a1[k])
			}
		}
		for k := range a1 {
			if _, ok := a0[k]; !ok && k[2:] != key {
				c.Fail("pool of %s servers: %s with key %q created %q", proto, kind, short([]byte(key)), k)
			}
		}
		for _, v := range c08Victims {
			it, err := pool.Get(v)
			there := false
			for i := range refs {
				_, ok := a1[fmt.Sprintf("%d/%s", i, v)]
				there = there || ok
			}
			if there != (err == nil) || err == nil && it.Key != v {
				c.Fail("pool of %s servers: after %s with key %q, Get(%q) returned %s %v", proto, kind, short([]byte(key)), v, itemStr(it), err)
			}
		}
		c.R.Eval(fmt.Sprintf("pool|%s|%s|%d|%s", proto, kind, keyRule(proto, key), res.Class()))
	}
}
