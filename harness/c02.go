package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

func init() {
	registry["C02"] = checkC02
	registry["C03"] = checkC03
}

// seqGen draws operations over a few keys, steered by the state the keys are in.
type seqGen struct {
	w     *World
	r     *rand.Rand
	keys  []string
	old   map[string][]uint64 // tokens seen
	heavy bool                // mostly operations the server refuses
}

func newSeqGen(w *World, r *rand.Rand, n int) *seqGen {
	g := &seqGen{w: w, r: r, old: map[string][]uint64{}}
	g.keys = uniqueKeys(w.c, n)
	w.watch(g.keys...)
	return g
}

const maxCounter = uint64(1)<<63 - 1

func genNumber(r *rand.Rand) string {
	switch r.Intn(7) {
	case 0:
		return "0"
	case 1:
		return "1"
	case 2:
		return strconv.FormatUint(uint64(1)<<uint(r.Intn(62))-uint64(r.Intn(2)), 10)
	case 3:
		return []string{"9", "10", "99", "100", "999", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9007199254740993", "9223372036854775000"}[r.Intn(12)]
	case 4:
		return "000" + strconv.Itoa(r.Intn(1000))
	}
	return strconv.FormatUint(uint64(r.Int63())>>uint(r.Intn(60)), 10)
}

func genNonNumber(r *rand.Rand) string {
	return []string{"", "abc", "12a", "-1", "1.5", "0x10", "123456789012345678901", "99999999999999999999999", "NaN", "x9", "--1"}[r.Intn(11)]
}

func (g *seqGen) op(proto string) Op {
	r := g.r
	k := g.keys[r.Intn(len(g.keys))]
	s := g.w.be.Inspect(k)
	if s.Ok {
		o := g.old[k]
		if len(o) == 0 || o[len(o)-1] != s.Cas {
			g.old[k] = append(o, s.Cas)
		}
	}
	kinds := []string{"get", "get", "get", "mget", "mget", "set", "set", "set", "cas", "cas", "cas", "add", "add", "replace", "replace", "delete", "delete", "incr", "incr", "incr", "decr", "decr", "decr", "touch", "touch", "version"}
	if r.Intn(60) == 0 {
		return Op{Kind: "flush"}
	}
	kind := kinds[r.Intn(len(kinds))]
	if g.heavy && r.Intn(2) == 0 {
		switch {
		case s.Ok:
			kind = pick(r, "add", "cas", "incr", "decr")
		default:
			kind = pick(r, "replace", "get", "delete", "touch", "incr", "cas", "mget")
		}
	}
	o := Op{Kind: kind, Key: k}
	val := func() []byte {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			return []byte(genNumber(r))
		case 4:
			return []byte(genNonNumber(r))
		}
		if r.Intn(40) == 0 || g.heavy && r.Intn(12) == 0 {
			return rbytes(r, 1024*1024+1+r.Intn(100000))
		}
		v := genVal(r)
		if len(v) > 9000 && r.Intn(4) != 0 {
			v = v[:r.Intn(9000)]
		}
		return v
	}
	switch kind {
	case "mget":
		n := 1 + r.Intn(8)
		if r.Intn(8) == 0 {
			n = 0
		}
		if r.Intn(12) == 0 {
			n = 60 + r.Intn(80)
		}
		o.Key = ""
		for i := 0; i < n; i++ {
			if r.Intn(4) == 0 {
				o.Keys = append(o.Keys, fmt.Sprintf("nokey%d", i))
			} else {
				o.Keys = append(o.Keys, g.keys[r.Intn(len(g.keys))])
			}
		}
	case "set", "add", "replace", "cas":
		o.Val, o.Flags, o.Exp = val(), genFlags(r), genExp(r, g.w.now())
		if r.Intn(20) == 0 {
			o.Exp = genPast(r, proto, g.w.now())
		}
		if (kind == "add" || kind == "replace") && r.Intn(3) == 0 {
			// An item that was read earlier carries a token.
			o.Cas = pick(r, s.Cas, s.Cas, s.Cas+1, uint64(r.Int63()))
			if len(g.old[k]) > 0 && r.Intn(3) == 0 {
				o.Cas = g.old[k][r.Intn(len(g.old[k]))]
			}
		}
		if kind == "cas" {
			o.Kind = "set"
			switch {
			case r.Intn(3) == 0 && len(g.old[k]) > 1:
				o.Cas = g.old[k][r.Intn(len(g.old[k]))]
			case r.Intn(4) == 0:
				o.Cas = s.Cas + 1
			case r.Intn(6) == 0 && s.Cas > 1:
				o.Cas = s.Cas - 1
			case r.Intn(6) == 0:
				o.Cas = s.Cas ^ (1 << uint(32+r.Intn(31))) // differs in the upper half only
			default:
				o.Cas = s.Cas
			}
			if o.Cas == 0 {
				o.Cas = 1 + uint64(r.Int63())
			}
		}
	case "incr", "decr":
		n, ok := parseCounter(s.Val)
		if (!s.Ok || !ok) && r.Intn(3) != 0 || g.w.ref == nil && ambiguousNumber(s.Val) {
			// make it a number first
			g.w.be.Put(k, genNumber(r), r.Uint32(), 0)
			n, _ = parseCounter(g.w.be.Inspect(k).Val)
		}
		room := maxCounter - n
		if n > maxCounter {
			room = 0
		}
		var d uint64
		switch r.Intn(6) {
		case 0:
			d = 1
		case 1:
			d = uint64(r.Intn(1000))
		case 2:
			d = 1 << uint(r.Intn(62))
		case 3:
			if kind == "decr" {
				d = n // exactly to zero
			} else {
				d = room
			}
		case 4:
			d = n + 1
		default:
			d = uint64(r.Int63()) >> uint(r.Intn(62))
		}
		if kind == "incr" && d > room {
			d = uint64(r.Intn(10))
			if d > room {
				d = 0
			}
		}
		if d > maxCounter {
			d = maxCounter
		}
		o.Delta, o.Exp = int(d), genExp(r, g.w.now())
	case "touch":
		o.Exp = genExp(r, g.w.now())
		if r.Intn(8) == 0 {
			o.Exp = genPast(r, proto, g.w.now())
		}
	}
	return o
}

func preClass(w *World, o Op) string {
	if o.Kind == "mget" {
		return fmt.Sprint(len(o.Keys) > 10)
	}
	s := w.be.Inspect(o.Key)
	if !s.Ok {
		return "absent"
	}
	c := "other"
	if _, ok := parseCounter(s.Val); ok {
		c = "number"
	}
	if s.TTL >= 0 {
		c += "+ttl"
	}
	if o.Cas != 0 {
		c += fmt.Sprint("+cas", o.Cas == s.Cas)
	}
	if len(o.Val) > 1<<20 {
		c += "+long"
	}
	return c
}

// c02Slow: the server takes its time, up to seconds, for one command in a few; the rules are the same.
func c02Slow(c *Case) {
	w := c.world(false)
	g := newSeqGen(w, c.Rng, 1+c.Rng.Intn(3))
	next := c.pauses(4 * time.Second)
	w.ref.SetHook(c.late(3, next))
	for i, n := 0, 10+c.Rng.Intn(20); i < n; i++ {
		if c.Rng.Intn(8) == 0 { // or the caller has nothing to say for a while
			time.Sleep(next())
		}
		p := pick(c.Rng, protos...)
		o := g.op(p)
		pre := preClass(w, o)
		r := w.step(p, o)
		c.R.Eval(strings.Join([]string{"slow", p, o.Kind, pre, r.Class()}, "|"))
	}
}

// number of keys of a batch read, length of keys and values, whether from a real memcached
var c02Widths = []struct {
	n, klen, vlen int
	real          bool
}{
	{100, 9, 5, false}, {101, 9, 5, false}, {127, 9, 5, true}, {128, 9, 900, false}, {200, 9, 50, true}, {201, 9, 50, false}, {256, 9, 5, false}, {257, 9, 5, true},
	{1000, 9, 50, false}, {1024, 200, 5, true}, {5000, 9, 5, true}, {40000, 9, 0, false}, {70000, 9, 5, false}, {60000, 250, 400, false},
}

// c02Wide: batch reads of very many keys.
func c02Wide(c *Case) {
	p := c02Widths[c.Idx()]
	w := &World{c: c, cl: map[string]client.Server{}}
	var be Backend
	if p.real {
		be = c.real()
		w.slk = 2
	} else {
		w.ref = c.ref()
		be = w.ref
	}
	w.be = be
	var keys []string
	st := map[string]State{}
	for i := 0; i < p.n; i++ {
		k := fmt.Sprintf("k%d.", i)
		for len(k) < p.klen {
			k += "xyzw"[i%4 : i%4+1]
		}
		keys = append(keys, k)
		if i%5 > 0 {
			v := strings.Repeat(strconv.Itoa(i)+" ", p.vlen/(len(strconv.Itoa(i))+1)+1)[:p.vlen]
			be.Put(k, v, uint32(i), 0)
			st[k] = be.Inspect(k)
		}
	}
	c.Rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for i := 0; i < 3; i++ { // a few keys more than once
		keys = append(keys, keys[c.Rng.Intn(p.n)])
	}
	for _, proto := range protos {
		if proto == "text" && p.real && p.n*p.klen > 60000 {
			continue // longer than the lines memcached reads
		}
		s := c.connect(proto, be.Addr(), c.honest())
		atomic.AddInt64(&c.grace, int64(20*time.Second))
		r := c.Call(proto, s, Op{Kind: "mget", Keys: keys})
		if y := judgeMulti(keys, r, st, w.cx(proto)); y != "" {
			c.Fail("%s: batch read of %d keys: %s", proto, len(keys), y)
		}
		if r := c.Call(proto, s, Op{Kind: "get", Key: "k1"}); r.Class() != "notfound" {
			c.Fail("%s: Get after a batch read of %d keys returned %s", proto, len(keys), r)
		}
		c.R.Eval(fmt.Sprintf("wide%s%v", proto, p))
		c.R.Max("keys_of_a_batch_read", int64(len(keys)))
	}
}

// c02Marathon: one client that lives for more operations than 16 bits can count.
func c02Marathon(c *Case) {
	m := c.ref()
	proto := protos[c.Idx()%3]
	s := c.connect(proto, m.Addr(), c.honest())
	n := c.R.N(67000, 400000)
	m.Put("num", "0", 5, 0)
	num, other := int64(0), ""
	atomic.AddInt64(&c.grace, int64(300*time.Second))
	c.Do("a long conversation", func() {
		for i := 0; i < n; i++ {
			var o Op
			want := ""
			switch i % 6 {
			case 0, 3:
				num++
				o, want = Op{Kind: "incr", Key: "num", Delta: 1}, fmt.Sprintf("ok n=%d", num)
			case 1:
				other = fmt.Sprintf("value%d", i)
				o, want = Op{Kind: "set", Key: "other", Val: []byte(other), Flags: be32(uint32(i))}, "ok"
			case 2:
				o, want = Op{Kind: "get", Key: "other"}, "get "+other
			case 4:
				o, want = Op{Kind: "get", Key: "none"}, "notfound"
			case 5:
				o, want = Op{Kind: "add", Key: "num", Val: []byte("x")}, "exists"
			}
			r := do(s, o)
			got := r.Class()
			switch {
			case o.Kind == "incr" && r.Err == nil:
				got = fmt.Sprintf("ok n=%d", r.N)
			case o.Kind == "get" && r.Err == nil && r.Item != nil:
				got = "get " + string(r.Item.Value)
			}
			if got != want {
				c.Report("%s: operation %d of a client: %s returned %s, expected %s", proto, i, o, r, want)
				return
			}
			if i%1000 == 0 {
				m.ClearLog()
			}
		}
	})
	if x := m.Inspect("num"); x.Val != strconv.FormatInt(num, 10) {
		c.Fail("%s: after %d increments the counter is %s", proto, num, x)
	}
	c.R.Count("operations_of_long_lived_clients", int64(n))
	c.R.Eval("marathon" + proto)
}

func c02Seq(real, heavy bool, steps int) func(*Case) {
	return func(c *Case) {
		w := c.world(real)
		g := newSeqGen(w, c.Rng, 1+c.Rng.Intn(5))
		g.heavy = heavy
		one := c.Rng.Intn(4) == 0 // all operations on one client
		p := pick(c.Rng, protos...)
		prev := "start"
		n := steps/2 + c.Rng.Intn(steps)
		for i := 0; i < n; i++ {
			if !one {
				p = pick(c.Rng, protos...)
			}
			if w.ref != nil && c.Rng.Intn(6) == 0 {
				w.ref.Advance(int64(c.Rng.Intn(200)))
			}
			if w.ref != nil && c.Rng.Intn(80) == 0 {
				w.ref.Advance(int64(c.Rng.Intn(day30)))
			}
			o := g.op(p)
			pre := preClass(w, o)
			r := w.step(p, o)
			cur := p + "." + o.Kind
			if o.Cas != 0 {
				cur += "cas"
			}
			c.R.Eval(strings.Join([]string{w.be.Kind(), prev, cur, pre, r.Class()}, "|"))
			prev = cur + "=" + r.Class()
			if i == 7 {
				c.R.Sample(map[string]any{"op": p + "." + o.String(), "before": pre, "result": r.String()})
			}
		}
	}
}

func checkC02(r *Run) {
	r.Rule("random sequences of 15-90 operations of the three clients over 1-5 keys of one server; after every call its result and the server's state of all keys before and after (read through a separate port) are compared with memcached's rules; distinct = (server, previous operation and result, operation, state of its key, result class)")
	r.Assume("counter results stay below 2^63, what the API's int64 can hold; negative expirations are not sent through the binary protocol, which cannot carry them")
	r.Cases("model", r.N(220, 5000), 8, c02Seq(false, false, 60))
	r.Cases("modelrefuse", r.N(60, 1200), 8, c02Seq(false, true, 60))
	r.Cases("long", r.N(6, 60), 6, c02Seq(false, false, 700))
	r.Cases("real", r.N(60, 1500), 6, c02Seq(true, false, 60))
	r.Cases("slow", r.N(72, 800), 36, c02Slow)
	r.Cases("wide", len(c02Widths), 4, c02Wide)
	r.Cases("marathon", 3, 3, c02Marathon)
}

// ---- C03

type refusal struct {
	name  string
	reply func(o Op, cmd *Cmd, r *rand.Rand) []byte
}

var textRefusals = []string{
	"ERROR\r\n", "CLIENT_ERROR bad command line format\r\n", "CLIENT_ERROR bad data chunk\r\n",
	"SERVER_ERROR out of memory storing object\r\n", "SERVER_ERROR object too large for cache\r\n", "SERVER_ERROR\r\n",
	"SERVER_ERROR out of memory writing get response\r\n", "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n",
	"SERVER_ERROR " + strings.Repeat("x", 1900) + "\r\n", "BUSY\r\n", "CLIENT_ERROR \r\n",
	// around the size of a read buffer, and beyond it
	"SERVER_ERROR " + strings.Repeat("y", 4096-15) + "\r\n", "SERVER_ERROR " + strings.Repeat("y", 4096-14) + "\r\n",
	"SERVER_ERROR " + strings.Repeat("y", 4096-13) + "\r\n", "SERVER_ERROR " + strings.Repeat("z", 10000) + "\r\n",
	"CLIENT_ERROR " + strings.Repeat("END ", 30000) + "\r\n", "SERVER_ERROR " + strings.Repeat("w", 700000) + "\r\n", "SERVER_ERROR " + strings.Repeat("w", 1500000) + "\r\n",
}

// replies that are conditions of storage commands and may be sent to them
var textConds = map[string][]string{
	"set": {"NOT_STORED\r\n", "EXISTS\r\n", "NOT_FOUND\r\n"}, "add": {"NOT_STORED\r\n"}, "replace": {"NOT_STORED\r\n"},
	"delete": {"NOT_FOUND\r\n"}, "touch": {"NOT_FOUND\r\n"}, "incr": {"NOT_FOUND\r\n"}, "decr": {"NOT_FOUND\r\n"},
}
var metaConds = map[string][]string{"set": {"NS\r\n", "EX\r\n", "NF\r\n"}, "touch": {"EN\r\n"}, "get": {"EN\r\n"}}

var binStatuses = []uint16{1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x22, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0xffff}

func refusals(proto, kind string) []refusal {
	var rs []refusal
	add := func(name string, f func(o Op, cmd *Cmd, r *rand.Rand) []byte) { rs = append(rs, refusal{name, f}) }
	if proto == "binary" {
		for _, st := range binStatuses {
			st := st
			for _, body := range []string{"none", "msg", "long"} {
				b := map[string]string{"none": "", "msg": binMsg[st] + ".", "long": strings.Repeat("\x81\x00y", 2000)}[body]
				add(fmt.Sprintf("%#x/%s", st, body), func(o Op, cmd *Cmd, r *rand.Rand) []byte {
					op := map[string]byte{"get": 0, "mget": 0x0d, "set": 1, "add": 2, "replace": 3, "delete": 4, "incr": 5, "decr": 6, "touch": 0x1c, "flush": 8, "version": 0x0b}[o.Kind]
					return binReply(op, st, 0, 0, nil, nil, []byte(b))
				})
			}
		}
		return rs
	}
	for _, t := range textRefusals {
		t := t
		add(short([]byte(strings.TrimSpace(t))), func(Op, *Cmd, *rand.Rand) []byte { return []byte(t) })
	}
	conds := textConds[kind]
	if proto == "meta" {
		if c := metaConds[kind]; c != nil {
			conds = c
		}
		if kind == "delete" {
			conds = []string{"EX\r\n"}
		}
	} else if kind == "get" {
		conds = nil
	}
	for _, t := range conds {
		t := t
		add(strings.TrimSpace(t), func(Op, *Cmd, *rand.Rand) []byte { return []byte(t) })
	}
	return rs
}

// refuse makes the server refuse the n-th command from now.
func refuse(m *RefMC, nth int, reply []byte) *int {
	hits := new(int)
	k := 0
	m.SetHook(func(cmd *Cmd) *Act {
		k++
		if k-1 == nth {
			*hits++
			if cmd.Bin && cmd.Name == "noop" && len(reply) > 1 {
				reply = append([]byte(nil), reply...)
				reply[1] = 0x0a // a reply tells which command it is for
			}
			return &Act{NoApply: true, Reply: reply}
		}
		return nil
	})
	return hits
}

func plainOp(c *Case, kind string, keys []string) Op {
	o := Op{Kind: kind, Key: keys[c.Rng.Intn(len(keys))]}
	switch kind {
	case "mget":
		o.Keys = append([]string(nil), keys...)
		o.Key = ""
	case "set", "add", "replace":
		o.Val, o.Flags = rbytes(c.Rng, c.Rng.Intn(100)), genFlags(c.Rng)
		if kind == "set" && c.Rng.Intn(2) == 0 {
			o.Cas = 1 + uint64(c.Rng.Intn(10))
		}
	case "incr", "decr":
		o.Delta = 1
	case "touch":
		o.Exp = 100
	case "flush", "version":
		o.Key = ""
	}
	return o
}

var allKinds = []string{"get", "mget", "set", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version"}

type c03Pair struct {
	proto, kind string
	ref         refusal
}

func checkC03(r *Run) {
	r.Rule("every (protocol, operation, refusal reply, position within a batch) is provoked on a model server and followed by 6 honest operations on the same client, each judged against the server's state; plus random sequences with refusals injected at random and sequences of operations a real server refuses; distinct = (protocol, operation, refusal, following operation)")
	var all []c03Pair
	for _, p := range protos {
		for _, k := range allKinds {
			for _, f := range refusals(p, k) {
				all = append(all, c03Pair{p, k, f})
			}
		}
	}
	r.Count("refusal_table_size", int64(len(all)))
	rep := r.N(1, 8)
	r.Cases("table", len(all)*rep, 8, func(c *Case) {
		x := all[c.Idx()%len(all)]
		w := c.world(false)
		g := newSeqGen(w, c.Rng, 4)
		for _, k := range g.keys {
			if c.Rng.Intn(3) != 0 {
				w.be.Put(k, genNumber(c.Rng), c.Rng.Uint32(), 0)
			}
		}
		rounds := 1
		if x.kind == "mget" {
			rounds = 3
		}
		for i := 0; i < rounds; i++ {
			c03Refuse(c, w, g, x, i)
			for j := 0; j < 6; j++ {
				o := g.op(x.proto)
				w.step(x.proto, o)
				if j == 0 {
					c.R.Eval(strings.Join([]string{x.proto, x.kind, x.ref.name, fmt.Sprint(i), o.Kind}, "|"))
				}
			}
			if c.Idx() == 5 && i == 0 {
				c.R.Sample(map[string]any{"protocol": x.proto, "operation": x.kind, "refusal": x.ref.name})
			}
		}
	})
	// batch reads of many and long keys, however they are divided into commands
	r.Cases("batch", r.N(72, 720), 8, func(c *Case) {
		proto := protos[c.Idx()%3]
		n := []int{2, 17, 40, 101, 150, 260, 350}[(c.Idx()/3)%7]
		keylen := pick(c.Rng, 5, 100, 250)
		rs := refusals(proto, "mget")
		w := c.world(false)
		g := newSeqGen(w, c.Rng, 4)
		keys := make([]string, n)
		for i := range keys {
			keys[i] = fmt.Sprintf("%0*d", keylen, i)
			if c.Rng.Intn(2) == 0 {
				w.be.Put(keys[i], fmt.Sprint(i), uint32(i), 0)
			}
		}
		for i := 0; i < 6; i++ {
			x := c03Pair{proto, "mget", rs[c.Rng.Intn(len(rs))]}
			nth := c.Rng.Intn(n + n/100 + 1) // every command of it, the no-ops that end it included
			if c.Rng.Intn(4) == 0 {
				nth = min(n, 100)
			}
			if proto == "text" {
				nth = c.Rng.Intn(1 + n*(keylen+1)/2000)
				if i%2 == 0 {
					nth = 0
				}
			}
			reply := x.ref.reply(Op{Kind: "mget"}, nil, c.Rng)
			hits := refuse(w.ref, nth, reply)
			o := Op{Kind: "mget", Keys: keys}
			res := c.Call(proto, w.cl[proto], o)
			w.ref.SetHook(nil)
			if *hits > 0 {
				c.Logf("  ^ refused with %s at %d", x.ref.name, nth)
				noop := nth%101 == 100 || nth == n+n/100
				// whether a binary batch that lacks nothing fails for its no-op is open
				miss := x.ref.name == "EN" && !noop || proto == "binary" && noop || proto == "binary" && strings.HasPrefix(x.ref.name, "0x1/")
				if res.Err == nil && !miss {
					c.Fail("%s GetMulti of %d keys was refused with %q and reported success: %s", proto, n, x.ref.name, res)
				}
			}
			for j := 0; j < 4; j++ {
				w.step(proto, g.op(proto))
			}
			if i == 2 {
				w.step(proto, o)
			}
			c.R.Eval(strings.Join([]string{"batch", proto, fmt.Sprint(n, keylen, nth, *hits), x.ref.name}, "|"))
		}
	})
	r.Cases("mixed", r.N(60, 1500), 8, func(c *Case) {
		w := c.world(false)
		g := newSeqGen(w, c.Rng, 4)
		for i := 0; i < 40; i++ {
			p := pick(c.Rng, protos...)
			if c.Rng.Intn(3) == 0 {
				k := pick(c.Rng, allKinds...)
				rs := refusals(p, k)
				x := c03Pair{p, k, rs[c.Rng.Intn(len(rs))]}
				c03Refuse(c, w, g, x, c.Rng.Intn(4))
				c.R.Eval("mixed|" + p + k + x.ref.name)
				continue
			}
			w.step(p, g.op(p))
		}
	})
	r.Cases("real", r.N(40, 800), 6, c02Seq(true, true, 60))
}

// c03Refuse performs one refused operation: it must end with an error and change nothing.
func c03Refuse(c *Case, w *World, g *seqGen, x c03Pair, pos int) {
	o := plainOp(c, x.kind, g.keys)
	reply := x.ref.reply(o, nil, c.Rng)
	nth := 0
	prefix := 0
	if x.kind == "mget" {
		if x.proto == "text" {
			prefix = pos // blocks sent before the error line
		} else {
			nth = pos % len(o.Keys)
		}
	}
	if prefix > 0 {
		pre := ""
		for i := 0; i < prefix && i < len(g.keys); i++ {
			pre += fmt.Sprintf("VALUE %s 5 3 77\r\nabc\r\n", g.keys[i])
		}
		reply = append([]byte(pre), reply...)
	}
	hits := refuse(w.ref, nth, reply)
	s0 := w.states()
	res := c.Call(x.proto, w.cl[x.proto], o)
	w.ref.SetHook(nil)
	if *hits == 0 {
		// the client needed no such command
		return
	}
	c.Logf("  ^ refused with %s at %d", x.ref.name, pos)
	if x.ref.name == "EN" && (x.kind == "get" || x.kind == "mget") || x.proto == "binary" && x.kind == "mget" && strings.HasPrefix(x.ref.name, "0x1/") {
		// a miss
	} else if res.Err == nil {
		c.Fail("%s %s was refused with %q and reported success: %s", x.proto, o, x.ref.name, res)
	} else if strings.Contains(x.ref.name, "ERROR") || strings.HasPrefix(x.ref.name, "0x8") || strings.HasPrefix(x.ref.name, "0x4/") || strings.HasPrefix(x.ref.name, "0x3/") || x.ref.name == "BUSY" {
		if res.Class() != "error" {
			c.Fail("%s %s was refused with %q and reported as %s", x.proto, o, x.ref.name, res.Class())
		}
	}
	if x.kind != "mget" {
		for k, s := range s0 {
			if s1 := w.be.Inspect(k); !sameState(s, s1, 0, false) {
				c.Fail("state of %q changed by a refused operation: %s -> %s", k, s, s1)
			}
		}
	}
}
