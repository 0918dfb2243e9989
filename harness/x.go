package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/proxy"
	"go.f110.dev/go-memcached/server"
)

func init() {
	registry["X01"] = checkX01
	registry["X02"] = checkX02
	registry["X03"] = checkX03
}

// ---- a router in this process: the real server, proxy, pool and clients

type routerWorld struct {
	*repWorld
	addr string
}

func (c *Case) routerWorld(pri, sec []Backend, timeout func() time.Duration) *routerWorld {
	w := &routerWorld{repWorld: c.repWorld(pri, sec, timeout)}
	l, err := listenLocal()
	c.Must(err)
	tl := &trackedListener{Listener: l}
	s := &server.Server{Handler: proxy.NewReplicaProxy(w.pool)}
	go s.Serve(tl)
	c.Defer(tl.CloseAll)
	w.addr = l.Addr().String()
	p, _ := w.home(sentinelKey)
	place(p, sentinelKey, sentinelVal, 7, 0)
	return w
}

func (w *routerWorld) stateOf(g map[string]State, key string) (pid, sid string) {
	return fmt.Sprintf("%d|%s", w.pi[w.pr.Pick(key).Name()], key), fmt.Sprintf("%d|%s", len(w.pri)+w.si[w.sr.Pick(key).Name()], key)
}

// untouched: nothing changed anywhere but for the keys given.
func (w *routerWorld) untouched(what string, g0, g1 map[string]State, but ...string) {
	ok := map[string]bool{}
	for _, k := range but {
		p, s := w.stateOf(g0, k)
		ok[p], ok[s] = true, true
	}
	for id, s := range g0 {
		if !ok[id] && !sameState(s, g1[id], w.slack, false) {
			w.c.Fail("%s: changed %s (server|key): %s -> %s", what, id, s, g1[id])
		}
	}
}

// ---- X01

func checkX01(r *Run) {
	r.Rule("random Get, Set (plain and with CAS tokens: current, stale, the secondary's, invented) and batch reads through an in-process router over 1-4 primaries and 1-4 secondaries (model servers with a virtual clock, or real memcached), issued by the repository's text, meta and binary clients or by an independent encoder with every option; each result is judged by memcached's rules from the primary's contents just before and after, a successful Set must be on primary and secondary alike, nothing else may change; distinct = (protocol, operation, result, states)")
	r.Assume("the text protocol's cas command and meta no-op are not among what the router supports")
	r.Cases("client", r.N(120, 2500), 8, func(c *Case) { x01Client(c, false, false) })
	r.Cases("real", r.N(16, 400), 4, func(c *Case) { x01Client(c, true, false) })
	r.Cases("slow", r.N(48, 600), 24, func(c *Case) { x01Client(c, false, true) })
	r.Cases("raw", r.N(160, 3000), 8, func(c *Case) { x01Raw(c, false) })
	r.Cases("rawreal", r.N(16, 400), 4, func(c *Case) { x01Raw(c, true) })
	r.Cases("big", r.N(12, 120), 4, x01Big)
}

func (c *Case) x01World(real bool) *routerWorld {
	np, ns := 1+c.Rng.Intn(4), 1+c.Rng.Intn(4)
	var pri, sec []Backend
	if real {
		np, ns = 1+c.Rng.Intn(2), 1+c.Rng.Intn(2)
		for i := 0; i < np; i++ {
			pri = append(pri, c.real())
		}
		for i := 0; i < ns; i++ {
			sec = append(sec, c.real())
		}
	} else {
		pri, sec = backends(c.refs(np)), backends(c.refs(ns))
		for _, b := range append(append([]Backend(nil), pri...), sec...) {
			if c.Rng.Intn(3) == 0 {
				b.(*RefMC).SetSeg(randSeg(c.Rng.Int63()))
			}
			if c.Rng.Intn(3) == 0 {
				b.(*RefMC).SetCas(pick(c.Rng, uint64(1)<<31, 1<<32, 1<<53, 1<<62, 1<<63, 1<<63+5, uint64(1)<<40))
			}
		}
	}
	return c.routerWorld(pri, sec, c.honest)
}

func (w *routerWorld) seed(keys []string) {
	for _, k := range keys {
		if w.c.Rng.Intn(3) == 0 {
			continue
		}
		p, s := w.home(k)
		v, f := string(genVal(w.c.Rng)), flagVal(genFlags(w.c.Rng))
		ttl := pick[int64](w.c.Rng, 0, 0, 100, 86400, day30-50)
		w.place(p, k, v, f, ttl)
		if w.c.Rng.Intn(3) > 0 {
			w.place(s, k, v, f, ttl)
		} else if w.c.Rng.Intn(2) == 0 {
			w.place(s, k, "stale copy", 1, 0)
		}
	}
}

func x01Client(c *Case, real, slow bool) {
	w := c.x01World(real)
	steps := 30
	if slow { // backends that take up to seconds over some commands
		steps = 14
		next := c.pauses(5 * time.Second)
		for _, b := range w.all() {
			b.(*RefMC).SetHook(c.late(4, next))
		}
	}
	keys := uniqStr(ringKeys(c.Rng, 5, append(append([]string(nil), w.pn...), w.sn...)))
	w.seed(keys)
	cl, addrs := map[string]client.Server{}, map[string]string{}
	for _, p := range protos {
		addrs[p] = w.addr
		if c.Rng.Intn(3) == 0 {
			px := c.SegProxy(w.addr, randSeg(c.Rng.Int63()))
			c.Defer(px.Close)
			addrs[p] = px.Addr()
		}
		cl[p] = c.connect(p, addrs[p], c.honest())
	}
	for i := 0; i < steps; i++ {
		proto := pick(c.Rng, protos...)
		o := w.poolOp(keys, w.now(), w.slack > 0)
		switch {
		case o.Kind == "mget" && proto == "meta", o.Kind == "set" && proto == "text" && o.Cas != 0:
			proto = "binary"
		case o.Kind != "get" && o.Kind != "set" && o.Kind != "mget":
			o = Op{Kind: "get", Key: o.Key}
			if o.Key == "" {
				o.Key = keys[0]
			}
		}
		if proto == "binary" && o.Exp < 0 {
			proto = "meta"
		}
		if w.slack == 0 && c.Rng.Intn(10) == 0 {
			d := pick[int64](c.Rng, 1, 50, 100, 86400)
			for _, b := range w.all() {
				b.(*RefMC).Advance(d)
			}
		}
		if r := x01Step(w, cl[proto], proto, keys, o); r.Class() == "error" { // the router may have closed the connection
			cl[proto] = c.connect(proto, addrs[proto], c.honest())
		}
	}
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"primaries": len(w.pri), "secondaries": len(w.sec), "backends": w.pri[0].Kind(), "log": c.tail(6)})
	}
}

// front is the view of memcached a protocol's client has: what it cannot carry is not judged.
func (w *routerWorld) cx(proto string) stepCtx {
	cx := stepCtx{proto: proto, now: w.now(), slack: w.slack, max: 1024 * 1024}
	if w.slack > 0 {
		cx.max -= 512
	}
	return cx
}

func x01Step(w *routerWorld, s client.Server, proto string, keys []string, o Op) Res {
	c := w.c
	cx := w.cx(proto)
	began := time.Now()
	g0 := w.grid(keys)
	t0 := time.Now().Unix()
	r := c.Call(proto+" client of the router", s, o)
	g1 := w.grid(keys)
	stretch(&w.slack, began)
	cx.slack = w.slack
	drift := w.slack
	if w.slack == 0 {
		drift = time.Now().Unix() - t0 + absdiff(t0, w.now())
	}
	if w.slack == 0 && absdiff(time.Now().Unix(), w.now()) > 2 { // two clocks: an absolute lifetime goes through the wall clock
		cx.slack = 0
	}
	if o.Kind == "mget" {
		st := map[string]State{}
		for _, k := range o.Keys {
			p, _ := w.stateOf(g0, k)
			st[k] = g0[p]
		}
		if y := judgeMulti(o.Keys, r, st, cx); y != "" {
			c.Fail("%s batch read through the router: %s", proto, y)
		}
		w.untouched("a batch read through the router", g0, g1)
		c.R.Eval(fmt.Sprintf("%s|mget|%d|%d", proto, len(o.Keys), len(r.Items)))
		return r
	}
	w.judgeOne(proto+" client: "+o.String(), o, r, g0, g1, cx, drift)
	pid, sid := w.stateOf(g0, o.Key)
	c.R.Eval(fmt.Sprintf("%s|%s%v|%s|%s|%s|%s", proto, o.Kind, o.Cas != 0, r.Class(), stClass(g0[pid]), stClass(g0[sid]), stClass(g1[pid])))
	return r
}

func (w *routerWorld) judgeOne(what string, o Op, r Res, g0, g1 map[string]State, cx stepCtx, drift int64) {
	c := w.c
	pid, sid := w.stateOf(g0, o.Key)
	p0, p1, s0, s1 := g0[pid], g1[pid], g0[sid], g1[sid]
	if y := judge(o, r, p0, p1, cx); y != "" {
		c.Fail("%s: primary: %s", what, y)
	}
	if o.Kind == "get" {
		w.untouched(what, g0, g1)
		c.R.Count("reads_through_the_router", 1)
		return
	}
	w.untouched(what, g0, g1, o.Key)
	switch {
	case r.Err == nil:
		if !alike(p1, s1, max(w.slack, longDrift(p1, drift))) {
			c.Fail("%s succeeded; primary %s, secondary %s", what, p1, s1)
		}
		c.R.Count("successful_sets_compared_on_both_replicas", 1)
	case p0.Ok == p1.Ok && p0.Cas == p1.Cas:
		if !sameState(s0, s1, w.slack, false) {
			c.Fail("%s was refused by the primary (%v) but changed the secondary: %s -> %s", what, r.Err, s0, s1)
		}
		c.R.Count("refusals_through_the_router", 1)
	}
}

// tail is the end of the case's log.
func (c *Case) tail(n int) []string {
	l := c.log
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return append([]string(nil), l...)
}

// rekey gives a request other keys.
func rekey(q *sreq, keys []string) {
	q.keys = keys
	if q.proto == "binary" {
		el := int(q.wire[4])
		kl := int(binary.BigEndian.Uint16(q.wire[2:]))
		ext, val := q.wire[24:24+el], q.wire[24+el+kl:]
		q.wire = binReq(q.bop, q.opaque, q.cas, ext, keys[0], val)
		return
	}
	i := bytes.IndexByte(q.wire, '\r')
	t := strings.Split(string(q.wire[:i]), " ")
	rest := t[2:]
	if q.verb == "mget" || q.verb == "gets" {
		rest = nil
	}
	l := append(append([]string{t[0]}, keys...), rest...)
	q.wire = append([]byte(strings.Join(l, " ")), q.wire[i:]...)
}

func (q *sreq) setCas(cas uint64) {
	q.cas, q.hasCas = cas, cas != 0
	if q.proto == "binary" {
		binary.BigEndian.PutUint64(q.wire[16:], cas)
		return
	}
	i := bytes.IndexByte(q.wire, '\r')
	t := strings.Split(string(q.wire[:i]), " ")
	for j, f := range t {
		if j >= 3 && f[0] == 'C' {
			t[j] = "C" + strconv.FormatUint(cas, 10)
		}
	}
	q.wire = append([]byte(strings.Join(t, " ")), q.wire[i:]...)
	for j, f := range q.mf {
		if f[0] == 'C' {
			q.mf[j] = "C" + strconv.FormatUint(cas, 10)
		}
	}
}

var routerText = []string{"get", "get", "gets", "mget", "set", "set", "mg", "mg", "ms", "ms", "ms"}
var routerBin = []string{"get", "get", "getkq", "set", "set", "noop"}

// genRouter draws a request the router supports.
func (w *routerWorld) genRouter(bin bool, keys []string, g map[string]State) *sreq {
	r := w.c.Rng
	var q *sreq
	if bin {
		q = genBin(r, pick(r, routerBin...))
	} else {
		q = genText(r, pick(r, routerText...))
	}
	if q.verb == "noop" {
		return q
	}
	ks := []string{keys[r.Intn(len(keys))]}
	if q.verb == "gets" || q.verb == "mget" {
		ks = nil
		for _, i := range r.Perm(len(keys))[:1+r.Intn(len(keys))] {
			ks = append(ks, keys[i])
		}
		if q.verb == "mget" && len(ks) < 2 {
			q = genText(r, "get")
		}
	}
	rekey(q, ks)
	if (q.verb == "set" || q.verb == "ms") && (q.hasCas || q.proto == "binary" && q.cas != 0) {
		p, s := w.stateOf(g, ks[0])
		c := q.cas
		switch r.Intn(5) {
		case 0:
			c = g[s].Cas
		case 1, 2, 3:
			c = g[p].Cas
		}
		if c == 0 {
			c = 12345
		}
		q.setCas(c)
	}
	return q
}

type rawFront struct {
	x    net.Conn
	br   *bufio.Reader
	got  []byte
	bin  bool
	n    int
	send func([]byte)
}

const sentinelKey, sentinelVal = "sentinel-key", "the-value-that-marks-the-end"

func (c *Case) rawDial(addr string, bin bool) *rawFront {
	x, err := net.Dial("tcp", addr)
	c.Dialed(err)
	c.Defer(func() { x.Close() })
	f := &rawFront{x: x, br: bufio.NewReader(x), bin: bin}
	return f
}

// exchange sends the requests in pieces, then a request whose answer marks the end, and returns what came before it and whether the connection ended.
func (f *rawFront) exchange(r *rand.Rand, wire []byte) (reply []byte, ended bool) {
	f.n++
	var end, mark []byte
	if f.bin {
		opq := uint32(0xfeed0000 + f.n)
		end = binReq(0x0a, opq, 0, nil, "", nil)
		mark = append([]byte{0x81, 0x0a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, be32(opq)...)
	} else {
		end = []byte("get " + sentinelKey + "\r\n")
		mark = []byte(fmt.Sprintf("VALUE %s 7 %d\r\n%s\r\nEND\r\n", sentinelKey, len(sentinelVal), sentinelVal))
	}
	segs, _ := cut(r, append(append([]byte(nil), wire...), end...), []int{len(wire)})
	go func() {
		for i, s := range segs {
			if _, err := f.x.Write(s); err != nil {
				return
			}
			if i%16 == 0 && len(segs) < 200 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}()
	var b []byte
	buf := make([]byte, 32768)
	for {
		n, err := f.x.Read(buf)
		b = append(b, buf[:n]...)
		if f.bin {
			// the marker is a whole reply of 24 bytes
			if len(b) >= 24 && bytes.Equal(b[len(b)-24:len(b)-8], mark) {
				return b[:len(b)-24], false
			}
		} else if bytes.HasSuffix(b, mark) {
			return b[:len(b)-len(mark)], false
		}
		if err != nil {
			return b, true
		}
	}
}

func x01Raw(c *Case, real bool) {
	w := c.x01World(real)
	keys := uniqStr(ringKeys(c.Rng, 5, append(append([]string(nil), w.pn...), w.sn...)))
	w.seed(keys)
	fr := map[bool]*rawFront{false: c.rawDial(w.addr, false), true: c.rawDial(w.addr, true)}
	for i := 0; i < 25; i++ {
		bin := c.Rng.Intn(2) == 0
		f := fr[bin]
		began := time.Now()
		g0 := w.grid(keys)
		// several requests on keys of their own
		var qs []*sreq
		used := map[string]bool{}
		var wire []byte
		for j, n := 0, 1+c.Rng.Intn(4); j < n; j++ {
			q := w.genRouter(bin, keys, g0)
			bad := false
			for _, k := range q.keys {
				bad = bad || used[k]
			}
			if bad || real && (q.exp > day30 || q.exp > 0 && q.exp < 30 || w.tooLarge(q, 600) != w.tooLarge(q, 0)) {
				continue
			}
			for _, k := range q.keys {
				used[k] = true
			}
			qs = append(qs, q)
			wire = append(wire, q.wire...)
			if w.tooLarge(q, 0) { // the router may close the connection
				break
			}
		}
		if len(qs) == 0 {
			continue
		}
		for _, q := range qs {
			c.Logf("%s", q)
		}
		t0 := time.Now().Unix()
		var reply []byte
		var ended bool
		c.Do("exchange with the router", func() { reply, ended = f.exchange(c.Rng, wire) })
		g1 := w.grid(keys)
		stretch(&w.slack, began)
		drift := w.slack
		if w.slack == 0 {
			drift = time.Now().Unix() - t0 + absdiff(t0, w.now())
		}
		if ended && w.tooLarge(qs[len(qs)-1], 0) {
			fr[bin] = c.rawDial(w.addr, bin)
		} else if ended {
			c.Fail("the router closed the connection on well-formed supported requests; reply so far %s", sh(string(reply)))
		}
		b := reply
		var sets []string
		for _, q := range qs {
			p := w.planOf(q, g0)
			p.slack = w.slack
			if drift > 0 {
				p.far = drift + 3
			}
			if ended && len(b) == 0 && p.kind == "generic" {
				sets = append(sets, q.key())
				continue
			}
			rest, err := decodeReply(q, p, b)
			if err != nil {
				c.Fail("%s (expected %s): %v", q, p.kind, err)
			}
			b = rest
			if q.op == opSet {
				sets = append(sets, q.key())
			}
			c.R.Eval(fmt.Sprintf("raw|%s|%s|%s|%d|%v", q.proto, q.verb, p.kind, len(q.mf), q.quiet))
			c.R.Count("raw_requests_judged", 1)
		}
		if len(b) > 0 {
			c.Fail("surplus bytes from the router: %s", sh(string(b)))
		}
		for _, q := range qs {
			if q.op != opSet {
				continue
			}
			o := Op{Kind: "set", Key: q.key(), Val: q.val, Flags: be32(q.flags), Exp: int(q.exp), Cas: q.cas}
			r := Res{Err: w.planOf(q, g0).err}
			pid, sid := w.stateOf(g0, o.Key)
			if y := judge(o, r, g0[pid], g1[pid], w.cx("meta")); y != "" {
				c.Fail("%s: primary: %s", q, y)
			}
			if r.Err == nil {
				if !alike(g1[pid], g1[sid], max(w.slack, longDrift(g1[pid], drift))) {
					c.Fail("%s succeeded; primary %s, secondary %s", q, g1[pid], g1[sid])
				}
				c.R.Count("successful_sets_compared_on_both_replicas", 1)
			} else if !sameState(g0[sid], g1[sid], w.slack, false) && len(o.Val) < 1<<20 {
				c.Fail("%s was refused but changed the secondary: %s -> %s", q, g0[sid], g1[sid])
			}
		}
		w.untouched("well-formed requests", g0, g1, sets...)
	}
}

// tooLarge: memcached refuses the value (the item with its key and header is to fit, which margin stands for).
func (w *routerWorld) tooLarge(q *sreq, margin int) bool {
	return q.op == opSet && len(q.val) > 1024*1024-margin
}

// planOf is what memcached would answer.
func (w *routerWorld) planOf(q *sreq, g map[string]State) *plan {
	p := &plan{kind: "ok", anyCas: true}
	item := func(k string) *server.Response {
		id, _ := w.stateOf(g, k)
		s := g[id]
		if !s.Ok {
			return nil
		}
		return &server.Response{Key: k, Value: []byte(s.Val), Flags: be32(s.Flags), Cas: int64(s.Cas), TTL: s.TTL}
	}
	switch {
	case q.verb == "noop":
		p.items = []*server.Response{{}}
	case q.verb == "mget" || q.verb == "gets":
		for _, k := range q.keys {
			if x := item(k); x != nil {
				p.items = append(p.items, x)
			}
		}
	case q.op == opGet:
		p.anyCas = false
		if x := item(q.key()); x != nil {
			p.items = []*server.Response{x}
		} else {
			p.kind, p.err = "miss", merrors.ItemNotFound
		}
	default:
		p.items = []*server.Response{{}}
		id, _ := w.stateOf(g, q.key())
		s := g[id]
		switch {
		case w.tooLarge(q, 0):
			p.kind, p.err = "generic", fmt.Errorf("too large")
		case q.cas != 0 && !s.Ok:
			p.kind, p.err = "miss", merrors.ItemNotFound
		case q.cas != 0 && s.Cas != q.cas:
			p.kind, p.err = "exists", merrors.ItemExists
		}
	}
	if p.kind != "ok" {
		p.items = nil
	}
	return p
}

// ---- X02

func checkX02(r *Run) {
	r.Rule("2-12 well-behaved clients of all three protocols issue Gets, Sets, CAS Sets and batch reads concurrently through one in-process router while hostile clients send malformed streams, mutated pipelines and arbitrary binary keys; the clients' history must be linearizable per key with the primaries' final contents, replicas agree, every command the backends executed must be a get or set some client asked for with that key and value; race detector on; distinct = order in which calls started and ended + number of hostile streams")
	r.Cases("stress", r.N(90, 1500), 4, x02Case)
	r.Cases("keys", r.N(40, 600), 8, x02Keys)
	r.Cases("crowd", r.N(6, 60), 2, x02Crowd)
	r.Cases("marathon", 1, 1, x02Marathon)
	r.Cases("hot", r.N(6, 40), 3, x02Hot)
	r.Cases("duel", r.N(12, 64), 4, x02Duel)
	r.Cases("shared", r.N(60, 600), 6, x02Shared)
}

// x02Marathon: a router that lives for more requests than 16 bits can count, from several clients at once.
func x02Marathon(c *Case) {
	pri, sec := c.refs(1), c.refs(2)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	n := c.R.N(24000, 150000)
	atomic.AddInt64(&c.grace, int64(300*time.Second))
	var wg sync.WaitGroup
	for i, proto := range protos {
		i, proto := i, proto
		s := c.connect(proto, w.addr, c.honest())
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := [3]string{}
			for j := 0; j < n; j++ {
				k := j % 3
				key := fmt.Sprintf("%s%d", proto, k)
				o, want := Op{Kind: "get", Key: key}, "get "+mine[k]
				switch {
				case j%7 == 3:
					o, want = Op{Kind: "get", Key: "none" + proto}, "notfound"
				case j%7 == 0 || mine[k] == "":
					mine[k] = fmt.Sprintf("value%d.%d", i, j)
					o, want = Op{Kind: "set", Key: key, Val: []byte(mine[k])}, "ok"
				}
				r := do(s, o)
				got := r.Class()
				if o.Kind == "get" && r.Err == nil && r.Item != nil {
					got = "get " + string(r.Item.Value)
				}
				if got != want {
					c.Report("%s client, request %d: %s returned %s, expected %s", proto, j, o, r, want)
					return
				}
				if j%500 == 0 {
					for _, b := range w.all() {
						b.(*RefMC).ClearLog()
					}
				}
			}
		}()
	}
	c.Do("long conversations through the router", wg.Wait)
	c.R.Count("requests_of_long_lived_clients", int64(3*n))
	c.R.Eval("marathon")
}

type allowed struct {
	mu   sync.Mutex
	gets map[string]bool
	sets map[string]bool
}

func (a *allowed) add(items []sitem) {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, it := range items {
		if it.q == nil {
			continue
		}
		switch it.q.op {
		case opGet:
			for _, k := range it.q.keys {
				a.gets[k] = true
			}
		case opSet:
			a.sets[it.q.key()+"\x00"+short(it.q.val)] = true
		}
	}
}

// check: everything the backends executed was asked for.
func (a *allowed) check(c *Case, w *routerWorld, marks map[Backend]int, mine map[string]bool, his func(cmd Cmd) bool) (n int) {
	for i, b := range w.all() {
		for _, cmd := range b.(*RefMC).LogFrom(marks[b]) {
			n++
			switch cmd.Name {
			case "noop":
				continue
			case "get":
				for _, k := range cmd.Keys {
					if !a.gets[k] && !mine[k] {
						c.Fail("backend %d executed get %q, which no client of the router asked for", i, k)
					}
				}
				if i >= len(w.pri) {
					c.Fail("a secondary was read: %q", cmd.Keys)
				}
				continue
			case "set", "cas":
				k := cmd.Keys[0]
				if a.sets[k+"\x00"+cmd.Val] || mine[k] && his(cmd) {
					continue
				}
				c.Fail("backend %d executed set %q = %s, which no client of the router asked for", i, k, sh(cmd.Val))
			}
			c.Fail("backend %d executed %s %q; no client of the router can ask for that", i, cmd.Name, cmd.Keys)
		}
	}
	return
}

func x02Case(c *Case) {
	np, ns := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3)
	pri, sec := c.refs(np), c.refs(ns)
	for _, m := range append(append([]*RefMC(nil), pri...), sec...) {
		if c.Rng.Intn(3) > 0 {
			m.SetHook(jitter(c.Rng.Int63()))
		}
		if c.Rng.Intn(3) == 0 {
			m.SetSeg(randSeg(c.Rng.Int63()))
		}
	}
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	keys := make([]string, 1+c.Rng.Intn(4))
	mine := map[string]bool{}
	for i := range keys {
		keys[i] = fmt.Sprintf("victim-%d", i)
		mine[keys[i]] = true
	}
	init := map[string]kstate{}
	for _, k := range keys {
		if c.Rng.Intn(2) == 0 {
			p, s := w.home(k)
			place(p, k, "first", 3, 0)
			place(s, k, "first", 3, 0)
			init[k] = kstate{true, "first", 3, 0, 0}
		}
	}
	marks := map[Backend]int{}
	for _, b := range w.all() {
		marks[b] = b.(*RefMC).LogLen()
	}
	var hs []handle
	g := pick(c.Rng, 2, 4, 6, 8, 12)
	for i := 0; i < g; i++ { // one connection each; its own goroutine or shared
		p := protos[i%3]
		hs = append(hs, handle{p, c.connect(p, w.addr, c.honest())})
	}
	// hostile clients
	al := &allowed{gets: map[string]bool{}, sets: map[string]bool{}}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var streams int64
	nh := c.Rng.Intn(5)
	for i := 0; i < nh; i++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				b := hostileStream(r)
				items := parseStream(b)
				fair := true // nobody may complain about a Set its neighbour is entitled to
				for _, it := range items {
					fair = fair && (it.q == nil || it.q.op != opSet || !mine[it.q.key()])
				}
				if !fair {
					continue
				}
				al.add(items)
				x, err := net.Dial("tcp", w.addr)
				if err != nil {
					return
				}
				segs, _ := cut(r, b, nil)
				if len(segs) > 40 {
					segs = [][]byte{b}
				}
				read := make(chan struct{})
				go func() { io.Copy(io.Discard, x); close(read) }()
				for _, s := range segs {
					if _, err := x.Write(s); err != nil {
						break
					}
				}
				if r.Intn(3) == 0 { // gone before the answer
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
					if r.Intn(2) == 0 {
						x.(*net.TCPConn).SetLinger(0)
					}
				} else { // one stream at a time, or the queue of the backends is all anybody sees
					x.(*net.TCPConn).CloseWrite()
					select {
					case <-read:
					case <-time.After(time.Second):
					}
				}
				x.Close()
				atomic.AddInt64(&streams, 1)
			}
		}()
	}
	h := newHistory(c)
	mix := pick(c.Rng, "get,set", "get,set,cas", "set", "get,set,mget,cas", "get,get,get,set")
	kinds := strings.Split(mix, ",")
	c.stressX(h, hs, keys, 8+c.Rng.Intn(100/g+1), kinds)
	close(stop)
	c.Do("hostile clients", wg.Wait)
	final := map[string]State{}
	for _, k := range keys {
		p, s := w.home(k)
		final[k] = p.Inspect(k)
		if !alike(final[k], s.Inspect(k), 0) {
			c.Fail("all Sets through the router returned; key %q: primary %s, secondary %s", k, final[k], s.Inspect(k))
		}
	}
	for _, e := range h.ev {
		if e.Res.Class() == "error" {
			c.Fail("%s failed on a healthy router", e)
		}
	}
	h.check(false, init, final)
	asked := map[string]bool{}
	for _, e := range h.ev {
		if e.Op.Kind == "set" {
			asked[e.Op.Key+"\x00"+short(e.Op.Val)] = true
		}
	}
	n := al.check(c, w, marks, mine, func(cmd Cmd) bool { return asked[cmd.Keys[0]+"\x00"+cmd.Val] })
	c.R.Count("backend_commands_attributed", int64(n))
	c.R.Count("hostile_streams", streams)
	c.R.Count("calls_checked", int64(len(h.ev)))
	c.R.Eval(fmt.Sprintf("%d%s%s|%d", nh, mix, h.sig(), streams))
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"clients": g, "hostile_clients": nh, "operations": mix, "first_calls": evStrings(h.ev, 4)})
	}
}

// stressX gives every goroutine its own client; what a protocol cannot do through the router becomes a get.
func (c *Case) stressX(h *History, hs []handle, keys []string, ops int, kinds []string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	vlen := pick(c.Rng, 0, 0, 40, 6000)
	for i, x := range hs {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func(i int, x handle) {
			defer wg.Done()
			g := &loadGen{r: r, who: i, keys: keys, toks: map[string]uint64{}, kinds: kinds, vlen: vlen}
			<-start
			for j := 0; j < ops; j++ {
				o := g.next()
				if o.Kind == "mget" && x.proto == "meta" {
					o = Op{Kind: "get", Key: keys[r.Intn(len(keys))]}
				}
				if o.Kind == "set" && x.proto == "text" {
					o.Cas = 0
				}
				g.learn(o, h.do(i, x.proto, x.kv, o))
				if r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				}
			}
		}(i, x)
	}
	c.Do("concurrent calls through the router", func() { close(start); wg.Wait() })
}

func routerKey(r *rand.Rand) string {
	base := pick(r, "victim-0", "victim-1", "k", "")
	switch r.Intn(6) {
	case 0:
		return base + pick(r, "\r\n", "\n", " ", "\r", "\t", "\x00", "\x7f") + pick(r, "set victim-0 0 0 5\r\nhello", "ms victim-0 5\r\nhello\r\n", "md victim-0", "flush_all", "mn", "mg victim-1 v", " v", "x")
	case 1:
		return string(rbytes(r, 1+r.Intn(60)))
	case 2:
		return strings.Repeat("k", pick(r, 1, 249, 250, 251, 300, 4000))
	case 3:
		return pick(r, "victim-0 b", "dmljdGltLTA= b", "k v", "a b", " ", "\r\n", "é", "\xff\xfe", "victim-0\r\n", "victim-0 T1", "k 5 T1", "5")
	}
	return base + string(rbytes(r, r.Intn(4)))
}

func hostileStream(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return []byte(hostile[r.Intn(len(hostile))])
	case 1, 2:
		bin := r.Intn(2) == 0
		b := s03Pipeline(r, bin, 1+r.Intn(4))
		b, _ = mutate(r, b, bin)
		return b
	case 3:
		var b []byte
		for i := 0; i < 1+r.Intn(5); i++ {
			k := routerKey(r)
			switch r.Intn(4) {
			case 0:
				b = append(b, binReq(0, 1, 0, nil, k, nil)...)
			case 1:
				b = append(b, binReq(0x0d, 1, 0, nil, k, nil)...)
			case 2:
				b = append(b, binReq(1, 1, uint64(r.Intn(3)), make([]byte, 8), k, rbytes(r, r.Intn(40)))...)
			default:
				b = append(b, binReq(pick[byte](r, 2, 3, 4, 5, 6, 8, 0x0b, 0x1c, 7), 1, 0, nil, k, nil)...)
			}
		}
		return b
	case 4:
		return s03Pipeline(r, r.Intn(2) == 0, 1+r.Intn(5))
	}
	// values that look like commands, keys that are not the victims'
	v := pick(r, "set victim-0 0 0 1\r\nx\r\n", "ms victim-0 1\r\nx\r\n", "HD\r\n", "EN\r\n", "VA 3 f0 c1\r\nabc\r\n", "END\r\n", "STORED\r\n", "mn\r\n", strings.Repeat("HD\r\n", 500))
	if r.Intn(2) == 0 {
		return []byte(fmt.Sprintf("set h%d %d 0 %d\r\n%s\r\nget h1 h2 h3\r\nmg h1 v f c t\r\n", r.Intn(5), r.Uint32(), len(v), v))
	}
	return append(binReq(1, 1, 0, make([]byte, 8), fmt.Sprintf("h%d", r.Intn(5)), []byte(v)), binReq(0, 2, 0, nil, "h1", nil)...)
}

// x02Keys: one key at a time, exactly.
func x02Keys(c *Case) {
	pri, sec := c.refs(1+c.Rng.Intn(2)), c.refs(1)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	for _, k := range []string{"victim-0", "victim-1"} {
		p, s := w.home(k)
		place(p, k, "mine", 3, 0)
		place(s, k, "mine", 3, 0)
	}
	by := c.connect(pick(c.Rng, protos...), w.addr, c.honest())
	for i := 0; i < 25; i++ {
		b := hostileStream(c.Rng)
		al := &allowed{gets: map[string]bool{"bystander": true}, sets: map[string]bool{}}
		al.add(parseStream(b))
		marks := map[Backend]int{}
		for _, m := range w.all() {
			marks[m] = m.(*RefMC).LogLen()
		}
		snap := map[string]State{}
		for _, k := range []string{"victim-0", "victim-1"} {
			p, _ := w.home(k)
			snap[k] = p.Inspect(k)
		}
		x, err := net.Dial("tcp", w.addr)
		c.Dialed(err)
		x.Write(b)
		x.(*net.TCPConn).CloseWrite()
		c.Logf("hostile stream %q", trunc(b))
		var out []byte
		c.Do("the end of a hostile client", func() { out, _ = io.ReadAll(x) })
		x.Close()
		n := al.check(c, w, marks, map[string]bool{}, func(Cmd) bool { return false })
		for k, s := range snap {
			p, _ := w.home(k)
			if t := p.Inspect(k); !sameState(s, t, 0, false) && !al.sets[k+"\x00"+short([]byte(t.Val))] {
				c.Fail("stream %q changed %q from %s to %s", trunc(b), k, s, t)
			}
		}
		r := c.Call("bystander", by, Op{Kind: "get", Key: "bystander"})
		if r.Class() != "notfound" {
			c.Fail("after stream %q another client of the router gets %s for an absent key", trunc(b), r)
		}
		c.R.Count("hostile_streams_alone", 1)
		c.R.Count("backend_commands_attributed", int64(n))
		c.R.Eval(fmt.Sprintf("keys|%d|%d|%d", len(b), n, len(out)))
	}
}

// x02Crowd: many connections at once, each with keys of its own.
func x02Crowd(c *Case) {
	pri, sec := c.refs(2), c.refs(2)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	n := 60
	var wg sync.WaitGroup
	errs := make(chan string, n)
	ops := c.R.N(25, 100)
	for i := 0; i < n; i++ {
		wg.Add(1)
		p := protos[i%3]
		s := c.connect(p, w.addr, c.honest())
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func(i int) {
			defer wg.Done()
			last := map[string]Op{}
			for j := 0; j < ops; j++ {
				k := fmt.Sprintf("own-%d-%d", i, r.Intn(3))
				if r.Intn(2) == 0 {
					o := Op{Kind: "set", Key: k, Val: []byte(fmt.Sprintf("%d.%d.%s", i, j, strings.Repeat("z", r.Intn(300)))), Flags: be32(r.Uint32())}
					if x := do(s, o); x.Err != nil {
						errs <- fmt.Sprintf("%s client %d: %s -> %s", p, i, o, x)
						return
					}
					last[k] = o
					continue
				}
				x := do(s, Op{Kind: "get", Key: k})
				o, ok := last[k]
				if !ok && x.Class() != "notfound" || ok && (x.Err != nil || x.Item.Key != k || !bytes.Equal(x.Item.Value, o.Val) || flagVal(x.Item.Flags) != flagVal(o.Flags)) {
					errs <- fmt.Sprintf("%s client %d: get %q -> %s; it had stored %s", p, i, k, x, o)
					return
				}
			}
		}(i)
	}
	c.Do("a crowd of clients", wg.Wait)
	select {
	case e := <-errs:
		c.Fail("keys only one client uses: %s", e)
	default:
	}
	c.R.Count("calls_on_private_keys", int64(n*ops))
	c.R.Eval("crowd")
}

// ---- X03

func checkX03(r *Run) {
	r.Rule("every command of the text, meta and binary protocols outside get and set, and every failure of a backend (down, cut before, after or inside the exchange, stalled past the timeout, refusing, garbage) during supported requests of each protocol, through an in-process router; the client must be sent an error or be disconnected, never a success, a hit, a miss or nothing; backends keep their contents; bystanders and keys of healthy backends are served; distinct = (protocol, command or failure, role, outcome)")
	r.Cases("unsupported", r.N(60, 600), 8, x03Unsupported)
	r.Cases("fault", r.N(400, 6000), 8, x03Fault)
	r.Cases("again", r.N(32, 240), 6, x03Again)
}

func x03Commands(r *rand.Rand) (r2 []*sreq) {
	for _, v := range textVerbs {
		switch v {
		case "get", "gets", "mget", "set", "mg", "ms":
			continue
		}
		r2 = append(r2, genText(r, v))
	}
	for _, v := range binVerbs {
		switch v {
		case "get", "getkq", "set", "noop":
			continue
		}
		r2 = append(r2, genBin(r, v))
	}
	for _, l := range []string{"cas k 0 0 1 5\r\nx\r\n", "append k 0 0 1\r\nx\r\n", "prepend k 0 0 1\r\nx\r\n", "gat 10 k\r\n", "gats 10 k\r\n", "mn\r\n", "ma k\r\n", "ma k N0 J5 v\r\n", "me k\r\n", "md k q\r\n", "md k I\r\n", "md k C5\r\n", "ms k 1 MA\r\nx\r\n", "ms k 1 MP\r\nx\r\n", "ms k 1 ME\r\nx\r\n", "ms k 1 MR\r\nx\r\n", "ms a2V5 1 b\r\nx\r\n", "mg a2V5 b v\r\n",
		"mg k v T30\r\n", "mg k T0 v f c t\r\n", "mg missing N30 v\r\n", "mg k N0 v\r\n", "mg k v t R40\r\n", "mg k v c E5\r\n", "mg k T30\r\n", "ms k 1 E5\r\nx\r\n", "ms k 1 T0 E77 F1\r\nx\r\n", "stats\r\n", "stats items\r\n", "verbosity 1\r\n", "flush_all 10\r\n", "flush_all noreply\r\n", "delete k noreply\r\n", "delete k 0\r\n", "incr k 1 noreply\r\n", "touch k 1 noreply\r\n", "add k 0 0 1 noreply\r\nx\r\n", "cache_memlimit 5\r\n", "slabs reassign 1 2\r\n", "lru tune 1 2\r\n", "shutdown\r\n", "unknown\r\n", "GET k\r\n", "SET k 0 0 1\r\nx\r\n"} {
		r2 = append(r2, &sreq{proto: "text", verb: strings.Fields(l)[0], wire: []byte(l), keys: []string{"k"}})
	}
	for _, op := range []byte{0x07, 0x09, 0x0c, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1d, 0x1e, 0x20, 0x21, 0x22, 0x23, 0x24, 0x30, 0x40, 0x90, 0xff} {
		ext, val := []byte(nil), []byte(nil)
		switch op {
		case 0x11, 0x12, 0x13:
			ext, val = make([]byte, 8), []byte("x")
		case 0x15, 0x16:
			ext = make([]byte, 20)
		case 0x0e, 0x0f, 0x19, 0x1a:
			val = []byte("x")
		case 0x1d, 0x1e, 0x24, 0x23:
			ext = make([]byte, 4)
		}
		r2 = append(r2, &sreq{proto: "binary", verb: fmt.Sprintf("op%#x", op), bop: op, wire: binReq(op, 3, 0, ext, "k", val), keys: []string{"k"}})
	}
	return
}

func x03Unsupported(c *Case) {
	pri, sec := c.refs(1+c.Rng.Intn(2)), c.refs(1+c.Rng.Intn(2))
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	keys := []string{"k", "key", "other"}
	put := func() {
		for _, k := range keys {
			p, s := w.home(k)
			place(p, k, "17", 3, 0)
			place(s, k, "17", 3, 0)
		}
	}
	put()
	by := c.connect(pick(c.Rng, protos...), w.addr, c.honest())
	cmds := x03Commands(c.Rng)
	for i := range cmds {
		q := cmds[i]
		g0 := w.grid(keys)
		marks := map[Backend]int{}
		for _, m := range w.all() {
			marks[m] = m.(*RefMC).LogLen()
		}
		if len(q.keys) == 1 && q.op != 0 && c.Rng.Intn(2) == 0 { // a key that is there
			rekey(q, []string{pick(c.Rng, keys...)})
		}
		f := c.rawDial(w.addr, q.proto == "binary")
		before := c.Rng.Intn(2) == 0
		if before { // on a connection that already works
			var rep []byte
			var end bool
			wire := []byte("get other\r\n")
			if f.bin {
				wire = binReq(0, 77, 0, nil, "other", nil)
			}
			c.Do("a get through the router", func() { rep, end = f.exchange(c.Rng, wire) })
			if end || len(rep) < 10 {
				c.Fail("get through the router: %s, ended %v", sh(string(rep)), end)
			}
		}
		c.Logf("%s", q)
		follow := c.Rng.Intn(2) == 0
		wire := q.wire
		x := f.x
		x.Write(wire)
		if follow {
			if f.bin {
				x.Write(binReq(0, 78, 0, nil, "other", nil))
			} else {
				x.Write([]byte("get other\r\n"))
			}
		}
		// an error or the end
		var mu sync.Mutex
		var b []byte
		ended := false
		go func() {
			buf := make([]byte, 4096)
			for {
				n, err := x.Read(buf)
				mu.Lock()
				b = append(b, buf[:n]...)
				if err != nil {
					ended = true
					mu.Unlock()
					return
				}
				mu.Unlock()
			}
		}()
		look := func() ([]byte, bool) { mu.Lock(); defer mu.Unlock(); return append([]byte(nil), b...), ended }
		if !c.eventually("an answer to an unsupported command", func() bool { b, e := look(); return e || len(b) >= 24 || !f.bin && bytes.HasSuffix(b, []byte("\r\n")) }) {
			b, _ := look()
			c.Fail("the router answers %s with silence (%q)", q, b)
		}
		out, end := look()
		if len(out) > 0 && !failReply(f.bin, out) {
			c.Fail("the router answered %s with %s", q, sh(string(out)))
		}
		x.Close()
		g1 := w.grid(keys)
		w.untouched(q.String(), g0, g1)
		for i, m := range w.all() {
			for _, cmd := range m.(*RefMC).LogFrom(marks[m]) {
				if cmd.Name != "noop" && (cmd.Name != "get" || !has([]string{"other"}, cmd.Keys[0]) && cmd.Keys[0] != sentinelKey) {
					c.Fail("%s made backend %d execute %s %q", q, i, cmd.Name, cmd.Keys)
				}
			}
		}
		r := c.Call("bystander", by, Op{Kind: "get", Key: "other"})
		if r.Err != nil || string(r.Item.Value) != "17" {
			c.Fail("after %s another client of the router gets %s", q, r)
		}
		c.R.Count("unsupported_commands_tried", 1)
		c.R.Eval(fmt.Sprintf("%s|%s|%v|%v|%v", q.proto, q.verb, before, end, len(out) > 0))
	}
}

// failReply: the bytes begin with an error.
func failReply(bin bool, b []byte) bool {
	if bin {
		return len(b) >= 24 && b[0] == 0x81 && (b[6] != 0 || b[7] != 0) && !(b[6] == 0 && b[7] == 1)
	}
	l := string(b)
	if i := strings.Index(l, "\r\n"); i >= 0 {
		l = l[:i]
	}
	return isErrLine(l)
}

func x03Fault(c *Case) {
	np, ns := 1+c.Rng.Intn(3), 1+c.Rng.Intn(3)
	pri, sec := c.refs(np), c.refs(ns)
	w := c.routerWorld(backends(pri), backends(sec), c.honest)
	keys := uniqStr(ringKeys(c.Rng, pick(c.Rng, 5, 5, 12, 40, 130), append(append([]string(nil), w.pn...), w.sn...)))
	for _, k := range keys {
		p, s := w.home(k)
		place(p, k, "value of "+k, 3, 0)
		place(s, k, "value of "+k, 3, 0)
	}
	verbs := []string{"text get", "text gets", "text mget", "text set", "meta mg", "meta ms", "binary get", "binary getkq", "binary set"}
	vb := strings.Fields(verbs[c.Idx()%len(verbs)])
	bin := vb[0] == "binary"
	var q *sreq
	for {
		if bin {
			q = genBin(c.Rng, vb[1])
		} else {
			q = genText(c.Rng, vb[1])
		}
		if len(q.val) < 10000 && !q.hasCas {
			break
		}
	}
	ks := []string{keys[0]}
	switch vb[1] {
	case "mget", "gets":
		ks = keys[:1+c.Rng.Intn(len(keys))]
		if vb[1] == "mget" && len(ks) < 2 {
			ks = keys
		}
		if len(ks) < 2 {
			vb[1], q = "get", genText(c.Rng, "get")
		}
	case "mg":
		if c.Rng.Intn(3) == 0 {
			w.drop(ks[0])
		}
	case "get", "getkq":
		if c.Rng.Intn(4) == 0 {
			w.drop(ks[0])
		}
	}
	rekey(q, ks)
	if q.op == opSet {
		q.setCas(0)
	}
	pb, sb := w.home(ks[c.Rng.Intn(len(ks))])
	p, s := pb.(*RefMC), sb.(*RefMC)
	onPri := c.Idx()/len(verbs)%2 == 0
	t, tc := s, w.scl
	ti := 0
	if onPri {
		t, tc = p, w.pcl
	}
	for i, b := range map[bool][]Backend{true: w.pri, false: w.sec}[onPri] {
		if b == Backend(t) {
			ti = i
		}
	}
	modes := []string{"refuse", "protocol", "cutbefore", "cutafter", "reply", "down", "garbage", "stall"}
	mode := modes[c.Idx()/len(verbs)/2%len(modes)]
	var hit int32
	on := func(a func(cmd *Cmd) *Act) {
		t.SetHook(func(cmd *Cmd) *Act {
			if cmd.Name == "noop" {
				return nil
			}
			x := a(cmd)
			if x != nil {
				atomic.StoreInt32(&hit, 1)
			}
			return x
		})
	}
	var ft *Fault
	switch mode {
	case "refuse":
		l := pick(c.Rng, "SERVER_ERROR out of memory storing object", "ERROR", "CLIENT_ERROR bad data chunk", "SERVER_ERROR")
		on(func(*Cmd) *Act { return &Act{NoApply: true, Reply: []byte(l + "\r\n")} })
	case "protocol": // refusals that are not failures of the backend
		l := pick(c.Rng, "NS", "EX", "NF")
		on(func(cmd *Cmd) *Act {
			if cmd.Name == "get" {
				return &Act{NoApply: true, Reply: []byte("XX what\r\n")}
			}
			return &Act{NoApply: true, Reply: []byte(l + "\r\n")}
		})
	case "cutbefore":
		on(func(*Cmd) *Act { return &Act{NoApply: true, Close: true} })
	case "cutafter":
		on(func(*Cmd) *Act { return &Act{Close: true} })
	case "reply":
		ft = NewFault()
		ft.OutAfter = c.Rng.Intn(5)
		t.Arm(ft)
	case "garbage":
		g := append([]byte{'#'}, rbytes(c.Rng, c.Rng.Intn(30))...)
		g = append(g, "\r\n"...)
		on(func(*Cmd) *Act { return &Act{NoApply: true, Reply: g} })
	case "stall":
		ch := make(chan struct{})
		c.Defer(func() { close(ch) })
		setTimeout(tc[ti], 200*time.Millisecond)
		if c.Rng.Intn(2) == 0 {
			on(func(*Cmd) *Act { return &Act{Gate: ch, NoApply: true} })
		} else {
			on(func(*Cmd) *Act { return &Act{After: ch} })
		}
	case "down":
		t.SetDown()
		hit = 1
	}
	needed := onPri || q.op == opSet
	role := map[bool]string{true: "primary", false: "secondary"}[onPri]
	by := c.connect(pick(c.Rng, protos...), w.addr, c.honest())
	var healthy []string
	for _, k := range keys {
		a, b := w.home(k)
		if a != Backend(t) && b != Backend(t) {
			healthy = append(healthy, k)
		}
	}
	f := c.rawDial(w.addr, bin)
	g0 := w.grid(keys)
	mp, ms := p.LogLen(), s.LogLen()
	c.Logf("%s; %s %s", q, role, mode)
	f.x.Write(q.wire)
	var mu sync.Mutex
	var b []byte
	ended := false
	go func() {
		buf := make([]byte, 65536)
		for {
			n, err := f.x.Read(buf)
			mu.Lock()
			b = append(b, buf[:n]...)
			if err != nil {
				ended = true
			}
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	look := func() ([]byte, bool) { mu.Lock(); defer mu.Unlock(); return append([]byte(nil), b...), ended }
	isHit := func() bool {
		if ft != nil {
			return atomic.LoadInt32(&ft.Hit) == 1
		}
		return atomic.LoadInt32(&hit) == 1
	}
	pl := w.planOf(q, g0)
	pl.far = 3
	complete := func(b []byte) bool {
		if silent(q, pl) {
			return false
		}
		_, err := decodeReply(q, pl, b)
		return err == nil
	}
	what := fmt.Sprintf("%s while the %s fails (%s)", q, role, mode)
	quietOK := !needed && silent(q, pl)
	if !quietOK && !c.eventually("an answer", func() bool {
		b, e := look()
		return e || complete(b) || len(b) > 0 && failReply(bin, b) || (bin && len(b) >= 24 || !bin && bytes.HasSuffix(b, []byte("\r\n")))
	}) {
		b, _ := look()
		if !isHit() && silent(q, pl) {
			quietOK = true // the failure never struck and nothing was to be said
		} else {
			c.Fail("%s: the router says nothing, reply so far %q", what, trunc(b))
		}
	}
	time.Sleep(200 * time.Microsecond)
	out, end := look()
	t.SetHook(nil)
	g1 := w.grid(keys)
	struck := isHit() && needed
	if struck && mode == "protocol" && q.op == opSet {
		// any refusal will do, success will not
		if complete(out) && pl.kind == "ok" {
			c.Fail("%s: the router reports success: %s", what, sh(string(out)))
		}
	} else if struck {
		if len(out) > 0 && !failReply(bin, out) {
			// a batch may have begun
			if !(len(out) > 0 && end && !complete(out) && (vb[1] == "mget" || vb[1] == "gets")) {
				c.Fail("%s: the router answers %s", what, sh(string(out)))
			}
		}
		if len(out) == 0 && !end {
			c.Fail("%s: the router says nothing", what)
		}
	} else if !quietOK && !complete(out) {
		c.Fail("%s, which the request does not need: expected %s, got %s (ended %v)", what, pl.kind, sh(string(out)), end)
	}
	// what happened behind
	if q.op != opSet {
		w.untouched(what, g0, g1)
		for _, m := range w.all() {
			for _, cmd := range m.(*RefMC).LogFrom(0) {
				if cmd.Name != "get" && cmd.Name != "noop" {
					c.Fail("%s: a backend executed %s %q", what, cmd.Name, cmd.Keys)
				}
			}
		}
	} else {
		w.untouched(what, g0, g1, q.key())
		ep, es := executed(p, mp, q.key()), executed(s, ms, q.key())
		if ep.writes > 1 || es.writes > 1 {
			c.Fail("%s: the write was sent %d times to the primary and %d times to the secondary", what, ep.writes, es.writes)
		}
		if struck && onPri && es.writes > 0 {
			c.Fail("%s: the secondary was written", what)
		}
		if complete(out) && pl.kind == "ok" && (ep.applied != 1 || es.applied != 1) {
			c.Fail("%s: reported success; executed %d times on the primary, %d on the secondary", what, ep.applied, es.applied)
		}
	}
	// others and later requests
	for _, k := range healthy {
		a, _ := w.home(k)
		x := Op{Kind: "get", Key: k}
		r := c.Call("bystander", by, x)
		if y := judge(x, r, a.Inspect(k), a.Inspect(k), stepCtx{proto: "text", now: w.now(), max: 1 << 20}); y != "" {
			c.Fail("after %s, another client reading a key of healthy backends: %s", what, y)
		}
		x = Op{Kind: "set", Key: k, Val: []byte("later"), Flags: be32(9)}
		a0 := a.Inspect(k)
		r = c.Call("bystander", by, x)
		if y := judge(x, r, a0, a.Inspect(k), stepCtx{proto: "text", now: w.now(), max: 1 << 20}); y != "" {
			c.Fail("after %s, another client writing a key of healthy backends: %s", what, y)
		}
		c.R.Count("later_calls_on_healthy_backends", 2)
	}
	if !onPri { // the primary is fine: reads go on
		a0 := p.Inspect(ks[0])
		pb0, _ := w.home(ks[0])
		a0 = pb0.Inspect(ks[0])
		x := Op{Kind: "get", Key: ks[0]}
		r := c.Call("bystander", by, x)
		if y := judge(x, r, a0, pb0.Inspect(ks[0]), stepCtx{proto: "text", now: w.now(), max: 1 << 20}); y != "" {
			c.Fail("after %s, reading from the healthy primary: %s", what, y)
		}
	}
	c.R.Count("backend_failures_struck", map[bool]int64{true: 1}[struck])
	c.R.Eval(fmt.Sprintf("%s|%s|%s|%s|%v|%v|%v|%s", q.proto, q.verb, role, mode, struck, end, len(out) > 0, pl.kind))
}

func (w *routerWorld) drop(key string) {
	p, s := w.home(key)
	lose(p, key)
	lose(s, key)
}
