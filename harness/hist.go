package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

// Event is one call of a concurrent history.
type Event struct {
	Who       int
	Proto     string
	Op        Op
	Res       Res
	Call, Ret int64
}

func (e Event) String() string {
	return fmt.Sprintf("[%d..%d] g%d %s.%s -> %s", e.Call/1000, e.Ret/1000, e.Who, e.Proto, e.Op, e.Res)
}

type kstate struct {
	ok    bool
	val   string
	flags uint32
	tok   uint64
	pad   int // the value may have spaces after it, up to this length: memcached pads counters that lose digits, unless they are being read
}

// is says whether a value read may be that of the state.
func (s kstate) is(val string) bool {
	return val == s.val || s.pad > 0 && len(val) > len(s.val) && len(val) <= s.pad && strings.TrimRight(val, " ") == s.val
}

type kin struct {
	proto string
	op    Op
}
type kout struct {
	class string
	val   string
	flags uint32
	tok   uint64
	n     int64
}

// loose: tokens are not compared (a proxy may hide them)
func keyModel(loose bool) porcupine.Model {
	return porcupine.Model{
		Init:  func() interface{} { return kstate{} },
		Equal: func(a, b interface{}) bool { return a == b },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s, in, out := state.(kstate), input.(kin), output.(kout)
			o := in.op
			isErr := out.class
			store := kstate{true, string(o.Val), flagVal(o.Flags), 0, 0}
			switch o.Kind {
			case "get":
				if !s.ok {
					return isErr == "notfound", s
				}
				if isErr != "ok" || !s.is(out.val) || out.flags != s.flags {
					return false, s
				}
				s.val, s.pad = out.val, 0
				if !loose {
					if s.tok != 0 && s.tok != out.tok {
						return false, s
					}
					s.tok = out.tok
				}
				return true, s
			case "set":
				if o.Cas == 0 {
					return isErr == "ok", store
				}
				if !s.ok {
					return isErr == "notfound", s
				}
				if s.tok != o.Cas {
					return isErr == "exists", s
				}
				return isErr == "ok", store
			case "add":
				if s.ok {
					return isErr == "exists", s
				}
				return isErr == "ok", store
			case "replace":
				if !s.ok {
					return isErr == "notfound", s
				}
				return isErr == "ok", store
			case "delete":
				if !s.ok {
					return isErr == "notfound" || in.proto == "meta" && isErr == "ok", s
				}
				return isErr == "ok", kstate{}
			case "flush":
				return isErr == "ok", kstate{}
			case "touch":
				if !s.ok {
					return isErr == "notfound", s
				}
				return isErr == "ok", s
			case "incr", "decr":
				if !s.ok {
					if in.proto == "binary" {
						return isErr == "ok" && out.n == 1, kstate{true, "1", 0, 0, 0}
					}
					return isErr == "notfound", s
				}
				n, ok := parseCounter(s.val)
				if !ok {
					return isErr == "error", s
				}
				d := uint64(o.Delta)
				if o.Kind == "incr" {
					n += d
				} else if d > n {
					n = 0
				} else {
					n -= d
				}
				v := strconv.FormatUint(n, 10)
				return isErr == "ok" && uint64(out.n) == n, kstate{true, v, s.flags, 0, max(len(s.val), s.pad)}
			}
			return false, s
		},
		DescribeOperation: func(input, output interface{}) string {
			return fmt.Sprintf("%s.%s -> %+v", input.(kin).proto, input.(kin).op, output)
		},
	}
}

// History records concurrent calls.
type History struct {
	c    *Case
	t0   time.Time
	mu   sync.Mutex
	ev   []Event
	bad  string
	infl int32
	over int64 // calls that found another in flight
	max  int32
}

func newHistory(c *Case) *History { return &History{c: c, t0: time.Now()} }

func (h *History) do(who int, proto string, s KV, o Op) Res {
	n := atomic.AddInt32(&h.infl, 1)
	if n > 1 {
		atomic.AddInt64(&h.over, 1)
	}
	for {
		m := atomic.LoadInt32(&h.max)
		if n <= m || atomic.CompareAndSwapInt32(&h.max, m, n) {
			break
		}
	}
	a := int64(time.Since(h.t0))
	r := do(s, o)
	b := int64(time.Since(h.t0))
	atomic.AddInt32(&h.infl, -1)
	atomic.AddInt64(&h.c.beats, 1)
	h.mu.Lock()
	h.ev = append(h.ev, Event{who, proto, o, r, a, b})
	h.mu.Unlock()
	return r
}

// signature of the order in which calls started and ended, by kind and goroutine.
func (h *History) sig() string {
	type pt struct {
		t int64
		s string
	}
	var ps []pt
	for _, e := range h.ev {
		ps = append(ps, pt{e.Call, fmt.Sprintf("(%d%s%s", e.Who, e.Op.Kind, e.Op.Key)}, pt{e.Ret, fmt.Sprintf(")%d%s", e.Who, e.Res.Class())})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].t < ps[j].t })
	s := ""
	for _, p := range ps {
		s += p.s
	}
	return s
}

func outOf(r Res) kout {
	o := kout{class: r.Class(), n: r.N}
	if r.Item != nil && r.Err == nil {
		o.val, o.flags, o.tok = string(r.Item.Value), flagVal(r.Item.Flags), r.Item.Cas
	}
	return o
}

// check decides linearizability per key. final: states read after all calls had returned.
func (h *History) check(loose bool, init map[string]kstate, final map[string]State) {
	c := h.c
	per := map[string][]porcupine.Operation{}
	evs := map[string][]Event{}
	var flushes []Event
	add := func(k string, e Event, in kin, out kout) {
		per[k] = append(per[k], porcupine.Operation{ClientId: e.Who, Input: in, Call: e.Call, Output: out, Return: e.Ret})
		evs[k] = append(evs[k], e)
	}
	toks := map[string]map[uint64]string{}
	seen := func(k string, e Event, tok uint64, val string) {
		if loose {
			return
		}
		if toks[k] == nil {
			toks[k] = map[uint64]string{}
		}
		if v, ok := toks[k][tok]; ok && v != val {
			c.Fail("key %q: one CAS token %d read with two values %s and %s (%s)", k, tok, sh(v), sh(val), e)
		}
		toks[k][tok] = val
	}
	for k, s := range init {
		if s.ok {
			op := Op{Kind: "set", Key: k, Val: []byte(s.val), Flags: be32(s.flags)}
			add(k, Event{Who: 9999, Op: op}, kin{"text", op}, kout{class: "ok"})
			per[k][len(per[k])-1].Call, per[k][len(per[k])-1].Return = -10, -9
		}
	}
	for _, e := range h.ev {
		switch e.Op.Kind {
		case "version":
			if e.Res.Err != nil {
				c.Fail("%s failed on a healthy server", e)
			}
		case "flush":
			flushes = append(flushes, e)
		case "mget":
			if e.Res.Err != nil {
				c.Fail("%s failed on a healthy server", e)
			}
			got := map[string]int{}
			for i, it := range e.Res.Items {
				if it == nil {
					c.Fail("%s: nil item", e)
				}
				got[it.Key] = i + 1
			}
			done := map[string]bool{}
			n := 0
			for _, k := range e.Op.Keys {
				if done[k] {
					continue
				}
				done[k] = true
				out := kout{class: "notfound"}
				if i := got[k]; i > 0 {
					out = outOf(Res{Item: e.Res.Items[i-1]})
					seen(k, e, out.tok, out.val)
					n++
				}
				add(k, e, kin{e.Proto, Op{Kind: "get", Key: k}}, out)
			}
			if n != len(got) {
				c.Fail("%s: items that were not asked for", e)
			}
		default:
			out := outOf(e.Res)
			if e.Op.Kind == "get" && e.Res.Err == nil {
				if e.Res.Item == nil || e.Res.Item.Key != e.Op.Key {
					c.Fail("%s: answer to another request", e)
				}
				seen(e.Op.Key, e, out.tok, out.val)
			}
			add(e.Op.Key, e, kin{e.Proto, e.Op}, out)
		}
	}
	for k := range per {
		for _, f := range flushes {
			add(k, f, kin{f.Proto, f.Op}, outOf(f.Res))
		}
	}
	end := int64(time.Since(h.t0))
	for k, s := range final {
		if len(per[k]) == 0 {
			continue
		}
		out := kout{class: "notfound"}
		if s.Ok {
			out = kout{class: "ok", val: s.Val, flags: s.Flags, tok: s.Cas}
		}
		per[k] = append(per[k], porcupine.Operation{ClientId: 10000, Input: kin{"inspector", Op{Kind: "get", Key: k}}, Call: end + 1, Output: out, Return: end + 2})
		r := Res{}
		if s.Ok {
			r.Ver = "final: " + s.String()
		} else {
			r.Ver = "final: absent"
		}
		evs[k] = append(evs[k], Event{Who: 10000, Op: Op{Kind: "get", Key: k}, Res: r, Call: end + 1, Ret: end + 2})
	}
	ks := []string{}
	for k := range per {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch porcupine.CheckOperationsTimeout(keyModel(loose), per[k], 4*time.Second) {
		case porcupine.Illegal:
			es := evs[k]
			sort.Slice(es, func(i, j int) bool { return es[i].Call < es[j].Call })
			for _, e := range es {
				c.Logf("%s", e)
			}
			c.Fail("the calls on key %q have no linear order explaining their results (%d calls)", k, len(per[k]))
		case porcupine.Unknown:
			c.R.Count("history_checks_undecided", 1)
		default:
			c.R.Count("key_histories_linearizable", 1)
		}
	}
	c.R.Count("concurrent_calls", int64(len(h.ev)))
	c.R.Count("calls_overlapping_another", h.over)
	c.R.Max("max_in_flight", int64(h.max))
}

// workload draws one concurrent operation with unique values; tokens learned by this goroutine are in toks.
type loadGen struct {
	r     *rand.Rand
	who   int
	n     int
	keys  []string
	toks  map[string]uint64
	kinds []string
	vlen  int
}

func (g *loadGen) next() Op {
	k := g.keys[g.r.Intn(len(g.keys))]
	o := Op{Kind: pick(g.r, g.kinds...), Key: k}
	g.n++
	val := func() []byte {
		s := fmt.Sprintf("v%d.%d.", g.who, g.n)
		if g.vlen > 0 {
			s += strings.Repeat(string(rune('a'+g.who%26)), g.r.Intn(g.vlen))
		}
		return []byte(s)
	}
	switch o.Kind {
	case "set", "add", "replace":
		o.Val, o.Flags = val(), be32(uint32(g.who<<16|g.n))
	case "setnum":
		o.Kind = pick(g.r, "set", "add", "set", "replace")
		o.Val, o.Flags = []byte(strconv.Itoa(g.r.Intn(50))), be32(uint32(g.who<<16|g.n))
	case "cas":
		o.Kind = "set"
		o.Val, o.Flags, o.Cas = val(), be32(uint32(g.who<<16|g.n)), g.toks[k]
		if o.Cas == 0 {
			o = Op{Kind: "get", Key: k}
		}
	case "casnum":
		o.Kind = "set"
		o.Val, o.Flags, o.Cas = []byte(strconv.Itoa(g.r.Intn(50))), be32(uint32(g.who<<16|g.n)), g.toks[k]
		if o.Cas == 0 {
			o = Op{Kind: "get", Key: k}
		}
	case "mget":
		o.Key = ""
		for _, x := range g.keys {
			if g.r.Intn(3) > 0 {
				o.Keys = append(o.Keys, x)
			}
		}
		if len(o.Keys) == 0 {
			o.Keys = g.keys[:1]
		}
	case "incr", "decr":
		o.Delta = g.r.Intn(4)
	case "touch":
		o.Exp = []int{0, 1000000, 100000}[g.r.Intn(3)]
	case "version", "flush":
		o.Key = ""
	}
	return o
}

func (g *loadGen) learn(o Op, r Res) {
	if r.Err != nil {
		return
	}
	if r.Item != nil {
		g.toks[o.Key] = r.Item.Cas
	}
	for _, it := range r.Items {
		if it != nil {
			g.toks[it.Key] = it.Cas
		}
	}
}

type handle struct {
	proto string
	kv    KV
}

// stress runs g goroutines over the handles and records everything.
func (c *Case) stress(h *History, hs []handle, keys []string, goroutines, ops int, kinds []string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	seeds := make([]int64, goroutines)
	for i := range seeds {
		seeds[i] = c.Rng.Int63()
	}
	vlen := pick(c.Rng, 0, 0, 0, 40, 40, 6000, 6000, 6000, 6000, 200000)
	var pan atomic.Value
	for i := 0; i < goroutines; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 8192)
					pan.Store(fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)]))
				}
			}()
			r := rand.New(rand.NewSource(seeds[i]))
			g := &loadGen{r: r, who: i, keys: keys, toks: map[string]uint64{}, kinds: kinds, vlen: vlen}
			<-start
			for j := 0; j < ops; j++ {
				x := hs[(i+r.Intn(2)*r.Intn(len(hs)))%len(hs)]
				o := g.next()
				if x.proto == "pool" && (o.Kind == "touch") {
					continue
				}
				g.learn(o, h.do(i, x.proto, x.kv, o))
				switch r.Intn(8) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				}
			}
		}()
	}
	c.Do("concurrent calls", func() { close(start); wg.Wait() })
	if p := pan.Load(); p != nil {
		c.Fail("a concurrent call panicked: %s", p)
	}
}
