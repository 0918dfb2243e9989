package main

import (
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	merrors "go.f110.dev/go-memcached/errors"
)

func init() {
	registry["R01"] = checkR01
	registry["R02"] = checkR02
	registry["R03"] = checkR03
}

// ---- recording stand-in for a server

type fcall struct {
	Server string
	Op     Op
}

type fakeLog struct {
	mu    sync.Mutex
	calls []fcall
}

func (l *fakeLog) take() []fcall {
	l.mu.Lock()
	defer l.mu.Unlock()
	c := l.calls
	l.calls = nil
	return c
}

type fake struct {
	name   string
	log    *fakeLog
	mu     sync.Mutex
	store  map[string]*client.Item
	fail   map[string]error
	n      int64
	closed int
	ver    string
}

func (f *fake) rec(o Op) error {
	f.log.mu.Lock()
	f.log.calls = append(f.log.calls, fcall{f.name, o})
	f.log.mu.Unlock()
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	return f.fail[o.Kind]
}
func (f *fake) Name() string { return f.name }
func (f *fake) Close() error {
	f.mu.Lock()
	f.closed++
	f.mu.Unlock()
	return f.rec(Op{Kind: "close"})
}
func (f *fake) Get(key string) (*client.Item, error) {
	if e := f.rec(Op{Kind: "get", Key: key}); e != nil {
		return nil, e
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if it := f.store[key]; it != nil {
		return it, nil
	}
	return nil, merrors.ItemNotFound
}
func (f *fake) GetMulti(keys ...string) ([]*client.Item, error) {
	e := f.rec(Op{Kind: "mget", Keys: append([]string(nil), keys...)})
	f.mu.Lock()
	defer f.mu.Unlock()
	var r []*client.Item
	for _, k := range keys {
		if it := f.store[k]; it != nil {
			r = append(r, it)
		}
	}
	if e != nil {
		if f.n%2 == 0 {
			return nil, e
		}
		return r, e
	}
	return r, nil
}
func opOf(kind string, i *client.Item) Op {
	return Op{Kind: kind, Key: i.Key, Val: i.Value, Flags: i.Flags, Exp: i.Expiration, Cas: i.Cas}
}
func (f *fake) Set(i *client.Item) error     { return f.rec(opOf("set", i)) }
func (f *fake) Add(i *client.Item) error     { return f.rec(opOf("add", i)) }
func (f *fake) Replace(i *client.Item) error { return f.rec(opOf("replace", i)) }
func (f *fake) Delete(key string) error      { return f.rec(Op{Kind: "delete", Key: key}) }
func (f *fake) Increment(key string, d, e int) (int64, error) {
	return 1000 + int64(d), f.rec(Op{Kind: "incr", Key: key, Delta: d, Exp: e})
}
func (f *fake) Decrement(key string, d, e int) (int64, error) {
	return 2000 + int64(d), f.rec(Op{Kind: "decr", Key: key, Delta: d, Exp: e})
}
func (f *fake) Touch(key string, e int) error { return f.rec(Op{Kind: "touch", Key: key, Exp: e}) }
func (f *fake) Flush() error                  { return f.rec(Op{Kind: "flush"}) }
func (f *fake) Version() (string, error) {
	e := f.rec(Op{Kind: "version"})
	return f.ver, e
}
func (f *fake) Reconnect() error { return f.rec(Op{Kind: "reconnect"}) }

func fakes(log *fakeLog, names ...string) (r []*fake) {
	for _, n := range names {
		r = append(r, &fake{name: n, log: log, store: map[string]*client.Item{}, fail: map[string]error{}, ver: "v-" + n})
	}
	return
}
func asServers(fs []*fake) (r []client.Server) {
	for _, f := range fs {
		r = append(r, f)
	}
	return
}

// ---- names, ring points and keys whose hash is a given number

func genNames(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var ns []string
	style := r.Intn(9)
	for len(ns) < n {
		var s string
		i := len(ns)
		switch style {
		case 0:
			s = fmt.Sprintf("server%d", i+r.Intn(3))
		case 1:
			s = fmt.Sprintf("10.%d.%d.%d:11211", r.Intn(256), r.Intn(256), r.Intn(256))
		case 2:
			s = string(rune('a' + i))
		case 3:
			s = strings.Repeat("a", i+1)
		case 4:
			s = "cache/" + strconv.Itoa(i)
		case 5:
			s = string(rbytes(r, 1+r.Intn(30)))
		case 6:
			s = fmt.Sprintf("s/%d/%d", r.Intn(3), i)
		case 7:
			s = fmt.Sprintf("%s.node.example:%d", strings.Repeat("x", r.Intn(80)), 11000+i)
		default:
			s = genKey(r)
		}
		if !seen[s] {
			seen[s] = true
			ns = append(ns, s)
		}
	}
	return ns
}

// where the ring is known to put its points; only used to choose interesting keys
func ringPoints(name string) []uint32 {
	r := make([]uint32, 200)
	for i := range r {
		s := sha1.Sum([]byte(name + "/" + strconv.Itoa(i)))
		r[i] = binary.BigEndian.Uint32(s[:4])
	}
	return r
}

var crcRev = func() (t [256]byte) {
	for i, v := range crc32.IEEETable {
		t[v>>24] = byte(i)
	}
	return
}()

// crcKey appends four bytes to the prefix so that the checksum is h.
func crcKey(prefix string, h uint32) string {
	c := ^h
	for i := 0; i < 4; i++ {
		x := crcRev[c>>24]
		c = (c^crc32.IEEETable[x])<<8 | uint32(x)
	}
	c ^= ^crc32.ChecksumIEEE([]byte(prefix))
	return prefix + string([]byte{byte(c), byte(c >> 8), byte(c >> 16), byte(c >> 24)})
}

func legalTextKey(k string) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= 32 || k[i] == 127 {
			return false
		}
	}
	return true
}

func crcKeyLegal(r *rand.Rand, h uint32) string {
	for i := 0; ; i++ {
		if k := crcKey(fmt.Sprintf("p%d.%d.", r.Intn(100000), i), h); legalTextKey(k) {
			return k
		}
	}
}

// ringKeys: ordinary keys, and keys at, just below and just above the points of the names.
func ringKeys(r *rand.Rand, n int, names []string) []string {
	var ks []string
	for i := 0; i < n; i++ {
		switch {
		case i%3 == 0 && len(names) > 0:
			ps := ringPoints(names[r.Intn(len(names))])
			h := ps[r.Intn(len(ps))]
			switch r.Intn(4) {
			case 0:
				h++
			case 1:
				h--
			}
			ks = append(ks, crcKeyLegal(r, h))
		case i%31 == 1:
			ks = append(ks, crcKeyLegal(r, pick(r, 0, 1, 0xffffffff, 0xfffffffe, 0x80000000, uint32(r.Intn(1<<20)))))
		case i%3 == 1:
			ks = append(ks, fmt.Sprintf("user:%d", r.Intn(1<<30)))
		default:
			ks = append(ks, genKey(r))
		}
	}
	return ks
}

// collidingNames: names of which two share a ring point; found by search, so it holds for any 32-bit hash of that shape.
var (
	collOnce sync.Once
	collPair [][2]string
	collAt   []uint32
)

func collisions() ([][2]string, []uint32) {
	collOnce.Do(func() {
		at := map[uint32]string{}
		for i := 0; len(collPair) < 24 && i < 6000; i++ {
			n := fmt.Sprintf("srv%d", i)
			for _, p := range ringPoints(n) {
				if o, ok := at[p]; ok && o != n {
					collPair = append(collPair, [2]string{o, n})
					collAt = append(collAt, p)
				}
				at[p] = n
			}
		}
	})
	return collPair, collAt
}

func shuffled(r *rand.Rand, xs []string) []string {
	y := append([]string(nil), xs...)
	r.Shuffle(len(y), func(i, j int) { y[i], y[j] = y[j], y[i] })
	return y
}

// ---- R01

func checkR01(r *Run) {
	r.Rule("recording servers in a pool; every operation kind on ordinary keys and on keys whose checksum is on or next to a ring point, for name sets in several orders and instances, with colliding points, after failures and concurrently; plus replica pools over model servers; distinct = (names, key, operation)")
	if k := crcKey("abc", 0xdeadbeef); crc32.ChecksumIEEE([]byte(k)) != 0xdeadbeef {
		r.HarnessError("crcKey is wrong")
		return
	}
	r.Cases("pool", r.N(150, 3000), 8, r01Pool)
	ps, _ := collisions()
	r.Cases("collide", len(ps), 4, r01Collide)
	r.Cases("concurrent", r.N(20, 300), 3, r01Conc)
	r.Cases("replica", r.N(25, 400), 4, r01Replica)
	r.Cases("long", r.N(3, 8), 3, r01Long)
}

var routeKinds = []string{"get", "mget1", "set", "add", "replace", "delete", "incr", "decr", "touch"}

func routeOp(r *rand.Rand, kind, key string) Op {
	o := Op{Kind: kind, Key: key, Val: rbytes(r, r.Intn(20)), Flags: be32(r.Uint32()), Exp: r.Intn(5000) - 10, Cas: uint64(r.Intn(3)), Delta: r.Intn(1000)}
	if kind == "mget1" {
		o.Kind, o.Keys = "mget", []string{key}
	}
	return o
}

func sameCall(a, b Op) string {
	if a.Kind != b.Kind {
		return fmt.Sprintf("%s arrived as %s", a, b)
	}
	ok := a.Key == b.Key
	switch a.Kind {
	case "mget":
		ok = strings.Join(a.Keys, "\x00") == strings.Join(b.Keys, "\x00")
	case "set", "add", "replace":
		ok = ok && string(a.Val) == string(b.Val) && string(a.Flags) == string(b.Flags) && a.Exp == b.Exp && a.Cas == b.Cas
	case "incr", "decr":
		ok = ok && a.Delta == b.Delta && a.Exp == b.Exp
	case "touch":
		ok = ok && a.Exp == b.Exp
	}
	if !ok {
		return fmt.Sprintf("%s arrived as %s", a, b)
	}
	return ""
}

// route issues one operation on one key and returns the server it went to.
func route(c *Case, pool *client.SinglePool, log *fakeLog, o Op, failing bool) string {
	log.take()
	r := c.Call("pool", pool, o)
	cs := log.take()
	if len(cs) != 1 {
		c.Fail("%s reached the servers %d times: %v", o, len(cs), cs)
	}
	if w := sameCall(o, cs[0].Op); w != "" {
		c.Fail("%s", w)
	}
	switch {
	case failing:
		if r.Err == nil || !strings.Contains(r.Err.Error(), "fake failure") {
			c.Fail("%s: the server failed, the pool returned %s", o, r)
		}
	case o.Kind == "get":
		if r.Class() != "notfound" {
			c.Fail("%s returned %s", o, r)
		}
	case r.Err != nil:
		c.Fail("%s returned %s although the server succeeded", o, r)
	case o.Kind == "incr" && r.N != 1000+int64(o.Delta) || o.Kind == "decr" && r.N != 2000+int64(o.Delta):
		c.Fail("%s returned %d", o, r.N)
	}
	return cs[0].Server
}

func r01Pool(c *Case) {
	n := 1 + c.Rng.Intn(16)
	names := genNames(c.Rng, n)
	keys := ringKeys(c.Rng, 24, names)
	home := map[string]string{}
	for inst := 0; inst < 4; inst++ {
		order := shuffled(c.Rng, names)
		if inst == 0 {
			order = names
		}
		log := &fakeLog{}
		fs := fakes(log, order...)
		failing := inst == 2
		if failing {
			for _, f := range fs {
				for _, k := range append([]string{"mget"}, routeKinds...) {
					f.fail[k] = errors.New("fake failure")
				}
			}
		}
		pool, err := client.NewSinglePool(asServers(fs)...)
		c.Must(err)
		ring := client.NewRing(asServers(fs)...)
		for _, k := range shuffled(c.Rng, keys) {
			for j := 0; j < 3; j++ {
				kind := pick(c.Rng, routeKinds...)
				s := route(c, pool, log, routeOp(c.Rng, kind, k), failing)
				if home[k] == "" {
					home[k] = s
				}
				if home[k] != s {
					c.Fail("%s on key %q went to %q; another operation, instance or order of the servers %q used %q", kind, k, s, names, home[k])
				}
				c.R.Eval(fmt.Sprintf("%q|%s|%s", names, k, kind))
			}
			if p := ring.Pick(k); p == nil || p.Name() != home[k] {
				c.Fail("Ring.Pick(%q) disagrees with the pool: %v, %q", k, p, home[k])
			}
		}
		for _, nm := range names {
			if s := ring.Find(nm); s == nil || s.Name() != nm {
				c.Fail("Ring.Find(%q) = %v", nm, s)
			}
		}
		// a batch goes to the homes of its keys, each key once
		batch := shuffled(c.Rng, keys)[:1+c.Rng.Intn(len(keys))]
		log.take()
		c.Call("pool", pool, Op{Kind: "mget", Keys: batch})
		seen := map[string]int{}
		for _, x := range log.take() {
			if x.Op.Kind != "mget" {
				c.Fail("a batch read issued %s", x.Op)
			}
			for _, k := range x.Op.Keys {
				seen[k]++
				if home[k] != x.Server {
					c.Fail("batch read asked %q for key %q, whose home is %q", x.Server, k, home[k])
				}
			}
		}
		if !failing {
			want := map[string]int{}
			for _, k := range batch {
				want[k]++
			}
			for k, w := range want {
				if seen[k] < 1 || seen[k] > w {
					c.Fail("batch read of %d keys asked for key %q %d times", len(batch), k, seen[k])
				}
			}
		}
	}
}

func r01Collide(c *Case) {
	ps, at := collisions()
	p, h := ps[c.Idx()], at[c.Idx()]
	for round := 0; round < 6; round++ {
		others := genNames(c.Rng, c.Rng.Intn(6))
		set := []string{p[0], p[1]}
		for _, o := range others {
			if o != p[0] && o != p[1] {
				set = append(set, o)
			}
		}
		var keys []string
		for d := uint32(0); d < 3; d++ {
			keys = append(keys, crcKeyLegal(c.Rng, h+d), crcKeyLegal(c.Rng, h-d))
		}
		home := map[string]string{}
		for inst := 0; inst < 8; inst++ {
			log := &fakeLog{}
			order := shuffled(c.Rng, set)
			if inst < 2 {
				order = []string{p[inst], p[1-inst]}
				order = append(order, set[2:]...)
			}
			pool, err := client.NewSinglePool(asServers(fakes(log, order...))...)
			c.Must(err)
			for _, k := range keys {
				s := route(c, pool, log, routeOp(c.Rng, pick(c.Rng, routeKinds...), k), false)
				if home[k] == "" {
					home[k] = s
				}
				if home[k] != s {
					c.Fail("key %q (checksum %#x, where points of %q and %q collide) is on %q or %q depending on the order of the servers", k, crc32.ChecksumIEEE([]byte(k)), p[0], p[1], home[k], s)
				}
				c.R.Eval(fmt.Sprintf("coll%v%s", p, k))
			}
		}
	}
}

func r01Conc(c *Case) {
	names := genNames(c.Rng, 2+c.Rng.Intn(8))
	keys := ringKeys(c.Rng, 40, names)
	log := &fakeLog{}
	pool, err := client.NewSinglePool(asServers(fakes(log, names...))...)
	c.Must(err)
	ref := client.NewRing(asServers(fakes(&fakeLog{}, shuffled(c.Rng, names)...))...)
	home := map[string]string{}
	for _, k := range keys {
		home[k] = ref.Pick(k).Name()
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		rng := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				k := keys[rng.Intn(len(keys))]
				if rng.Intn(5) == 0 {
					do(pool, Op{Kind: "mget", Keys: shuffled(rng, keys)[:5]})
				} else {
					do(pool, routeOp(rng, pick(rng, routeKinds...), k))
				}
			}
		}()
	}
	c.Do("concurrent calls", wg.Wait)
	for _, x := range log.take() {
		ks := x.Op.Keys
		if x.Op.Kind != "mget" {
			ks = []string{x.Op.Key}
		}
		for _, k := range ks {
			if home[k] != x.Server {
				c.Fail("under concurrency %s went to %q, the home of %q is %q", x.Op, x.Server, k, home[k])
			}
		}
		c.R.Eval(fmt.Sprintf("conc%v%s%s", names, ks, x.Op.Kind))
	}
}

// ---- replica pools

type replica struct {
	c        *Case
	pri, sec []*RefMC
	pool     *cluster.ReplicaPool
	pcl, scl []*client.ServerWithMetaProtocol
}

// replicaPool connects a pool; names[i] belongs to server i of pri then sec.
func (c *Case) replicaPool(pri, sec []*RefMC, pn, sn []string, order bool) *replica {
	x := &replica{c: c, pri: pri, sec: sec}
	for i, m := range pri {
		x.pcl = append(x.pcl, c.connectMeta(pn[i], m.Addr(), c.honest()))
	}
	for i, m := range sec {
		x.scl = append(x.scl, c.connectMeta(sn[i], m.Addr(), c.honest()))
	}
	p := append([]*client.ServerWithMetaProtocol(nil), x.pcl...)
	s := append([]*client.ServerWithMetaProtocol(nil), x.scl...)
	if order {
		c.Rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		c.Rng.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	}
	x.pool = cluster.NewReplicaPool(p, s)
	return x
}

func (c *Case) refs(n int) (r []*RefMC) {
	for i := 0; i < n; i++ {
		r = append(r, c.ref())
	}
	return
}

func r01Replica(c *Case) {
	np, ns := 1+c.Rng.Intn(5), 1+c.Rng.Intn(5)
	pn, sn := genNames(c.Rng, np), genNames(c.Rng, ns)
	pri, sec := c.refs(np), c.refs(ns)
	a := c.replicaPool(pri, sec, pn, sn, false)
	b := c.replicaPool(pri, sec, pn, sn, true)
	all := append(append([]*RefMC(nil), pri...), sec...)
	keys := ringKeys(c.Rng, 20, append(append([]string(nil), pn...), sn...))
	homeP, homeS := map[string]int{}, map[string]int{}
	for i := 0; i < 60; i++ {
		k := keys[c.Rng.Intn(len(keys))]
		marks := make([]int, len(all))
		for j, m := range all {
			marks[j] = m.LogLen()
		}
		o := Op{Kind: pick(c.Rng, "set", "set", "get", "mget", "add", "replace", "delete", "incr", "decr"), Key: k, Val: []byte(strconv.Itoa(i)), Delta: 1}
		if o.Kind == "mget" {
			o.Keys = shuffled(c.Rng, keys)[:1+c.Rng.Intn(8)]
		}
		c.Call("pool", pick(c.Rng, a, b).pool, o)
		for j, m := range all {
			for _, cmd := range m.LogFrom(marks[j]) {
				for _, x := range cmd.Keys {
					h, role := homeP, "primary"
					if j >= np {
						h, role = homeS, "secondary"
					}
					if w, ok := h[x]; ok && w != j {
						c.Fail("%s: key %q went to %s %d, before to %d (primaries %q, secondaries %q)", o, x, role, j, w, pn, sn)
					}
					h[x] = j
					if role == "secondary" && (o.Kind == "get" || o.Kind == "mget") {
						c.Fail("%s was sent to a secondary", o)
					}
				}
			}
		}
		c.R.Eval(fmt.Sprintf("rep%q%q%s%s", pn, sn, k, o.Kind))
	}
	// the assignment is the ring's for these names
	rp, rs := client.NewRing(asServers(fakes(&fakeLog{}, shuffled(c.Rng, pn)...))...), client.NewRing(asServers(fakes(&fakeLog{}, shuffled(c.Rng, sn)...))...)
	for k, j := range homeP {
		if rp.Pick(k).Name() != pn[j] {
			c.Fail("key %q is on primary %q, a ring of the same names assigns it to %q", k, pn[j], rp.Pick(k).Name())
		}
	}
	for k, j := range homeS {
		if rs.Pick(k).Name() != sn[j-np] {
			c.Fail("key %q is on secondary %q, a ring of the same names assigns it to %q", k, sn[j-np], rs.Pick(k).Name())
		}
	}
}

// ---- R02

func checkR02(r *Run) {
	r.Rule("rings grown and shrunk one server at a time between 1 and 16 servers; every key of a population (ordinary keys and keys at and next to every ring point of the server that comes or goes) is located before and after; plus the share of each server over a large population; distinct = (names, server changed, keys that moved)")
	r.Cases("change", r.N(60, 800), 8, r02Change)
	r.Cases("spread", r.N(48, 400), 8, r02Spread)
	ps, _ := collisions()
	r.Cases("collide", len(ps), 8, r02Collide)
}

func locate(c *Case, names, keys []string) map[string]string {
	m := map[string]string{}
	c.Do("Ring", func() {
		ring := client.NewRing(asServers(fakes(&fakeLog{}, names...))...)
		for _, k := range keys {
			m[k] = ring.Pick(k).Name()
		}
	})
	return m
}

func r02Compare(c *Case, with, without map[string]string, x string, keys []string, names []string) int {
	moved := 0
	for _, k := range keys {
		a, b := without[k], with[k]
		if a == b {
			if a == x {
				c.Fail("key %q is assigned to %q, which is not in the ring", k, x)
			}
			continue
		}
		moved++
		if b != x {
			c.Fail("with server %q added to or removed from %q, key %q (checksum %#x) is on %q instead of %q", x, names, k, crc32.ChecksumIEEE([]byte(k)), b, a)
		}
	}
	return moved
}

func r02Keys(c *Case, n int, names []string, x string) []string {
	keys := ringKeys(c.Rng, n, names)
	for _, p := range ringPoints(x) {
		keys = append(keys, crcKeyLegal(c.Rng, p), crcKeyLegal(c.Rng, p-1), crcKeyLegal(c.Rng, p+1))
	}
	return keys
}

func r02Change(c *Case) {
	n := 2 + c.Rng.Intn(15)
	names := genNames(c.Rng, n)
	for i := 1; i < n; i++ {
		if i > 3 && c.Rng.Intn(2) == 0 {
			continue
		}
		set, x := names[:i], names[i]
		keys := r02Keys(c, 600, names[:i+1], x)
		// every point of the servers that stay, too
		for _, s := range set {
			for _, p := range ringPoints(s) {
				if c.Rng.Intn(4) == 0 {
					keys = append(keys, crcKey("q", p))
				}
			}
		}
		without := locate(c, shuffled(c.Rng, set), keys)
		with := locate(c, shuffled(c.Rng, names[:i+1]), keys)
		moved := r02Compare(c, with, without, x, keys, set)
		c.R.Count("keys_located_twice", int64(len(keys)))
		c.R.Count("keys_moved", int64(moved))
		c.R.Eval(fmt.Sprintf("%q+%q:%d", set, x, moved))
	}
	// removal of any server, not only the last
	x := c.Rng.Intn(n)
	rest := append(append([]string(nil), names[:x]...), names[x+1:]...)
	keys := r02Keys(c, 600, names, names[x])
	moved := r02Compare(c, locate(c, shuffled(c.Rng, names), keys), locate(c, shuffled(c.Rng, rest), keys), names[x], keys, rest)
	c.R.Count("keys_moved", int64(moved))
	c.R.Eval(fmt.Sprintf("%q-%q:%d", names, names[x], moved))
}

// r02Collide: two servers share a point; the arrival of either, and of a third, moves only what it must.
func r02Collide(c *Case) {
	ps, at := collisions()
	p, h := ps[c.Idx()], at[c.Idx()]
	base := genNames(c.Rng, 1+c.Rng.Intn(8))
	var keys []string
	for i := 0; i < 8; i++ {
		keys = append(keys, crcKeyLegal(c.Rng, h+uint32(i%3)-1))
	}
	step := func(set []string, x string) {
		for _, s := range set {
			if s == x {
				return
			}
		}
		ks := append(append([]string(nil), keys...), r02Keys(c, 60, set, x)...)
		w := locate(c, shuffled(c.Rng, append(append([]string(nil), set...), x)), ks)
		r02Compare(c, w, locate(c, shuffled(c.Rng, set), ks), x, ks, set)
		c.R.Eval(fmt.Sprintf("coll%q+%q", set, x))
	}
	step(base, p[0])
	step(append([]string{p[1]}, base...), p[0])
	step(append([]string{p[0]}, base...), p[1])
	for _, third := range genNames(c.Rng, 6) {
		step([]string{p[0], p[1]}, third)
		step(append([]string{p[0], p[1]}, base...), third+"x")
	}
}

func r02Spread(c *Case) {
	n := 2 + c.Idx()%15
	names := genNames(c.Rng, n)
	total := 30000
	style := c.Rng.Intn(4)
	keys := make([]string, total)
	base := c.Rng.Intn(1 << 20)
	for i := range keys {
		switch style {
		case 0:
			keys[i] = fmt.Sprintf("user:%d", base+i)
		case 1:
			keys[i] = fmt.Sprintf("%016x", c.Rng.Uint64())
		case 2:
			keys[i] = fmt.Sprintf("session/%08x-%04x/profile", c.Rng.Uint32(), i)
		default:
			keys[i] = genKey(c.Rng)[:1] + strconv.Itoa(base+i*7)
		}
	}
	counts := map[string]int{}
	for _, s := range locate(c, names, keys) {
		counts[s]++
	}
	distinct := 0
	for _, v := range counts {
		distinct += v
	}
	fair := float64(distinct) / float64(n)
	for _, nm := range names {
		f := float64(counts[nm]) / fair
		if f < 1.0/3 || f > 3 {
			c.Fail("of %d keys on %d servers %q, server %q holds %d, %.2f times its fair share", distinct, n, names, nm, counts[nm], f)
		}
		c.R.Max("largest_share_percent_of_fair", int64(f*100))
		c.R.Max("smallest_share_percent_below_fair", int64(100-f*100))
	}
	c.R.Count("keys_placed", int64(distinct))
	c.R.Eval(fmt.Sprintf("spread%q%d", names, style))
}

// ---- R03

func checkR03(r *Run) {
	r.Rule("pools of 1-8 recording servers with every subset of failing servers drawn at random, and pools of real clients on model servers with servers that refuse, cut or are gone; batch reads, Flush, Version and Close compared with what each server holds, was asked and returned; distinct = (names, failing set, operation, outcome)")
	r.Cases("fake", r.N(4000, 100000), 8, r03Fake)
	r.Cases("real", r.N(400, 8000), 6, r03Real)
	r.Cases("many", r.N(80, 1500), 6, r03Many)
	r.Cases("batch", r.N(24, 400), 6, r03Batch)
	r.Cases("slow", r.N(60, 600), 36, r03Slow)
}

func r03Fake(c *Case) {
	n := 1 + c.Rng.Intn(8)
	names := genNames(c.Rng, n)
	log := &fakeLog{}
	fs := fakes(log, names...)
	pool, err := client.NewSinglePool(asServers(fs)...)
	c.Must(err)
	ring := client.NewRing(asServers(fs)...)
	byName := map[string]*fake{}
	for _, f := range fs {
		byName[f.name] = f
	}
	keys := ringKeys(c.Rng, 5+c.Rng.Intn(40), names)
	for i := c.Rng.Intn(6); i > 0; i-- {
		if k := akin(c.Rng, keys[c.Rng.Intn(len(keys))]); legalTextKey(k) {
			keys = append(keys, k)
		}
	}
	uniq := map[string]bool{}
	for _, k := range keys {
		uniq[k] = true
	}
	items := map[string]*client.Item{}
	for k := range uniq {
		if c.Rng.Intn(3) > 0 {
			it := &client.Item{Key: k, Value: []byte("value of " + k), Flags: be32(c.Rng.Uint32()), Cas: c.Rng.Uint64()}
			items[k] = it
			byName[ring.Pick(k).Name()].store[k] = it
		}
	}
	kind := pick(c.Rng, "mget", "mget", "mget", "flush", "version", "close")
	failing := map[string]bool{}
	prob := pick(c.Rng, 0, 3, 6)
	if c.Rng.Intn(4) == 0 { // exactly one
		prob = 0
		failing[names[c.Rng.Intn(n)]] = true
	}
	for _, nm := range names {
		if prob > 0 && c.Rng.Intn(prob) == 0 {
			failing[nm] = true
		}
	}
	for nm := range failing {
		byName[nm].fail[kind] = pick[error](c.Rng, errors.New("fake failure"), merrors.ItemNotFound, merrors.ItemExists)
		byName[nm].n = int64(c.Rng.Intn(2))
	}
	switch kind {
	case "mget":
		var ask []string
		for k := range uniq {
			if c.Rng.Intn(2) == 0 {
				ask = append(ask, k)
			}
		}
		sort.Strings(ask)
		ask = shuffled(c.Rng, ask)
		involved := false
		for _, k := range ask {
			involved = involved || failing[ring.Pick(k).Name()]
		}
		r := c.Call("pool", pool, Op{Kind: "mget", Keys: ask})
		if involved && r.Err == nil {
			c.Fail("a server of the batch failed (%v), GetMulti returned %s", failing, r)
		}
		if !involved {
			if r.Err != nil {
				c.Fail("GetMulti returned %s although every server involved succeeded", r)
			}
			got := map[string]bool{}
			for _, it := range r.Items {
				if it == nil || got[it.Key] || items[it.Key] == nil {
					c.Fail("GetMulti returned %s, which is not an item asked for once", itemStr(it))
				}
				w := items[it.Key]
				if string(it.Value) != string(w.Value) || flagVal(it.Flags) != flagVal(w.Flags) || it.Cas != w.Cas {
					c.Fail("GetMulti returned %s, the server held %s", itemStr(it), itemStr(w))
				}
				got[it.Key] = true
			}
			for _, k := range ask {
				if items[k] != nil && !got[k] {
					c.Fail("GetMulti of %d keys left out the present key %q", len(ask), k)
				}
			}
			if len(got) > len(ask) {
				c.Fail("GetMulti returned more than it was asked for")
			}
			for _, it := range r.Items {
				in := false
				for _, k := range ask {
					in = in || k == it.Key
				}
				if !in {
					c.Fail("GetMulti returned %q, which was not asked for", it.Key)
				}
			}
		}
		c.R.Eval(fmt.Sprintf("mget%q%v%d%s", names, failing, len(ask), r.Class()))
	case "flush", "version", "close":
		var r Res
		log.take()
		if kind == "close" {
			c.Do("Close", func() { r.Err = pool.Close() })
		} else {
			r = c.Call("pool", pool, Op{Kind: kind})
		}
		seen := map[string]int{}
		for _, x := range log.take() {
			if x.Op.Kind != kind {
				c.Fail("%s issued %s", kind, x.Op)
			}
			seen[x.Server]++
		}
		if len(failing) > 0 != (r.Err != nil) {
			c.Fail("%s with failing servers %v returned %v", kind, failing, r.Err)
		}
		for _, nm := range names {
			if (r.Err == nil || kind == "close") && seen[nm] != 1 {
				c.Fail("%s reached server %q %d times (failing: %v)", kind, nm, seen[nm], failing)
			}
		}
		if kind == "version" && r.Err == nil {
			var want []string
			for _, nm := range names {
				want = append(want, nm+"=v-"+nm)
			}
			sort.Strings(want)
			if r.Ver != strings.Join(want, ",") {
				c.Fail("Version returned %q, expected %q", r.Ver, want)
			}
		}
		c.R.Eval(fmt.Sprintf("%s%q%v", kind, names, failing))
	}
}

// r03Slow: some servers of the pool take up to seconds over their part. What is returned is no less complete for it.
func r03Slow(c *Case) {
	n := 2 + c.Rng.Intn(4)
	names := genNames(c.Rng, n)
	refs := c.refs(n)
	var srv []client.Server
	by := map[string]int{}
	for i, m := range refs {
		m.Ver = fmt.Sprintf("1.6.%d", i)
		srv = append(srv, c.connectNamed(pick(c.Rng, protos...), names[i], m.Addr(), c.honest()))
		by[names[i]] = i
	}
	pool, err := client.NewSinglePool(srv...)
	c.Must(err)
	ring := client.NewRing(srv...)
	keys := ringKeys(c.Rng, 30, names)
	slow := map[int]bool{}
	next := c.pauses(4 * time.Second)
	for _, i := range c.Rng.Perm(n)[:1+c.Rng.Intn(2)] {
		slow[i] = true
		refs[i].SetHook(c.late(1+c.Rng.Intn(2), next))
	}
	for i, k := range keys {
		if c.Rng.Intn(3) > 0 {
			refs[by[ring.Pick(k).Name()]].Put(k, fmt.Sprintf("val%d", i), uint32(i), 0)
		}
	}
	ops := []string{"mget", "version", "flush"}
	c.Rng.Shuffle(3, func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, kind := range ops {
		o := Op{Kind: kind}
		switch kind {
		case "mget":
			st := map[string]State{}
			o.Keys = shuffled(c.Rng, keys)[:1+c.Rng.Intn(len(keys))]
			for _, k := range o.Keys {
				st[k] = refs[by[ring.Pick(k).Name()]].Inspect(k)
			}
			r := c.Call("pool", pool, o)
			if w := judgeMulti(o.Keys, r, st, stepCtx{proto: "text", now: refs[0].Now()}); w != "" {
				c.Fail("pool batch read with slow servers: %s", w)
			}
		case "version":
			r := c.Call("pool", pool, o)
			var want []string
			for j := range names {
				want = append(want, names[j]+"="+refs[j].Ver)
			}
			sort.Strings(want)
			if r.Err != nil || r.Ver != strings.Join(want, ",") {
				c.Fail("Version with slow servers returned %s, expected %q", r, want)
			}
		case "flush":
			if r := c.Call("pool", pool, o); r.Err != nil {
				c.Fail("Flush with slow servers returned %s", r)
			}
			for j, m := range refs {
				if len(m.Snapshot()) > 0 {
					c.Fail("Flush succeeded but server %q (slow: %v) still holds %d items", names[j], slow[j], len(m.Snapshot()))
				}
			}
		}
	}
	c.R.Eval(fmt.Sprintf("slow%q%v%v", names, slow, ops))
	c.Do("Close", func() { pool.Close() })
}

func r03Real(c *Case) {
	n := 2 + c.Rng.Intn(4)
	names := genNames(c.Rng, n)
	refs := c.refs(n)
	var srv []client.Server
	proto := make([]string, n)
	by := map[string]int{}
	for i, m := range refs {
		m.Ver = fmt.Sprintf("1.6.%d", i)
		proto[i] = pick(c.Rng, protos...)
		srv = append(srv, c.connectNamed(proto[i], names[i], m.Addr(), c.honest()))
		by[names[i]] = i
		if c.Rng.Intn(2) == 0 {
			m.SetSeg(randSeg(c.Rng.Int63()))
		}
	}
	pool, err := client.NewSinglePool(srv...)
	c.Must(err)
	ring := client.NewRing(srv...)
	keys := ringKeys(c.Rng, 30, names)
	put := func() map[string]State {
		st := map[string]State{}
		for i, k := range keys {
			m := refs[by[ring.Pick(k).Name()]]
			if c.Rng.Intn(3) > 0 {
				m.Put(k, fmt.Sprintf("val%d", i), uint32(i), 0)
			}
		}
		for _, k := range keys {
			st[k] = refs[by[ring.Pick(k).Name()]].Inspect(k)
		}
		return st
	}
	// healthy
	for i := 0; i < 3; i++ {
		st := put()
		ask := shuffled(c.Rng, keys)[:1+c.Rng.Intn(len(keys))]
		r := c.Call("pool", pool, Op{Kind: "mget", Keys: ask})
		cx := stepCtx{proto: "text", now: refs[0].Now()}
		if w := judgeMulti(ask, r, st, cx); w != "" {
			c.Fail("pool batch read: %s", w)
		}
		r = c.Call("pool", pool, Op{Kind: "version"})
		var want []string
		for j := range names {
			want = append(want, names[j]+"="+refs[j].Ver)
		}
		sort.Strings(want)
		if r.Err != nil || r.Ver != strings.Join(want, ",") {
			c.Fail("Version returned %s, expected %q", r, want)
		}
		if i == 1 {
			if r = c.Call("pool", pool, Op{Kind: "flush"}); r.Err != nil {
				c.Fail("Flush returned %s", r)
			}
			for j, m := range refs {
				if len(m.Snapshot()) > 0 {
					c.Fail("Flush succeeded but server %q still holds %d items", names[j], len(m.Snapshot()))
				}
			}
		}
	}
	// one server fails
	bad := c.Rng.Intn(n)
	mode := pick(c.Rng, "down", "refuse", "close", "cut", "garbage")
	switch mode {
	case "down":
		refs[bad].SetDown()
	case "refuse":
		refs[bad].SetHook(func(cmd *Cmd) *Act {
			if cmd.Name == "noop" {
				return nil
			}
			if cmd.Bin {
				return &Act{NoApply: true, Reply: binReply(map[string]byte{"get": 0x0d, "flush": 8, "version": 11}[cmd.Name], 0x82, 0, 0, nil, nil, []byte("Out of memory"))}
			}
			return &Act{NoApply: true, Replace: true, Reply: []byte("SERVER_ERROR out of memory\r\n")}
		})
	case "close":
		refs[bad].SetHook(func(*Cmd) *Act { return &Act{Close: true} })
	case "cut":
		f := NewFault()
		f.OutAfter = c.Rng.Intn(3)
		refs[bad].Arm(f)
	case "garbage":
		refs[bad].SetHook(func(*Cmd) *Act {
			return &Act{NoApply: true, Replace: true, Close: true, Reply: []byte("garbage\r\n")}
		})
	}
	st := put()
	_ = st
	kind := pick(c.Rng, "mget", "mget", "flush", "version")
	o := Op{Kind: kind}
	involved := true
	if kind == "mget" {
		o.Keys = shuffled(c.Rng, keys)[:1+c.Rng.Intn(len(keys))]
		involved = false
		for _, k := range o.Keys {
			involved = involved || by[ring.Pick(k).Name()] == bad
		}
	}
	r := c.Call("pool", pool, o)
	if involved && r.Err == nil {
		c.Fail("server %q (%s) failed (%s), %s returned %s", names[bad], proto[bad], mode, o, r)
	}
	if !involved && r.Err != nil {
		c.Fail("%s involved no failing server and returned %s", o, r)
	}
	refs[bad].SetHook(nil)
	c.Do("Close", func() { pool.Close() })
	for j, m := range refs {
		if !c.eventually("connections closed", func() bool { return m.Open() == 0 }) {
			c.Fail("Close of the pool left %d connections of server %d open (server %d had failed: %s)", m.Open(), j, bad, mode)
		}
	}
	c.R.Eval(fmt.Sprintf("real%q%s%s%d%s", names, mode, kind, bad, proto[bad]))
}
