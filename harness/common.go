package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

// ---- resources of a case

func (c *Case) ref() *RefMC { return c.refOn(nil) }

var unixNames int64

// refNet listens on TCP or, now and then, on a Unix socket.
func (c *Case) refNet() *RefMC {
	linger := c.Rng.Intn(2) == 0
	if c.Rng.Intn(5) > 0 {
		m := c.ref()
		m.SetLinger(linger)
		return m
	}
	l, err := net.Listen("unix", fmt.Sprintf("@verif-%d-%d", os.Getpid(), atomic.AddInt64(&unixNames, 1)))
	c.Must(err)
	c.R.Count("servers_on_unix_sockets", 1)
	m := c.refOn(l)
	m.SetLinger(linger)
	return m
}

func (c *Case) refOn(l net.Listener) *RefMC {
	m := newRefMC(l)
	m.beat = &c.beats
	// tokens of every width
	starts := []uint64{0, 1 << 8, 1<<16 - 3, 1<<31 - 3, 1<<32 - 3, 1 << 40, 1<<63 - 4, 1<<64 - 1<<20}
	m.cas = starts[c.Rng.Intn(len(starts))]
	c.Defer(m.Close)
	return m
}

func randSeg(seed int64) func() int {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	return func() int {
		mu.Lock()
		defer mu.Unlock()
		switch r.Intn(6) {
		case 0:
			return 1
		case 1:
			return 2 + r.Intn(4)
		case 2:
			return 1 + r.Intn(64)
		case 3:
			return 4096
		}
		return 1 + r.Intn(4000)
	}
}

var (
	realMu   sync.Mutex
	realIdle []*RealMC
)

// real takes a memcached process nobody else uses, emptied.
func (c *Case) real() *RealMC {
	realMu.Lock()
	var m *RealMC
	if n := len(realIdle); n > 0 {
		m = realIdle[n-1]
		realIdle = realIdle[:n-1]
	}
	realMu.Unlock()
	if m == nil {
		var err error
		m, err = StartReal()
		c.Must(err)
	}
	m.flush()
	c.Defer(func() {
		realMu.Lock()
		realIdle = append(realIdle, m)
		realMu.Unlock()
	})
	return m
}

func (m *RealMC) flush() {
	m.mu.Lock()
	defer m.mu.Unlock()
	fmt.Fprintf(m.c, "flush_all\r\n")
	m.r.ReadString('\n')
}

// connect dials a client, closed when the case ends.
func (c *Case) connect(proto, addr string, timeout time.Duration, opts ...client.ServerOpt) client.Server {
	return c.connectNamed(proto, "srv-"+proto, addr, timeout, opts...)
}

func (c *Case) connectNamed(proto, name, addr string, timeout time.Duration, opts ...client.ServerOpt) client.Server {
	s, err := dial(proto, name, addr, timeout, opts...)
	if err != nil {
		c.Must(fmt.Errorf("dial %s: %v", proto, err))
	}
	c.Defer(func() {
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { recover() }()
			s.Close()
		}()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
	})
	return s
}

func (c *Case) connectMeta(name, addr string, timeout time.Duration) *client.ServerWithMetaProtocol {
	return c.connectNamed("meta", name, addr, timeout).(*client.ServerWithMetaProtocol)
}

func setTimeout(s client.Server, d time.Duration) {
	switch v := s.(type) {
	case *client.ServerWithTextProtocol:
		v.Timeout = d
	case *client.ServerWithMetaProtocol:
		v.Timeout = d
	case *client.ServerWithBinaryProtocol:
		v.Timeout = d
	}
}

// honest timeouts: none, or one far beyond anything an honest exchange takes
func (c *Case) honest() time.Duration {
	if c.Rng.Intn(2) == 0 {
		return 0
	}
	return 2 * time.Minute
}

// ---- a server with clients of every protocol on it

type World struct {
	c    *Case
	be   Backend
	ref  *RefMC
	cl   map[string]client.Server
	slk  int64
	keys []string // keys whose state is watched
}

// world: one server, one client per protocol; replies (and for real servers requests) arrive in pieces half of the time.
func (c *Case) world(real bool) *World {
	w := &World{c: c, cl: map[string]client.Server{}}
	addr := ""
	if real {
		m := c.real()
		w.be, w.slk = m, 2
		addr = m.Addr()
		if c.Rng.Intn(2) == 0 {
			p := c.SegProxy(addr, randSeg(c.Rng.Int63()))
			c.Defer(p.Close)
			addr = p.Addr()
		}
	} else {
		m := c.ref()
		w.be, w.ref = m, m
		addr = m.Addr()
		if c.Rng.Intn(2) == 0 {
			m.SetSeg(randSeg(c.Rng.Int63()))
		}
	}
	for _, p := range protos {
		w.cl[p] = c.connect(p, addr, c.honest())
	}
	return w
}

func (w *World) now() int64 {
	if w.ref != nil {
		return w.ref.Now()
	}
	return time.Now().Unix()
}

func (w *World) cx(proto string) stepCtx {
	max := 1024 * 1024
	if w.ref == nil {
		max = 1024*1024 - 512 // a real server keeps its item header inside the limit
	}
	return stepCtx{proto: proto, now: w.now(), slack: w.slk, max: max}
}

func (w *World) states() map[string]State {
	m := map[string]State{}
	for _, k := range w.keys {
		m[k] = w.be.Inspect(k)
	}
	return m
}

func (w *World) watch(ks ...string) {
	for _, k := range ks {
		dup := false
		for _, x := range w.keys {
			dup = dup || x == k
		}
		if !dup {
			w.keys = append(w.keys, k)
		}
	}
}

// step runs one operation and judges its result, its effect, and its lack of effect on every other key.
func (w *World) step(proto string, o Op) Res {
	if o.Kind == "mget" {
		w.watch(o.Keys...)
	} else if o.Key != "" {
		w.watch(o.Key)
	}
	t0 := time.Now()
	s0 := w.states()
	cx := w.cx(proto)
	r := w.c.Call(proto, w.cl[proto], o)
	s1 := w.states()
	stretch(&cx.slack, t0)
	if why := w.verdict(o, r, s0, s1, cx); why != "" {
		if m, ok := w.be.(*RealMC); ok && m.Evictions() > 0 {
			w.c.Skip("the real server evicted items")
		}
		w.c.Fail("%s %s on %s: %s", proto, o, w.be.Kind(), why)
	}
	return r
}

func (w *World) verdict(o Op, r Res, s0, s1 map[string]State, cx stepCtx) string {
	switch o.Kind {
	case "mget":
		if y := judgeMulti(o.Keys, r, s0, cx); y != "" {
			// on a real clock an item may expire between inspection and read
			return y
		}
	case "version":
		want := ""
		if w.ref != nil {
			want = w.ref.Ver
		} else {
			want = w.be.(*RealMC).Version()
		}
		if r.Err != nil || r.Ver != want {
			return fmt.Sprintf("returned %s, the server's version is %q", r, want)
		}
	case "flush":
		for _, k := range w.keys {
			if y := judge(o, r, s0[k], s1[k], cx); y != "" {
				return fmt.Sprintf("%q: %s", k, y)
			}
		}
		return ""
	default:
		if y := judge(o, r, s0[o.Key], s1[o.Key], cx); y != "" {
			return y
		}
	}
	for _, k := range w.keys {
		if k == o.Key && o.Kind != "mget" && o.Kind != "version" {
			continue
		}
		if !sameState(s0[k], s1[k], cx.slack, false) {
			return fmt.Sprintf("changed another key %q: %s -> %s", k, s0[k], s1[k])
		}
	}
	return ""
}

// ---- goroutines of the code under test

func repoGoroutines(substr string) (n int, dump string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, substr) {
			n++
			dump += g + "\n\n"
		}
	}
	return
}

// ---- a port that speaks from a script

type scriptServer struct {
	l     net.Listener
	mu    sync.Mutex
	conns []net.Conn
	n     int
}

// newScript calls fn for every accepted connection.
func newScript(fn func(i int, c net.Conn)) *scriptServer {
	l, err := listenLocal()
	if err != nil {
		panic(err)
	}
	s := &scriptServer{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			i := s.n
			s.n++
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			go fn(i, c)
		}
	}()
	return s
}

func (s *scriptServer) Addr() string { return s.l.Addr().String() }
func (s *scriptServer) Close() {
	s.l.Close()
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
