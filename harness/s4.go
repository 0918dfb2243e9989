package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"go.f110.dev/go-memcached/server"
)

func init() { registry["S04"] = checkS04 }

// ---- a handler whose answer is a function of the key

// A key is <owner>.<seq>.<mode><size>.<flags>; the mode says how the handler behaves:
// n answers, s answers after a moment, g waits for the gate, m misses, e fails, r answers with an error, z with nothing.
type echoHandler struct {
	gate    chan struct{}
	gated   int64 // calls waiting at the gate
	holds   int64 // that many more calls wait at the gate, whatever they are
	active  int64
	peak    int64
	calls   int64
	mu      sync.Mutex
	garbled string
	perm    *rand.Rand
}

func newEcho(seed int64) *echoHandler {
	return &echoHandler{gate: make(chan struct{}), perm: rand.New(rand.NewSource(seed))}
}

func echoVal(key string) (val []byte, flags uint32) {
	p := strings.Split(key, ".")
	if len(p) != 4 {
		return nil, 0
	}
	n, _ := strconv.Atoi(p[2][1:])
	f, _ := strconv.ParseUint(p[3], 10, 32)
	s := key + "\r\n"
	val = bytes.Repeat([]byte(s), n/len(s)+1)[:n]
	return val, uint32(f)
}
func echoNum(key string) []byte { return []byte(fmt.Sprintf("%08d", hash64(key)%100000000)) }

func (h *echoHandler) bad(f string, a ...any) {
	h.mu.Lock()
	if h.garbled == "" {
		h.garbled = fmt.Sprintf(f, a...)
	}
	h.mu.Unlock()
}

func (h *echoHandler) ServeRequest(q *server.Request) ([]*server.Response, error) {
	atomic.AddInt64(&h.calls, 1)
	a := atomic.AddInt64(&h.active, 1)
	defer atomic.AddInt64(&h.active, -1)
	for p := atomic.LoadInt64(&h.peak); a > p && !atomic.CompareAndSwapInt64(&h.peak, p, a); p = atomic.LoadInt64(&h.peak) {
	}
	if atomic.LoadInt64(&h.holds) > 0 && atomic.AddInt64(&h.holds, -1) >= 0 {
		atomic.AddInt64(&h.gated, 1)
		<-h.gate
		atomic.AddInt64(&h.gated, -1)
	}
	keys := q.Keys
	if keys == nil {
		keys = []string{q.Key}
	}
	var rs []*server.Response
	for _, k := range keys {
		if q.Opcode == opNoop || q.Opcode == opVersion || q.Opcode == opFlush {
			break
		}
		p := strings.Split(k, ".")
		if len(p) != 4 {
			h.bad("the handler was called with key %q, which no client sent: %s", k, reqStr(*q))
			return nil, errors.New("unknown key")
		}
		switch p[2][0] {
		case 's':
			h.mu.Lock()
			d := time.Duration(h.perm.Intn(300)) * time.Microsecond
			h.mu.Unlock()
			time.Sleep(d)
		case 'g':
			atomic.AddInt64(&h.gated, 1)
			<-h.gate
			atomic.AddInt64(&h.gated, -1)
		case 'e':
			return nil, errors.New("handler: failed")
		case 'r':
			return []*server.Response{{Error: errors.New("handler: no")}}, nil
		case 'z':
			return nil, nil
		case 'm':
			if q.Opcode == opGet {
				continue
			}
		}
	}
	for _, k := range keys {
		val, fl := echoVal(k)
		switch q.Opcode {
		case opGet:
			if strings.Split(k, ".")[2][0] == 'm' {
				if q.Keys == nil {
					rs = append(rs, &server.Response{Error: statusErr(1, "not found")})
				}
				continue
			}
			rs = append(rs, &server.Response{Key: k, Value: val, Flags: be32(fl), Cas: int64(hash64(k) >> 1), TTL: -1})
		case opSet, opAdd, opReplace:
			f := flagVal(q.Flags)
			if q.SetOpt != nil && q.SetOpt.Meta {
				f = uint32(q.SetOpt.Flag)
			}
			if !bytes.Equal(q.Value, val) || f != fl {
				h.bad("the handler got key %q with %d bytes and flags %d, its client sent %d bytes and flags %d", k, len(q.Value), f, len(val), fl)
			}
			rs = append(rs, &server.Response{})
		case opIncr, opDecr:
			n := echoNum(k)
			rs = append(rs, &server.Response{Value: n})
		case opVersion:
			rs = append(rs, &server.Response{Value: []byte("VERSION 1.2.3")})
		default:
			rs = append(rs, &server.Response{})
		}
	}
	return rs, nil
}

// ---- requests whose reply is known

type echoReq struct {
	desc  string
	wire  []byte
	check func(r *bufio.Reader) error // reads exactly the reply
}

func expectBytes(want []byte) func(*bufio.Reader) error {
	return func(r *bufio.Reader) error {
		got := make([]byte, len(want))
		n, err := io.ReadFull(r, got)
		for i := 0; i < n; i++ {
			if got[i] != want[i] {
				return fmt.Errorf("reply %q differs from %q at byte %d", trunc(got[:n]), trunc(want), i)
			}
		}
		if err != nil {
			return fmt.Errorf("%w after %d of %d bytes of the reply", err, n, len(want))
		}
		return nil
	}
}

var echoVerbs = map[string][]string{
	"text":   {"get", "get", "gets", "mget", "set", "set", "add", "replace", "incr", "decr", "delete", "touch", "flush_all"},
	"meta":   {"mg", "mg", "ms", "ms", "md"},
	"binary": {"get", "get", "getkq", "set", "set", "add", "incr", "delete", "touch", "noop", "version"},
}

func echoKey(owner string, seq int, mode byte, size int, flags uint32) string {
	return fmt.Sprintf("%s.%d.%c%d.%d", owner, seq, mode, size, flags)
}

func newEchoReq(proto, verb, key string, opq uint32) *echoReq {
	val, fl := echoVal(key)
	miss := strings.Contains(key, ".m")
	q := &echoReq{desc: proto + " " + verb + " " + key}
	w := func(f string, a ...any) []byte { return []byte(fmt.Sprintf(f, a...)) }
	switch proto {
	case "text":
		switch verb {
		case "get", "gets", "mget":
			one := func(k string) []byte {
				v, f := echoVal(k)
				c := ""
				if verb == "gets" {
					c = fmt.Sprintf(" %d", hash64(k)>>1)
				}
				return append(w("VALUE %s %d %d%s\r\n", k, f, len(v), c), append(append([]byte(nil), v...), "\r\n"...)...)
			}
			var want []byte
			if !miss {
				want = one(key)
			}
			switch verb {
			case "get":
				q.wire = w("get %s\r\n", key)
			case "gets":
				q.wire = w("gets %s\r\n", key)
			case "mget":
				k2 := strings.Replace(key, ".", "b.", 1)
				q.wire = w("get %s %s\r\n", key, k2)
				if !miss {
					want = append(want, one(k2)...)
				}
			}
			q.check = expectBytes(append(want, "END\r\n"...))
		case "set", "add", "replace":
			q.wire = append(w("%s %s %d 0 %d\r\n", verb, key, fl, len(val)), append(val, "\r\n"...)...)
			q.check = expectBytes([]byte("STORED\r\n"))
		case "incr", "decr":
			q.wire = w("%s %s 1\r\n", verb, key)
			q.check = expectBytes(append(echoNum(key), "\r\n"...))
		case "delete":
			q.wire, q.check = w("delete %s\r\n", key), expectBytes([]byte("DELETED\r\n"))
		case "touch":
			q.wire, q.check = w("touch %s 10\r\n", key), expectBytes([]byte("TOUCHED\r\n"))
		case "flush_all":
			q.wire, q.check = w("flush_all\r\n"), expectBytes([]byte("OK\r\n"))
		}
	case "meta":
		switch verb {
		case "mg":
			q.wire = w("mg %s v f k O%d\r\n", key, opq)
			if miss {
				q.check = func(r *bufio.Reader) error {
					l, err := r.ReadString('\n')
					if err != nil {
						return err
					}
					if l != "EN\r\n" && !strings.HasPrefix(l, "EN ") {
						return fmt.Errorf("%q instead of a miss", l)
					}
					return nil
				}
			} else {
				q.check = expectBytes(append(w("VA %d f%d k%s O%d\r\n", len(val), fl, key, opq), append(append([]byte(nil), val...), "\r\n"...)...))
			}
		case "ms":
			q.wire = append(w("ms %s %d F%d k O%d\r\n", key, len(val), fl, opq), append(val, "\r\n"...)...)
			q.check = expectBytes(w("HD k%s O%d\r\n", key, opq))
		case "md":
			q.wire, q.check = w("md %s\r\n", key), expectBytes([]byte("HD\r\n"))
		}
	case "binary":
		bin := func(op byte, want []byte, status uint16) func(*bufio.Reader) error {
			return func(r *bufio.Reader) error {
				h := make([]byte, 24)
				if _, err := io.ReadFull(r, h); err != nil {
					return err
				}
				kl, el, bl := int(binary.BigEndian.Uint16(h[2:])), int(h[4]), int(binary.BigEndian.Uint32(h[8:]))
				if h[0] != 0x81 || h[1] != op || binary.BigEndian.Uint32(h[12:]) != opq || binary.BigEndian.Uint16(h[6:]) != status || kl+el > bl || bl > 1<<26 {
					return fmt.Errorf("reply header %x (opcode %#x, opaque %#x, status %d expected)", h, op, opq, status)
				}
				b := make([]byte, bl)
				if _, err := io.ReadFull(r, b); err != nil {
					return err
				}
				if k := string(b[el : el+kl]); k != "" && k != key {
					return fmt.Errorf("the reply is for key %q", k)
				}
				if want != nil && !bytes.Equal(b[el+kl:], want) {
					return fmt.Errorf("value %q expected %q", trunc(b[el+kl:]), trunc(want))
				}
				if want != nil && el == 4 && binary.BigEndian.Uint32(b) != fl {
					return fmt.Errorf("flags %x expected %x", b[:4], fl)
				}
				return nil
			}
		}
		switch verb {
		case "get", "getkq":
			op := byte(0)
			if verb == "getkq" {
				op = 0x0d
			}
			q.wire = binReq(op, opq, 0, nil, key, nil)
			switch {
			case miss && op == 0x0d:
				q.check = func(*bufio.Reader) error { return nil }
			case miss:
				q.check = bin(op, nil, 1)
			default:
				q.check = bin(op, val, 0)
			}
		case "set", "add":
			op := byte(1)
			if verb == "add" {
				op = 2
			}
			q.wire = binReq(op, opq, 0, append(be32(fl), 0, 0, 0, 0), key, val)
			q.check = bin(op, nil, 0)
		case "incr":
			q.wire = binReq(5, opq, 0, make([]byte, 20), key, nil)
			q.check = bin(5, echoNum(key), 0)
		case "delete":
			q.wire, q.check = binReq(4, opq, 0, nil, key, nil), bin(4, nil, 0)
		case "touch":
			q.wire, q.check = binReq(0x1c, opq, 0, make([]byte, 4), key, nil), bin(0x1c, nil, 0)
		case "noop":
			q.wire, q.check = binReq(0x0a, opq, 0, nil, "", nil), bin(0x0a, nil, 0)
		case "version":
			q.wire, q.check = binReq(0x0b, opq, 0, nil, "", nil), bin(0x0b, []byte("VERSION 1.2.3"), 0)
		}
	}
	return q
}

func genEcho(r *rand.Rand, proto, owner string, seq int, modes string, maxSize int) *echoReq {
	size := pick(r, 0, 1, 5, 40, 300, r.Intn(maxSize+1))
	if r.Intn(12) == 0 {
		size = maxSize
	}
	key := echoKey(owner, seq, modes[r.Intn(len(modes))], size, pick[uint32](r, 0, 1, 1<<31, 1<<32-1, r.Uint32()))
	return newEchoReq(proto, pick(r, echoVerbs[proto]...), key, r.Uint32()&0x7fffffff|1)
}

// ---- the server under test, its listener and what became of its connections

type s4conn struct {
	net.Conn
	l    *s4listener
	once sync.Once
}

func (x *s4conn) Close() error {
	x.once.Do(func() { atomic.AddInt64(&x.l.open, -1) })
	return x.Conn.Close()
}

type s4listener struct {
	net.Listener
	open, accepted int64
	hiccup         func() error // a temporary failure, or nil
}

func (l *s4listener) Accept() (net.Conn, error) {
	if l.hiccup != nil {
		if err := l.hiccup(); err != nil {
			return nil, err
		}
	}
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	atomic.AddInt64(&l.open, 1)
	atomic.AddInt64(&l.accepted, 1)
	return &s4conn{Conn: c, l: l}, nil
}

type s4world struct {
	c    *Case
	h    *echoHandler
	l    *s4listener
	dial func() net.Conn
	tcp  bool
}

func newS4(c *Case, tcp bool) *s4world {
	if c.Rng.Intn(4) == 0 {
		return newS4With(c, tcp, 10)
	}
	return newS4With(c, tcp, 0)
}

// newS4With: one in hiccups attempts to accept a connection fails.
func newS4With(c *Case, tcp bool, hiccups int) *s4world {
	w := &s4world{c: c, h: newEcho(c.Rng.Int63()), tcp: tcp}
	if tcp {
		l, err := listenLocal()
		c.Must(err)
		w.l = &s4listener{Listener: l}
		w.dial = func() net.Conn {
			x, err := net.Dial("tcp", l.Addr().String())
			c.Dialed(err)
			c.Defer(func() { x.Close() })
			return x
		}
	} else {
		cl := newChanListener()
		w.l = &s4listener{Listener: cl}
		w.dial = func() net.Conn {
			a, b := net.Pipe()
			ok := false
			c.Do("accepting another connection", func() {
				select {
				case cl.ch <- b:
					ok = true
				case <-cl.done:
				}
			})
			if !ok {
				c.Fail("the server stopped accepting connections")
			}
			c.Defer(func() { a.Close() })
			return a
		}
	}
	if hiccups > 0 {
		w.flaky(hiccups)
	}
	s := &server.Server{Handler: w.h}
	go s.Serve(w.l)
	c.Defer(func() { w.l.Close() })
	return w
}

// flaky makes one in n attempts to accept a connection fail as it does when descriptors run out.
func (w *s4world) flaky(n int) {
	r := rand.New(rand.NewSource(w.c.Rng.Int63()))
	w.l.hiccup = func() error {
		if r.Intn(n) > 0 {
			return nil
		}
		w.c.R.Count("temporary_failures_to_accept", 1)
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", pick(r, syscall.EMFILE, syscall.ENFILE))}
	}
}

func (w *s4world) ok() {
	w.h.mu.Lock()
	defer w.h.mu.Unlock()
	if w.h.garbled != "" {
		w.c.Fail("%s", w.h.garbled)
	}
}

// client drives one connection: bursts of requests, in random pieces, replies checked in order.
func (w *s4world) client(x net.Conn, r *rand.Rand, owner, proto string, n int, modes string) error {
	br := bufio.NewReader(x)
	for i := 0; i < n; {
		k := pick(r, 1, 1, 2, 5)
		var b []byte
		var qs []*echoReq
		for j := 0; j < k; j++ {
			q := genEcho(r, proto, owner, i+j, modes, 6000)
			qs = append(qs, q)
			b = append(b, q.wire...)
		}
		werr := make(chan error, 1)
		go func(b []byte, seed int64) {
			r := rand.New(rand.NewSource(seed))
			segs, _ := cut(r, b, nil)
			if len(segs) > 60 {
				segs = [][]byte{b[:len(b)/2], b[len(b)/2:]}
			}
			for _, s := range segs {
				if _, err := x.Write(s); err != nil {
					werr <- err
					return
				}
			}
			werr <- nil
		}(b, r.Int63())
		for _, q := range qs {
			if err := q.check(br); err != nil {
				return fmt.Errorf("%s: %w", q.desc, err)
			}
		}
		if err := <-werr; err != nil {
			return fmt.Errorf("writing: %w", err)
		}
		if n := br.Buffered(); n > 0 {
			// a miss of getkq is silent, so the next reply may not be here yet; nothing else may be
			b, _ := br.Peek(n)
			return fmt.Errorf("after %d requests %d unexpected bytes: %q", i+k, n, trunc(b))
		}
		i += k
	}
	return nil
}

// crowd runs well-behaved clients to the end.
func (w *s4world) crowd(what, tag string, n, reqs int, modes string) {
	c := w.c
	var wg sync.WaitGroup
	errs := make([]error, n)
	conns := make([]net.Conn, n)
	for i := range conns {
		conns[i] = w.dial()
	}
	for i := range conns {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func(i int) {
			defer wg.Done()
			proto := []string{"text", "meta", "binary"}[i%3]
			errs[i] = w.client(conns[i], r, fmt.Sprintf("%s%d", tag, i), proto, reqs, modes)
		}(i)
	}
	c.Do(what, wg.Wait)
	for i, err := range errs {
		if err != nil {
			c.Fail("%s: connection %d: %v", what, i, err)
		}
	}
	for _, x := range conns {
		x.Close()
	}
	w.ok()
	c.R.Count("replies_checked", int64(n*reqs))
}

func checkS04(r *Run) {
	r.Rule("many connections to one server, each reply a function of the key only its own connection uses: crowds of text, meta and binary clients while other connections are stalled in the handler, half-sent, silent, failing or not reading; a barrier of handler calls that must all be active at once; every kind of disconnect, after which the server's connection and goroutine must be gone; race detector on; distinct = (kind, transport, mixture of stalled connections and their protocols / manner and moment of the disconnect)")
	r.Cases("barrier", r.N(2, 8), 1, s04Barrier)
	r.Cases("stuck", r.N(60, 900), 8, s04Stuck)
	r.Cases("accept", r.N(24, 240), 4, s04Accept)
	r.Cases("stress", r.N(16, 300), 4, s04Stress)
	r.Cases("churn", 1, 1, s04Churn)
	r.Cases("verbs", r.N(64, 256), 4, s04Verbs)
	r.Cases("release", r.N(60, 900), 1, s04Release)
	r.Cases("end", 1, 1, func(c *Case) {
		if !c.eventually("goroutines gone", func() bool { n, _ := repoGoroutines("go-memcached/server."); return n == 0 }) {
			_, d := repoGoroutines("go-memcached/server.")
			c.Fail("all connections and listeners are closed, server goroutines remain:\n%s", trunc([]byte(d)))
		}
		c.R.Eval("end")
	})
}

// s04Barrier: no number of slow calls keeps the next one from starting.
func s04Barrier(c *Case) {
	w := newS4With(c, false, 0)
	n := c.R.N(1500, 6000)
	qs := make([]*echoReq, n)
	xs := make([]net.Conn, n)
	for i := range xs {
		xs[i] = w.dial()
		proto := []string{"text", "meta", "binary"}[i%3]
		verb := map[string]string{"text": "get", "meta": "mg", "binary": "get"}[proto]
		qs[i] = newEchoReq(proto, verb, echoKey(fmt.Sprintf("b%d", i), 0, 'g', 10, 1), uint32(i+1))
		go xs[i].Write(qs[i].wire)
	}
	if !c.eventually("all calls active", func() bool { return atomic.LoadInt64(&w.h.gated) == int64(n) }) {
		c.Fail("%d connections asked, only %d handler calls run at the same time", n, atomic.LoadInt64(&w.h.gated))
	}
	close(w.h.gate)
	c.Do("answers after a barrier", func() {
		for i := range xs {
			if err := qs[i].check(bufio.NewReader(xs[i])); err != nil {
				c.Report("%s: %v", qs[i].desc, err)
				return
			}
		}
	})
	w.ok()
	c.R.Max("handler_calls_active_at_once", atomic.LoadInt64(&w.h.peak))
	c.R.Eval("barrier")
}

// s04Churn: more connections, one after another, than 16 bits can count.
func s04Churn(c *Case) {
	w := newS4With(c, false, 0)
	cl := w.l.Listener.(*chanListener)
	n := c.R.N(67000, 300000)
	var next int64
	var wg sync.WaitGroup
	atomic.AddInt64(&c.grace, int64(200*time.Second))
	for i := 0; i < 8; i++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func() {
			defer wg.Done()
			for {
				k := atomic.AddInt64(&next, 1)
				if k > int64(n) {
					return
				}
				a, b := net.Pipe()
				select {
				case cl.ch <- b:
				case <-cl.done:
					c.Report("the server stopped accepting at connection %d", k)
					return
				}
				proto := protos[r.Intn(3)]
				verb := map[string]string{"text": "get", "meta": "mg", "binary": "get"}[proto]
				q := newEchoReq(proto, verb, echoKey(fmt.Sprintf("c%d", k), 0, 'n', 20, 1), uint32(k))
				go a.Write(q.wire)
				if err := q.check(bufio.NewReader(a)); err != nil {
					c.Report("connection %d: %s: %v", k, q.desc, err)
					return
				}
				a.Close()
			}
		}()
	}
	c.Do("many connections", wg.Wait)
	w.ok()
	c.R.Count("connections_in_succession", int64(n))
	c.R.Eval("churn")
}

func s04Stuck(c *Case) {
	tcp := c.Idx()%2 == 0
	w := newS4(c, tcp)
	type stuck struct {
		kind string
		x    net.Conn
		q    *echoReq
		rest []byte
		n    int
		br   *bufio.Reader
	}
	var ss []*stuck
	sig := fmt.Sprint(tcp)
	gates := 0
	for i, n := 0, 1+c.Rng.Intn(8); i < n; i++ {
		s := &stuck{kind: pick(c.Rng, "gate", "half", "silent", "noread", "erring", "halfpipe"), x: w.dial()}
		s.br = bufio.NewReader(s.x)
		proto := pick(c.Rng, "text", "meta", "binary")
		owner := fmt.Sprintf("k%d", i)
		switch s.kind {
		case "gate":
			verb := pick(c.Rng, echoVerbs[proto]...)
			for verb == "noop" || verb == "version" || verb == "flush_all" || verb == "mget" {
				verb = pick(c.Rng, echoVerbs[proto]...)
			}
			s.q = newEchoReq(proto, verb, echoKey(owner, 0, 'g', c.Rng.Intn(2000), 7), 5)
			wire := s.q.wire
			if !tcp {
				go s.x.Write(wire)
			} else {
				s.x.Write(wire)
			}
			gates++
		case "half", "halfpipe":
			s.q = genEcho(c.Rng, proto, owner, 1, "ns", 3000)
			cutAt := c.Rng.Intn(len(s.q.wire))
			pre := []byte{}
			if s.kind == "halfpipe" {
				q0 := newEchoReq(proto, map[string]string{"text": "get", "meta": "mg", "binary": "get"}[proto], echoKey(owner, 0, 'n', 50, 3), 9)
				pre = q0.wire
				q1 := s.q
				ck0, ck1 := q0.check, q1.check
				s.q = &echoReq{desc: q0.desc + ", " + q1.desc, wire: append(append([]byte(nil), q0.wire...), q1.wire...), check: func(r *bufio.Reader) error {
					if err := ck0(r); err != nil {
						return err
					}
					return ck1(r)
				}}
			}
			first := append(append([]byte(nil), pre...), s.q.wire[len(pre):len(pre)+cutAt]...)
			s.rest = s.q.wire[len(first):]
			if tcp {
				s.x.Write(first)
			} else {
				go s.x.Write(first)
				// what is left goes once that was taken
				rest, x := s.rest, s.x
				s.rest = nil
				go func() { <-w.h.gate; time.Sleep(time.Millisecond); x.Write(rest) }()
			}
		case "noread":
			s.n = 40
			size := 50
			if tcp {
				size = 400000
			}
			key := echoKey(owner, 0, 'n', size, 3)
			s.q = newEchoReq(proto, map[string]string{"text": "get", "meta": "mg", "binary": "get"}[proto], key, 4)
			b := bytes.Repeat(s.q.wire, s.n)
			go s.x.Write(b)
		case "erring":
			s.q = newEchoReq(proto, map[string]string{"text": "get", "meta": "mg", "binary": "get"}[proto], echoKey(owner, 0, pick[byte](c.Rng, 'e', 'r', 'z'), 5, 1), 4)
			if verb := pick(c.Rng, echoVerbs[proto]...); !has([]string{"mget", "noop", "version", "flush_all", "flush"}, verb) && c.Rng.Intn(2) == 0 {
				s.q = newEchoReq(proto, verb, echoKey(owner, 0, pick[byte](c.Rng, 'e', 'r', 'z'), 5, 1), 4)
			}
			go s.x.Write(s.q.wire)
		}
		ss = append(ss, s)
		sig += "|" + s.kind + proto
	}
	if !c.eventually("gated calls", func() bool { return atomic.LoadInt64(&w.h.gated) == int64(gates) }) {
		c.Fail("%d requests for slow calls were sent, %d reached the handler while other connections are stalled (%s)", gates, atomic.LoadInt64(&w.h.gated), sig)
	}
	w.crowd("clients while other connections are stalled ("+sig+")", "n", 3+c.Rng.Intn(6), 40, "nnnsm")
	if n := atomic.LoadInt64(&w.h.gated); n != int64(gates) {
		c.Skip("gate leak")
	}
	c.R.Count("stalled_connections", int64(len(ss)))
	close(w.h.gate)
	// the stalled ones get what is theirs, complete
	var wg sync.WaitGroup
	for _, s := range ss {
		if s.kind == "silent" {
			continue
		}
		wg.Add(1)
		go func(s *stuck) {
			defer wg.Done()
			if s.rest != nil {
				s.x.Write(s.rest)
			}
			switch s.kind {
			case "erring":
				b, err := io.ReadAll(s.br)
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					return
				}
				// an error reply or nothing, then the end
				if strings.Contains(s.q.desc, ".e5.") && successes(b) > 0 {
					c.Report("a request the handler failed was answered %q", trunc(b))
				}
			case "noread":
				for i := 0; i < s.n; i++ {
					if err := s.q.check(s.br); err != nil {
						c.Report("a connection that read late: reply %d to %s: %v", i, s.q.desc, err)
						return
					}
				}
			default:
				if err := s.q.check(s.br); err != nil {
					c.Report("a connection that was stalled (%s) got a wrong reply: %s: %v", s.kind, s.q.desc, err)
				}
			}
		}(s)
		if s.kind == "erring" {
			// whether a failed call ends the connection is the server's choice
			s.x.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		}
	}
	c.Do("answers to connections that were stalled", wg.Wait)
	w.ok()
	c.R.Eval(sig)
}

// s04Accept: accepting fails again and again, for a while without a break; clients are served all the same.
func s04Accept(c *Case) {
	tcp := c.Idx()%2 == 0
	n := pick(c.Rng, 2, 3, 6)
	w := newS4With(c, tcp, n)
	for i := 0; i < 3; i++ {
		w.crowd(fmt.Sprintf("clients while one in %d attempts to accept a connection fails", n), fmt.Sprintf("n%d", i), 3+c.Rng.Intn(6), 10, "nnnsm")
	}
	c.R.Eval(fmt.Sprintf("accept%v%d", tcp, n))
}

func s04Stress(c *Case) {
	tcp := c.Idx()%2 == 0
	w := newS4(c, tcp)
	n := 6 + c.Rng.Intn(20)
	w.crowd("concurrent clients", "n", n, c.R.N(150, 400), "nnnsm")
	c.R.Max("handler_calls_active_at_once", atomic.LoadInt64(&w.h.peak))
	c.R.Eval(fmt.Sprintf("stress%v%d", tcp, n))
}

// s04Release: whatever way and moment the client goes, the server lets go.
func s04Release(c *Case) {
	w := newS4(c, true)
	where := "go-memcached/server.(*Server).Serve"
	if !c.eventually("only the accept loop runs", func() bool { n, _ := repoGoroutines(where); return n <= 1 }) {
		c.Skip("goroutines of an earlier case")
	}
	sig := ""
	var xs []net.Conn
	gates := 0
	for i, n := 0, 2+c.Rng.Intn(8); i < n; i++ {
		x := w.dial()
		xs = append(xs, x)
		proto := pick(c.Rng, "text", "meta", "binary")
		get := map[string]string{"text": "get", "meta": "mg", "binary": "get"}[proto]
		moment := pick(c.Rng, "start", "half", "gate", "gatepipe", "noread", "idle", "erring", "bad")
		owner := fmt.Sprintf("r%d", i)
		q := newEchoReq(proto, get, echoKey(owner, 0, 'n', 100, 1), 3)
		switch moment {
		case "half":
			q = genEcho(c.Rng, proto, owner, 0, "n", 300)
			x.Write(q.wire[:c.Rng.Intn(len(q.wire))])
		case "gate":
			q = newEchoReq(proto, get, echoKey(owner, 0, 'g', 100, 1), 3)
			x.Write(q.wire)
			gates++
		case "gatepipe": // the call is running and more requests wait behind it
			q = newEchoReq(proto, get, echoKey(owner, 0, 'g', 100, 1), 3)
			x.Write(append(append([]byte(nil), q.wire...), bytes.Repeat(newEchoReq(proto, get, echoKey(owner, 1, 'n', 3000, 1), 3).wire, 50)...))
			gates++
		case "noread":
			q = newEchoReq(proto, get, echoKey(owner, 0, 'n', 500000, 1), 3)
			x.Write(bytes.Repeat(q.wire, 30))
		case "idle":
			x.Write(q.wire)
			var err error
			c.Do("a request", func() { err = q.check(bufio.NewReader(x)) })
			if err != nil {
				c.Fail("%s: %v", q.desc, err)
			}
		case "erring":
			x.Write(newEchoReq(proto, get, echoKey(owner, 0, pick[byte](c.Rng, 'e', 'r', 'z'), 10, 1), 3).wire)
		case "bad":
			x.Write([]byte("nonsense\r\n"))
		}
		sig += "|" + moment + proto
	}
	if !c.eventually("gated calls", func() bool { return atomic.LoadInt64(&w.h.gated) == int64(gates) }) {
		c.Fail("%d slow calls expected, %d run", gates, atomic.LoadInt64(&w.h.gated))
	}
	if c.Rng.Intn(2) == 0 {
		time.Sleep(time.Duration(c.Rng.Intn(3000)) * time.Microsecond)
	}
	var half []net.Conn
	for _, x := range xs {
		manner := pick(c.Rng, "close", "rst", "half")
		sig += "/" + manner
		switch manner {
		case "close":
			x.Close()
		case "rst":
			x.(*net.TCPConn).SetLinger(0)
			x.Close()
		case "half":
			x.(*net.TCPConn).CloseWrite()
			half = append(half, x)
		}
	}
	// running calls may finish, and what a half-closed client is owed may be written
	for _, x := range half {
		go io.Copy(io.Discard, x)
	}
	early := c.Rng.Intn(2) == 0
	if early {
		close(w.h.gate)
	} else if !c.eventually("connections without a running call end", func() bool { return atomic.LoadInt64(&w.l.open) <= int64(gates) }) {
		c.Fail("%d clients are gone or have said all, %d of the server's connections are in a handler call, %d stay open (%s)", len(xs), gates, atomic.LoadInt64(&w.l.open), sig)
	} else {
		close(w.h.gate)
	}
	if !c.eventually("every connection ends", func() bool {
		return atomic.LoadInt64(&w.l.accepted) == int64(len(xs)) && atomic.LoadInt64(&w.l.open) == 0
	}) {
		c.Fail("all %d clients are gone, the server keeps %d connections open (%s)", len(xs), atomic.LoadInt64(&w.l.open), sig)
	}
	if !c.eventually("every goroutine ends", func() bool { n, _ := repoGoroutines(where); return n <= 1 }) {
		n, d := repoGoroutines(where)
		c.Fail("all clients are gone, %d goroutines of the server remain (%s):\n%s", n, sig, trunc([]byte(d)))
	}
	w.crowd("clients after disconnects", "n", 3, 5, "n")
	if !c.eventually("every connection ends", func() bool { return atomic.LoadInt64(&w.l.open) == 0 }) {
		c.Fail("the server keeps %d connections of clients that closed", atomic.LoadInt64(&w.l.open))
	}
	c.R.Count("disconnects", int64(len(xs)))
	c.R.Eval(sig)
}
