package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RefMC is a model memcached: text, meta and binary protocol, virtual clock, fault hooks, command log.
type RefMC struct {
	l    net.Listener
	beat *int64
	Ver  string
	Max  int // largest value accepted
	Lazy bool

	mu     sync.Mutex
	items  map[string]*ritem
	cas    uint64
	now    int64
	log    []*Cmd
	noLog  bool
	conns  map[int]*rconn
	nconn  int
	nopen  int
	hook   func(*Cmd) *Act
	seg    func() int // sizes of the chunks replies are sent in; nil = whole
	down   bool
	closed bool
	fault  *Fault
	linger bool

	accepted int64
	bytesIn  int64
}

type ritem struct {
	val   []byte
	flags uint32
	exp   int64 // absolute virtual time, 0 = never
	cas   uint64
	stale bool
	won   bool
}

// Cmd is one command the server parsed.
type Cmd struct {
	Seq    int
	Conn   int
	Name   string // get set add replace append prepend cas delete incr decr touch gat flush version noop quit ? (unknown)
	Keys   []string
	Bin    bool
	Reply  string // short form of the outcome
	ExpRaw int64
	Val    string
	Delta  uint64
	Cas    uint64
}

// Act tells what to do with a command. nil = execute and reply.
type Act struct {
	Gate    <-chan struct{} // wait before executing
	NoApply bool            // do not execute
	Reply   []byte          // reply instead (with NoApply or after executing)
	Replace bool            // use Reply even after executing
	Close   bool            // close the connection instead of replying
	After   <-chan struct{} // wait after executing, before replying
	Swallow bool            // no reply at all
	Mutate  func([]byte) []byte
}

// Fault cuts the byte stream of one connection, once.
type Fault struct {
	OutAfter int // reply bytes let through before the fault; -1 = none
	InAfter  int // request bytes read before the fault; -1 = none
	Stall    bool
	Release  chan struct{} // a stalled reply continues when this is closed
	Hit      int32
	resumed  int32
	hitCh    chan struct{}
	once     sync.Once
	out, in  int64
}

func NewFault() *Fault {
	return &Fault{OutAfter: -1, InAfter: -1, Release: make(chan struct{}), hitCh: make(chan struct{})}
}
func (f *Fault) hit() { f.once.Do(func() { atomic.StoreInt32(&f.Hit, 1); close(f.hitCh) }) }

type rconn struct {
	mc   *RefMC
	id   int
	c    net.Conn
	r    *bufio.Reader
	out  bytes.Buffer
	quit bool
	done chan struct{}
}

var refEpoch = time.Now().Unix()

func NewRefMC() *RefMC { return newRefMC(nil) }

// newRefMC serves on the listener, on TCP if it is nil.
func newRefMC(l net.Listener) *RefMC {
	m := &RefMC{Ver: "1.6.24-ref", Max: 1024 * 1024, items: map[string]*ritem{}, conns: map[int]*rconn{}, now: refEpoch}
	if l == nil {
		var err error
		if l, err = listenLocal(); err != nil {
			panic(err)
		}
	}
	m.l = l
	go m.accept(l)
	return m
}

// SetLinger: a client that ends only its side is not done, its connection stays open until nothing can be sent to it.
func (m *RefMC) SetLinger(b bool) {
	m.mu.Lock()
	m.linger = b
	m.mu.Unlock()
}

func (c *rconn) lingers() bool {
	c.mc.mu.Lock()
	defer c.mc.mu.Unlock()
	return c.mc.linger
}

func (m *RefMC) Addr() string { return m.l.Addr().String() }

func (m *RefMC) accept(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		m.mu.Lock()
		if m.down || m.closed {
			m.mu.Unlock()
			c.Close()
			continue
		}
		m.nconn++
		atomic.AddInt64(&m.accepted, 1)
		rc := &rconn{mc: m, id: m.nconn, c: c, done: make(chan struct{})}
		rc.r = bufio.NewReaderSize(&faultReader{c: rc}, 16384)
		m.conns[rc.id] = rc
		m.nopen++
		m.mu.Unlock()
		go rc.serve()
	}
}

func (m *RefMC) Accepted() int { return int(atomic.LoadInt64(&m.accepted)) }

func (m *RefMC) Open() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.nopen
}

// SetDown makes the server refuse service: listener closed, connections dropped.
func (m *RefMC) SetDown() {
	m.mu.Lock()
	m.down = true
	cs := []*rconn{}
	for _, c := range m.conns {
		cs = append(cs, c)
	}
	m.mu.Unlock()
	m.l.Close()
	for _, c := range cs {
		c.c.Close()
	}
	for _, c := range cs {
		<-c.done
	}
}

// SetUp reopens on the same address.
func (m *RefMC) SetUp() error {
	a := m.l.Addr().String()
	var err error
	var l net.Listener
	for i := 0; i < 200; i++ {
		l, err = net.Listen(m.l.Addr().Network(), a)
		if err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	m.mu.Lock()
	m.l = l
	m.down = false
	m.mu.Unlock()
	go m.accept(l)
	return nil
}

func (m *RefMC) DropConns() {
	m.mu.Lock()
	cs := []*rconn{}
	for _, c := range m.conns {
		cs = append(cs, c)
	}
	m.mu.Unlock()
	for _, c := range cs {
		c.c.Close()
	}
	for _, c := range cs {
		<-c.done
	}
}

func (m *RefMC) Close() {
	m.mu.Lock()
	m.closed = true
	cs := []*rconn{}
	for _, c := range m.conns {
		cs = append(cs, c)
	}
	m.mu.Unlock()
	m.l.Close()
	for _, c := range cs {
		c.c.Close()
	}
}

func (m *RefMC) SetHook(h func(*Cmd) *Act) { m.mu.Lock(); m.hook = h; m.mu.Unlock() }
func (m *RefMC) SetSeg(s func() int)       { m.mu.Lock(); m.seg = s; m.mu.Unlock() }
func (m *RefMC) Arm(f *Fault)              { m.mu.Lock(); m.fault = f; m.mu.Unlock() }
func (m *RefMC) SetCas(n uint64)           { m.mu.Lock(); m.cas = n; m.mu.Unlock() }
func (m *RefMC) Advance(s int64)           { m.mu.Lock(); m.now += s; m.mu.Unlock() }
func (m *RefMC) Now() int64                { m.mu.Lock(); defer m.mu.Unlock(); return m.now }
func (m *RefMC) ClearLog()                 { m.mu.Lock(); m.log = nil; m.mu.Unlock() }

// SetQuiet stops the recording of commands, for workloads too long to keep.
func (m *RefMC) SetQuiet(v bool) { m.mu.Lock(); m.noLog = v; m.mu.Unlock() }
func (m *RefMC) LogLen() int     { m.mu.Lock(); defer m.mu.Unlock(); return len(m.log) }
func (m *RefMC) LogFrom(i int) []Cmd {
	m.mu.Lock()
	defer m.mu.Unlock()
	r := make([]Cmd, 0)
	for _, c := range m.log[i:] {
		r = append(r, *c)
	}
	return r
}

// State is what an inspector sees of one key.
type State struct {
	Ok    bool
	Val   string
	Flags uint32
	TTL   int64 // -1 never
	Cas   uint64
	Stale bool
}

func (s State) String() string {
	if !s.Ok {
		return "absent"
	}
	v := s.Val
	if len(v) > 40 {
		v = fmt.Sprintf("%s..(%d bytes)", v[:40], len(v))
	}
	return fmt.Sprintf("{%q flags=%d ttl=%d cas=%d stale=%v}", v, s.Flags, s.TTL, s.Cas, s.Stale)
}

func (m *RefMC) Inspect(key string) State {
	m.mu.Lock()
	defer m.mu.Unlock()
	it := m.live(key)
	if it == nil {
		return State{}
	}
	t := int64(-1)
	if it.exp != 0 {
		t = it.exp - m.now
	}
	return State{true, string(it.val), it.flags, t, it.cas, it.stale}
}

func (m *RefMC) Snapshot() map[string]State {
	m.mu.Lock()
	ks := []string{}
	for k := range m.items {
		ks = append(ks, k)
	}
	m.mu.Unlock()
	r := map[string]State{}
	for _, k := range ks {
		if s := m.Inspect(k); s.Ok {
			r[k] = s
		}
	}
	return r
}

// Put stores directly, bypassing the wire.
func (m *RefMC) Put(key, val string, flags uint32, ttl int64) {
	m.mu.Lock()
	m.store(key, []byte(val), flags, ttl)
	m.mu.Unlock()
}
func (m *RefMC) Wipe() { m.mu.Lock(); m.items = map[string]*ritem{}; m.mu.Unlock() }

func (m *RefMC) live(k string) *ritem {
	it := m.items[k]
	if it == nil {
		return nil
	}
	if it.exp != 0 && it.exp <= m.now {
		delete(m.items, k)
		return nil
	}
	return it
}

func (m *RefMC) realtime(e int64) int64 {
	switch {
	case e == 0:
		return 0
	case e < 0:
		return 1
	case e > 60*60*24*30:
		if e <= m.now {
			return 1
		}
		return e
	}
	return m.now + e
}

func (m *RefMC) nextCas() uint64 { m.cas++; return m.cas }

func (m *RefMC) store(k string, v []byte, flags uint32, exp int64) *ritem {
	it := &ritem{val: append([]byte(nil), v...), flags: flags, exp: m.realtime(exp), cas: m.nextCas()}
	m.items[k] = it
	return it
}

// mutate applies a storage command; returns STORED NOT_STORED EXISTS NOT_FOUND TOOLARGE.
func (m *RefMC) mutate(name, k string, v []byte, flags uint32, exp int64, cas uint64) string {
	it := m.live(k)
	if len(v) > m.Max {
		if name == "set" {
			delete(m.items, k)
		}
		return "TOOLARGE"
	}
	if cas != 0 || name == "cas" {
		if it == nil {
			return "NOT_FOUND"
		}
		if it.cas != cas {
			return "EXISTS"
		}
		if name == "add" {
			return "NOT_STORED"
		}
	}
	switch name {
	case "add":
		if it != nil {
			return "NOT_STORED"
		}
	case "replace":
		if it == nil {
			return "NOT_STORED"
		}
	case "append", "prepend":
		if it == nil {
			return "NOT_STORED"
		}
		if name == "append" {
			v = append(append([]byte(nil), it.val...), v...)
		} else {
			v = append(append([]byte(nil), v...), it.val...)
		}
		n := &ritem{val: v, flags: it.flags, exp: it.exp, cas: m.nextCas()}
		m.items[k] = n
		return "STORED"
	}
	m.store(k, v, flags, exp)
	return "STORED"
}

// arith returns the new value; code "" ok, NOT_FOUND, NONNUM, EXISTS.
func (m *RefMC) arith(k string, decr bool, delta uint64, cas uint64) (uint64, string) {
	it := m.live(k)
	if it == nil {
		return 0, "NOT_FOUND"
	}
	if cas != 0 && it.cas != cas {
		return 0, "EXISTS"
	}
	s := strings.TrimRight(string(it.val), " ")
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil || len(it.val) > 20 {
		return 0, "NONNUM"
	}
	if decr {
		if delta > n {
			n = 0
		} else {
			n -= delta
		}
	} else {
		n += delta
	}
	ns := strconv.FormatUint(n, 10)
	if len(ns) < len(it.val) {
		ns += strings.Repeat(" ", len(it.val)-len(ns))
	}
	it.val = []byte(ns)
	it.cas = m.nextCas()
	return n, ""
}

// ---- connection

type faultReader struct {
	c    *rconn
	pend []byte
	buf  [16384]byte
}

func (f *faultReader) Read(p []byte) (int, error) {
	if len(f.pend) == 0 {
		n, err := f.c.c.Read(f.buf[:])
		if n == 0 {
			return 0, err
		}
		f.pend = f.buf[:n]
	}
	m := f.c.mc
	m.mu.Lock()
	ft := m.fault
	m.mu.Unlock()
	lim := len(f.pend)
	if ft != nil && ft.InAfter >= 0 && atomic.LoadInt32(&ft.Hit) == 0 {
		left := ft.InAfter - int(atomic.LoadInt64(&ft.in))
		if left <= 0 {
			ft.hit()
			if !ft.Stall {
				f.c.c.Close()
				return 0, io.EOF
			}
			<-ft.Release
			defer atomic.StoreInt32(&ft.resumed, 1)
		} else {
			if left < lim {
				lim = left
			}
		}
	}
	n := copy(p, f.pend[:lim])
	f.pend = f.pend[n:]
	if ft != nil {
		atomic.AddInt64(&ft.in, int64(n))
	}
	return n, nil
}

// Quiet: no connection is waiting behind a fault.
func (m *RefMC) Quiet() bool {
	m.mu.Lock()
	ft := m.fault
	m.mu.Unlock()
	return ft == nil || atomic.LoadInt32(&ft.Hit) == 0 || atomic.LoadInt32(&ft.resumed) == 1
}

func (c *rconn) flush() error {
	b := c.out.Bytes()
	m := c.mc
	m.mu.Lock()
	ft := m.fault
	seg := m.seg
	m.mu.Unlock()
	defer c.out.Reset()
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if seg != nil {
			k := seg()
			if i > 60 {
				k *= 50 // a large reply is not sent byte by byte to its end
			}
			if k < n {
				n = k
			}
		}
		if ft != nil && ft.OutAfter >= 0 && atomic.LoadInt32(&ft.Hit) == 0 {
			left := ft.OutAfter - int(atomic.LoadInt64(&ft.out))
			if left <= 0 {
				ft.hit()
				if !ft.Stall {
					if tc, ok := c.c.(interface{ CloseWrite() error }); ok {
						tc.CloseWrite() // let what was sent arrive before the reset
						time.Sleep(time.Millisecond)
					}
					c.c.Close()
					return io.EOF
				}
				<-ft.Release
				defer atomic.StoreInt32(&ft.resumed, 1)
			} else if n > left {
				n = left
			}
			atomic.AddInt64(&ft.out, int64(n))
		}
		if _, err := c.c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if m.beat != nil {
			atomic.AddInt64(m.beat, 1)
		}
		if seg != nil && len(b) > 0 {
			time.Sleep(30 * time.Microsecond)
		}
	}
	return nil
}

func (c *rconn) serve() {
	defer func() {
		c.c.Close()
		c.mc.mu.Lock()
		delete(c.mc.conns, c.id)
		c.mc.nopen--
		c.mc.mu.Unlock()
		close(c.done)
	}()
	for {
		if c.r.Buffered() == 0 && c.out.Len() > 0 {
			if c.flush() != nil {
				return
			}
		}
		if c.quit {
			c.flush()
			return
		}
		b, err := c.r.Peek(1)
		if err != nil {
			c.flush()
			for err == io.EOF && c.lingers() {
				if _, e := c.c.Write([]byte("-")); e != nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
			return
		}
		if b[0] == 0x80 {
			err = c.binary()
		} else {
			err = c.text()
		}
		if err != nil {
			c.flush()
			return
		}
		if c.out.Len() > 256*1024 {
			if c.flush() != nil {
				return
			}
		}
	}
}

// exec runs the hook and the command body; apply returns the reply bytes and a short outcome.
func (c *rconn) exec(cmd *Cmd, apply func() ([]byte, string)) error {
	m := c.mc
	m.mu.Lock()
	h := m.hook
	m.mu.Unlock()
	cmd.Conn = c.id
	var act *Act
	if h != nil {
		act = h(cmd)
	}
	if act == nil {
		act = &Act{}
	}
	if act.Gate != nil {
		if c.flush() != nil {
			return io.EOF
		}
		<-act.Gate
	}
	var reply []byte
	m.mu.Lock()
	cmd.Seq = len(m.log)
	if !m.noLog {
		m.log = append(m.log, cmd)
	}
	if act.NoApply {
		cmd.Reply = "not applied"
		reply = act.Reply
	} else {
		var s string
		reply, s = apply()
		cmd.Reply = s
		if act.Replace {
			reply = act.Reply
		}
		if act.Mutate != nil {
			reply = act.Mutate(append([]byte(nil), reply...))
		}
	}
	m.mu.Unlock()
	if act.After != nil {
		if c.flush() != nil {
			return io.EOF
		}
		<-act.After
	}
	if act.Mutate != nil {
		c.out.Write(reply)
		reply = nil
	}
	if act.Close {
		c.flush()
		return io.EOF
	}
	if !act.Swallow {
		c.out.Write(reply)
	}
	return nil
}

func tokens(line string) []string {
	r := []string{}
	for _, t := range strings.Split(line, " ") {
		if t != "" {
			r = append(r, t)
		}
	}
	return r
}

const errFormat = "CLIENT_ERROR bad command line format\r\n"

func (c *rconn) text() error {
	line, err := c.r.ReadString('\n')
	if err != nil {
		return err
	}
	line = strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r")
	t := tokens(line)
	bad := func(reply string) error {
		n := line
		if len(n) > 60 {
			n = n[:60]
		}
		return c.exec(&Cmd{Name: "?", Keys: []string{n}}, func() ([]byte, string) { return []byte(reply), strings.TrimSpace(reply) })
	}
	if len(t) == 0 {
		return bad("ERROR\r\n")
	}
	m := c.mc
	keyBad := func(k string) bool { return len(k) > 250 }
	switch t[0] {
	case "get", "gets":
		if len(t) < 2 {
			return bad("ERROR\r\n")
		}
		for _, k := range t[1:] {
			if keyBad(k) {
				return bad(errFormat)
			}
		}
		cmd := &Cmd{Name: "get", Keys: t[1:]}
		return c.exec(cmd, func() ([]byte, string) {
			var b bytes.Buffer
			hits := 0
			for _, k := range t[1:] {
				if it := m.live(k); it != nil {
					hits++
					if t[0] == "gets" {
						fmt.Fprintf(&b, "VALUE %s %d %d %d\r\n", k, it.flags, len(it.val), it.cas)
					} else {
						fmt.Fprintf(&b, "VALUE %s %d %d\r\n", k, it.flags, len(it.val))
					}
					b.Write(it.val)
					b.WriteString("\r\n")
				}
			}
			b.WriteString("END\r\n")
			return b.Bytes(), fmt.Sprintf("hits=%d", hits)
		})
	case "gat", "gats":
		if len(t) < 3 {
			return bad("ERROR\r\n")
		}
		e, err := strconv.ParseInt(t[1], 10, 64)
		if err != nil {
			return bad("CLIENT_ERROR invalid exptime argument\r\n")
		}
		return c.exec(&Cmd{Name: "gat", Keys: t[2:], ExpRaw: e}, func() ([]byte, string) {
			var b bytes.Buffer
			for _, k := range t[2:] {
				if it := m.live(k); it != nil {
					it.exp = m.realtime(e)
					if t[0] == "gats" {
						fmt.Fprintf(&b, "VALUE %s %d %d %d\r\n", k, it.flags, len(it.val), it.cas)
					} else {
						fmt.Fprintf(&b, "VALUE %s %d %d\r\n", k, it.flags, len(it.val))
					}
					b.Write(it.val)
					b.WriteString("\r\n")
				}
			}
			b.WriteString("END\r\n")
			return b.Bytes(), ""
		})
	case "set", "add", "replace", "append", "prepend", "cas":
		want := 5
		if t[0] == "cas" {
			want = 6
		}
		noreply := len(t) == want+1 && t[want] == "noreply"
		if len(t) != want && !noreply {
			return bad("ERROR\r\n")
		}
		if keyBad(t[1]) {
			return bad(errFormat)
		}
		fl, e1 := strconv.ParseUint(t[2], 10, 32)
		ex, e2 := strconv.ParseInt(t[3], 10, 32)
		if e2 != nil {
			ex, e2 = strconv.ParseInt(t[3], 10, 64)
		}
		n, e3 := strconv.ParseInt(t[4], 10, 32)
		var cas uint64
		var e4 error
		if t[0] == "cas" {
			cas, e4 = strconv.ParseUint(t[5], 10, 64)
		}
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil || n < 0 {
			return bad(errFormat)
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(c.r, buf); err != nil {
			return err
		}
		if string(buf[n:]) != "\r\n" {
			return bad("CLIENT_ERROR bad data chunk\r\n")
		}
		name := t[0]
		if name == "cas" {
			name = "cas"
		}
		return c.exec(&Cmd{Name: strings.Replace(name, "cas", "set", 1), Keys: []string{t[1]}, ExpRaw: ex, Val: short(buf[:n]), Cas: cas}, func() ([]byte, string) {
			s := m.mutate(name, t[1], buf[:n], uint32(fl), ex, cas)
			r := s + "\r\n"
			if s == "TOOLARGE" {
				r = "SERVER_ERROR object too large for cache\r\n"
			}
			if noreply {
				r = ""
			}
			return []byte(r), s
		})
	case "delete":
		if len(t) > 4 {
			return bad("ERROR\r\n")
		}
		if len(t) < 2 {
			return bad("ERROR\r\n")
		}
		noreply := t[len(t)-1] == "noreply" && len(t) > 2
		if len(t) > 2 && !noreply && !(t[2] == "0") {
			return bad("CLIENT_ERROR bad command line format.  Usage: delete <key> [noreply]\r\n")
		}
		if keyBad(t[1]) {
			return bad(errFormat)
		}
		return c.exec(&Cmd{Name: "delete", Keys: []string{t[1]}}, func() ([]byte, string) {
			r := "NOT_FOUND"
			if m.live(t[1]) != nil {
				delete(m.items, t[1])
				r = "DELETED"
			}
			if noreply {
				return nil, r
			}
			return []byte(r + "\r\n"), r
		})
	case "incr", "decr":
		if len(t) < 3 || len(t) > 4 {
			return bad("ERROR\r\n")
		}
		noreply := len(t) == 4
		if keyBad(t[1]) {
			return bad(errFormat)
		}
		d, err := strconv.ParseUint(t[2], 10, 64)
		if err != nil {
			return bad("CLIENT_ERROR invalid numeric delta argument\r\n")
		}
		return c.exec(&Cmd{Name: t[0], Keys: []string{t[1]}, Delta: d}, func() ([]byte, string) {
			n, s := m.arith(t[1], t[0] == "decr", d, 0)
			r := strconv.FormatUint(n, 10)
			switch s {
			case "NOT_FOUND":
				r = "NOT_FOUND"
			case "NONNUM":
				r = "CLIENT_ERROR cannot increment or decrement non-numeric value"
			}
			if noreply {
				return nil, s
			}
			return []byte(r + "\r\n"), r
		})
	case "touch":
		if len(t) < 3 || len(t) > 4 {
			return bad("ERROR\r\n")
		}
		if keyBad(t[1]) {
			return bad(errFormat)
		}
		ex, err := strconv.ParseInt(t[2], 10, 64)
		if err != nil {
			return bad("CLIENT_ERROR invalid exptime argument\r\n")
		}
		return c.exec(&Cmd{Name: "touch", Keys: []string{t[1]}, ExpRaw: ex}, func() ([]byte, string) {
			r := "NOT_FOUND"
			if it := m.live(t[1]); it != nil {
				it.exp = m.realtime(ex)
				r = "TOUCHED"
			}
			if len(t) == 4 {
				return nil, r
			}
			return []byte(r + "\r\n"), r
		})
	case "flush_all":
		return c.exec(&Cmd{Name: "flush"}, func() ([]byte, string) {
			m.items = map[string]*ritem{}
			if t[len(t)-1] == "noreply" {
				return nil, "OK"
			}
			return []byte("OK\r\n"), "OK"
		})
	case "version":
		return c.exec(&Cmd{Name: "version"}, func() ([]byte, string) { return []byte("VERSION " + m.Ver + "\r\n"), "" })
	case "verbosity":
		return c.exec(&Cmd{Name: "verbosity"}, func() ([]byte, string) { return []byte("OK\r\n"), "" })
	case "quit":
		c.quit = true
		return nil
	case "mn":
		return c.exec(&Cmd{Name: "noop"}, func() ([]byte, string) { return []byte("MN\r\n"), "" })
	case "mg", "ms", "md", "ma":
		return c.meta(t, bad)
	}
	return bad("ERROR\r\n")
}

func short(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%s..#%d", b[:64], len(b))
	}
	return string(b)
}

func (c *rconn) meta(t []string, bad func(string) error) error {
	m := c.mc
	if len(t) < 2 {
		return bad("CLIENT_ERROR bad command line format\r\n")
	}
	key := t[1]
	if len(key) > 250 {
		return bad(errFormat)
	}
	fl := t[2:]
	var val []byte
	if t[0] == "ms" {
		if len(t) < 3 {
			return bad("CLIENT_ERROR bad command line format\r\n")
		}
		n, err := strconv.ParseInt(t[2], 10, 32)
		if err != nil || n < 0 {
			return bad(errFormat)
		}
		val = make([]byte, n+2)
		if _, err := io.ReadFull(c.r, val); err != nil {
			return err
		}
		if string(val[n:]) != "\r\n" {
			return bad("CLIENT_ERROR bad data chunk\r\n")
		}
		val = val[:n]
		fl = t[3:]
	}
	// flags
	var exp int64
	var hasT, quiet, wantV, inval, hasC bool
	var cas uint64
	var flags uint32
	var delta uint64 = 1
	var auto, hasN bool
	var autoTTL int64
	var initial uint64
	mode := ""
	for _, f := range fl {
		arg := f[1:]
		var err error
		switch f[0] {
		case 'T':
			exp, err = strconv.ParseInt(arg, 10, 64)
			hasT = true
		case 'C':
			cas, err = strconv.ParseUint(arg, 10, 64)
			hasC = true
		case 'F':
			var u uint64
			u, err = strconv.ParseUint(arg, 10, 32)
			flags = uint32(u)
		case 'q':
			quiet = true
		case 'v':
			wantV = true
		case 'I':
			inval = true
		case 'M':
			mode = strings.ToUpper(arg)
		case 'D':
			delta, err = strconv.ParseUint(arg, 10, 64)
		case 'J':
			initial, err = strconv.ParseUint(arg, 10, 64)
		case 'N':
			auto, hasN = true, true
			autoTTL, err = strconv.ParseInt(arg, 10, 64)
		}
		if err != nil {
			return bad("CLIENT_ERROR bad token in command line format\r\n")
		}
	}
	_ = hasN
	ret := func(it *ritem) string {
		var b strings.Builder
		for _, f := range fl {
			switch f[0] {
			case 'O':
				b.WriteString(" " + f)
			case 'k':
				b.WriteString(" k" + key)
			case 'f':
				if it != nil {
					fmt.Fprintf(&b, " f%d", it.flags)
				}
			case 'c':
				if it != nil {
					fmt.Fprintf(&b, " c%d", it.cas)
				}
			case 's':
				if it != nil {
					fmt.Fprintf(&b, " s%d", len(it.val))
				}
			case 't':
				if it != nil {
					if it.exp == 0 {
						b.WriteString(" t-1")
					} else {
						fmt.Fprintf(&b, " t%d", it.exp-m.now)
					}
				}
			case 'h':
				b.WriteString(" h1")
			case 'l':
				b.WriteString(" l0")
			}
		}
		if it != nil && it.stale && t[0] != "md" {
			if it.won {
				b.WriteString(" X Z")
			} else {
				b.WriteString(" X W")
				it.won = true
			}
		}
		return b.String()
	}
	switch t[0] {
	case "mg":
		name := "get"
		if hasT {
			name = "gat"
			if !wantV {
				name = "touch"
			}
		}
		return c.exec(&Cmd{Name: name, Keys: []string{key}, ExpRaw: exp}, func() ([]byte, string) {
			it := m.live(key)
			if it == nil && auto {
				it = m.store(key, nil, 0, autoTTL)
			}
			if it == nil {
				if quiet {
					return nil, "miss"
				}
				return []byte("EN" + ret(nil) + "\r\n"), "miss"
			}
			if hasT {
				it.exp = m.realtime(exp)
			}
			if wantV {
				s := fmt.Sprintf("VA %d%s\r\n", len(it.val), ret(it))
				return append(append([]byte(s), it.val...), '\r', '\n'), "hit"
			}
			if quiet {
				return nil, "hit"
			}
			return []byte("HD" + ret(it) + "\r\n"), "hit"
		})
	case "ms":
		name := "set"
		switch mode {
		case "E", "ADD":
			name = "add"
		case "A", "APPEND":
			name = "append"
		case "P", "PREPEND":
			name = "prepend"
		case "R", "REPLACE":
			name = "replace"
		}
		return c.exec(&Cmd{Name: name, Keys: []string{key}, ExpRaw: exp, Val: short(val), Cas: cas}, func() ([]byte, string) {
			n := name
			if hasC && n == "set" {
				n = "cas"
			}
			s := m.mutate(n, key, val, flags, exp, cas)
			var r string
			switch s {
			case "STORED":
				if quiet {
					return nil, s
				}
				r = "HD"
			case "NOT_STORED":
				r = "NS"
			case "EXISTS":
				r = "EX"
			case "NOT_FOUND":
				r = "NF"
			case "TOOLARGE":
				return []byte("SERVER_ERROR object too large for cache\r\n"), s
			}
			return []byte(r + ret(m.live(key)) + "\r\n"), s
		})
	case "md":
		name := "delete"
		if inval {
			name = "invalidate"
		}
		return c.exec(&Cmd{Name: name, Keys: []string{key}, ExpRaw: exp}, func() ([]byte, string) {
			it := m.live(key)
			switch {
			case it == nil:
				if quiet {
					return nil, "NF"
				}
				return []byte("NF" + ret(nil) + "\r\n"), "NF"
			case hasC && cas != it.cas:
				return []byte("EX" + ret(it) + "\r\n"), "EX"
			}
			if inval {
				if hasT {
					it.exp = m.realtime(exp)
				}
				it.stale, it.won = true, false
				it.cas = m.nextCas()
			} else {
				delete(m.items, key)
			}
			if quiet {
				return nil, "HD"
			}
			return []byte("HD" + ret(it) + "\r\n"), "HD"
		})
	case "ma":
		decr := false
		switch mode {
		case "D", "DECR", "-":
			decr = true
		}
		name := "incr"
		if decr {
			name = "decr"
		}
		return c.exec(&Cmd{Name: name, Keys: []string{key}, Delta: delta}, func() ([]byte, string) {
			_, s := m.arith(key, decr, delta, cas)
			switch s {
			case "NOT_FOUND":
				if !auto {
					return []byte("NF" + ret(nil) + "\r\n"), s
				}
				m.store(key, []byte(strconv.FormatUint(initial, 10)), 0, autoTTL)
			case "EXISTS":
				return []byte("EX" + ret(nil) + "\r\n"), s
			case "NONNUM":
				return []byte("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"), s
			default:
				if hasT {
					m.live(key).exp = m.realtime(exp)
				}
			}
			it := m.live(key)
			if wantV {
				v := strings.TrimRight(string(it.val), " ")
				return []byte(fmt.Sprintf("VA %d%s\r\n%s\r\n", len(v), ret(it), v)), ""
			}
			return []byte("HD" + ret(it) + "\r\n"), ""
		})
	}
	return bad("ERROR\r\n")
}

func binReply(op byte, status uint16, opq uint32, cas uint64, ext, key, val []byte) []byte {
	h := make([]byte, 24, 24+len(ext)+len(key)+len(val))
	h[0], h[1] = 0x81, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(ext))
	binary.BigEndian.PutUint16(h[6:], status)
	binary.BigEndian.PutUint32(h[8:], uint32(len(ext)+len(key)+len(val)))
	binary.BigEndian.PutUint32(h[12:], opq)
	binary.BigEndian.PutUint64(h[16:], cas)
	h = append(h, ext...)
	h = append(h, key...)
	return append(h, val...)
}

var binMsg = map[uint16]string{1: "Not found", 2: "Data exists for key.", 3: "Too large.", 4: "Invalid arguments", 5: "Not stored.", 6: "Non-numeric server-side value for incr or decr", 0x81: "Unknown command", 0x82: "Out of memory"}

func (c *rconn) binary() error {
	h := make([]byte, 24)
	if _, err := io.ReadFull(c.r, h); err != nil {
		return err
	}
	op := h[1]
	kl := int(binary.BigEndian.Uint16(h[2:]))
	el := int(h[4])
	bl := int(binary.BigEndian.Uint32(h[8:]))
	opq := binary.BigEndian.Uint32(h[12:])
	cas := binary.BigEndian.Uint64(h[16:])
	if h[0] != 0x80 {
		return fmt.Errorf("bad magic")
	}
	fail := func(st uint16) []byte { return binReply(op, st, opq, 0, nil, nil, []byte(binMsg[st])) }
	if kl+el > bl || kl > 250 {
		c.exec(&Cmd{Name: "?", Bin: true}, func() ([]byte, string) { return fail(4), "invalid" })
		return io.EOF
	}
	if bl > 64<<20 {
		return io.EOF
	}
	body := make([]byte, bl)
	if _, err := io.ReadFull(c.r, body); err != nil {
		return err
	}
	ext, key, val := body[:el], string(body[el:el+kl]), body[el+kl:]
	m := c.mc
	inval := func() error {
		c.exec(&Cmd{Name: "?", Keys: []string{key}, Bin: true}, func() ([]byte, string) { return fail(4), "invalid" })
		return io.EOF
	}
	u32 := binary.BigEndian.Uint32
	base := op
	quiet := false
	switch op {
	case 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18:
		base, quiet = op-0x10, true
	case 0x19, 0x1a:
		base, quiet = op-0x0b, true
	case 0x09, 0x0d:
		base, quiet = op-1-b2i(op == 0x09)*8, true
	case 0x1e:
		base, quiet = 0x1d, true
	case 0x24:
		base, quiet = 0x23, true
	}
	if op == 0x09 {
		base = 0
	}
	if op == 0x0d {
		base = 0x0c
	}
	switch base {
	case 0x00, 0x0c, 0x1d, 0x23, 0x1c:
		touch := base >= 0x1c
		if kl == 0 || len(val) != 0 || touch && el != 4 || !touch && el != 0 {
			return inval()
		}
		cmd := &Cmd{Name: "get", Keys: []string{key}, Bin: true}
		if touch {
			cmd.Name = "gat"
			cmd.ExpRaw = int64(u32(ext))
		}
		if base == 0x1c {
			cmd.Name = "touch"
		}
		return c.exec(cmd, func() ([]byte, string) {
			it := m.live(key)
			if it == nil {
				if quiet {
					return nil, "miss"
				}
				if base == 0x0c || base == 0x23 {
					return binReply(op, 1, opq, 0, nil, []byte(key), nil), "miss"
				}
				return fail(1), "miss"
			}
			if touch {
				it.exp = m.realtime(cmd.ExpRaw)
			}
			e := make([]byte, 4)
			binary.BigEndian.PutUint32(e, it.flags)
			var k, v []byte
			if base == 0x0c || base == 0x23 {
				k = []byte(key)
			}
			if base != 0x1c {
				v = it.val
			}
			return binReply(op, 0, opq, it.cas, e, k, v), "hit"
		})
	case 0x01, 0x02, 0x03:
		if kl == 0 || el != 8 {
			return inval()
		}
		name := []string{"", "set", "add", "replace"}[base]
		ex := int64(u32(ext[4:]))
		return c.exec(&Cmd{Name: name, Keys: []string{key}, Bin: true, ExpRaw: ex, Val: short(val), Cas: cas}, func() ([]byte, string) {
			n := name
			if cas != 0 {
				n = "cas"
			}
			s := m.mutate(n, key, val, u32(ext), ex, cas)
			switch s {
			case "STORED":
				if quiet {
					return nil, s
				}
				return binReply(op, 0, opq, m.items[key].casOr0(), nil, nil, nil), s
			case "EXISTS":
				return fail(2), s
			case "NOT_FOUND":
				return fail(1), s
			case "TOOLARGE":
				return fail(3), s
			}
			if name == "add" {
				return fail(2), s
			}
			return fail(1), s
		})
	case 0x0e, 0x0f:
		if kl == 0 || el != 0 {
			return inval()
		}
		name := "append"
		if base == 0x0f {
			name = "prepend"
		}
		return c.exec(&Cmd{Name: name, Keys: []string{key}, Bin: true}, func() ([]byte, string) {
			s := m.mutate(name, key, val, 0, 0, cas)
			if s == "STORED" {
				if quiet {
					return nil, s
				}
				return binReply(op, 0, opq, m.items[key].casOr0(), nil, nil, nil), s
			}
			return fail(5), s
		})
	case 0x04:
		if kl == 0 || el != 0 || len(val) != 0 {
			return inval()
		}
		return c.exec(&Cmd{Name: "delete", Keys: []string{key}, Bin: true, Cas: cas}, func() ([]byte, string) {
			it := m.live(key)
			if it == nil {
				return fail(1), "NOT_FOUND"
			}
			if cas != 0 && cas != it.cas {
				return fail(2), "EXISTS"
			}
			delete(m.items, key)
			if quiet {
				return nil, "DELETED"
			}
			return binReply(op, 0, opq, 0, nil, nil, nil), "DELETED"
		})
	case 0x05, 0x06:
		if kl == 0 || el != 20 || len(val) != 0 {
			return inval()
		}
		d := binary.BigEndian.Uint64(ext)
		ini := binary.BigEndian.Uint64(ext[8:])
		ex := u32(ext[16:])
		name := "incr"
		if base == 6 {
			name = "decr"
		}
		return c.exec(&Cmd{Name: name, Keys: []string{key}, Bin: true, Delta: d, Cas: cas, ExpRaw: int64(ex)}, func() ([]byte, string) {
			n, s := m.arith(key, base == 6, d, cas)
			switch s {
			case "NOT_FOUND":
				if ex == 0xffffffff {
					return fail(1), s
				}
				n = ini
				m.store(key, []byte(strconv.FormatUint(ini, 10)), 0, int64(ex))
			case "NONNUM":
				return fail(6), s
			case "EXISTS":
				return fail(2), s
			}
			if quiet {
				return nil, ""
			}
			v := make([]byte, 8)
			binary.BigEndian.PutUint64(v, n)
			return binReply(op, 0, opq, m.items[key].casOr0(), nil, nil, v), strconv.FormatUint(n, 10)
		})
	case 0x08:
		if kl != 0 || el != 0 && el != 4 {
			return inval()
		}
		return c.exec(&Cmd{Name: "flush", Bin: true}, func() ([]byte, string) {
			m.items = map[string]*ritem{}
			if quiet {
				return nil, ""
			}
			return binReply(op, 0, opq, 0, nil, nil, nil), ""
		})
	case 0x0a:
		return c.exec(&Cmd{Name: "noop", Bin: true}, func() ([]byte, string) { return binReply(op, 0, opq, 0, nil, nil, nil), "" })
	case 0x0b:
		return c.exec(&Cmd{Name: "version", Bin: true}, func() ([]byte, string) {
			return binReply(op, 0, opq, 0, nil, nil, []byte(m.Ver)), ""
		})
	case 0x07:
		c.quit = true
		return nil
	}
	return c.exec(&Cmd{Name: "?", Keys: []string{key}, Bin: true}, func() ([]byte, string) { return fail(0x81), "unknown" })
}

func (it *ritem) casOr0() uint64 {
	if it == nil {
		return 0
	}
	return it.cas
}

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}
