package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
)

func init() {
	registry["S01"] = checkS01
	registry["S02"] = checkS02
}

// ---- connections in memory: the server reads exactly the pieces it is given

type memConn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     [][]byte
	eof    bool
	out    []byte
	closed bool
	reads  int
}

func newMemConn() *memConn {
	c := &memConn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *memConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.in) == 0 && !c.eof && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in[0])
	if n == len(c.in[0]) {
		c.in = c.in[1:]
	} else {
		c.in[0] = c.in[0][n:]
	}
	c.reads++
	return n, nil
}

func (c *memConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *memConn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

type memAddr struct{}

func (memAddr) Network() string                    { return "mem" }
func (memAddr) String() string                     { return "mem" }
func (c *memConn) LocalAddr() net.Addr             { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr            { return memAddr{} }
func (c *memConn) SetDeadline(time.Time) error     { return nil }
func (c *memConn) SetReadDeadline(time.Time) error { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error {
	return nil
}

func (c *memConn) send(chunks ...[]byte) {
	c.mu.Lock()
	for _, x := range chunks {
		if len(x) > 0 {
			c.in = append(c.in, x)
		}
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *memConn) finish() { c.mu.Lock(); c.eof = true; c.cond.Broadcast(); c.mu.Unlock() }
func (c *memConn) got() ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out[:len(c.out):len(c.out)], c.closed
}

type chanListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newChanListener() *chanListener {
	return &chanListener{ch: make(chan net.Conn), done: make(chan struct{})}
}
func (l *chanListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *chanListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *chanListener) Addr() net.Addr { return memAddr{} }

// ---- a handler that remembers what it was asked

type recHandler struct {
	mu   sync.Mutex
	reqs []server.Request
	fn   func(i int, q *server.Request) ([]*server.Response, error)
}

func copyReq(q *server.Request) server.Request {
	c := server.Request{Opcode: q.Opcode, Key: strings.Clone(q.Key), Delta: q.Delta}
	if q.Keys != nil {
		c.Keys = []string{}
		for _, k := range q.Keys {
			c.Keys = append(c.Keys, strings.Clone(k))
		}
	}
	c.Flags = append([]byte(nil), q.Flags...)
	c.Value = append([]byte(nil), q.Value...)
	if q.GetOpt != nil {
		x := *q.GetOpt
		c.GetOpt = &x
	}
	if q.SetOpt != nil {
		x := *q.SetOpt
		c.SetOpt = &x
	}
	if q.DelOpt != nil {
		x := *q.DelOpt
		c.DelOpt = &x
	}
	return c
}

func (h *recHandler) ServeRequest(q *server.Request) ([]*server.Response, error) {
	h.mu.Lock()
	i := len(h.reqs)
	h.reqs = append(h.reqs, copyReq(q))
	h.mu.Unlock()
	return h.fn(i, q)
}
func (h *recHandler) seen() []server.Request {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.reqs[:len(h.reqs):len(h.reqs)]
}

func reqStr(q server.Request) string {
	s := fmt.Sprintf("op=%#x key=%s", byte(q.Opcode), sh(q.Key))
	if q.Keys != nil {
		s += fmt.Sprintf(" keys=%q", q.Keys)
	}
	s += fmt.Sprintf(" flags=%x value=%s delta=%d", q.Flags, sh(string(q.Value)), q.Delta)
	if q.GetOpt != nil {
		s += fmt.Sprintf(" get%+v", *q.GetOpt)
	}
	if q.SetOpt != nil {
		s += fmt.Sprintf(" set%+v", *q.SetOpt)
	}
	if q.DelOpt != nil {
		s += fmt.Sprintf(" del%+v", *q.DelOpt)
	}
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

// ---- requests, encoded independently of the code under test

type sreq struct {
	proto  string // text meta binary
	verb   string
	wire   []byte
	op     server.Opcode
	keys   []string
	val    []byte
	flags  uint32
	exp    int64
	delta  uint64
	cas    uint64
	hasCas bool
	opaque uint32
	opq    int64
	hasOpq bool
	mf     []string
	quiet  bool
	inval  bool
	bop    byte
}

func (q *sreq) key() string {
	if len(q.keys) == 0 {
		return ""
	}
	return q.keys[0]
}

func (q *sreq) storage() bool { return q.verb == "set" || q.verb == "add" || q.verb == "replace" }

func (q *sreq) String() string {
	return fmt.Sprintf("%s %s %s", q.proto, q.verb, sh(string(q.wire)))
}

const (
	opGet     = server.OpcodeGet
	opSet     = server.OpcodeSet
	opAdd     = server.OpcodeAdd
	opReplace = server.OpcodeReplace
	opDelete  = server.OpcodeDelete
	opIncr    = server.OpcodeIncrement
	opDecr    = server.OpcodeDecrement
	opFlush   = server.OpcodeFlush
	opNoop    = server.OpcodeNoop
	opVersion = server.OpcodeVersion
	opTouch   = server.OpcodeTouch
)

func sKey(r *rand.Rand, bin bool) string {
	if bin && r.Intn(2) == 0 {
		n := pick(r, 1, 2, 10, 249, 250, 1+r.Intn(250))
		b := make([]byte, n)
		r.Read(b)
		if r.Intn(3) == 0 {
			copy(b, pick(r, "a b", "\r\n", "x\r\nset y 0 0 1\r\nz\r\n", "\x00", "\x80", "get k"))
		}
		return string(b)
	}
	if r.Intn(6) == 0 { // what a command or an option looks like
		return pick(r, "get", "set", "noreply", "0", "-1", "v", "VALUE", "END", "T0", "S5", "q", "b", "mg", "5", "\xff", "\x80", "%s%d", "k,v", "ÿ")
	}
	return genKey(r)
}

func sVal(r *rand.Rand) []byte {
	switch r.Intn(14) {
	case 0:
		return []byte(pick(r, "set other 0 0 1\r\nx\r\n", "get k\r\n", "delete k\r\nversion\r\n", "\r\n", "\r\n\r\n", "\r", "\n", "x\r\nflush_all\r\n", "\x80\x08\x00\x00", "mg k v\r\n", "ms k 1\r\nx\r\n", "flush_all\r\n"))
	case 1:
		base := pick(r, 0, 1, 2, 100, 1022, 2048, 4094, 4096, 8192, 65536)
		n := base - 4 + r.Intn(10)
		if n < 0 {
			n = 0
		}
		return rbytes(r, n)
	case 2:
		if r.Intn(60) == 0 {
			return rbytes(r, pick(r, 1<<20, 1<<20+1, 3<<20, 100000+r.Intn(2<<20)))
		}
	}
	v := genVal(r)
	if len(v) > 9000 && r.Intn(8) > 0 {
		v = v[:r.Intn(9000)]
	}
	return v
}

func s32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return pick[uint32](r, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x0d0a0d0a)
	}
	return r.Uint32()
}

// expirations of 31 bits
func s31(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return pick[int64](r, 1, 60, 255, 256, 65536, day30-1, day30, day30+1, 1<<31-1, 1<<31-2, 0x0a0d)
	}
	return int64(r.Int31())
}

func s63(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(1000))
	case 1:
		return pick[uint64](r, 0, 1, 255, 256, 1<<16, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<53+1, 1<<62, 1<<63-1, 0x0a0a0a0a0a0a0a0a)
	}
	return uint64(r.Int63())
}

func s64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(1000)) + 1
	case 1:
		return pick[uint64](r, 1, 1<<32, 1<<63-1, 1<<63, 1<<64-1, 1<<31)
	}
	return r.Uint64()
}

var textVerbs = []string{"get", "get", "mget", "gets", "set", "set", "add", "replace", "delete", "incr", "decr", "touch", "mg", "mg", "ms", "ms", "md", "flush_all", "version"}
var binVerbs = []string{"get", "get", "getkq", "set", "set", "add", "replace", "delete", "incr", "decr", "touch", "noop", "version", "flush_all"}

func genSreq(r *rand.Rand, bin bool) *sreq {
	if bin {
		return genBin(r, pick(r, binVerbs...))
	}
	return genText(r, pick(r, textVerbs...))
}

func genText(r *rand.Rand, verb string) *sreq {
	q := &sreq{proto: "text", verb: verb, keys: []string{sKey(r, false)}}
	var b bytes.Buffer
	// dec writes a number, sometimes with zeros in front of it
	dec := func(v any) string {
		d := fmt.Sprint(v)
		if d[0] != '-' && r.Intn(12) == 0 {
			d = pick(r, "0", "00", "000000000000000000000") + d
		}
		return d
	}
	neg := func() int64 {
		e := s31(r)
		if r.Intn(8) == 0 {
			e = pick[int64](r, -1, -100, -1<<31)
		}
		return e
	}
	switch verb {
	case "get":
		q.op = opGet
		fmt.Fprintf(&b, "get %s\r\n", q.keys[0])
	case "mget", "gets":
		q.op = opGet
		n := 1 + r.Intn(6)
		if r.Intn(20) == 0 {
			n = pick(r, 60, 120, 300, 800)
		}
		if verb == "mget" && n < 2 {
			n = 2
		}
		for len(q.keys) < n {
			if m := len(q.keys); m > 0 && r.Intn(6) == 0 {
				q.keys = append(q.keys, q.keys[pick(r, m-1, r.Intn(m))])
				continue
			}
			q.keys = append(q.keys, sKey(r, false))
		}
		w := "get"
		if verb == "gets" {
			w = "gets"
		}
		fmt.Fprintf(&b, "%s %s\r\n", w, strings.Join(q.keys, " "))
	case "set", "add", "replace":
		q.op = map[string]server.Opcode{"set": opSet, "add": opAdd, "replace": opReplace}[verb]
		q.val, q.flags, q.exp = sVal(r), s32(r), neg()
		fmt.Fprintf(&b, "%s %s %s %s %s\r\n%s\r\n", verb, q.keys[0], dec(q.flags), dec(q.exp), dec(len(q.val)), q.val)
	case "delete":
		q.op = opDelete
		fmt.Fprintf(&b, "delete %s\r\n", q.keys[0])
	case "incr", "decr":
		q.op = opIncr
		if verb == "decr" {
			q.op = opDecr
		}
		q.delta = pick(r, s63(r), s63(r), s64(r))
		fmt.Fprintf(&b, "%s %s %s\r\n", verb, q.keys[0], dec(q.delta))
	case "touch":
		q.op, q.exp = opTouch, neg()
		fmt.Fprintf(&b, "touch %s %s\r\n", q.keys[0], dec(q.exp))
	case "mg":
		q.proto, q.op = "meta", opGet
		all := r.Intn(10) == 0
		for _, f := range shuffled(r, []string{"v", "f", "c", "t", "k", "s", "h", "l"}) {
			if (f == "h" || f == "l") && r.Intn(4) > 0 {
				continue
			}
			if r.Intn(2) == 0 || all {
				q.mf = append(q.mf, f)
			}
		}
		q.quiet = r.Intn(5) == 0
		ts := append([]string(nil), q.mf...)
		if q.quiet {
			ts = append(ts, "q")
		}
		if r.Intn(3) == 0 {
			q.hasOpq, q.opq = true, pick(r, 0, int64(r.Intn(1<<31)), 1+r.Int63n(1<<62), 1<<32, 1<<63-1)
			ts = append(ts, "O"+strconv.FormatInt(q.opq, 10))
		}
		q.mf = shuffled(r, ts)
		fmt.Fprintf(&b, "mg %s", q.keys[0])
		for _, t := range q.mf {
			b.WriteString(" " + t)
		}
		b.WriteString("\r\n")
	case "ms":
		q.proto, q.op = "meta", opSet
		q.val = sVal(r)
		var ts []string
		if r.Intn(2) == 0 {
			q.cas, q.hasCas = s64(r), true
			ts = append(ts, "C"+dec(q.cas))
		}
		if r.Intn(2) == 0 {
			q.flags = s32(r)
			ts = append(ts, "F"+dec(q.flags))
		}
		if r.Intn(2) == 0 {
			q.exp = neg()
			ts = append(ts, "T"+dec(q.exp))
		}
		if r.Intn(3) == 0 {
			ts = append(ts, "S"+dec(len(q.val)))
		}
		if r.Intn(5) == 0 {
			ts = append(ts, "k")
		}
		if r.Intn(5) == 0 {
			q.inval = true
			ts = append(ts, "I")
		}
		if r.Intn(5) == 0 {
			q.quiet = true
			ts = append(ts, "q")
		}
		if r.Intn(4) == 0 {
			q.hasOpq, q.opq = true, pick(r, 0, 1+int64(r.Intn(1<<31-1)), 1+r.Int63n(1<<62), 1<<32, 1<<63-1)
			ts = append(ts, "O"+strconv.FormatInt(q.opq, 10))
		}
		if r.Intn(8) == 0 {
			ts = append(ts, "MS")
		}
		q.mf = shuffled(r, ts)
		fmt.Fprintf(&b, "ms %s %s", q.keys[0], dec(len(q.val)))
		for _, t := range q.mf {
			b.WriteString(" " + t)
		}
		fmt.Fprintf(&b, "\r\n%s\r\n", q.val)
	case "md":
		q.proto, q.op = "meta", opDelete
		fmt.Fprintf(&b, "md %s\r\n", q.keys[0])
	case "flush_all":
		q.op, q.keys = opFlush, nil
		b.WriteString("flush_all\r\n")
	case "version":
		q.op, q.keys = opVersion, nil
		b.WriteString("version\r\n")
	}
	q.wire = b.Bytes()
	return q
}

func binReq(op byte, opaque uint32, cas uint64, ext []byte, key string, val []byte) []byte {
	h := make([]byte, 24)
	h[0], h[1] = 0x80, op
	binary.BigEndian.PutUint16(h[2:], uint16(len(key)))
	h[4] = byte(len(ext))
	binary.BigEndian.PutUint32(h[8:], uint32(len(ext)+len(key)+len(val)))
	binary.BigEndian.PutUint32(h[12:], opaque)
	binary.BigEndian.PutUint64(h[16:], cas)
	return append(append(append(h, ext...), key...), val...)
}

func genBin(r *rand.Rand, verb string) *sreq {
	q := &sreq{proto: "binary", verb: verb, opaque: s32(r)}
	key := sKey(r, true)
	q.keys = []string{key}
	var ext []byte
	switch verb {
	case "get":
		q.op, q.bop = opGet, 0
	case "getkq":
		q.op, q.bop, q.quiet = opGet, 0x0d, true
	case "set", "add", "replace":
		q.op = map[string]server.Opcode{"set": opSet, "add": opAdd, "replace": opReplace}[verb]
		q.bop = map[string]byte{"set": 1, "add": 2, "replace": 3}[verb]
		q.val, q.flags, q.exp = sVal(r), s32(r), s31(r)
		ext = append(be32(q.flags), be32(uint32(q.exp))...)
		if r.Intn(2) == 0 {
			q.cas = s64(r)
		}
	case "delete":
		q.op, q.bop = opDelete, 4
		if r.Intn(2) == 0 {
			q.cas = s64(r)
		}
	case "incr", "decr":
		q.op, q.bop = opIncr, 5
		if verb == "decr" {
			q.op, q.bop = opDecr, 6
		}
		q.delta, q.exp = pick(r, s63(r), s63(r), s64(r)), s31(r)
		ext = make([]byte, 20)
		binary.BigEndian.PutUint64(ext, q.delta)
		binary.BigEndian.PutUint64(ext[8:], s63(r))
		binary.BigEndian.PutUint32(ext[16:], uint32(q.exp))
		if r.Intn(3) == 0 {
			q.cas = s64(r)
		}
	case "touch":
		q.op, q.bop, q.exp = opTouch, 0x1c, s31(r)
		ext = be32(uint32(q.exp))
	case "noop":
		q.op, q.bop, q.keys, key = opNoop, 0x0a, nil, ""
	case "version":
		q.op, q.bop, q.keys, key = opVersion, 0x0b, nil, ""
	case "flush_all":
		q.op, q.bop, q.keys, key = opFlush, 8, nil, ""
		if r.Intn(3) == 0 {
			ext = be32(0)
		}
	}
	q.wire = binReq(q.bop, q.opaque, q.cas, ext, key, q.val)
	return q
}

// arrived compares what the handler got with what was sent.
func (q *sreq) arrived(x server.Request) string {
	bad := func(f string, a ...any) string {
		return fmt.Sprintf("%s; the handler was given %s", fmt.Sprintf(f, a...), reqStr(x))
	}
	if x.Opcode != q.op {
		return bad("opcode %#x expected", byte(q.op))
	}
	switch {
	case q.verb == "mget" || q.verb == "gets":
		if strings.Join(x.Keys, " ") != strings.Join(q.keys, " ") || len(x.Keys) != len(q.keys) {
			return bad("keys %q expected", q.keys)
		}
	default:
		if x.Key != q.key() || x.Keys != nil {
			return bad("key %q expected", q.key())
		}
	}
	if !bytes.Equal(x.Value, q.val) {
		return bad("value %s expected", sh(string(q.val)))
	}
	switch q.verb {
	case "set", "add", "replace":
		if x.SetOpt == nil || x.SetOpt.Meta {
			return bad("SetOpt of a plain set expected")
		}
		if len(x.Flags) != 4 || flagVal(x.Flags) != q.flags {
			return bad("flags %d expected", q.flags)
		}
		if int64(x.SetOpt.Expiration) != q.exp {
			return bad("expiration %d expected", q.exp)
		}
		if x.SetOpt.CasValue != q.cas {
			return bad("CAS %d expected", q.cas)
		}
		if x.SetOpt.NoReply || x.SetOpt.Invalidate {
			return bad("no options expected")
		}
	case "ms":
		o := x.SetOpt
		if o == nil || !o.Meta {
			return bad("SetOpt of a meta set expected")
		}
		if uint32(o.Flag) != q.flags {
			return bad("flags %d expected", q.flags)
		}
		if int64(o.Expiration) != q.exp {
			return bad("expiration %d expected", q.exp)
		}
		if o.CasValue != q.cas || o.Cas != q.hasCas {
			return bad("CAS %d expected", q.cas)
		}
		if o.NoReply != q.quiet || o.Invalidate != q.inval || o.Key != has(q.mf, "k") {
			return bad("options %q expected", q.mf)
		}
		if q.hasOpq && o.Opaque != q.opq {
			return bad("opaque %d expected", q.opq)
		}
	case "delete", "md":
		if x.DelOpt == nil || x.DelOpt.Meta != (q.verb == "md") || x.DelOpt.CasValue != q.cas {
			return bad("DelOpt with CAS %d expected", q.cas)
		}
	case "incr", "decr":
		if uint64(x.Delta) != q.delta {
			return bad("delta %d expected", q.delta)
		}
		if q.proto == "binary" && (x.SetOpt == nil || int64(x.SetOpt.Expiration) != q.exp || x.SetOpt.CasValue != q.cas) {
			return bad("expiration %d and CAS %d expected", q.exp, q.cas)
		}
	case "touch":
		if x.SetOpt == nil || int64(x.SetOpt.Expiration) != q.exp {
			return bad("expiration %d expected", q.exp)
		}
	case "get":
		if o := x.GetOpt; o != nil && (o.Meta || o.NoReply) {
			return bad("no options expected")
		}
	case "gets":
		if x.GetOpt == nil || !x.GetOpt.Cas || x.GetOpt.Meta {
			return bad("CAS option expected")
		}
	case "getkq":
		if x.GetOpt == nil || !x.GetOpt.NoReply || !x.GetOpt.Key {
			return bad("quiet and key options expected")
		}
	case "mg":
		o := x.GetOpt
		if o == nil || !o.Meta {
			return bad("meta options expected")
		}
		if o.Value != has(q.mf, "v") || o.Flag != has(q.mf, "f") || o.Cas != has(q.mf, "c") || o.TTL != has(q.mf, "t") ||
			o.Key != has(q.mf, "k") || o.Size != has(q.mf, "s") || o.NoReply != q.quiet {
			return bad("options %q expected", q.mf)
		}
		if o.Hit != has(q.mf, "h") || o.LastAccess != has(q.mf, "l") {
			return bad("only the options %q expected", q.mf)
		}
	}
	return ""
}

// cut splits a stream into segments. bounds are the ends of the requests.
func cut(r *rand.Rand, b []byte, bounds []int) (r2 [][]byte, style string) {
	if len(b) == 0 {
		return nil, "nothing"
	}
	if len(b) > 200000 {
		style = pick(r, "whole", "big")
	} else {
		style = pick(r, "whole", "bytes", "random", "small", "edges", "requests", "big")
	}
	take := func(n int) {
		if n > len(b) {
			n = len(b)
		}
		if n < 1 {
			n = 1
		}
		r2 = append(r2, b[:n])
		b = b[n:]
	}
	switch style {
	case "whole":
		take(len(b))
	case "bytes":
		for i := 0; len(b) > 0; i++ {
			if i > 3000 {
				take(len(b))
				break
			}
			take(1)
		}
	case "random":
		for len(b) > 0 {
			take(1 + r.Intn(100))
		}
	case "small":
		for i := 0; len(b) > 0; i++ {
			if i > 3000 {
				take(len(b))
				break
			}
			take(1 + r.Intn(5))
		}
	case "big":
		for len(b) > 0 {
			take(pick(r, 1448, 4096, 4095, 4097, 65536, 1+r.Intn(8000)))
		}
	case "edges", "requests": // around the ends of requests, or exactly there
		pos := 0
		for _, e := range bounds {
			x := e
			if style == "edges" {
				x += r.Intn(5) - 2
			}
			if x > pos && len(b) > 0 {
				n := x - pos
				if n > len(b) {
					n = len(b)
				}
				take(n)
				pos += n
			}
		}
		if len(b) > 0 {
			take(len(b))
		}
	}
	return
}

// serve starts a server on a listener made of memory connections.
func (c *Case) serve(h server.Handler) func() *memConn {
	l := newChanListener()
	s := &server.Server{Handler: h}
	go s.Serve(l)
	c.Defer(func() { l.Close() })
	return func() *memConn {
		m := newMemConn()
		select {
		case l.ch <- m:
		case <-time.After(100 * time.Second):
			c.Skip("the server does not accept")
		}
		c.Defer(func() { m.Close() })
		return m
	}
}

// srvConn is the client's end of a connection to the server.
type srvConn interface {
	send(...[]byte)
	finish()
	got() ([]byte, bool)
}

// tcpEnd is a srvConn on TCP that pauses between segments.
type tcpEnd struct {
	x    *net.TCPConn
	q    chan []byte
	mu   sync.Mutex
	out  []byte
	end  bool
	once sync.Once
}

func (t *tcpEnd) send(chunks ...[]byte) {
	for _, x := range chunks {
		t.q <- x
	}
}
func (t *tcpEnd) finish() { t.once.Do(func() { close(t.q) }) }
func (t *tcpEnd) got() ([]byte, bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.out[:len(t.out):len(t.out)], t.end
}

func (c *Case) serveTCP(h server.Handler, next func() time.Duration) *tcpEnd {
	l, err := listenLocal()
	c.Must(err)
	s := &server.Server{Handler: h}
	go s.Serve(l)
	c.Defer(func() { l.Close() })
	x, err := net.Dial("tcp", l.Addr().String())
	c.Dialed(err)
	c.Defer(func() { x.Close() })
	t := &tcpEnd{x: x.(*net.TCPConn), q: make(chan []byte, 100000)}
	r := rand.New(rand.NewSource(c.Rng.Int63()))
	c.Defer(t.finish)
	go func() {
		for b := range t.q {
			if r.Intn(6) == 0 {
				time.Sleep(next())
			}
			t.x.Write(b)
		}
		t.x.CloseWrite()
	}()
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := t.x.Read(b)
			t.mu.Lock()
			t.out = append(t.out, b[:n]...)
			t.end = err != nil
			t.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return t
}

// ---- S01

func checkS01(r *Run) {
	r.Rule("random well-formed requests of every supported command of the three protocols with extreme field values, sent to a recording handler in random segments, pipelined or one by one, over memory connections (exact segments) and TCP; the handler's calls are compared field by field and in order with what was encoded; distinct = (protocol, command, classes of the fields, segmentation)")
	r.Cases("mem", r.N(6000, 150000), 8, func(c *Case) { s01Case(c, false, false) })
	r.Cases("tcp", r.N(400, 6000), 6, func(c *Case) { s01Case(c, true, false) })
	r.Cases("slow", r.N(48, 600), 24, func(c *Case) { s01Case(c, true, true) })
	r.Cases("marathon", 2, 2, s01Marathon)
}

func numClass(v uint64) string {
	switch {
	case v == 0:
		return "0"
	case v < 1<<16:
		return "s"
	case v < 1<<31:
		return "m"
	case v < 1<<32:
		return "l"
	}
	return "x"
}

func (q *sreq) class() string {
	return fmt.Sprintf("%s%s|k%d%s|v%s|f%s|e%s%v|d%s|c%s|%d%v", q.proto, q.verb, len(q.keys)/3, numClass(uint64(len(q.key())/50)), numClass(uint64(len(q.val)*20)), numClass(uint64(q.flags)), numClass(uint64(q.exp)), q.exp < 0, numClass(q.delta), numClass(q.cas), len(q.mf), q.quiet)
}

// okReply: something the protocol can carry.
func okReply(q *server.Request) ([]*server.Response, error) {
	switch q.Opcode {
	case opGet:
		if q.Keys != nil {
			var rs []*server.Response
			for _, k := range q.Keys {
				rs = append(rs, &server.Response{Key: k, Value: []byte("v"), Flags: be32(1), Cas: 2, TTL: -1})
			}
			return rs, nil
		}
		return []*server.Response{{Key: q.Key, Value: []byte("v"), Flags: be32(1), Cas: 2, TTL: -1}}, nil
	case opIncr, opDecr:
		return []*server.Response{{Value: []byte("12345678")}}, nil
	case opVersion:
		return []*server.Response{{Value: []byte("VERSION 1.2.3")}}, nil
	}
	return []*server.Response{{}}, nil
}

func s01Case(c *Case, tcp, slow bool) {
	next := func() time.Duration { return 0 }
	if slow { // client and handler take up to seconds
		next = c.pauses(4 * time.Second)
	}
	bin := c.Rng.Intn(2) == 0
	n := 1 + c.Rng.Intn(12)
	var qs []*sreq
	var stream []byte
	var bounds []int
	for i := 0; i < n; i++ {
		q := genSreq(c.Rng, bin)
		qs = append(qs, q)
		stream = append(stream, q.wire...)
		bounds = append(bounds, len(stream))
	}
	keep := c.Rng.Intn(2) == 0
	var kept []*server.Request
	var kmu sync.Mutex
	h := &recHandler{fn: func(i int, q *server.Request) ([]*server.Response, error) {
		if slow && i%2 == 1 {
			time.Sleep(next())
		}
		if keep { // a handler may keep what it was given
			kmu.Lock()
			kept = append(kept, q)
			kmu.Unlock()
			return okReply(q)
		}
		defer func() { // and what it does with it is its own business
			for i := range q.Value {
				q.Value[i] ^= 0x55
			}
		}()
		return okReply(q)
	}}
	style := ""
	if tcp {
		l, err := listenLocal()
		c.Must(err)
		s := &server.Server{Handler: h}
		go s.Serve(l)
		c.Defer(func() { l.Close() })
		x, err := net.Dial("tcp", l.Addr().String())
		c.Dialed(err)
		c.Defer(func() { x.Close() })
		go io.Copy(io.Discard, x)
		segs, st := cut(c.Rng, stream, bounds)
		style = st
		x.(*net.TCPConn).SetNoDelay(true)
		at := map[int]bool{}
		for i := 0; slow && i < 3; i++ {
			at[c.Rng.Intn(len(segs))] = true
		}
		for i, sg := range segs {
			if at[i] {
				time.Sleep(next())
			}
			x.Write(sg)
			if i%8 == 0 && len(segs) < 2000 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	} else {
		m := c.serve(h)()
		if c.Rng.Intn(4) == 0 { // one at a time
			style = "pingpong"
			for i, q := range qs {
				segs, _ := cut(c.Rng, q.wire, []int{len(q.wire)})
				m.send(segs...)
				if !c.eventually("request reaches the handler", func() bool { _, cl := m.got(); return len(h.seen()) > i || cl }) {
					c.Fail("request %d never reached the handler: %s", i, q)
				}
			}
		} else {
			segs, st := cut(c.Rng, stream, bounds)
			style = st
			m.send(segs...)
		}
		if c.Rng.Intn(2) == 0 {
			m.finish()
		}
		if !c.eventually("requests reach the handler", func() bool { _, cl := m.got(); return len(h.seen()) >= n || cl }) {
			c.Fail("only %d of %d requests reached the handler; next: %s", len(h.seen()), n, qs[len(h.seen())])
		}
	}
	if !c.eventually("requests reach the handler", func() bool { return len(h.seen()) >= n }) {
		c.Fail("only %d of %d requests reached the handler; next: %s", len(h.seen()), n, qs[len(h.seen())])
	}
	for i, x := range h.seen() {
		if i >= n {
			c.Fail("%d requests were sent, the handler was called %d times; surplus: %s", n, len(h.seen()), reqStr(x))
		}
		if w := qs[i].arrived(x); w != "" {
			c.Logf("segments: %s, request %d", style, i)
			c.Fail("%s: %s", qs[i], w)
		}
		c.R.Eval(qs[i].class() + style)
	}
	// whatever the handler kept is still what it was given
	if keep && !tcp {
		kmu.Lock()
		kept := kept
		kmu.Unlock()
		for i, q := range kept {
			if x := copyReq(q); qs[i].arrived(x) != "" || reqStr(x) != reqStr(h.seen()[i]) {
				c.Fail("request %d was changed after it was handed to the handler: it was %s, it is %s", i, reqStr(h.seen()[i]), reqStr(x))
			}
		}
		c.R.Count("kept_requests_compared_again", int64(len(kept)))
	}
	c.R.Count("requests_compared_at_the_handler", int64(n))
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"segments": style, "first": qs[0].String(), "requests": n})
	}
}

// ---- S02

// plan is what the handler answers to one request.
type plan struct {
	kind  string // ok hit miss exists notstored status generic err empty
	items []*server.Response
	res   *server.Response
	err   error

	anyCas bool  // the CAS of a reply to a set is not told
	slack  int64 // how far lifetimes may be off
	far    int64 // and those beyond 30 days
}

func (p *plan) ttlOK(tok string, want int64) bool {
	g, err := strconv.ParseInt(strings.TrimPrefix(tok, "t"), 10, 64)
	if err != nil || tok[0] != 't' {
		return false
	}
	if want == -1 || g == -1 {
		return g == want
	}
	d := p.slack
	if want > day30-100 && p.far > d {
		d = p.far
	}
	return absdiff(g, want) <= d
}

func statusErr(n uint16, msg string) error {
	return &merrors.MemcachedError{Status: n, Message: msg}
}

func genPlan(r *rand.Rand, q *sreq) *plan {
	p := &plan{}
	item := func(k string) *server.Response {
		x := &server.Response{Key: k, Value: sVal(r), Cas: int64(s64(r)), TTL: pick[int64](r, -1, -1, 1, 100, day30, day30+5, 1<<31, 1<<31+6, 1<<33+1, 1<<40)}
		if r.Intn(5) > 0 {
			x.Flags = be32(s32(r))
		}
		return x
	}
	p.kind = pick(r, "ok", "ok", "ok", "miss", "miss", "exists", "notstored", "status", "generic", "err", "empty")
	if (p.kind == "err" || p.kind == "empty") && r.Intn(3) > 0 {
		p.kind = "ok"
	}
	multi := q.verb == "mget" || q.verb == "gets"
	msg := pick(r, "some error", "", "a\r\nSTORED", "END\r\nEND", "VALUE a 0 1", "HD\nHD", strings.Repeat("long ", 500))
	switch p.kind {
	case "miss":
		p.err = merrors.ItemNotFound
	case "exists":
		p.err = merrors.ItemExists
	case "notstored":
		p.err = statusErr(5, msg)
	case "status":
		p.err = statusErr(pick[uint16](r, 3, 4, 6, 7, 8, 0x100, 0x105, 0x1234, 0x8001, 0xff00, 0xffff, 0x20, 0x81, 0x82, 0x84, 0x85, 0x86), msg)
	case "generic":
		p.err = errors.New(msg)
	case "err":
		p.err = errors.New("handler failed")
		return p
	case "empty":
		return p
	}
	if p.err != nil {
		p.res = &server.Response{Error: p.err}
		if p.kind != "generic" && r.Intn(8) == 0 { // the same error with its circumstances
			p.res.Error = fmt.Errorf("replica a: %w", p.err)
		}
		if r.Intn(2) == 0 {
			p.res.Key = q.key()
		}
		if r.Intn(4) == 0 { // an error is an error whatever else is filled in
			p.res.Value, p.res.Flags, p.res.Cas = []byte("not a value"), be32(7), 99
		}
	}
	switch {
	case p.kind == "ok" && q.op == opGet && multi:
		for i, k := range q.keys {
			if i > 0 && len(p.items) > 0 && q.keys[i-1] == k && r.Intn(2) == 0 { // one answer given for both
				p.items = append(p.items, p.items[len(p.items)-1])
			} else if r.Intn(3) > 0 {
				p.items = append(p.items, item(k))
			} else if r.Intn(3) == 0 {
				p.items = append(p.items, &server.Response{Key: k, Error: merrors.ItemNotFound})
			}
		}
	case p.kind == "ok" && q.op == opGet:
		p.items = []*server.Response{item(q.key())}
	case p.kind == "ok":
		x := &server.Response{}
		switch q.op {
		case opIncr, opDecr:
			if q.proto == "binary" {
				b := make([]byte, 8)
				binary.BigEndian.PutUint64(b, s64(r))
				x.Value = b
			} else {
				x.Value = []byte(strconv.FormatUint(s64(r), 10))
			}
		case opVersion:
			x.Value = []byte("VERSION " + pick(r, "1.6.24", "x", "0"))
		}
		if q.proto == "binary" {
			x.Cas = int64(s64(r))
		}
		p.items = []*server.Response{x}
	default:
		p.items = []*server.Response{p.res}
		if multi && r.Intn(2) == 0 && p.kind != "miss" {
			p.items = append([]*server.Response{item(q.keys[0])}, p.items...)
		}
	}
	return p
}

var errMore = errors.New("more")

// getLine takes a line ending in CRLF.
func getLine(b []byte) (string, []byte, error) {
	i := bytes.IndexByte(b, '\n')
	if i < 0 {
		return "", b, errMore
	}
	if i == 0 || b[i-1] != '\r' {
		return "", b, fmt.Errorf("a line not ended by CRLF: %s", sh(string(b[:i+1])))
	}
	if bytes.IndexByte(b[:i-1], '\r') >= 0 {
		return "", b, fmt.Errorf("a CR inside a line: %s", sh(string(b[:i+1])))
	}
	return string(b[:i-1]), b[i+1:], nil
}

func isErrLine(l string) bool {
	return l == "ERROR" || strings.HasPrefix(l, "SERVER_ERROR") || strings.HasPrefix(l, "CLIENT_ERROR")
}

// block takes a data block of n bytes and its CRLF.
func block(b []byte, n int) ([]byte, []byte, error) {
	if len(b) < n+2 {
		return nil, b, errMore
	}
	if string(b[n:n+2]) != "\r\n" {
		return nil, b, fmt.Errorf("data block of %d bytes not ended by CRLF", n)
	}
	return b[:n], b[n+2:], nil
}

// decodeReply checks the reply to one request at the front of b and returns the rest.
func decodeReply(q *sreq, p *plan, b []byte) ([]byte, error) {
	if q.proto == "binary" {
		return decodeBin(q, p, b)
	}
	if silent(q, p) {
		return b, nil
	}
	switch q.verb {
	case "get", "mget", "gets":
		return decodeValues(q, p, b)
	case "mg":
		return decodeMg(q, p, b)
	}
	l, rest, err := getLine(b)
	if err != nil {
		return b, err
	}
	var want []string
	okw := map[string]string{"set": "STORED", "add": "STORED", "replace": "STORED", "delete": "DELETED", "touch": "TOUCHED", "flush_all": "OK", "md": "HD", "ms": "HD"}
	meta := q.proto == "meta"
	switch p.kind {
	case "ok":
		switch q.verb {
		case "incr", "decr", "version":
			want = []string{string(p.items[0].Value)}
		case "ms":
			return rest, checkMsOk(q, l)
		default:
			want = []string{okw[q.verb]}
		}
	case "miss":
		want = []string{"NOT_FOUND"}
		if q.verb == "replace" {
			want = []string{"NOT_STORED"}
		}
		if meta {
			want = []string{"NF"}
		}
	case "exists":
		want = []string{"EXISTS"}
		if q.verb == "add" {
			want = []string{"NOT_STORED"}
		}
		if meta {
			want = []string{"EX"}
		}
	case "notstored":
		want = []string{"NOT_STORED"}
		if meta {
			want = []string{"NS"}
		}
	default:
		if !isErrLine(l) {
			return b, fmt.Errorf("the handler failed with %q, the reply is %s", p.err, sh(l))
		}
		return rest, nil
	}
	if meta && p.kind != "ok" && len(l) > 2 && l[2] == ' ' { // return flags are allowed
		l = l[:2]
	}
	if !has(want, l) {
		return b, fmt.Errorf("the handler answered %s, the reply is %s, expected one of %q", p.kind, sh(l), want)
	}
	return rest, nil
}

func checkMsOk(q *sreq, l string) error {
	t := strings.Split(l, " ")
	if t[0] != "HD" {
		return fmt.Errorf("meta set succeeded, the reply is %s", sh(l))
	}
	k, o := false, false
	for _, f := range t[1:] {
		switch {
		case f == "k"+q.key() && has(q.mf, "k"):
			k = true
		case q.hasOpq && f == "O"+strconv.FormatInt(q.opq, 10):
			o = true
		default:
			return fmt.Errorf("meta set reply %s carries %q", sh(l), f)
		}
	}
	if has(q.mf, "k") && !k || q.hasOpq && !o {
		return fmt.Errorf("meta set reply %s lacks what %q asked for", sh(l), q.mf)
	}
	return nil
}

// silent: replies a quiet request does not get.
func silent(q *sreq, p *plan) bool {
	if !q.quiet {
		return false
	}
	switch q.verb {
	case "mg", "getkq":
		return p.kind == "miss" || q.verb == "mg" && p.kind == "empty"
	case "ms":
		return p.kind == "ok"
	}
	return false
}

func decodeValues(q *sreq, p *plan, b []byte) ([]byte, error) {
	want := map[string][]*server.Response{}
	n := 0
	for _, it := range p.items {
		if it.Error == nil {
			want[it.Key] = append(want[it.Key], it)
			n++
		}
	}
	fail := p.err != nil && p.kind != "miss"
	if fail {
		n, want = 0, nil
	}
	for {
		l, rest, err := getLine(b)
		if err != nil {
			return b, err
		}
		if l == "END" {
			if fail {
				return b, fmt.Errorf("the handler failed with %v, the reply is a miss or the end of the hits", p.err)
			}
			if n != 0 {
				return b, fmt.Errorf("%d of the handler's items are missing from the reply", n)
			}
			return rest, nil
		}
		if isErrLine(l) || l == "EXISTS" && p.kind == "exists" || l == "NOT_STORED" && p.kind == "notstored" {
			if !fail {
				return b, fmt.Errorf("the handler answered %s, the reply is %s", p.kind, sh(l))
			}
			return rest, nil
		}
		t := strings.Split(l, " ")
		k := 4
		if q.verb == "gets" {
			k = 5
		}
		if t[0] != "VALUE" || len(t) != k {
			return b, fmt.Errorf("unexpected line %s", sh(l))
		}
		fl, e1 := strconv.ParseUint(t[2], 10, 32)
		ln, e2 := strconv.ParseUint(t[3], 10, 31)
		if e1 != nil || e2 != nil {
			return b, fmt.Errorf("unexpected line %s", sh(l))
		}
		v, rest, err := block(rest, int(ln))
		if err != nil {
			return b, err
		}
		if len(want[t[1]]) == 0 {
			return b, fmt.Errorf("the handler returned no item %q (left)", t[1])
		}
		it := want[t[1]][0]
		want[t[1]] = want[t[1]][1:]
		n--
		if uint32(fl) != flagVal(it.Flags) || !bytes.Equal(v, it.Value) {
			return b, fmt.Errorf("item %q: flags %d value %s, the handler returned %x %s", t[1], fl, sh(string(v)), it.Flags, sh(string(it.Value)))
		}
		if k == 5 && t[4] != strconv.FormatUint(uint64(it.Cas), 10) {
			return b, fmt.Errorf("item %q: CAS %s, the handler returned %d", t[1], t[4], uint64(it.Cas))
		}
		b = rest
	}
}

func decodeMg(q *sreq, p *plan, b []byte) ([]byte, error) {
	l, rest, err := getLine(b)
	if err != nil {
		return b, err
	}
	t := strings.Split(l, " ")
	switch {
	case p.kind == "miss" || p.kind == "empty":
		if t[0] != "EN" {
			return b, fmt.Errorf("the handler returned no item, the reply is %s", sh(l))
		}
		return rest, nil
	case p.kind != "ok":
		ok := isErrLine(l)
		switch t[0] {
		case "EX":
			ok = p.kind == "exists"
		case "NS":
			ok = p.kind == "notstored"
		case "EXISTS":
			ok = p.kind == "exists"
		case "NOT_STORED":
			ok = p.kind == "notstored"
		}
		if !ok {
			return b, fmt.Errorf("the handler failed with %v, the reply is %s", p.err, sh(l))
		}
		return rest, nil
	}
	it := p.items[0]
	i := 1
	code := "HD"
	if has(q.mf, "v") {
		code = "VA"
		i = 2
		if len(t) < 2 || t[1] != strconv.Itoa(len(it.Value)) {
			return b, fmt.Errorf("reply %s to a hit of %d bytes", sh(l), len(it.Value))
		}
	}
	if t[0] != code {
		return b, fmt.Errorf("reply %s to a hit, requested %q", sh(l), q.mf)
	}
	for _, f := range q.mf {
		w := ""
		switch f[0] {
		case 'f':
			w = "f" + strconv.FormatUint(uint64(flagVal(it.Flags)), 10)
		case 'c':
			w = "c" + strconv.FormatUint(uint64(it.Cas), 10)
		case 't':
			w = "t" + strconv.FormatInt(it.TTL, 10)
		case 'k':
			w = "k" + q.key()
		case 's':
			w = "s" + strconv.Itoa(len(it.Value))
		case 'O':
			w = f
		case 'h', 'l':
			// The handler does not tell: it may be left out.
			if i < len(t) && t[i][0] == f[0] {
				i++
			}
			continue
		default:
			continue
		}
		if i >= len(t) || t[i] != w && !(f[0] == 't' && p.ttlOK(t[i], it.TTL)) {
			return b, fmt.Errorf("reply %s: %q expected for the requested %q", sh(l), w, q.mf)
		}
		i++
	}
	if i != len(t) {
		return b, fmt.Errorf("reply %s carries more than the requested %q", sh(l), q.mf)
	}
	if code == "VA" {
		v, rest, err := block(rest, len(it.Value))
		if err != nil {
			return b, err
		}
		if !bytes.Equal(v, it.Value) {
			return b, fmt.Errorf("value %s, the handler returned %s", sh(string(v)), sh(string(it.Value)))
		}
		return rest, nil
	}
	return rest, nil
}

func decodeBin(q *sreq, p *plan, b []byte) ([]byte, error) {
	if silent(q, p) {
		return b, nil
	}
	if len(b) < 24 {
		return b, errMore
	}
	kl, el, st := int(binary.BigEndian.Uint16(b[2:])), int(b[4]), binary.BigEndian.Uint16(b[6:])
	bl := int(binary.BigEndian.Uint32(b[8:]))
	if b[0] != 0x81 || b[5] != 0 || kl+el > bl || bl > 64<<20 {
		return b, fmt.Errorf("not a reply header: %x", b[:24])
	}
	if b[1] != q.bop {
		return b, fmt.Errorf("reply has opcode %#x, the request %#x", b[1], q.bop)
	}
	if o := binary.BigEndian.Uint32(b[12:]); o != q.opaque {
		return b, fmt.Errorf("reply has opaque %#x, the request %#x", o, q.opaque)
	}
	cas := binary.BigEndian.Uint64(b[16:])
	if len(b) < 24+bl {
		return b, errMore
	}
	ext, key, val := b[24:24+el], string(b[24+el:24+el+kl]), b[24+el+kl:24+bl]
	rest := b[24+bl:]
	if p.kind != "ok" {
		w := uint16(0)
		switch p.kind {
		case "miss":
			w = 1
		case "exists":
			w = 2
		case "notstored":
			w = 5
		case "status":
			w = p.err.(*merrors.MemcachedError).Status
		}
		if st == 0 || w != 0 && st != w {
			if !(p.kind == "miss" && q.verb == "replace" && st == 5 || p.kind == "exists" && q.verb == "add" && st == 5) {
				return b, fmt.Errorf("the handler answered %s (%v), the reply has status %#x", p.kind, p.err, st)
			}
		}
		if p.kind == "generic" && (st == 1 || st == 2 || st == 5) {
			return b, fmt.Errorf("the handler failed with %v, the reply has status %#x", p.err, st)
		}
		return rest, nil
	}
	if st != 0 {
		return b, fmt.Errorf("the handler succeeded, the reply has status %#x", st)
	}
	it := p.items[0]
	if cas != uint64(it.Cas) && !(p.anyCas && q.storage()) {
		return b, fmt.Errorf("reply has CAS %d, the handler returned %d", cas, uint64(it.Cas))
	}
	if !bytes.Equal(val, it.Value) {
		return b, fmt.Errorf("reply has value %s, the handler returned %s", sh(string(val)), sh(string(it.Value)))
	}
	switch q.verb {
	case "get", "getkq":
		if el != 4 || binary.BigEndian.Uint32(ext) != flagVal(it.Flags) {
			return b, fmt.Errorf("reply has extras %x, the handler returned flags %x", ext, it.Flags)
		}
		if q.verb == "getkq" && key != it.Key || q.verb == "get" && key != "" && key != it.Key {
			return b, fmt.Errorf("reply has key %q, the item is %q", key, it.Key)
		}
	default:
		if el != 0 || kl != 0 {
			return b, fmt.Errorf("reply to %s has %d bytes of extras and %d of key", q.verb, el, kl)
		}
	}
	return rest, nil
}

func checkS02(r *Run) {
	r.Rule("random requests of every supported command, pipelined in random segments, to a handler with planned answers (hits with any value, flags, CAS and lifetime; misses; exists; not stored; every other status; generic errors with hostile messages; returned errors; empty answers); the reply stream is read by an independent strict decoder that expects exactly one right reply per request in order; distinct = (command, answer, classes of the fields)")
	r.Cases("mem", r.N(9000, 250000), 8, func(c *Case) { s02Case(c, false, false) })
	r.Cases("tcp", r.N(600, 8000), 8, func(c *Case) { s02Case(c, true, false) })
	r.Cases("slow", r.N(48, 600), 24, func(c *Case) { s02Case(c, true, true) })
	r.Cases("marathon", 6, 6, s02Marathon)
}

// respStr is all of an answer, so that two can be compared.
func respStr(rs []*server.Response) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "%q %v %x %x %d %d;", r.Key, r.Error, r.Flags, r.Value, r.Cas, r.TTL)
	}
	return b.String()
}

// s02Marathon: one connection that lives for more requests than 16 bits can count.
func s02Marathon(c *Case) {
	proto := protos[c.Idx()%3]
	w := newS4(c, c.Idx() >= 3)
	x := w.dial()
	n := c.R.N(67000, 400000)
	batch := make(chan []*echoReq, 4)
	stop := make(chan struct{})
	c.Defer(func() { close(stop) })
	r := rand.New(rand.NewSource(c.Rng.Int63()))
	go func() {
		defer close(batch)
		for i := 0; i < n; {
			var qs []*echoReq
			var b []byte
			for j := 0; j < 200; j++ {
				q := genEcho(r, proto, "m", i, "nnnm", 30)
				qs = append(qs, q)
				b = append(b, q.wire...)
				i++
			}
			select {
			case batch <- qs:
			case <-stop:
				return
			}
			if _, err := x.Write(b); err != nil {
				return
			}
		}
	}()
	done := 0
	atomic.AddInt64(&c.grace, int64(200*time.Second))
	c.Do("a long conversation", func() {
		br := bufio.NewReader(x)
		for qs := range batch {
			for _, q := range qs {
				if err := q.check(br); err != nil {
					c.Report("request %d of a connection: %s: %v", done, q.desc, err)
					return
				}
				done++
			}
		}
	})
	w.ok()
	c.R.Count("requests_of_long_connections", int64(done))
	c.R.Eval("marathon" + proto)
}

func s02Case(c *Case, tcp, slow bool) {
	next := func() time.Duration { return 0 }
	if slow { // client and handler take up to seconds
		next = c.pauses(4 * time.Second)
	}
	bin := c.Rng.Intn(2) == 0
	n := 1 + c.Rng.Intn(12)
	var qs []*sreq
	var ps []*plan
	var stream []byte
	var bounds []int
	stop := -1 // the first request whose answer may or must be the end of the connection
	must := false
	for i := 0; i < n; i++ {
		q := genSreq(c.Rng, bin)
		p := genPlan(c.Rng, q)
		// what ends a connection is left to the memory connections: TCP may lose the replies before
		for tcp && (p.kind == "err" || p.kind == "empty" || p.kind == "generic" || p.kind == "status") {
			p = genPlan(c.Rng, q)
		}
		qs, ps = append(qs, q), append(ps, p)
		stream = append(stream, q.wire...)
		bounds = append(bounds, len(stream))
	}
	var last *sreq
	if bin {
		last = genBin(c.Rng, "noop")
		last.opaque = 0xdecade
		binary.BigEndian.PutUint32(last.wire[12:], last.opaque)
	} else {
		last = genText(c.Rng, "version")
	}
	lp := &plan{kind: "ok", items: []*server.Response{{}}}
	if !bin {
		lp.items[0].Value = []byte("VERSION sentinel")
	}
	qs, ps = append(qs, last), append(ps, lp)
	stream = append(stream, last.wire...)
	bounds = append(bounds, len(stream))
	for i, p := range ps {
		if p.kind == "err" || p.kind == "empty" && !(qs[i].op == opGet && qs[i].proto != "binary") {
			stop, must = i, p.kind == "err"
			break
		}
		_ = must
	}
	was := make([]string, len(ps))
	for i, p := range ps {
		was[i] = respStr(p.items)
	}
	h := &recHandler{fn: func(i int, q *server.Request) ([]*server.Response, error) {
		if i >= len(ps) {
			return nil, errors.New("surplus")
		}
		if slow && i%2 == 1 {
			time.Sleep(next())
		}
		if ps[i].kind == "err" {
			return nil, ps[i].err
		}
		return ps[i].items, nil
	}}
	segs, style := cut(c.Rng, stream, bounds)
	var m srvConn
	if tcp {
		m = c.serveTCP(h, next)
	} else {
		m = c.serve(h)()
	}
	m.send(segs...)
	early := c.Rng.Intn(3) == 0
	if early {
		m.finish()
	}
	closedAt := func(out []byte) (int, error, []byte) {
		b := out
		for i := range qs {
			if ps[i].kind == "err" || i == stop {
				return i, nil, b
			}
			rest, err := decodeReply(qs[i], ps[i], b)
			if err != nil {
				return i, err, b
			}
			b = rest
		}
		return len(qs), nil, b
	}
	// every reply, or the end of the connection
	if !c.eventually("replies", func() bool {
		out, cl := m.got()
		i, err, _ := closedAt(out)
		return cl || i == len(qs) && err == nil || err != nil && err != errMore
	}) {
		out, _ := m.got()
		i, err, b := closedAt(out)
		if i == stop {
			c.Fail("the handler answered %s with %s; the client was left waiting with neither reply nor close (%s)", qs[i], ps[i].kind, sh(string(b)))
		}
		c.Fail("reply %d of %d never came (%v); request %s answered %s; read so far %s", i, len(qs), err, qs[i], ps[i].kind, sh(string(b)))
	}
	out, cl := m.got()
	i, err, b := closedAt(out)
	if err != nil && err != errMore {
		if len(b) > 300 {
			b = b[:300]
		}
		c.Fail("reply %d: %v (request %s, handler's answer %s; stream continues %q)", i, err, qs[i], ps[i].kind, b)
	}
	if i < len(qs) {
		switch {
		case i == stop:
			// only the end of the connection, or an error, may follow
			if len(b) > 0 && ps[i].kind == "err" {
				ok := false
				if bin {
					ok = len(b) >= 24 && b[0] == 0x81 && (b[6] != 0 || b[7] != 0)
				} else {
					l, _, e := getLine(b)
					ok = e == nil && isErrLine(l)
				}
				if !ok {
					c.Fail("the handler failed %s with %v, the client was sent %s", qs[i], ps[i].err, sh(string(b)))
				}
			} else if len(b) > 0 {
				ok := false
				if bin {
					ok = len(b) >= 24 && b[0] == 0x81 && (b[6] != 0 || b[7] != 0)
				} else {
					l, _, e := getLine(b)
					ok = e == nil && isErrLine(l)
				}
				if !ok {
					c.Fail("the handler answered %s with nothing, the client was sent %s", qs[i], sh(string(b)))
				}
			}
		case ps[i].kind == "generic" || ps[i].kind == "status":
			if len(b) != 0 {
				c.Fail("the connection ended inside the reply to %s (%s): %s", qs[i], ps[i].kind, sh(string(b)))
			}
		default:
			c.Fail("the connection ended (%v) before the reply to %s, which the handler answered %s; left %s", cl, qs[i], ps[i].kind, sh(string(b)))
		}
	} else {
		m.finish()
		if !c.eventually("close after the client's end", func() bool { _, cl := m.got(); return cl }) {
			c.Fail("the server keeps a connection whose client has finished")
		}
		out, _ := m.got()
		_, _, b = closedAt(out)
		if len(b) > 0 {
			c.Fail("bytes after the last reply: %s", sh(string(b)))
		}
	}
	for j, p := range ps {
		if x := respStr(p.items); x != was[j] {
			c.Fail("the server changed the handler's answer to %s from %s to %s", qs[j], sh(was[j]), sh(x))
		}
	}
	for j := 0; j < i && j < n; j++ {
		fl := "none"
		if len(ps[j].items) > 0 {
			x := ps[j].items[0]
			fl = fmt.Sprintf("%d%s%s%s", len(x.Flags), numClass(uint64(flagVal(x.Flags))), numClass(uint64(x.Cas)), numClass(uint64(len(x.Value)*20)))
		}
		c.R.Eval(fmt.Sprintf("%s|%s|%s|%d|%s|%v", qs[j].proto, qs[j].verb, ps[j].kind, len(qs[j].mf), fl, qs[j].quiet))
	}
	c.R.Count("replies_decoded", int64(i))
	if c.Idx() < 2 {
		c.R.Sample(map[string]any{"segments": style, "first": qs[0].String(), "handler": ps[0].kind, "requests": n})
	}
}
