package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { registry["C10"] = checkC10 }

var c10Nums = []string{"-1", "0", "1", "2", "-0", "+5", "00", "1e3", "0x10", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "1099511627776",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-9223372036854775808", "-2147483649", "", " ", "x", "NaN", "1048576", "1048577"}

var c10Lines = []string{"", "\r\n", "\n", "\r", "END\r\n", "END\n", "EN\r\n", "EN\n", "VA\r\n", "VA 3\r\n", "VA 3 \r\nabc\r\n", "VA -1\r\n", "VA 3 f\r\nabc\r\n", "VA 3 f c t k s\r\nabc\r\n", "VA 3 t-1 f0 c1 k\r\nabc\r\n",
	"VALUE\r\n", "VALUE a\r\n", "VALUE a 0\r\n", "VALUE a 0 \r\n", "VALUE a 0 3\r\n", "VALUE a 0 3 \r\nabc\r\nEND\r\n", "VALUE  0 3\r\nabc\r\nEND\r\n", "VALUE a 0 -1\r\n\r\nEND\r\n", "VALUE a 0 -2\r\n\r\nEND\r\n", "VALUE a 0 -3 1\r\n\r\nEND\r\n", "VALUE a 0 9223372036854775807\r\nx\r\nEND\r\n", "VALUE a 0 9223372036854775806\r\nx\r\nEND\r\n",
	"VALUE a 4294967296 1\r\nx\r\nEND\r\n", "VALUE a 0 1 99999999999999999999\r\nx\r\nEND\r\n", "VALUE a 0 1 2 3 4\r\nx\r\nEND\r\n", "VALUE other 0 1 5\r\nx\r\nEND\r\n",
	"HD\r\n", "HD", "HD c\r\n", "HD \r\n", "H\r\n", "NS\r\n", "EX\r\n", "NF\r\n", "MN\r\n", "ME a\r\n", "STORED\r\n", "STORED", "NOT_STORED\r\n", "EXISTS\r\n", "NOT_FOUND\r\n", "DELETED\r\n", "TOUCHED\r\n", "OK\r\n", "VERSION\r\n", "VERSION \r\n", "VERSION 1\n", "VERSIO",
	"ERROR\r\n", "CLIENT_ERROR\r\n", "SERVER_ERROR x\r\n", "\x00\r\n", "12\r\n", "-5\r\n", "18446744073709551615\r\n", "9223372036854775808\r\n", " 5\r\n", "5 \r\n", "5", "\n\n\n\n", "V", "VA 9223372036854775807 f0\r\nx\r\n", "VA 9223372036854775806\r\nx\r\n", "VA 1099511627776\r\nx\r\n", "VA 2147483647 f1\r\nxx",
	"EN k\r\n", "EN kk1\r\n", "VA 1 k\r\nx\r\n", "VA 1 kother f1 c1 t1\r\nx\r\n"}

func c10Mutate(r *rand.Rand, proto string, b []byte) ([]byte, string) {
	orig := b
	kind := ""
	n := 1
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(3)
	}
	for i := 0; i < n; i++ {
		var k string
		b, k = c10One(r, proto, b)
		kind += k
	}
	if bytes.Equal(orig, b) {
		return append(b, 'x'), "append"
	}
	return b, kind
}

func c10One(r *rand.Rand, proto string, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	if r.Intn(12) == 0 {
		return rbytes(r, r.Intn(200)), "random"
	}
	if len(b) == 0 {
		return []byte(c10Lines[r.Intn(len(c10Lines))]), "line"
	}
	if proto == "binary" && r.Intn(3) != 0 {
		// a field of one header in the stream
		offs := []int{}
		for o := 0; o+24 <= len(b); {
			offs = append(offs, o)
			o += 24 + int(binary.BigEndian.Uint32(b[o+8:]))
			if o < 0 || len(offs) > 50 {
				break
			}
		}
		if len(offs) == 0 {
			return b[:r.Intn(len(b)+1)], "trunc"
		}
		h := b[offs[r.Intn(len(offs))]:]
		u16 := []uint16{0, 1, 2, 3, 4, 5, 8, 24, 250, 255, 256, 0x7fff, 0x8000, 0xffff}
		u32 := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 24, 255, 65535, 1 << 20, 1<<20 + 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
		switch r.Intn(9) {
		case 0:
			h[0] = byte(pick(r, 0, 0x80, 0x81, 0x82, 0xff))
			return b, "magic"
		case 1:
			h[1] = byte(r.Intn(0x40))
			return b, "opcode"
		case 2:
			binary.BigEndian.PutUint16(h[2:], u16[r.Intn(len(u16))])
			return b, "keylen"
		case 3:
			h[4] = byte(pick(r, 0, 1, 2, 3, 4, 5, 8, 20, 127, 128, 255))
			return b, "extralen"
		case 4:
			binary.BigEndian.PutUint16(h[6:], pick(r, binStatuses...))
			return b, "status"
		case 5:
			binary.BigEndian.PutUint32(h[8:], u32[r.Intn(len(u32))])
			return b, "bodylen"
		case 6:
			cur := binary.BigEndian.Uint32(h[8:])
			binary.BigEndian.PutUint32(h[8:], cur+uint32(r.Intn(9))-4)
			return b, "bodylen+-"
		case 7: // inconsistent on purpose: extras and key longer than the body
			h[4] = byte(r.Intn(256))
			binary.BigEndian.PutUint16(h[2:], u16[r.Intn(len(u16))])
			binary.BigEndian.PutUint32(h[8:], uint32(r.Intn(300)))
			return b, "lens"
		default:
			h[5] = byte(r.Intn(256))
			binary.BigEndian.PutUint32(h[12:], r.Uint32())
			return b, "opaque"
		}
	}
	switch r.Intn(10) {
	case 0:
		return b[:r.Intn(len(b))], "trunc"
	case 1:
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		return b, "bit"
	case 2:
		b[r.Intn(len(b))] = byte(pick(r, 0, ' ', '\r', '\n', '-', '0', '9', 0xff, 0x80, 0x81))
		return b, "byte"
	case 3:
		i, j := r.Intn(len(b)), r.Intn(len(b))
		if i > j {
			i, j = j, i
		}
		return append(b[:i:i], b[j:]...), "cut"
	case 4:
		return append(b, b...), "double"
	case 5:
		i := r.Intn(len(b) + 1)
		return append(append(append([]byte(nil), b[:i]...), rbytes(r, 1+r.Intn(20))...), b[i:]...), "insert"
	case 6:
		return []byte(c10Lines[r.Intn(len(c10Lines))]), "line"
	case 7:
		l := c10Lines[r.Intn(len(c10Lines))]
		if r.Intn(2) == 0 {
			return append([]byte(l), b...), "lead"
		}
		return append(b, l...), "trail"
	}
	// a token of a line
	lines := bytes.SplitAfter(b, []byte("\n"))
	li := r.Intn(len(lines))
	toks := strings.Split(strings.TrimRight(string(lines[li]), "\r\n"), " ")
	ti := r.Intn(len(toks))
	num := c10Nums[r.Intn(len(c10Nums))]
	k := "token"
	switch r.Intn(5) {
	case 0:
		toks = append(toks[:ti:ti], toks[ti+1:]...)
		k = "tokdel"
	case 1:
		toks = append(toks[:ti:ti], append([]string{num}, toks[ti:]...)...)
		k = "tokadd"
	case 2:
		if len(toks[ti]) > 0 {
			toks[ti] = toks[ti][:1] + num // a meta flag with another argument
		}
		k = "tokarg"
	case 3:
		toks[ti] = strings.Repeat(toks[ti]+"x", 1+r.Intn(1+6000/(1+len(toks[ti]))))
		k = "toklong"
	default:
		toks[ti] = num
	}
	end := "\r\n"
	if r.Intn(8) == 0 {
		end = pick(r, "\n", "", "\r")
	}
	lines[li] = []byte(strings.Join(toks, " ") + end)
	return bytes.Join(lines, nil), k
}

func checkC10(r *Run) {
	r.Rule("the reply a model server would send to each of 24 operation shapes is mutated (truncation, bits, tokens, numbers, header fields and lengths, spliced lines, random bytes), then the server closes the connection or keeps it open; every call must return a result or an error, as must two later calls and Close; plus endless replies under a timeout; distinct = (protocol, operation, mutation kinds, mode, outcome)")
	type job struct {
		p string
		s c05Shape
	}
	var jobs []job
	for _, p := range protos {
		for _, s := range c05Shapes(p) {
			if s.name != "setbig" && s.name != "getbig" {
				jobs = append(jobs, job{p, s})
			}
		}
	}
	per := r.N(120, 3000)
	r.Cases("mutate", len(jobs)*per/30, 8, func(c *Case) {
		j := jobs[c.Idx()%len(jobs)]
		m := c.ref()
		c05Fill(m)
		var ms0 runtime.MemStats
		runtime.ReadMemStats(&ms0)
		for i := 0; i < 30; i++ {
			c10Case(c, m, j.p, j.s)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		r.Max("heap_mb_max", int64(ms.HeapSys>>20))
	})
	r.Cases("lines", 2*len(c10Lines), 8, c10Line)
	r.Cases("prefix", len(jobs), 8, func(c *Case) { c10Prefix(c, jobs[c.Idx()].p, jobs[c.Idx()].s) })
	r.Cases("tokens", len(jobs), 8, func(c *Case) { c10Tokens(c, jobs[c.Idx()].p, jobs[c.Idx()].s) })
	r.Cases("sweep", r.N(4, 64)*len(c10Sweeps), 8, c10Sweep)
	r.Cases("open", r.N(100, 2000), 24, c10Open)
	r.Cases("endless", r.N(18, 60), 9, c10Endless)
}

func c10Case(c *Case, m *RefMC, proto string, sh c05Shape) {
	c05Refill(m)
	cl, err := dial(proto, "x", m.Addr(), 0)
	c.Must(err)
	defer cl.Close()
	var mu sync.Mutex
	var what0 string
	var sent0 []byte
	got := func() (string, []byte) { mu.Lock(); defer mu.Unlock(); return what0, sent0 }
	hit := c.Rng.Intn(3)
	n := 0
	rng := rand.New(rand.NewSource(c.Rng.Int63()))
	m.SetHook(func(cmd *Cmd) *Act {
		mu.Lock()
		defer mu.Unlock()
		n++
		if sh.name[0] == 'm' && proto != "text" && n-1 != hit {
			return nil
		}
		return &Act{Close: true, Mutate: func(b []byte) []byte {
			mu.Lock()
			defer mu.Unlock()
			what0, sent0 = "", nil
			x, k := c10Mutate(rng, proto, b)
			what0, sent0 = k, x
			return x
		}}
	})
	o := c05Fix(m, sh.op(0))
	res := c10Call(c, cl, proto, o, func() string { w, b := got(); return fmt.Sprintf("%s: %q", w, short(b)) })
	m.SetHook(nil)
	what, _ := got()
	c10Call(c, cl, proto, Op{Kind: "get", Key: "k1"}, func() string { return "after " + what })
	c.Do("Close", func() { cl.Close() })
	c.R.Eval(fmt.Sprintf("%s|%s|%s|%s", proto, sh.name, what, res.Class()))
}

// c10Prefix: every beginning of the proper reply, followed by every kind of line end and the end of the connection.
func c10Prefix(c *Case, proto string, sh c05Shape) {
	m := c.ref()
	c05Fill(m)
	ends := []string{"", "\n", "\r\n", "\r", " ", " \n", " \r\n", "\r\r\n", "\x00\n"}
	if proto == "binary" {
		ends = []string{"", "\x81", "\r\n", strings.Repeat("\x00", 24), strings.Repeat("\xff", 24)}
	}
	length, sent := 0, false
	// skip: the reply to the n-th command of the call is the one that is cut
	for skip := 0; skip < 4; skip++ {
		for cut := 0; ; cut++ {
			over := false
			for _, end := range ends {
				c05Refill(m)
				cl, err := dial(proto, "x", m.Addr(), 0)
				c.Must(err)
				var mu sync.Mutex
				n, what := 0, ""
				sent, length = false, 0
				m.SetHook(func(cmd *Cmd) *Act {
					mu.Lock()
					defer mu.Unlock()
					n++
					if n-1 != skip {
						return nil
					}
					return &Act{Close: true, Mutate: func(b []byte) []byte {
						mu.Lock()
						defer mu.Unlock()
						k := cut
						if k > 64 && k < len(b)-8 {
							k = len(b) - 8
						}
						if k > len(b) {
							k = len(b)
						}
						sent, length = true, len(b)
						x := append(append([]byte(nil), b[:k]...), end...)
						what = fmt.Sprintf("%q", short(x))
						return x
					}}
				})
				o := c05Fix(m, sh.op(0))
				res := c10Call(c, cl, proto, o, func() string { mu.Lock(); defer mu.Unlock(); return what })
				m.SetHook(nil)
				c.Do("Close", func() { cl.Close() })
				mu.Lock()
				hit, l := sent, length
				mu.Unlock()
				if !hit {
					if cut == 0 && end == ends[0] {
						return // no such command
					}
					continue
				}
				if cut >= l || cut >= 72 && l > 100 {
					over = true
				}
				c.R.Count("prefix_replies", 1)
				c.R.Eval(fmt.Sprintf("prefix|%s|%s|%d|%d|%q|%s", proto, sh.name, skip, cut, end, res.Class()))
			}
			if over {
				break
			}
		}
	}
}

// c10Tokens: every token of every reply of an operation, replaced by every number, and every argument of a meta flag likewise.
func c10Tokens(c *Case, proto string, sh c05Shape) {
	if proto == "binary" {
		return
	}
	m := c.ref()
	var mu sync.Mutex
	var replies [][]byte
	run := func(hook func(n int, b []byte) ([]byte, bool), what string) Res {
		c05Refill(m)
		cl, err := dial(proto, "x", m.Addr(), 0)
		c.Must(err)
		n := 0
		m.SetHook(func(cmd *Cmd) *Act {
			mu.Lock()
			defer mu.Unlock()
			i := n
			n++
			a := &Act{}
			if _, a.Close = hook(i, nil); a.Close || what == "" {
				a.Mutate = func(b []byte) []byte {
					mu.Lock()
					defer mu.Unlock()
					x, _ := hook(i, b)
					return x
				}
			}
			return a
		})
		res := c10Call(c, cl, proto, c05Fix(m, sh.op(0)), func() string { return what })
		m.SetHook(nil)
		c.Do("Close", func() { cl.Close() })
		return res
	}
	run(func(n int, b []byte) ([]byte, bool) {
		if b != nil {
			replies = append(replies, append([]byte(nil), b...))
		}
		return b, false
	}, "")
	if len(replies) > 4 {
		replies = replies[:4]
	}
	for i, reply := range replies {
		lines := bytes.SplitAfter(reply, []byte("\n"))
		if len(lines) > 5 {
			lines = lines[:5]
		}
		for li, line := range lines {
			toks := strings.Split(strings.TrimRight(string(line), "\r\n"), " ")
			if len(toks) > 8 {
				toks = toks[:8]
			}
			for ti, tok := range toks {
				for _, num := range c10Nums {
					for v := 0; v < 2; v++ {
						t := append([]string(nil), toks...)
						t[ti] = num
						if v == 1 {
							if tok == "" {
								continue
							}
							t[ti] = tok[:1] + num
						}
						var b []byte
						for k, l := range lines {
							if k == li {
								l = []byte(strings.Join(t, " ") + "\r\n")
							}
							b = append(b, l...)
						}
						res := run(func(n int, _ []byte) ([]byte, bool) { return b, n == i }, string(b))
						c.R.Count("token_replies", 1)
						c.R.Eval(fmt.Sprintf("token|%s|%s|%d.%d.%d.%d|%s|%s", proto, sh.name, i, li, ti, v, num, res.Class()))
					}
				}
			}
		}
	}
}

var c10Sweeps = []string{"get", "mget", "set", "add", "replace", "delete", "incr", "touch", "flush", "version"}

// c10Sweep: replies of the binary protocol with every value of every header field, alone and with bodies of several lengths.
func c10Sweep(c *Case) {
	kind := c10Sweeps[c.Idx()%len(c10Sweeps)]
	part := c.Idx() / len(c10Sweeps)
	op := map[string]byte{"get": 0, "mget": 0x0d, "set": 1, "add": 2, "replace": 3, "delete": 4, "incr": 5, "touch": 0x1c, "flush": 8, "version": 0x0b}[kind]
	type hdr struct {
		magic, op, ext byte
		key, status    int
		body           int // bytes that follow
		claim          int // bytes announced
	}
	var hs []hdr
	base := hdr{0x81, op, 0, 0, 0, 0, 0}
	with := func(body int, f func(*hdr)) {
		h := base
		h.body, h.claim = body, body
		f(&h)
		hs = append(hs, h)
	}
	bodies := []int{0, 1, 3, 4, 7, 8, 9, 12, 24, 300}
	for v := 0; v < 256; v++ {
		v := v
		with(8, func(h *hdr) { h.magic = byte(v) })
		for _, b := range []int{0, 8} {
			with(b, func(h *hdr) { h.op = byte(v) })
			with(b, func(h *hdr) { h.status = v })
			with(b, func(h *hdr) { h.status = v << 8 })
			with(b, func(h *hdr) { h.status = v<<8 | c.Rng.Intn(256) })
		}
		for _, b := range bodies {
			with(b, func(h *hdr) { h.ext = byte(v) })
		}
	}
	for _, k := range []int{0, 1, 2, 4, 8, 9, 250, 255, 256, 300, 0x7fff, 0x8000, 0xffff} {
		for _, e := range []int{0, 1, 4, 8, 255} {
			for _, b := range bodies {
				for _, st := range []int{0, 1, 2, 0xffff} {
					with(b, func(h *hdr) { h.key, h.ext, h.status = k, byte(e), st })
				}
			}
		}
	}
	for _, n := range []int{1, 8, 24, 1 << 16, 1 << 20, 1<<20 + 1, 1 << 26, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, e := range []int{0, 4, 8, 255} {
			for _, st := range []int{0, 1, 0x81} {
				with(8, func(h *hdr) { h.claim, h.ext, h.status = n, byte(e), st })
			}
		}
	}
	if c.R.Tier == "thorough" {
		for st := 0; st < 65536; st++ {
			with(0, func(h *hdr) { h.status = st })
		}
	}
	parts := c.R.N(4, 64)
	var reply atomic.Value
	s := newScript(func(i int, cn net.Conn) {
		defer cn.Close()
		buf := make([]byte, 65536)
		if _, err := cn.Read(buf); err != nil {
			return
		}
		cn.Write(reply.Load().([]byte))
		if tc, ok := cn.(*net.TCPConn); ok {
			tc.CloseWrite()
		}
		cn.Read(buf)
	})
	c.Defer(s.Close)
	o := Op{Kind: kind, Key: "k1", Keys: []string{"k1", "k2"}, Val: []byte("v"), Delta: 1}
	for i, h := range hs {
		if i%parts != part {
			continue
		}
		b := make([]byte, 24+h.body)
		b[0], b[1], b[4] = h.magic, h.op, h.ext
		binary.BigEndian.PutUint16(b[2:], uint16(h.key))
		binary.BigEndian.PutUint16(b[6:], uint16(h.status))
		binary.BigEndian.PutUint32(b[8:], uint32(h.claim))
		if kind == "mget" {
			b = append(b, binReply(0x0a, 0, 0, 0, nil, nil, nil)...)
		}
		reply.Store(b)
		cl, err := dial("binary", "x", s.Addr(), 0)
		c.Must(err)
		res := c10Call(c, cl, "binary", o, func() string { return fmt.Sprintf("%+v", h) })
		cl.Close()
		c.R.Count("header_replies", 1)
		c.R.Eval(fmt.Sprintf("sweep|%s|%+v|%s", kind, h, res.Class()))
	}
}

func c05Refill(m *RefMC) {
	m.Wipe()
	c05Fill(m)
}

func c10Call(c *Case, cl KV, proto string, o Op, reply func() string) (r Res) {
	x := c.Try(func() { r = do(cl, o) })
	if x.incon {
		c.Skip("no progress")
	}
	if x.panicked != "" {
		c.Fail("%s %s panicked on the reply %s\n%s", proto, o, reply(), x.panicked)
	}
	if x.hung {
		c.Fail("%s %s never returned although the server closed the connection; reply %s", proto, o, reply())
	}
	if r.Err == nil && (o.Kind == "get" && r.Item == nil) {
		c.Fail("%s %s returned neither an item nor an error on the reply %s", proto, o, reply())
	}
	return
}

// c10Line: every table line as the reply to every operation of the text protocols.
func c10Line(c *Case) {
	line := c10Lines[c.Idx()%len(c10Lines)]
	proto := protos[c.Idx()/len(c10Lines)]
	for _, sh := range c05Shapes(proto) {
		s := newScript(func(i int, cn net.Conn) {
			buf := make([]byte, 65536)
			cn.Read(buf)
			cn.Write([]byte(line))
			if tc, ok := cn.(*net.TCPConn); ok {
				tc.CloseWrite()
			}
			cn.Read(buf)
			time.Sleep(time.Millisecond)
			cn.Close()
		})
		cl, err := dial(proto, "x", s.Addr(), 0)
		c.Must(err)
		o := sh.op(0)
		r := c10Call(c, cl, proto, o, func() string { return strconv.Quote(line) })
		cl.Close()
		s.Close()
		c.R.Eval(fmt.Sprintf("line|%s|%s|%d|%s", proto, sh.name, c.Idx()%len(c10Lines), r.Class()))
	}
}

// c10Open: the server stays silent after a mutated reply; the timeout ends the call.
func c10Open(c *Case) {
	proto := protos[c.Idx()%3]
	shs := c05Shapes(proto)
	sh := shs[(c.Idx()/3)%len(shs)]
	m := c.ref()
	c05Fill(m)
	cl := c.connect(proto, m.Addr(), 0)
	c.Call(proto, cl, Op{Kind: "version"})
	setTimeout(cl, 60*time.Millisecond)
	var mu sync.Mutex
	var what0 string
	rng := rand.New(rand.NewSource(c.Rng.Int63()))
	m.SetHook(func(cmd *Cmd) *Act {
		return &Act{Mutate: func(b []byte) []byte {
			mu.Lock()
			defer mu.Unlock()
			x, w := c10Mutate(rng, proto, b)
			what0 = w
			return x
		}}
	})
	o := c05Fix(m, sh.op(0))
	t0 := time.Now()
	s0 := atomic.LoadInt64(&canarySteps)
	var res Res
	x := c.Try(func() { res = do(cl, o) })
	mu.Lock()
	what := what0
	mu.Unlock()
	if x.panicked != "" {
		c.Fail("%s %s panicked on a reply with %s: %s", proto, o, what, x.panicked)
	}
	if x.hung || time.Since(t0) > 3*time.Second && atomic.LoadInt64(&canarySteps)-s0 > 1500 {
		c.Fail("%s %s with a timeout of 60ms did not return in %v on a reply with %s", proto, o, time.Since(t0), what)
	}
	for i := 0; i < 3; i++ {
		q := Op{Kind: pick(c.Rng, "get", "mget", "version", "set", "incr"), Key: "k1", Keys: []string{"k1", "none"}, Val: []byte("1"), Delta: 1}
		c.Do("a later "+q.Kind, func() { do(cl, q) })
	}
	c.R.Eval(fmt.Sprintf("open|%s|%s|%s|%s", proto, sh.name, what, res.Class()))
}

// c10Endless: a server that never stops sending.
func c10Endless(c *Case) {
	proto := protos[c.Idx()%3]
	unit := []string{"x", "\r\n", "VALUE k1 0 1 5\r\nx\r\n", "VA 1 kk1 f0 c1 t-1\r\nx\r\n", "EN\r\n", "\x81\x0d\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"}[(c.Idx()/3)%6]
	s := newScript(func(i int, cn net.Conn) {
		buf := make([]byte, 65536)
		cn.Read(buf)
		chunk := []byte(strings.Repeat(unit, 1+20000/len(unit)))
		for {
			if _, err := cn.Write(chunk); err != nil {
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
	})
	c.Defer(s.Close)
	for _, o := range []Op{{Kind: "get", Key: "k1"}, {Kind: "mget", Keys: []string{"k1", "k2"}}, {Kind: "set", Key: "k1", Val: []byte("v")}, {Kind: "delete", Key: "k1"}, {Kind: "version"}, {Kind: "incr", Key: "k1", Delta: 1}} {
		cl, err := dial(proto, "x", s.Addr(), 80*time.Millisecond)
		c.Must(err)
		t0, s0 := time.Now(), atomic.LoadInt64(&canarySteps)
		var res Res
		x := c.Try(func() { res = do(cl, o) })
		if x.panicked != "" {
			c.Fail("%s %s panicked on an endless reply of %q: %s", proto, o, unit, x.panicked)
		}
		if x.hung || time.Since(t0) > 4*time.Second && atomic.LoadInt64(&canarySteps)-s0 > 2000 {
			c.Fail("%s %s with a timeout of 80ms did not return in %v on an endless reply of %q", proto, o, time.Since(t0), unit)
		}
		c.Do("Close", func() { cl.Close() })
		c.R.Eval(fmt.Sprintf("endless|%s|%s|%q|%s", proto, o.Kind, unit, res.Class()))
	}
}
