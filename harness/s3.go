package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"

	"go.f110.dev/go-memcached/server"
)

func init() { registry["S03"] = checkS03 }

// ---- what a byte stream asks for

// sitem is one step of the reference reading of a stream.
type sitem struct {
	kind string // must: this call; gray: this call, nothing, or the end; bad: nothing or the end; stop: the end
	what func(server.Request) string
	desc string
	q    *sreq
}

func mustItem(q *sreq) sitem { return sitem{"must", q.arrived, q.verb, q} }
func grayItem(q *sreq, loose func(server.Request) string) sitem {
	return sitem{"gray", loose, q.verb, q}
}

func lenient(t string) (int64, bool) {
	n, err := strconv.ParseInt(t, 10, 64)
	return n, err == nil
}
func canonical(t string) bool {
	n, ok := lenient(t)
	return ok && strconv.FormatInt(n, 10) == t
}

var stopItem = sitem{kind: "stop"}

func looseCall(op server.Opcode, keys []string, val []byte, num func(server.Request) bool) func(server.Request) string {
	return func(x server.Request) string {
		if x.Opcode != op {
			return "another operation"
		}
		k := x.Keys
		if k == nil && (x.Key != "" || len(keys) > 0) {
			k = []string{x.Key}
		}
		if len(k) != len(keys) || strings.Join(k, " ") != strings.Join(keys, " ") {
			return "other keys"
		}
		if !bytes.Equal(x.Value, val) {
			return "another value"
		}
		if num != nil && !num(x) {
			return "other numbers"
		}
		return ""
	}
}

var reOpaque = regexp.MustCompile(`^O[0-9]{1,9}$`)

func parseTextStream(b []byte) (items []sitem) {
	for {
		if len(b) == 0 {
			return append(items, stopItem)
		}
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return append(items, stopItem)
		}
		line := string(b[:i])
		b = b[i+1:]
		gray := !strings.HasSuffix(line, "\r")
		line = strings.TrimSuffix(line, "\r")
		toks := strings.Split(line, " ")
		var T []string
		for _, t := range toks {
			if t == "" {
				gray = true
			} else {
				T = append(T, t)
			}
			for j := 0; j < len(t); j++ {
				if t[j] < 32 || t[j] == 127 {
					gray = true
				}
			}
		}
		bad := sitem{kind: "bad", desc: line}
		if len(T) == 0 || toks[0] == "" {
			items = append(items, bad)
			continue
		}
		longKey := func(ks ...string) bool {
			for _, k := range ks {
				if len(k) > 250 {
					return true
				}
			}
			return false
		}
		verb := T[0]
		q := &sreq{proto: "text", verb: verb}
		// data takes the block of n bytes; 0 ok, 1 the stream ends or breaks here
		var val []byte
		data := func(tok string) bool {
			n, ok := lenient(tok)
			if !ok || n < 0 || n > int64(len(b))-2 {
				return false
			}
			if string(b[n:n+2]) != "\r\n" {
				return false
			}
			val = b[:n]
			b = b[n+2:]
			return true
		}
		// junk: arguments beyond the n the command has; a final noreply is one memcached knows
		junk := func(n int) bool { return len(T) > n+1 || len(T) == n+1 && T[n] != "noreply" }
		switch verb {
		case "get", "gets":
			if len(T) < 2 || longKey(T[1:]...) {
				items = append(items, bad)
				continue
			}
			q.op, q.keys = opGet, T[1:]
			if verb == "get" && len(q.keys) > 1 {
				q.verb = "mget"
			}
			if gray {
				items = append(items, grayItem(q, looseCall(opGet, q.keys, nil, nil)))
			} else {
				items = append(items, mustItem(q))
			}
		case "set", "add", "replace":
			if len(T) < 5 || !data(T[4]) {
				return append(items, stopItem)
			}
			fl, ok1 := lenient(T[2])
			ex, ok2 := lenient(T[3])
			if !ok1 || !ok2 || longKey(T[1]) || junk(5) {
				items = append(items, bad)
				continue
			}
			q.op = map[string]server.Opcode{"set": opSet, "add": opAdd, "replace": opReplace}[verb]
			q.keys, q.val, q.flags, q.exp = []string{T[1]}, val, uint32(fl), ex
			if gray || len(toks) != 5 || !canonical(T[2]) || !canonical(T[3]) || !canonical(T[4]) || fl < 0 || fl > 1<<32-1 || ex < -1<<31 || ex > 1<<31-1 {
				items = append(items, grayItem(q, looseCall(q.op, q.keys, val, func(x server.Request) bool {
					return int64(flagVal(x.Flags)) == fl && x.SetOpt != nil && int64(x.SetOpt.Expiration) == ex
				})))
			} else {
				items = append(items, mustItem(q))
			}
		case "cas", "append", "prepend":
			if len(T) < 5 || !data(T[4]) {
				return append(items, stopItem)
			}
			items = append(items, bad)
		case "ms":
			if len(T) < 3 || !data(T[2]) {
				return append(items, stopItem)
			}
			q.proto, q.op, q.keys, q.val = "meta", opSet, []string{T[1]}, val
			strict, refuse, broken := !gray && canonical(T[2]) && !strings.HasPrefix(T[2], "-"), longKey(T[1]), false
			seen := map[byte]bool{}
			dup := false
			for _, f := range T[3:] {
				if seen[f[0]] {
					strict, dup = false, true
				}
				seen[f[0]] = true
				n, ok := lenient(f[1:])
				u, uerr := strconv.ParseUint(f[1:], 10, 64)
				switch f[0] {
				case 'C':
					q.hasCas, q.cas = true, u
					refuse = refuse || uerr != nil
					strict = strict && uerr == nil && strconv.FormatUint(u, 10) == f[1:] && u != 0
				case 'F':
					q.flags = uint32(n)
					refuse = refuse || !ok || n < 0 || n > 1<<32-1
					strict = strict && canonical(f[1:])
				case 'T':
					q.exp = n
					refuse = refuse || !ok
					strict = strict && canonical(f[1:]) && n >= -1<<31 && n < 1<<31
				case 'S':
					if !ok || n != int64(len(val)) {
						broken = true
					}
					strict = strict && canonical(f[1:])
				case 'O':
					q.hasOpq, q.opq = true, n
					strict = strict && reOpaque.MatchString(f) && n > 0 && canonical(f[1:])
				case 'k', 'I', 'q':
					strict = strict && len(f) == 1
					q.quiet = q.quiet || f[0] == 'q'
					q.inval = q.inval || f[0] == 'I'
				case 'M':
					if f != "MS" && f != "Ms" && f != "Mset" && f != "MSET" {
						refuse = true
					}
					strict = strict && f == "MS"
				case 'b':
					refuse = true
				default:
					strict = false
				}
			}
			q.mf = T[3:]
			switch {
			case broken:
				return append(items, stopItem)
			case refuse:
				items = append(items, bad)
			case strict:
				items = append(items, mustItem(q))
			default:
				items = append(items, grayItem(q, looseCall(opSet, q.keys, val, func(x server.Request) bool {
					o := x.SetOpt
					return dup || o != nil && uint32(o.Flag) == q.flags && int64(o.Expiration) == q.exp && o.CasValue == q.cas
				})))
			}
		case "mg":
			if len(T) < 2 || longKey(T[1]) {
				items = append(items, bad)
				continue
			}
			q.proto, q.op, q.keys, q.mf = "meta", opGet, T[1:2], T[2:]
			strict := !gray
			seen := map[byte]bool{}
			for _, f := range T[2:] {
				if seen[f[0]] {
					strict = false
				}
				seen[f[0]] = true
				switch {
				case f == "q":
					q.quiet = true
				case len(f) == 1 && strings.Contains("vfctks", f), reOpaque.MatchString(f):
				default:
					strict = false
				}
			}
			switch {
			case seen['b']:
				// a base64 key must not be taken literally
				items = append(items, bad)
			case strict:
				items = append(items, mustItem(q))
			default:
				items = append(items, grayItem(q, looseCall(opGet, q.keys, nil, nil)))
			}
		case "delete", "md":
			if len(T) < 2 || longKey(T[1]) || verb == "md" && len(T) > 2 || junk(2) && !(len(T) == 3 && T[2] == "0") {
				items = append(items, bad)
				continue
			}
			q.op, q.keys = opDelete, T[1:2]
			if verb == "md" {
				q.proto = "meta"
			}
			if gray || len(toks) != 2 {
				items = append(items, grayItem(q, looseCall(opDelete, q.keys, nil, nil)))
			} else {
				items = append(items, mustItem(q))
			}
		case "incr", "decr":
			if len(T) < 3 || longKey(T[1]) || junk(3) {
				items = append(items, bad)
				continue
			}
			q.op = opIncr
			if verb == "decr" {
				q.op = opDecr
			}
			d, err := strconv.ParseUint(T[2], 10, 64)
			if err != nil {
				items = append(items, bad)
				continue
			}
			q.keys, q.delta = T[1:2], d
			if gray || len(toks) != 3 || strconv.FormatUint(d, 10) != T[2] || d >= 1<<63 {
				items = append(items, grayItem(q, looseCall(q.op, q.keys, nil, func(x server.Request) bool { return uint64(x.Delta) == d })))
			} else {
				items = append(items, mustItem(q))
			}
		case "touch":
			n, ok := int64(0), false
			if len(T) >= 3 {
				n, ok = lenient(T[2])
			}
			if !ok || longKey(T[1]) || junk(3) {
				items = append(items, bad)
				continue
			}
			q.op, q.keys, q.exp = opTouch, T[1:2], n
			if gray || len(toks) != 3 || !canonical(T[2]) || n < -1<<31 || n >= 1<<31 {
				items = append(items, grayItem(q, looseCall(opTouch, q.keys, nil, func(x server.Request) bool { return x.SetOpt != nil && int64(x.SetOpt.Expiration) == n })))
			} else {
				items = append(items, mustItem(q))
			}
		case "flush_all":
			q.op = opFlush
			switch {
			case !gray && len(toks) == 1:
				items = append(items, mustItem(q))
			case gray && len(T) == 1, len(T) == 2 && T[1] == "0", T[len(T)-1] == "noreply" && len(T) == 2:
				items = append(items, grayItem(q, looseCall(opFlush, nil, nil, nil)))
			default:
				items = append(items, bad)
			}
		case "version":
			q.op = opVersion
			if gray || len(toks) != 1 {
				items = append(items, grayItem(q, looseCall(opVersion, nil, nil, nil)))
			} else {
				items = append(items, mustItem(q))
			}
		default:
			items = append(items, bad)
		}
	}
}

func parseBinStream(b []byte) (items []sitem) {
	for {
		if len(b) < 24 || b[0] != 0x80 {
			return append(items, stopItem)
		}
		h := b[:24]
		kl, el := int(binary.BigEndian.Uint16(h[2:])), int(h[4])
		bl := int64(binary.BigEndian.Uint32(h[8:]))
		cas := binary.BigEndian.Uint64(h[16:])
		if int64(len(b)) < 24+bl {
			return append(items, stopItem)
		}
		body := b[24 : 24+bl]
		b = b[24+bl:]
		bad := sitem{kind: "bad", desc: fmt.Sprintf("op %#x", h[1])}
		if int64(kl+el) > bl {
			items = append(items, bad)
			continue
		}
		ext, key, val := body[:el], string(body[el:el+kl]), body[el+kl:]
		q := &sreq{proto: "binary", bop: h[1], keys: []string{key}, cas: cas}
		gray := h[5] != 0 || h[6] != 0 || h[7] != 0
		ok := len(key) > 0 && len(key) <= 250
		num := func(x server.Request) bool { return true }
		switch h[1] {
		case 0x00, 0x0d:
			q.op, q.verb = opGet, "get"
			if h[1] == 0x0d {
				q.verb, q.quiet = "getkq", true
			}
			ok = ok && el == 0 && len(val) == 0
			gray = gray || cas != 0
			q.cas = 0
		case 0x01, 0x02, 0x03:
			q.op = []server.Opcode{opSet, opAdd, opReplace}[h[1]-1]
			q.verb = []string{"set", "add", "replace"}[h[1]-1]
			ok = ok && el == 8
			if ok {
				q.val, q.flags, q.exp = val, binary.BigEndian.Uint32(ext), int64(binary.BigEndian.Uint32(ext[4:]))
				if q.exp >= 1<<31 {
					gray = true
					num = func(x server.Request) bool {
						return flagVal(x.Flags) == q.flags && x.SetOpt != nil && uint32(x.SetOpt.Expiration) == uint32(q.exp)
					}
				}
			}
		case 0x04:
			q.op, q.verb = opDelete, "delete"
			ok = ok && el == 0 && len(val) == 0
		case 0x05, 0x06:
			q.op, q.verb = opIncr, "incr"
			if h[1] == 6 {
				q.op, q.verb = opDecr, "decr"
			}
			ok = ok && el == 20 && len(val) == 0
			if ok {
				q.delta, q.exp = binary.BigEndian.Uint64(ext), int64(binary.BigEndian.Uint32(ext[16:]))
				if q.exp >= 1<<31 || q.delta >= 1<<63 {
					gray = true
					num = func(x server.Request) bool { return uint64(x.Delta) == q.delta }
				}
			}
		case 0x1c:
			q.op, q.verb = opTouch, "touch"
			ok = ok && el == 4 && len(val) == 0
			if ok {
				q.exp = int64(binary.BigEndian.Uint32(ext))
				if q.exp >= 1<<31 {
					gray = true
					num = func(x server.Request) bool {
						return x.SetOpt != nil && uint32(x.SetOpt.Expiration) == uint32(q.exp)
					}
				}
			}
		case 0x0a, 0x0b, 0x08:
			q.op, q.verb, q.keys = map[byte]server.Opcode{0x0a: opNoop, 0x0b: opVersion, 8: opFlush}[h[1]], map[byte]string{0x0a: "noop", 0x0b: "version", 8: "flush_all"}[h[1]], nil
			// a flush with a delay is not to be done at once
			ok = kl == 0 && len(val) == 0 && (el == 0 || h[1] == 8 && el == 4 && bytes.Equal(ext, make([]byte, 4)))
			if el == 4 {
				gray = true
			}
		default:
			ok = false
		}
		switch {
		case !ok:
			items = append(items, bad)
		case gray:
			items = append(items, grayItem(q, looseCall(q.op, q.keys, q.val, num)))
		default:
			items = append(items, mustItem(q))
		}
	}
}

func parseStream(b []byte) []sitem {
	if len(b) > 0 && b[0] == 0x80 {
		return parseBinStream(b)
	}
	return parseTextStream(b)
}

// explain: can the calls be what the stream asked for? "" or where the explanation breaks.
func explain(items []sitem, calls []server.Request) string {
	type st struct{ i, j int }
	seen := map[st]bool{}
	far, why := -1, ""
	note := func(j int, s string) {
		if j > far {
			far, why = j, s
		}
	}
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		if seen[st{i, j}] {
			return false
		}
		seen[st{i, j}] = true
		it := items[i]
		end := j == len(calls)
		switch it.kind {
		case "stop":
			if !end {
				note(j, "the client sent no further complete request; the handler was given "+reqStr(calls[j]))
			}
			return end
		case "must":
			if end {
				note(j, "the complete request "+it.desc+" never reached the handler")
				return false
			}
			if w := it.what(calls[j]); w != "" {
				note(j, w)
				return false
			}
			return rec(i+1, j+1)
		case "bad":
			return end || rec(i+1, j)
		default: // gray
			if end {
				return true
			}
			if w := it.what(calls[j]); w == "" {
				if rec(i+1, j+1) {
					return true
				}
			} else {
				note(j, w+": "+reqStr(calls[j]))
			}
			return rec(i+1, j)
		}
	}
	if rec(0, 0) {
		return ""
	}
	if why == "" {
		why = fmt.Sprintf("%d calls cannot be explained", len(calls))
	}
	return fmt.Sprintf("call %d: %s", far, why)
}

// ---- hostile streams

var extremes = []string{"-1", "0", "1", "-0", "+1", "007", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-2147483649", "99999999999999999999", "1e3", "0x10", "abc", "", "1.5", "-", "１"}

// regions of the stream where a single byte is likely to matter
func mutate(r *rand.Rand, b []byte, bin bool) ([]byte, string) {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b, "empty"
	}
	pos := r.Intn(len(b))
	switch r.Intn(15) {
	case 0:
		b[pos] ^= 1 << uint(r.Intn(8))
		return b, "flip"
	case 1:
		b[pos] = byte(r.Intn(256))
		return b, "byte"
	case 2:
		ins := []byte(pick(r, " ", "\r", "\n", "\r\n", "\x00", "  ", "\x80", "0", "-", "noreply ", "\r\n\r\n", "x"))
		return append(b[:pos:pos], append(ins, b[pos:]...)...), "insert"
	case 3:
		n := 1 + r.Intn(4)
		if pos+n > len(b) {
			n = len(b) - pos
		}
		return append(b[:pos:pos], b[pos+n:]...), "delete"
	case 4:
		n := 1 + r.Intn(30)
		if pos+n > len(b) {
			n = len(b) - pos
		}
		return append(b[:pos+n:pos+n], b[pos:]...), "repeat"
	case 5:
		return b[:pos], "truncate"
	}
	if bin {
		// a field of a header
		var heads []int
		for i := 0; i+24 <= len(b); {
			heads = append(heads, i)
			i += 24 + int(binary.BigEndian.Uint32(b[i+8:]))
			if i < 0 {
				break
			}
		}
		if len(heads) > 0 {
			h := b[heads[r.Intn(len(heads))]:]
			kl, bl := binary.BigEndian.Uint16(h[2:]), binary.BigEndian.Uint32(h[8:])
			switch r.Intn(8) {
			case 0:
				binary.BigEndian.PutUint16(h[2:], pick[uint16](r, 0, 1, kl+1, kl-1, 250, 251, 65535, 32768))
				return b, "keylen"
			case 1:
				h[4] = pick[byte](r, 0, 1, 3, 4, 7, 8, 9, 20, 255)
				return b, "extlen"
			case 2:
				binary.BigEndian.PutUint32(h[8:], pick[uint32](r, 0, 1, bl+1, bl-1, uint32(kl), 0x7fffffff, 0x80000000, 0xffffffff, bl+24, uint32(kl)+uint32(h[4])))
				return b, "bodylen"
			case 3:
				h[1] = byte(r.Intn(40))
				return b, "opcode"
			case 4:
				h[1] = byte(r.Intn(256))
				return b, "opcode"
			case 5:
				h[0] = pick[byte](r, 0x81, 0, 'g', 0x7f, 0xff)
				return b, "magic"
			case 6:
				h[5] = byte(1 + r.Intn(255))
				return b, "datatype"
			case 7: // key length moved into the value, lengths still consistent
				if kl > 1 {
					binary.BigEndian.PutUint16(h[2:], kl-1)
				}
				return b, "keyshort"
			}
		}
	}
	lines := bytes.SplitAfter(b, []byte("\n"))
	li := r.Intn(len(lines))
	t := bytes.Split(lines[li], []byte(" "))
	if len(t) > 1 {
		ti := 1 + r.Intn(len(t)-1)
		tail := ""
		if bytes.HasSuffix(t[ti], []byte("\r\n")) {
			tail = "\r\n"
		}
		core := strings.TrimSuffix(string(t[ti]), "\r\n")
		switch r.Intn(7) {
		case 0:
			t[ti] = []byte(pick(r, extremes...) + tail)
			lines[li] = bytes.Join(t, []byte(" "))
			return bytes.Join(lines, nil), "number"
		case 1:
			if n, err := strconv.Atoi(core); err == nil {
				t[ti] = []byte(strconv.Itoa(n+pick(r, -3, -2, -1, 1, 2, 3)) + tail)
				lines[li] = bytes.Join(t, []byte(" "))
				return bytes.Join(lines, nil), "offbyone"
			}
		case 2:
			t[ti] = []byte(tail)
			lines[li] = bytes.Join(t, []byte(" "))
			return bytes.Join(lines, nil), "noarg"
		case 3:
			t = append(t[:ti:ti], append([][]byte{[]byte(pick(r, "noreply", "extra", "0", "q", "b", "k", "S3", "T-5", "Fx", "C", "MA", "O", "I"))}, t[ti:]...)...)
			lines[li] = bytes.Join(t, []byte(" "))
			return bytes.Join(lines, nil), "arg"
		case 4:
			t[ti] = []byte(core + strings.Repeat("k", 250) + tail)
			lines[li] = bytes.Join(t, []byte(" "))
			return bytes.Join(lines, nil), "long"
		case 5:
			t = append(t[:ti:ti], t[ti+1:]...)
			lines[li] = append(bytes.Join(t, []byte(" ")), tail...)
			return bytes.Join(lines, nil), "droparg"
		case 6:
			t[0] = []byte(pick(r, "GET", "cas", "append", "mn", "ma", "me", "gat", "stats", "quit", "set", "ms", "verbosity", "lru", "", "get", "incr"))
			lines[li] = bytes.Join(t, []byte(" "))
			return bytes.Join(lines, nil), "verb"
		}
	}
	switch r.Intn(4) {
	case 0:
		lines[li] = bytes.Replace(lines[li], []byte("\r\n"), []byte("\n"), 1)
		return bytes.Join(lines, nil), "lf"
	case 1:
		lines[li] = bytes.Replace(lines[li], []byte("\r\n"), []byte("\r"), 1)
		return bytes.Join(lines, nil), "cr"
	case 2:
		lines = append(lines[:li:li], append([][]byte{[]byte(pick(r, "\r\n", "mn\r\n", "quit\r\n", "garbage\r\n", "ERROR\r\n", "set\r\n", "set k 0 0\r\n", "get\r\n", "gets\r\n", "ms k\r\n", "ms k x\r\n", "mg\r\n", "incr k\r\n", "touch k\r\n", "touch\r\n", "delete\r\n", "md\r\n", "incr k x\r\n", "set k 0 0 -1\r\n", "set k 0 0 x\r\nget hidden\r\n", "flush_all 100\r\n", "add\r\n"))}, lines[li:]...)...)
		return bytes.Join(lines, nil), "line"
	}
	lines[li] = nil
	return bytes.Join(lines, nil), "dropline"
}

var hostile = []string{
	"set k 0 0 5\r\nabcdefgh\r\nget after\r\n", "set k 0 0 5\r\nabc\r\nget after\r\n", "set k 0 0 0\r\n\r\nget after\r\n", "set k 0 0 0\r\nget after\r\n",
	"set k 0 0 -1\r\nx\r\nget after\r\n", "set k 0 0 2147483647\r\nx\r\n", "set k 0 0 4294967296\r\nx\r\nget after\r\n", "set k 0 0 9223372036854775807\r\nx\r\nget after\r\n",
	"set k 0 0 9223372036854775806\r\nx\r\n", "set k 0 0 18446744073709551615\r\nx\r\n", "set k 0 0\r\nget hidden\r\n", "set k\r\nget hidden\r\n", "set\r\nget hidden\r\n",
	"set k 0 0 x\r\nget hidden\r\n", "set k x 0 10\r\nget hidden\r\nget after\r\n", "set k 0 x 10\r\nget hidden\r\nget after\r\n", "set k -1 0 10\r\nget hidden\r\nget after\r\n",
	"set k 4294967296 0 10\r\nget hidden\r\nget after\r\n", "set k 0 99999999999 10\r\nget hidden\r\nget after\r\n", "set k 0 0 10 noreply\r\nget hidden\r\nget after\r\n",
	"cas k 0 0 10 5\r\nget hidden\r\nget after\r\n", "append k 0 0 10\r\nget hidden\r\nget after\r\n", "prepend k 0 0 10\r\nget hidden\r\nget after\r\n",
	"ms\r\n", "ms k\r\n", "ms k 2\r\n", "ms k \r\n", "ms  2\r\nxx\r\nget after\r\n", "ms k 2 \r\nxx\r\nget after\r\n", "ms k 2  F5\r\nxx\r\nget after\r\n", "ms k -1\r\nxx\r\n", "ms k 10 S3\r\nget hidden\r\nget after\r\n",
	"ms k 3 S10\r\nabc\r\nget hid\r\n", "ms k 2 C\r\nxx\r\nget after\r\n", "ms k 2 Cx\r\nxx\r\nget after\r\n", "ms k 2 F\r\nxx\r\n", "ms k 2 T\r\nxx\r\n", "ms k 2 S\r\nxx\r\n", "ms k 2 O\r\nxx\r\n", "ms k 2 M\r\nxx\r\n", "ms k 2 MA\r\nxx\r\nget after\r\n", "ms k 2 ME\r\nxx\r\n",
	"ms aGVsbG8= 2 b\r\nxx\r\nget after\r\n", "ms k 2 F-1\r\nxx\r\n", "ms k 2 F4294967296\r\nxx\r\n", "ms k 2 T99999999999\r\nxx\r\n", "ms k 2 C18446744073709551616\r\nxx\r\n",
	"ms k S2\r\nxx\r\nget after\r\n", "ms k S2 2\r\nxx\r\nget after\r\n", "ms k 2147483647\r\n", "ms k 4294967295\r\nxx\r\n", "ms k 18446744073709551615\r\nxx\r\n",
	"mg\r\n", "mg \r\n", "mg k \r\nget after\r\n", "mg  v\r\n", "mg k b\r\nget after\r\n", "mg k E\r\n", "mg k N30 v\r\n", "mg k vftc\r\n", "mg k Ov v\r\nget after\r\n", "mg k q\r\n", "mg k \xff\r\n", "mg k v v v\r\n",
	"md\r\n", "md k q\r\nget after\r\n", "md k C5\r\nget after\r\n", "md k I T30\r\nget after\r\n", "delete\r\n", "delete k 0\r\nget after\r\n", "delete k noreply\r\nget after\r\n", "delete  k\r\n",
	"incr\r\n", "incr k\r\n", "incr k x\r\nget after\r\n", "incr k -1\r\nget after\r\n", "incr k 18446744073709551616\r\nget after\r\n", "incr k 1 noreply\r\nget after\r\n", "decr k 1.5\r\n", "incr  1\r\n",
	"touch\r\n", "touch k\r\n", "touch k x\r\nget after\r\n", "touch k 99999999999\r\nget after\r\n", "gat 10 k\r\nget after\r\n",
	"get\r\n", "get \r\n", "get  \r\n", "gets\r\n", "gets \r\n", "get  k\r\n", "get k \r\n", "get a  b\r\n", " get k\r\n", "GET k\r\n", "get\tk\r\nget after\r\n", "get k\rget j\r\n", "get k\nget j\n", "\r\n", "\n", "\r\n\r\nget after\r\n", "\x00\r\n",
	"flush_all 10\r\nget after\r\n", "flush_all noreply\r\n", "flush_all x\r\nget after\r\n", "version x\r\n", "versionx\r\nget after\r\n", "quit\r\nget after\r\n", "stats\r\nget after\r\n", "mn\r\nget after\r\n", "me k\r\nget after\r\n", "ma k N0 J5 D2 v\r\nget after\r\n", "shutdown\r\nget after\r\n", "verbosity 1\r\nget after\r\n", "noreply\r\n",
	"get " + strings.Repeat("k", 251) + "\r\nget after\r\n", "get " + strings.Repeat("k", 250) + "\r\nget after\r\n", "set " + strings.Repeat("k", 251) + " 0 0 10\r\nget hidden\r\nget after\r\n", "get a " + strings.Repeat("k", 251) + "\r\n", "mg " + strings.Repeat("k", 251) + " v\r\nget after\r\n", "ms " + strings.Repeat("k", 251) + " 10\r\nget hidden\r\nget after\r\n",
	"set k 0 0 5\nabcde\r\nget after\r\n", "set k 0 0 5\r\nabcde\nget after\r\n", "set k 0 0 5\r\nabcde\r", "set k 0 0 5\r\nabcde", "set k 0 0 3\r\nab\r\n\r\nget after\r\n", "set k 0 0 1\r\n\r\nget after\r\n", "set k 0 0 2\r\n\r\n\r\nget after\r\n", "set k 0 0 1\r\na\rxget hidden\r\n",
	"set k 0 0 +5\r\nabcde\r\nget after\r\n", "set k 0 0 05\r\nabcde\r\nget after\r\n", "set k 0 0 0x5\r\nabcde\r\nget after\r\n", "set k  0 0 5\r\nabcde\r\nget after\r\n", "set  0 0 5\r\nabcde\r\nget after\r\n", "add k 0 0 -2\r\nget hidden\r\n", "replace k 0 0 5 6\r\nabcde\r\nget after\r\n",
}

// manyKeys are batch reads with one impossible key among many.
func manyKeys() (r []string) {
	long := strings.Repeat("k", 251)
	for _, n := range []int{8, 33, 65, 101, 129, 257, 700} {
		for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
			for _, w := range []string{long, ""} {
				ks := strings.Fields(strings.Repeat("key ", n))
				ks[at] = w
				r = append(r, "get "+strings.Join(ks, " ")+"\r\nget after\r\n", "gets "+strings.Join(ks, " ")+"\r\nget after\r\n")
			}
		}
	}
	return
}

func hostileBin() (r [][]byte) {
	after := binReq(0, 7, 0, nil, "after", nil)
	fix := func(b []byte, f func([]byte)) []byte {
		b = append([]byte(nil), b...)
		f(b)
		return append(b, after...)
	}
	set := binReq(1, 1, 0, make([]byte, 8), "k", []byte("value"))
	get := binReq(0, 1, 0, nil, "k", nil)
	for op := 0; op < 256; op++ {
		r = append(r, fix(get, func(b []byte) { b[1] = byte(op) }), fix(set, func(b []byte) { b[1] = byte(op) }), fix(binReq(byte(op), 1, 0, nil, "", nil), func([]byte) {}))
	}
	for el := 0; el < 32; el++ {
		for _, op := range []byte{0, 1, 2, 3, 4, 5, 6, 8, 0x0a, 0x0b, 0x0d, 0x1c} {
			r = append(r, append(binReq(op, 1, 0, make([]byte, el), "k", nil), after...), append(binReq(op, 1, 0, make([]byte, el), "", nil), after...), append(binReq(op, 1, 0, make([]byte, el), "k", []byte("v")), after...))
		}
	}
	for _, n := range []uint32{0, 1, 2, 8, 9, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff7, 0xfffffff8, 0x100} {
		for _, s := range [][]byte{set, get, binReq(5, 1, 0, make([]byte, 20), "k", nil), binReq(0x1c, 1, 0, make([]byte, 4), "k", nil), binReq(0x0a, 1, 0, nil, "", nil), binReq(4, 1, 0, nil, "k", nil)} {
			r = append(r, fix(s, func(b []byte) { binary.BigEndian.PutUint32(b[8:], n) }))
			r = append(r, fix(s, func(b []byte) { binary.BigEndian.PutUint16(b[2:], uint16(n)) }))
		}
	}
	for _, n := range []int{0, 249, 250, 251, 300, 65535} {
		for _, op := range []byte{0, 0x0d, 4} {
			r = append(r, append(binReq(op, 1, 0, nil, strings.Repeat("k", n), nil), after...))
		}
		r = append(r, append(binReq(1, 1, 0, make([]byte, 8), strings.Repeat("k", n), []byte("get hidden\r\n")), after...))
	}
	for _, d := range []uint32{0, 1, 10, 1 << 16, day30 + 1, 1 << 31, 1<<32 - 1} {
		r = append(r, append(binReq(8, 1, 0, be32(d), "", nil), after...))
	}
	r = append(r, append(append([]byte(nil), get...), "get text\r\n"...), append([]byte("get text\r\n"), get...))
	return
}

// ---- the check

func checkS03(r *Run) {
	r.Rule("hostile byte streams - a catalogue of malformed commands, every binary opcode and extras length, mutations of well-formed pipelines, random bytes, truncations at every byte - in random segments; the calls the handler received must be explained by an independent reading of the stream, a bystander connection must keep being served and every connection must end; distinct = (source and kind of stream, calls, bytes answered)")
	r.Cases("catalogue", 1, 1, s03Catalogue)
	r.Cases("grammar", len(s03Forms), 8, s03Grammar)
	r.Cases("mutate", r.N(400, 8000), 8, s03Mutate)
	r.Cases("large", r.N(48, 480), 8, s03Large)
	r.Cases("truncate", r.N(40, 400), 8, s03Truncate)
	r.Cases("random", r.N(40, 800), 8, s03Random)
	r.Cases("memory", 1, 1, s03Memory)
}

type s03 struct {
	c    *Case
	h    *recHandler
	dial func() *memConn
	by   *memConn
	n    int
}

func newS03(c *Case) *s03 {
	x := &s03{c: c}
	x.h = &recHandler{fn: func(_ int, q *server.Request) ([]*server.Response, error) { return okReply(q) }}
	x.dial = c.serve(&splitHandler{x.h})
	x.by = x.dial()
	return x
}

// splitHandler keeps the bystander's requests out of the record.
type splitHandler struct{ h *recHandler }

func (s *splitHandler) ServeRequest(q *server.Request) ([]*server.Response, error) {
	if q.Key == "bystander" {
		return okReply(q)
	}
	return s.h.ServeRequest(q)
}

func successes(out []byte) (n int) {
	if len(out) > 0 && out[0] == 0x81 {
		for len(out) >= 24 {
			if out[6] == 0 && out[7] == 0 {
				n++
			}
			l := 24 + int(binary.BigEndian.Uint32(out[8:]))
			if l > len(out) {
				break
			}
			out = out[l:]
		}
		return
	}
	for _, l := range strings.Split(string(out), "\r\n") {
		if l == "STORED" || l == "DELETED" || l == "TOUCHED" || l == "OK" || l == "HD" || strings.HasPrefix(l, "HD ") || strings.HasPrefix(l, "VA ") || l == "END" || l == "EN" || l == "12345678" || strings.HasPrefix(l, "VERSION") {
			n++
		}
	}
	return
}

func (x *s03) try(src string, b []byte) {
	c := x.c
	m := x.dial()
	before := len(x.h.seen())
	if len(b) > 0 {
		segs, _ := cut(c.Rng, b, nil)
		m.send(segs...)
	}
	m.finish()
	if !c.eventually("end of a connection", func() bool { _, cl := m.got(); return cl }) {
		c.Fail("the client of a hostile stream has finished, the server keeps its connection: %q", trunc(b))
	}
	calls := x.h.seen()[before:]
	if w := explain(parseStream(b), calls); w != "" {
		for _, q := range calls {
			c.Logf("handler: %s", reqStr(q))
		}
		c.Fail("stream %q: %s", trunc(b), w)
	}
	out, _ := m.got()
	if n := successes(out); n > len(calls) {
		c.Fail("stream %q: %d successful replies to %d requests: %q", trunc(b), n, len(calls), trunc(out))
	}
	o, _ := x.by.got()
	n0 := len(o)
	x.by.send([]byte("get bystander\r\n"))
	if !c.eventually("bystander served", func() bool { o, cl := x.by.got(); return cl || bytes.HasSuffix(o[n0:], []byte("END\r\n")) }) {
		c.Fail("after stream %q another connection is no longer served", trunc(b))
	}
	if o, cl := x.by.got(); cl || string(o[n0:]) != "VALUE bystander 1 1\r\nv\r\nEND\r\n" {
		c.Fail("after stream %q another connection got %q, closed %v", trunc(b), o[n0:], cl)
	}
	x.n++
	c.R.Count("hostile_streams_explained", 1)
	c.R.Count("handler_calls_explained", int64(len(calls)))
	s := src
	for _, q := range calls {
		s += fmt.Sprintf("|%x", byte(q.Opcode))
	}
	c.R.Eval(fmt.Sprintf("%s|%d", s, len(out)))
}

func trunc(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func s03Catalogue(c *Case) {
	x := newS03(c)
	for i, s := range hostile {
		for k := 0; k < 2; k++ {
			pre := ""
			if k == 1 {
				pre = "get before\r\n"
			}
			x.try(fmt.Sprintf("text%d.%d", i, k), []byte(pre+s+"get last\r\n"))
		}
	}
	for i, b := range manyKeys() {
		x.try(fmt.Sprintf("keys%d", i), []byte(b))
	}
	for i, b := range hostileBin() {
		x.try(fmt.Sprintf("bin%d", i), b)
	}
}

var s03Forms = []string{"get k", "get k j", "gets k", "gets k j", "set k 7 0 5\r\nabcde", "add k 7 0 5\r\nabcde", "replace k 7 0 5\r\nabcde", "delete k", "md k", "incr k 5", "decr k 5", "touch k 100",
	"mg k v f c t k s O12", "mg k v f c t k s h l q O12", "get a b c d e f g h i j k l m n o p", "gets a b c d e f g h i j k l m n o p", "mg k v", "ms k 5\r\nabcde", "ms k 5 C7 F3 T60 O9 k\r\nabcde", "flush_all", "version"}

// s03Grammar: every argument of every command left out, doubled, replaced and followed by others.
func s03Grammar(c *Case) {
	x := newS03(c)
	form := s03Forms[c.Idx()]
	line, data := form, ""
	if i := strings.Index(form, "\r\n"); i >= 0 {
		line, data = form[:i], form[i:]
	}
	toks := strings.Split(line, " ")
	put := func(how string, t []string) {
		for _, pre := range []string{"", "get before\r\n"} {
			x.try("grammar|"+how, []byte(pre+strings.Join(t, " ")+data+"\r\nget after\r\nget last\r\n"))
		}
	}
	with := func(i, n int, more ...string) []string {
		return append(append(append([]string(nil), toks[:i]...), more...), toks[i+n:]...)
	}
	for i := 0; i <= len(toks); i++ {
		for _, w := range append([]string{"junk", "noreply", "k", "5", "q", "b", "O5", "C1", "T0", "MS", "MA", "S5", "S4", "\x00", "\t", strings.Repeat("k", 251)}, extremes...) {
			put(fmt.Sprintf("%s insert %d %q", line, i, short([]byte(w))), with(i, 0, w))
			put(fmt.Sprintf("%s insert %d %q twice", line, i, short([]byte(w))), with(i, 0, w, w))
			put(fmt.Sprintf("%s insert %d %q noreply", line, i, short([]byte(w))), with(i, 0, w, "noreply"))
			if i < len(toks) {
				put(fmt.Sprintf("%s replace %d %q", line, i, short([]byte(w))), with(i, 1, w))
			}
		}
		if i < len(toks) {
			put(fmt.Sprintf("%s without %d", line, i), with(i, 1))
			put(fmt.Sprintf("%s double %d", line, i), with(i, 1, toks[i], toks[i]))
			put(fmt.Sprintf("%s until %d", line, i), toks[:i])
		}
	}
}

func s03Pipeline(r *rand.Rand, bin bool, n int) (b []byte) {
	for i := 0; i < n; i++ {
		q := genSreq(r, bin)
		for len(q.wire) > 3000 {
			q = genSreq(r, bin)
		}
		b = append(b, q.wire...)
	}
	return
}

func s03Mutate(c *Case) {
	x := newS03(c)
	for i := 0; i < 25; i++ {
		bin := c.Rng.Intn(2) == 0
		b := s03Pipeline(c.Rng, bin, 1+c.Rng.Intn(4))
		how := ""
		for j := 0; j < pick(c.Rng, 1, 1, 1, 2, 3); j++ {
			var h string
			b, h = mutate(c.Rng, b, bin)
			how += h + ","
		}
		b = append(b, s03Pipeline(c.Rng, bin, c.Rng.Intn(3))...)
		x.try(fmt.Sprintf("mut%v%s", bin, how), b)
	}
}

func s03Truncate(c *Case) {
	x := newS03(c)
	bin := c.Idx()%2 == 0
	vs := textVerbs
	if bin {
		vs = binVerbs
	}
	v := vs[c.Idx()/2%len(vs)]
	for {
		var q *sreq
		if bin {
			q = genBin(c.Rng, v)
		} else {
			q = genText(c.Rng, v)
		}
		b := append(append([]byte(nil), q.wire...), s03Pipeline(c.Rng, bin, 1)...)
		if len(b) > 500 {
			continue
		}
		for i := 0; i <= len(b); i++ {
			x.try(fmt.Sprintf("cut%v%s%d", bin, v, i), b[:i])
		}
		return
	}
}

// s03Large: long blocks that end wrongly, or not at all.
func s03Large(c *Case) {
	x := newS03(c)
	r := c.Rng
	for i := 0; i < 4; i++ {
		n := pick(r, 4095, 4096, 8192, 1<<15+1, 1<<16-2, 1<<16-1, 1<<16, 1<<16+1, 100000, 1<<18, 1<<20-2, 1<<20-1, 1<<20, 1<<20+1, 1500000, 1+r.Intn(1<<20))
		v := bytes.Repeat([]byte(pick(r, "x", "ab", "get hidden\r\n", "\r\n", "END\r\n", "\x80\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00k")), n)[:n]
		announced := n + pick(r, 0, 0, 0, -1, 1, -2, 2, -4096, 4096, 1<<16, -(n-1))
		if announced < 0 {
			announced = 0
		}
		var b []byte
		how := ""
		if r.Intn(4) == 0 {
			b = binReq(pick[byte](r, 1, 2, 3), 7, 0, make([]byte, 8), "k", v)
			binary.BigEndian.PutUint32(b[8:], uint32(9+announced))
			how = "bin"
			if r.Intn(2) == 0 {
				b = b[:len(b)-pick(r, 1, 2, 100, n/2)]
				how += "cut"
			}
			if r.Intn(2) == 0 {
				b = append(b, binReq(0, 8, 0, nil, "after", nil)...)
			}
		} else {
			end := pick(r, "\r\n", "\r\n", "\n", "\r", "", "  ", "\n\n", "\r\r", "\n\r", "xx", "\r\r\n", "x\r\n", "\r\n\r\n", "\x00\x00")
			how = fmt.Sprintf("%q", end)
			line := fmt.Sprintf(pick(r, "set k 0 0 %d\r\n", "add k 0 0 %d\r\n", "replace k 1 0 %d\r\n", "ms k %d\r\n", "ms k %d F1 C5\r\n"), announced)
			b = append(append([]byte(line), v...), end...)
			if r.Intn(6) == 0 {
				b = b[:len(b)-pick(r, 1, 2, 3, 100, n/2)]
				how += "cut"
			}
			if r.Intn(2) == 0 {
				b = append(b, "get after\r\nget last\r\n"...)
				how += "+"
			}
		}
		if r.Intn(3) == 0 && how[0] != 'b' {
			b = append([]byte("get before\r\n"), b...)
		}
		x.try(fmt.Sprintf("large%s%d", how, announced-n), b)
		c.R.Count("long_blocks", 1)
	}
}

func s03Random(c *Case) {
	x := newS03(c)
	for i := 0; i < 20; i++ {
		var b []byte
		switch c.Rng.Intn(4) {
		case 0:
			b = rbytes(c.Rng, c.Rng.Intn(300))
		case 1:
			b = append([]byte{0x80}, rbytes(c.Rng, c.Rng.Intn(300))...)
		case 2:
			words := []string{"get", "set", "ms", "mg", "k", "0", "1", "5", " ", " ", "\r\n", "\r\n", "\n", "abc", "noreply", "-1", "incr", "touch", "T5", "F5", "v", "S1", "abcde", "delete", "md", "gets", "add", "x"}
			for j := 0; j < 40; j++ {
				b = append(b, pick(c.Rng, words...)...)
				if c.Rng.Intn(2) == 0 {
					b = append(b, ' ')
				}
			}
		default:
			b = append(s03Pipeline(c.Rng, false, 1), s03Pipeline(c.Rng, true, 1)...)
			if c.Rng.Intn(2) == 0 {
				b = append(s03Pipeline(c.Rng, true, 1), s03Pipeline(c.Rng, false, 1)...)
			}
		}
		x.try("random", b)
	}
}

// s03Memory: announcing or never ending costs the server no memory worth mentioning.
func s03Memory(c *Case) {
	x := newS03(c)
	use := func() uint64 {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.Sys - m.HeapReleased
	}
	base := use()
	var ms []*memConn
	for i := 0; i < 6; i++ {
		for _, b := range [][]byte{
			[]byte("set k 0 0 2147483000\r\nabc"), []byte("ms k 2147483000\r\nabc"), []byte("ms k 4294967290\r\nabc"),
			func() []byte {
				b := binReq(1, 1, 0, make([]byte, 8), "k", []byte("abc"))
				binary.BigEndian.PutUint32(b[8:], 0xfffffff0)
				return b
			}(),
			func() []byte {
				b := binReq(0, 1, 0, nil, "k", nil)
				binary.BigEndian.PutUint32(b[8:], 0xfffffff0)
				return b
			}(),
		} {
			m := x.dial()
			m.send(b)
			ms = append(ms, m)
		}
	}
	peak := base
	for i := 0; i < 40; i++ {
		time.Sleep(2 * time.Millisecond)
		if u := use(); u > peak {
			peak = u
		}
	}
	const lim = 512 << 20
	if peak > base+lim {
		c.Fail("30 clients that announced long values and sent 3 bytes each cost the server %d MB", (peak-base)>>20)
	}
	// a line that never ends
	chunk := bytes.Repeat([]byte("x"), 1<<16)
	m := x.dial()
	m.send([]byte("get "))
	sent := 0
	for sent < 768<<20 {
		m.mu.Lock()
		q, cl := len(m.in), m.closed
		m.mu.Unlock()
		if cl {
			break
		}
		if q < 64 {
			for j := 0; j < 64; j++ {
				m.send(chunk)
			}
			sent += 64 << 16
			if sent%(64<<20) == 0 {
				if u := use(); u > peak {
					peak = u
				}
			}
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
	if u := use(); u > peak {
		peak = u
	}
	if peak > base+lim {
		c.Fail("a command line that never ends (%d MB so far) cost the server %d MB", sent>>20, (peak-base)>>20)
	}
	for _, m := range ms {
		m.finish()
	}
	m.finish()
	for _, m := range ms {
		if !c.eventually("end of a connection", func() bool { _, cl := m.got(); return cl }) {
			c.Fail("a connection whose client has finished is kept")
		}
	}
	if n := len(x.h.seen()); n > 0 {
		c.Fail("the handler was called for incomplete requests: %s", reqStr(x.h.seen()[0]))
	}
	c.R.Max("peak_memory_growth_mb", int64(peak-base)>>20)
	c.R.Eval("memory")
}
