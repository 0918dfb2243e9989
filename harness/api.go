package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
)

var protos = []string{"text", "meta", "binary"}

type Timeouter interface{ client.Server }

func dial(proto, name, addr string, timeout time.Duration, opts ...client.ServerOpt) (client.Server, error) {
	// the context is for the dial alone
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	network := "tcp"
	if addr[0] == '@' {
		network = "unix"
	}
	switch proto {
	case "text":
		s, err := client.NewServerWithTextProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		if timeout != 0 { // a write would race with a heartbeat
			s.Timeout = timeout
		}
		return s, nil
	case "meta":
		s, err := client.NewServerWithMetaProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		if timeout != 0 { // a write would race with a heartbeat
			s.Timeout = timeout
		}
		return s, nil
	case "binary":
		s, err := client.NewServerWithBinaryProtocol(ctx, name, network, addr, opts...)
		if err != nil {
			return nil, err
		}
		if timeout != 0 { // a write would race with a heartbeat
			s.Timeout = timeout
		}
		return s, nil
	}
	panic(proto)
}

// Op is one API call.
type Op struct {
	Kind   string // get mget set add replace delete incr decr touch flush version
	Key    string
	Keys   []string
	Val    []byte
	Flags  []byte
	Exp    int
	Cas    uint64
	Delta  int
	HasCas bool
}

func (o Op) String() string {
	switch o.Kind {
	case "get", "delete":
		return fmt.Sprintf("%s(%s)", o.Kind, sh(o.Key))
	case "mget":
		return fmt.Sprintf("mget(%s)", sh(strings.Join(o.Keys, ",")))
	case "set", "add", "replace":
		return fmt.Sprintf("%s(%s, %s, flags=%x exp=%d cas=%d)", o.Kind, sh(o.Key), sh(string(o.Val)), o.Flags, o.Exp, o.Cas)
	case "incr", "decr":
		return fmt.Sprintf("%s(%s, %d, exp=%d)", o.Kind, sh(o.Key), o.Delta, o.Exp)
	case "touch":
		return fmt.Sprintf("touch(%s, %d)", sh(o.Key), o.Exp)
	}
	return o.Kind
}

func sh(s string) string {
	if len(s) > 48 {
		return fmt.Sprintf("%q..(%d)", s[:48], len(s))
	}
	return strconv.Quote(s)
}

// Res is what a call returned.
type Res struct {
	Err   error
	Item  *client.Item
	Items []*client.Item
	N     int64
	Ver   string
	t0    int64 // wall clock when the call began
}

func (r Res) Class() string { return errClass(r.Err) }

func errClass(e error) string {
	switch {
	case e == nil:
		return "ok"
	case errors.Is(e, merrors.ItemNotFound):
		return "notfound"
	case errors.Is(e, merrors.ItemExists):
		return "exists"
	}
	return "error"
}

func (r Res) String() string {
	s := r.Class()
	if s == "error" {
		s += "(" + r.Err.Error() + ")"
	}
	if r.Item != nil {
		s += " " + itemStr(r.Item)
	}
	for n, i := range r.Items {
		if n == 200 {
			s += fmt.Sprintf(" and %d more", len(r.Items)-n)
			break
		}
		s += " " + itemStr(i)
	}
	if r.N != 0 {
		s += fmt.Sprintf(" n=%d", r.N)
	}
	if r.Ver != "" {
		s += " " + r.Ver
	}
	return s
}

func itemStr(i *client.Item) string {
	if i == nil {
		return "<nil item>"
	}
	return fmt.Sprintf("{%s=%s f=%x e=%d c=%d}", sh(i.Key), sh(string(i.Value)), i.Flags, i.Expiration, i.Cas)
}

// KV is what servers and pools have in common.
type KV interface {
	Get(key string) (*client.Item, error)
	GetMulti(keys ...string) ([]*client.Item, error)
	Set(item *client.Item) error
	Add(item *client.Item) error
	Replace(item *client.Item) error
	Delete(key string) error
	Increment(key string, delta int, expiration int) (int64, error)
	Decrement(key string, delta int, expiration int) (int64, error)
}
type toucher interface {
	Touch(key string, expiration int) error
}
type flusher interface{ Flush() error }
type versioner interface{ Version() (string, error) }
type mversioner interface {
	Version() (map[string]string, error)
}

func (o Op) item() *client.Item {
	return &client.Item{Key: o.Key, Value: o.Val, Flags: o.Flags, Expiration: o.Exp, Cas: o.Cas}
}

func do(s KV, o Op) (r Res) {
	switch o.Kind {
	case "get":
		r.Item, r.Err = s.Get(o.Key)
	case "mget":
		r.Items, r.Err = s.GetMulti(o.Keys...)
	case "set":
		r.Err = s.Set(o.item())
	case "add":
		r.Err = s.Add(o.item())
	case "replace":
		r.Err = s.Replace(o.item())
	case "delete":
		r.Err = s.Delete(o.Key)
	case "incr":
		r.N, r.Err = s.Increment(o.Key, o.Delta, o.Exp)
	case "decr":
		r.N, r.Err = s.Decrement(o.Key, o.Delta, o.Exp)
	case "touch":
		r.Err = s.(toucher).Touch(o.Key, o.Exp)
	case "flush":
		r.Err = s.(flusher).Flush()
	case "version":
		switch v := s.(type) {
		case versioner:
			r.Ver, r.Err = v.Version()
		case mversioner:
			m, err := v.Version()
			r.Err = err
			ks := []string{}
			for k, x := range m {
				ks = append(ks, k+"="+x)
			}
			sort.Strings(ks)
			r.Ver = strings.Join(ks, ",")
		}
	default:
		panic("op " + o.Kind)
	}
	return
}

// Call runs an operation, watching for panics and hangs, and logs it.
func (c *Case) Call(who string, s KV, o Op) (r Res) {
	t0 := time.Now().Unix()
	c.Do(who+"."+o.String(), func() { r = do(s, o) })
	r.t0 = t0
	c.Logf("%s.%s -> %s", who, o, r)
	return
}

func be32(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

func flagVal(b []byte) uint32 {
	if len(b) == 4 {
		return binary.BigEndian.Uint32(b)
	}
	return 0
}

// ---- the reference semantics, as a relation between state before, call, result and state after

const day30 = 60 * 60 * 24 * 30

// ttlAfter: the TTL a server at virtual time now must show after being given exp. gone = expired at once.
func ttlAfter(exp int, now int64) (ttl int64, gone bool) {
	e := int64(exp)
	switch {
	case e == 0:
		return -1, false
	case e < 0:
		return 0, true
	case e > day30:
		if e <= now {
			return 0, true
		}
		return e - now, false
	}
	return e, false
}

type stepCtx struct {
	proto string
	now   int64 // server's clock before the call
	slack int64 // how far TTLs may have moved
	max   int   // largest value accepted
	t0    int64 // wall clock when the call began, if known
	meta  bool
}

func ttlEq(got, want, slack int64) bool {
	if want == -1 || got == -1 {
		return got == want
	}
	return absdiff(want, got) <= slack
}

func sameState(a, b State, slack int64, ignoreTTL bool) bool {
	if a.Ok && !b.Ok && slack > 0 && a.TTL >= 0 && a.TTL <= slack { // real time passes
		return true
	}
	if a.Ok != b.Ok {
		return false
	}
	if !a.Ok {
		return true
	}
	return a.Val == b.Val && a.Flags == b.Flags && a.Cas == b.Cas && a.Stale == b.Stale && (ignoreTTL || ttlEq(b.TTL, a.TTL, slack))
}

// itemMatches checks a returned item against the server's state.
func itemMatches(it *client.Item, key string, s State, cx stepCtx) string {
	if it == nil {
		return "nil item with nil error"
	}
	if it.Key != key {
		return fmt.Sprintf("item key %q, asked for %q", it.Key, key)
	}
	if string(it.Value) != s.Val {
		return fmt.Sprintf("value %s, stored %s", sh(string(it.Value)), sh(s.Val))
	}
	if len(it.Flags) != 4 && !(len(it.Flags) == 0 && s.Flags == 0) || flagVal(it.Flags) != s.Flags {
		return fmt.Sprintf("flags %x, stored %d", it.Flags, s.Flags)
	}
	if it.Cas != s.Cas {
		return fmt.Sprintf("CAS %d, current token is %d", it.Cas, s.Cas)
	}
	if cx.proto == "meta" || it.Expiration != 0 {
		// must be the remaining lifetime in a form Set accepts
		if s.TTL == -1 {
			if it.Expiration != 0 {
				return fmt.Sprintf("expiration %d for an item that never expires", it.Expiration)
			}
		} else {
			now, far := cx.now, int64(0)
			if s.TTL > day30 { // absolute, from the only clock the client has, read at some time of the call
				now, far = time.Now().Unix(), 3
				if cx.t0 != 0 {
					far += absdiff(now, cx.t0)
				}
			}
			t, gone := ttlAfter(it.Expiration, now)
			if gone || !ttlEq(t, s.TTL, cx.slack+far) {
				return fmt.Sprintf("expiration %d, which given back to Set means ttl %d (gone=%v); the item's ttl is %d", it.Expiration, t, gone, s.TTL)
			}
		}
	}
	return ""
}

// how far the server's clock is from the wall clock, which an absolute expiration is computed from
// stretch widens the tolerance on a running clock by the time that has passed.
func stretch(slack *int64, t0 time.Time) {
	if *slack > 0 {
		d := time.Since(t0)
		if w := time.Since(t0.Round(0)); w > d {
			d = w
		}
		*slack = 2 + int64(d/time.Second)
	}
}

func wallDrift(now int64) int64 { return absdiff(time.Now().Unix(), now) + 2 }

func absdiff(a, b int64) int64 {
	if a > b {
		return a - b
	}
	return b - a
}

func parseCounter(v string) (uint64, bool) {
	if len(v) > 20 {
		return 0, false
	}
	n, err := strconv.ParseUint(strings.TrimRight(v, " "), 10, 64)
	return n, err == nil
}

// ambiguousNumber: values a lenient server may take for a number although they are not plainly one.
func ambiguousNumber(v string) bool {
	if v == "" {
		return false
	}
	if _, ok := parseCounter(v); ok {
		return false
	}
	if strings.IndexByte(" \t\r\n\v\f+", v[0]) >= 0 {
		return true
	}
	i := 0
	if v[0] == '-' {
		i++
	}
	for i < len(v) && v[i] >= '0' && v[i] <= '9' {
		i++
	}
	return i > 0 && i < len(v) && strings.IndexByte(" \t\r\n\v\f\x00", v[i]) >= 0
}

// judge compares one call with memcached's rules. It returns "" or what is wrong.
func judge(o Op, r Res, s0, s1 State, cx stepCtx) string {
	cl := r.Class()
	unchanged := func() string {
		if !sameState(s0, s1, cx.slack, false) {
			return fmt.Sprintf("server state changed from %s to %s", s0, s1)
		}
		return ""
	}
	want := func(w string) string {
		if cl != w {
			return fmt.Sprintf("returned %s, expected %s (key was %s)", r, w, s0)
		}
		return ""
	}
	stored := func(val []byte) string {
		if w := want("ok"); w != "" {
			return w
		}
		ttl, gone := ttlAfter(o.Exp, cx.now)
		if gone || ttl != -1 && ttl <= cx.slack {
			if gone && s1.Ok {
				return fmt.Sprintf("stored with expiration %d but still there: %s", o.Exp, s1)
			}
			return ""
		}
		if !s1.Ok {
			return "reported success but the key is absent"
		}
		if s1.Val != string(val) {
			return fmt.Sprintf("server holds %s", s1)
		}
		if s1.Flags != flagVal(o.Flags) {
			return fmt.Sprintf("server holds flags %d, gave %x", s1.Flags, o.Flags)
		}
		if !ttlEq(s1.TTL, ttl, cx.slack) {
			return fmt.Sprintf("server holds ttl %d, expiration %d means %d", s1.TTL, o.Exp, ttl)
		}
		if s0.Ok && s1.Cas == s0.Cas {
			return "reported success but the CAS token did not change: not stored"
		}
		return ""
	}
	first := func(a ...string) string {
		for _, x := range a {
			if x != "" {
				return x
			}
		}
		return ""
	}
	switch o.Kind {
	case "get":
		if !s0.Ok {
			return first(want("notfound"), unchanged())
		}
		if w := want("ok"); w != "" {
			return w
		}
		cx.t0 = r.t0
		return first(itemMatches(r.Item, o.Key, s0, cx), unchanged())
	case "set", "add", "replace":
		// a real server counts the item's header, whose size varies, against the limit
		gray := cx.slack > 0 && len(o.Val) <= 1024*1024 && cl != "error"
		if len(o.Val) > cx.max && !gray {
			if cl != "error" {
				return fmt.Sprintf("over-long value: returned %s, expected an error that is neither 'not found' nor 'exists'", r)
			}
			if s1.Ok && s1.Val == string(o.Val) {
				return "over-long value stored?"
			}
			if o.Kind == "set" && !s1.Ok {
				return ""
			}
			return unchanged()
		}
		switch o.Kind {
		case "add":
			if s0.Ok {
				return first(want("exists"), unchanged())
			}
			return stored(o.Val)
		case "replace":
			if !s0.Ok {
				return first(want("notfound"), unchanged())
			}
			if o.Cas != 0 && o.Cas != s0.Cas && cl != "ok" && cl != "notfound" {
				// Whether Replace heeds the token is open: it may refuse, without an effect.
				return unchanged()
			}
			return stored(o.Val)
		}
		if o.Cas != 0 {
			if !s0.Ok {
				return first(want("notfound"), unchanged())
			}
			if o.Cas != s0.Cas {
				return first(want("exists"), unchanged())
			}
		}
		return stored(o.Val)
	case "delete":
		if !s0.Ok {
			if cx.proto == "meta" && cl != "ok" || cx.proto != "meta" && cl != "notfound" {
				return fmt.Sprintf("delete of an absent key returned %s", r)
			}
			return unchanged()
		}
		if w := want("ok"); w != "" {
			return w
		}
		if s1.Ok {
			return "deleted key is still there: " + s1.String()
		}
	case "incr", "decr":
		if !s0.Ok {
			if cx.proto != "binary" {
				return first(want("notfound"), unchanged())
			}
			if w := want("ok"); w != "" {
				return w
			}
			ttl, gone := ttlAfter(o.Exp, cx.now)
			if gone {
				return ""
			}
			if r.N != 1 || s1.Val != "1" || s1.Flags != 0 || !ttlEq(s1.TTL, ttl, cx.slack) {
				return fmt.Sprintf("binary counter on an absent key returned %d and left %s (expiration %d)", r.N, s1, o.Exp)
			}
			return ""
		}
		n, ok := parseCounter(s0.Val)
		if !ok {
			if cl != "error" {
				return fmt.Sprintf("counter operation on non-number returned %s", r)
			}
			return unchanged()
		}
		if w := want("ok"); w != "" {
			return w
		}
		e := n + uint64(o.Delta)
		if o.Kind == "decr" {
			if uint64(o.Delta) > n {
				e = 0
			} else {
				e = n - uint64(o.Delta)
			}
		}
		if uint64(r.N) != e {
			return fmt.Sprintf("returned %d, %d %s %d is %d", r.N, n, o.Kind, o.Delta, e)
		}
		g, ok := parseCounter(s1.Val)
		if !ok || g != e {
			return fmt.Sprintf("server holds %s, expected %d", s1, e)
		}
		if s1.Flags != s0.Flags || s1.Stale != s0.Stale || !ttlEq(s1.TTL, s0.TTL, cx.slack) {
			return fmt.Sprintf("counter changed more than the value: %s -> %s", s0, s1)
		}
	case "touch":
		if !s0.Ok {
			return first(want("notfound"), unchanged())
		}
		if w := want("ok"); w != "" {
			return w
		}
		ttl, gone := ttlAfter(o.Exp, cx.now)
		if gone {
			if s1.Ok {
				return "touched into the past but still there"
			}
			return ""
		}
		if !s1.Ok && ttl > cx.slack {
			return "touched key is gone"
		}
		if s1.Ok && !sameState(s0, s1, cx.slack, true) {
			return fmt.Sprintf("touch changed more than the expiration: %s -> %s", s0, s1)
		}
		if s1.Ok && !ttlEq(s1.TTL, ttl, cx.slack) {
			return fmt.Sprintf("ttl is %d after touch(%d)", s1.TTL, o.Exp)
		}
	case "flush":
		if w := want("ok"); w != "" {
			return w
		}
		if s1.Ok {
			return "key survived flush"
		}
	}
	return ""
}

// judgeMulti compares a batch read with the state of every key asked for.
func judgeMulti(keys []string, r Res, states map[string]State, cx stepCtx) string {
	if r.Class() != "ok" {
		return fmt.Sprintf("batch read returned %s", r)
	}
	asked := map[string]int{}
	for _, k := range keys {
		asked[k]++
	}
	cx.t0 = r.t0
	got := map[string]int{}
	for _, it := range r.Items {
		if it == nil {
			return "nil item in a batch result"
		}
		if asked[it.Key] == 0 {
			return fmt.Sprintf("batch result contains %q, which was not asked for", it.Key)
		}
		s := states[it.Key]
		if !s.Ok {
			return fmt.Sprintf("batch result contains absent key %q", it.Key)
		}
		if w := itemMatches(it, it.Key, s, cx); w != "" {
			return fmt.Sprintf("batch item %q: %s", it.Key, w)
		}
		got[it.Key]++
	}
	for k, n := range asked {
		if states[k].Ok && (got[k] == 0 || got[k] > n) {
			return fmt.Sprintf("batch result contains present key %q %d times, asked %d times", k, got[k], n)
		}
	}
	return ""
}

// ---- generators

const keyChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:./!#$%&'()*+,;<=>?@[]^`{|}~\\\""

func genKey(r *rand.Rand) string {
	n := 1 + r.Intn(20)
	switch r.Intn(8) {
	case 0:
		n = 1
	case 1:
		n = 250
	case 2:
		n = 200 + r.Intn(51)
	case 3:
		n = 1 + r.Intn(250)
	}
	b := make([]byte, n)
	hi := r.Intn(10) == 0
	for i := range b {
		if hi && r.Intn(3) == 0 {
			b[i] = byte(0x80 + r.Intn(0x80))
		} else {
			b[i] = keyChars[r.Intn(len(keyChars))]
		}
	}
	if r.Intn(12) == 0 {
		w := []string{"END", "VALUE", "EN", "noreply", "v", "f", "t-1", "c1", "ST", "0"}[r.Intn(10)]
		return w
	}
	return string(b)
}

var nasty = []string{"", "\r\n", "END\r\n", "\r\nEND\r\n", "VALUE a 0 1\r\nx\r\nEND\r\n", "STORED\r\n", "EN\r\n", "MN\r\n", "HD\r\n", "\x81\x00", "\x80\x0a", "\x00", "\n", "\r", " ", "ERROR\r\n", "SERVER_ERROR x\r\n", "0", "1", "-1", "%d%s", "NOT_FOUND\r\n"}

func genVal(r *rand.Rand) []byte {
	switch r.Intn(9) {
	case 0:
		return []byte(nasty[r.Intn(len(nasty))])
	case 1:
		return nil
	case 2:
		s := ""
		for i := 0; i < 1+r.Intn(6); i++ {
			s += nasty[r.Intn(len(nasty))]
		}
		return []byte(s)
	case 3: // around buffer sizes
		base := []int{64, 256, 1024, 2048, 4096, 8192, 16384, 65536}[r.Intn(8)]
		return rbytes(r, base-30+r.Intn(60))
	case 4:
		return rbytes(r, r.Intn(70000))
	}
	return rbytes(r, r.Intn(200))
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	if n > 0 && r.Intn(2) == 0 {
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	}
	return b
}

func genFlags(r *rand.Rand) []byte {
	switch r.Intn(7) {
	case 0:
		return nil
	case 1:
		return be32(0)
	case 2:
		return be32(1 << uint(r.Intn(32)))
	case 3:
		return be32([]uint32{0xffffffff, 0x80000000, 0x7fffffff, 0xdeadbeef, 65535, 65536, 0x0a0d0a0d, 0x20202020}[r.Intn(8)])
	}
	return be32(r.Uint32())
}

// genExp: never, short, long, beyond 30 days (absolute).
func genExp(r *rand.Rand, now int64) int {
	switch r.Intn(7) {
	case 0, 1:
		return 0
	case 2:
		return 100 + r.Intn(1000)
	case 3:
		return []int{255, 256, 65535, 65536, 86400, day30 - 1, day30}[r.Intn(7)]
	case 4:
		if r.Intn(4) == 0 { // up to the last second 31 bits can tell
			return 1<<31 - 1 - r.Intn(100000)
		}
		return int(now) + 100000 + r.Intn(100000000)
	}
	return 50 + r.Intn(day30-50)
}

// genPast draws an expiration that has passed already: negative (the binary protocol cannot say so) or an absolute time.
func genPast(r *rand.Rand, proto string, now int64) int {
	if proto != "binary" && r.Intn(3) > 0 {
		return pick(r, -1, -1, -2, -60, -day30, -day30-1, -1<<31, -1-r.Intn(1<<30))
	}
	return int(pick(r, int64(day30+1), now-100, int64(day30+1)+r.Int63n(now-day30-100)))
}
