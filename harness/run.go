package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run collects what one check observed.
type Run struct {
	Prop, Tier string
	Seed       int64
	Only       string // replay: run only this case

	mu         sync.Mutex
	violations []Violation
	incon      []string
	evals      int64
	sigs       map[uint64]struct{}
	samples    []any
	sigSamples []any
	counters   map[string]int64
	trace      *os.File
	harnessErr []string
	rule       string
	assume     []string
}

type Violation struct {
	Case   string   `json:"case"`
	What   string   `json:"what"`
	Detail []string `json:"detail,omitempty"`
	Key    string   `json:"key,omitempty"`
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a size by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func (r *Run) Rule(s string)   { r.rule = s }
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	if r.counters[name] < n {
		r.counters[name] = n
	}
	r.mu.Unlock()
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Eval records one executed case; sig != "" marks it non-trivial and names its equivalence class.
func (r *Run) Eval(sig string) {
	r.mu.Lock()
	r.evals++
	if sig != "" {
		h := hash64(sig)
		if _, ok := r.sigs[h]; !ok && len(r.sigSamples) < 5 {
			r.sigSamples = append(r.sigSamples, sig[:min(len(sig), 300)])
		}
		r.sigs[h] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *Run) violation(v Violation) {
	r.mu.Lock()
	r.violations = append(r.violations, v)
	r.mu.Unlock()
}

func (r *Run) nviol() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations)
}

func (r *Run) Inconclusive(s string) {
	r.mu.Lock()
	r.incon = append(r.incon, s)
	r.mu.Unlock()
}

func (r *Run) HarnessError(s string) {
	r.mu.Lock()
	r.harnessErr = append(r.harnessErr, s)
	r.mu.Unlock()
}

const maxViolations = 3

var began = time.Now()

// enough: with a violation in hand the run ends early, before its time limit takes the verdict away.
func (r *Run) enough() bool {
	n := r.nviol()
	return n >= maxViolations || n > 0 && time.Since(began) > 90*time.Second
}

type Case struct {
	R    *Run
	ID   string
	Rng  *rand.Rand
	mu   sync.Mutex
	log  []string
	undo []func()

	grace int64 // nanoseconds this case itself may spend waiting
	beats int64 // bytes moved by the servers of this case, calls that returned
}

type caseAbort struct{}

func (c *Case) Logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.mu.Lock()
	if len(c.log) > 400 {
		c.log = append(c.log[:1:1], c.log[200:]...)
	}
	c.log = append(c.log, s)
	c.mu.Unlock()
}

// Report records a violation without ending the case.
func (c *Case) Report(f string, a ...any) {
	c.mu.Lock()
	l := append([]string(nil), c.log...)
	c.mu.Unlock()
	if len(l) > 120 {
		l = l[len(l)-120:]
	}
	s := fmt.Sprintf(f, a...)
	if len(s) > 4000 {
		s = s[:4000]
	}
	if d := time.Since(began.Round(0)) - time.Since(began); d > time.Second || d < -time.Second {
		c.R.Inconclusive(fmt.Sprintf("%s: the machine's clock was set (by %v) during the run: %s", c.ID, d, s))
		return
	}
	c.R.violation(Violation{Case: c.ID, What: s, Detail: l})
}

// Fail records a violation and ends the case; only for the goroutine running the case.
func (c *Case) Fail(f string, a ...any) {
	c.Report(f, a...)
	panic(caseAbort{})
}

// Skip ends the case as inconclusive.
func (c *Case) Skip(f string, a ...any) {
	c.R.Inconclusive(c.ID + ": " + fmt.Sprintf(f, a...))
	panic(caseAbort{})
}

// Must reports an error of the harness itself.
func (c *Case) Must(err error) {
	if err != nil {
		c.R.HarnessError(c.ID + ": " + err.Error() + "\n" + string(debug.Stack()))
		panic(caseAbort{})
	}
}

// Dialed judges an attempt to connect to a server under test that has not been told to stop.
func (c *Case) Dialed(err error) {
	if errors.Is(err, syscall.ECONNREFUSED) || errors.Is(err, syscall.ECONNRESET) {
		c.Fail("the server under test does not accept connections any more: %v", err)
	}
	c.Must(err)
}

func (c *Case) Defer(f func()) {
	c.mu.Lock()
	c.undo = append(c.undo, f)
	c.mu.Unlock()
}

func (r *Run) runCase(name string, idx int, fn func(*Case)) {
	id := fmt.Sprintf("%s/%d", name, idx)
	if r.Only != "" && r.Only != id {
		return
	}
	if r.enough() {
		return
	}
	c := &Case{R: r, ID: id, Rng: rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%s|%s|%d", r.Prop, id, r.Seed)))))}
	if r.trace != nil {
		fmt.Fprintf(r.trace, "start %s\n", id)
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(caseAbort); !ok {
				st := string(debug.Stack())
				if strings.Contains(st, "/repo/") {
					c.Report("panic in the code under test: %v\n%s", p, st)
				} else {
					r.HarnessError(fmt.Sprintf("%s: harness panic: %v\n%s", id, p, st))
				}
			}
		}
		for i := len(c.undo) - 1; i >= 0; i-- {
			func() {
				defer func() { recover() }()
				c.undo[i]()
			}()
		}
		if r.trace != nil {
			fmt.Fprintf(r.trace, "end %s\n", id)
		}
	}()
	fn(c)
}

// Cases runs n cases on w workers.
func (r *Run) Cases(name string, n, w int, fn func(c *Case)) {
	if only := os.Getenv("VERIF_ONLY"); only != "" && only != name { // for development
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= n {
					return
				}
				r.runCase(name, k, fn)
			}
		}()
	}
	wg.Wait()
}

func (c *Case) Idx() int {
	var k int
	fmt.Sscanf(c.ID[strings.LastIndex(c.ID, "/")+1:], "%d", &k)
	return k
}

// ---- progress canary: decides "never returns" by steps of a bystander, not by the clock alone

var canarySteps int64

func startCanary() {
	l, err := listenLocal()
	if err != nil {
		panic(err)
	}
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		io.Copy(c, c)
	}()
	d, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	go func() {
		b := []byte{1}
		for {
			if _, err := d.Write(b); err != nil {
				return
			}
			if _, err := io.ReadFull(d, b); err != nil {
				return
			}
			atomic.AddInt64(&canarySteps, 1)
			time.Sleep(500 * time.Microsecond)
		}
	}()
}

const (
	hangSteps = 3000
	hangMin   = 6 * time.Second
	hangMax   = 150 * time.Second
	hangSlow  = 60 * time.Second // as long as a call may take while bytes move
)

func (c *Case) patience() time.Duration { return time.Duration(atomic.LoadInt64(&c.grace)) }

// Pauses draws lengths of time, up to total altogether, for servers and clients that take their time.
func (c *Case) pauses(total time.Duration) func() time.Duration {
	if c.R.Thorough() && c.Rng.Intn(4) == 0 {
		total += 70 * time.Second
	}
	atomic.AddInt64(&c.grace, int64(total))
	var mu sync.Mutex
	left := total
	r := rand.New(rand.NewSource(c.Rng.Int63()))
	return func() time.Duration {
		mu.Lock()
		defer mu.Unlock()
		d := pick[time.Duration](r, 10, 40, 90, 200, 450, 700, 1100, 1700, 2600) * time.Millisecond
		if left > 30*time.Second && r.Intn(3) == 0 {
			d = pick[time.Duration](r, 5, 11, 31, 61) * time.Second
		}
		if d > left {
			return 0
		}
		left -= d
		c.R.Count("pauses", 1)
		if d > time.Second {
			c.R.Count("pauses_over_1s", 1)
		}
		return d
	}
}

// waitDone returns 0 done, 1 hung (the bystander progressed, this did not), 2 inconclusive.
func (c *Case) waitDone(done <-chan struct{}) int {
	select {
	case <-done:
		return 0
	case <-time.After(20 * time.Millisecond):
	}
	t0, s0 := time.Now(), atomic.LoadInt64(&canarySteps)
	beat, until := atomic.LoadInt64(&c.beats), t0.Add(hangSlow)
	tk := time.NewTicker(20 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case <-done:
			return 0
		case <-tk.C:
			if b := atomic.LoadInt64(&c.beats); b != beat && time.Now().Before(until) {
				beat, t0, s0 = b, time.Now(), atomic.LoadInt64(&canarySteps) // slow, and at work
			}
			el := time.Since(t0)
			if el > hangMin+c.patience() && atomic.LoadInt64(&canarySteps)-s0 > hangSteps {
				return 1
			}
			if el > hangMax+c.patience() || el > hangMin && c.R.enough() {
				return 2
			}
		}
	}
}

// eventually waits until cond holds; false only when the bystander made ample progress meanwhile.
func (c *Case) eventually(what string, cond func() bool) bool {
	if cond() {
		return true
	}
	t0, s0 := time.Now(), atomic.LoadInt64(&canarySteps)
	d := time.Millisecond
	for {
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d *= 2
		}
		if cond() {
			return true
		}
		el := time.Since(t0)
		if el > hangMin+c.patience() && atomic.LoadInt64(&canarySteps)-s0 > hangSteps {
			return cond()
		}
		if el > hangMax+c.patience() {
			c.Skip("no verdict on %q: machine too slow", what)
		}
	}
}

type outcome struct {
	panicked string
	hung     bool
	incon    bool
}

// Try runs one call of the code under test, watching for panics and hangs.
func (c *Case) Try(fn func()) (o outcome) {
	done := make(chan struct{})
	var pan string
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		fn()
	}()
	switch c.waitDone(done) {
	case 0:
		o.panicked = pan
	case 1:
		o.hung = true
	case 2:
		o.incon = true
	}
	return
}

// Do is Try where panic and hang are violations.
func (c *Case) Do(desc string, fn func()) {
	o := c.Try(fn)
	switch {
	case o.panicked != "":
		c.Fail("%s panicked: %s", desc, o.panicked)
	case o.hung:
		_, d := repoGoroutines("go-memcached/")
		if len(d) > 20000 {
			d = d[:20000]
		}
		fmt.Fprintf(os.Stderr, "goroutines in the repository's code:\n%s", d)
		c.Fail("%s never returned (a bystander connection completed %d round trips meanwhile)", desc, hangSteps)
	case o.incon:
		c.Skip("%s did not return but neither did the machine progress", desc)
	}
}

func (r *Run) result(start time.Time) map[string]any {
	r.mu.Lock()
	defer r.mu.Unlock()
	ks := make([]string, 0)
	for k := range r.counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(r.samples) == 0 {
		r.samples = r.sigSamples
	}
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.sigs),
		"rule":                r.rule,
		"samples":             r.samples,
	}
	for _, k := range ks {
		cov[k] = r.counters[k]
	}
	return map[string]any{
		"coverage":     cov,
		"violations":   r.violations,
		"inconclusive": r.incon,
		"harness":      r.harnessErr,
		"assumptions":  r.assume,
		"wall_s":       time.Since(start).Seconds(),
	}
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
}

// trackedListener lets a check close the connections its own server accepted.
type trackedListener struct {
	net.Listener
	mu    sync.Mutex
	conns []net.Conn
}

func (t *trackedListener) Accept() (net.Conn, error) {
	c, err := t.Listener.Accept()
	if err == nil {
		t.mu.Lock()
		t.conns = append(t.conns, c)
		t.mu.Unlock()
	}
	return c, err
}

func (t *trackedListener) CloseAll() {
	t.Listener.Close()
	t.mu.Lock()
	for _, c := range t.conns {
		c.Close()
	}
	t.mu.Unlock()
}
