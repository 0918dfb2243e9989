package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"go.f110.dev/go-memcached/client"
)

func init() {
	registry["X05"] = checkX05
}

func checkX05(r *Run) {
	r.Rule("the router binary, built with the race detector, on 1-3 primaries and 1-3 secondaries that go down, lose their connections and come back, any subset at a time and several times in the life of one process, while clients of every protocol read and write; during an outage requests that need a lost server must fail and all others be answered and executed, after it every key must be served again, with the right value on both replicas; distinct = (topology, what was lost and how, how long, outcomes)")
	r.Assume("the router looks after its connections once a second, the default of the client's heartbeat; 'soon' is decided as within 15 s and 30000 round trips of a bystander connection")
	if os.Getenv("VERIF_ROUTER") == "" {
		r.HarnessError("VERIF_ROUTER does not name the router binary")
		return
	}
	r.Cases("outage", r.N(7, 120), 1, x05Case)
}

// x05Writer owns its keys: a read returns what it wrote last, or what a failed write since then may have left.
type x05Writer struct {
	keys []string
	may  map[string]map[string]bool
	seq  int
}

func x05Case(c *Case) {
	r := c.Rng
	atomic.AddInt64(&c.grace, int64(3*time.Minute))
	np, ns := 1+r.Intn(3), 1+r.Intn(3)
	pn, sn := x04Names(r, np), x04Names(r, ns)
	mk := func(names []string) (es []xentry) {
		for _, n := range names {
			es = append(es, xentry{n, c.ref(), "127.0.0.1"})
		}
		return
	}
	pri, sec := mk(pn), mk(sn)
	p := c.startRouter(yaml(r, reordered(r, pri), reordered(r, sec)))
	w := c.x4World(pri, sec)
	var all []*RefMC
	for _, e := range append(append([]xentry(nil), pri...), sec...) {
		all = append(all, e.be)
	}
	var keys []string
	for i := 0; i < 8; i++ {
		keys = append(keys, fmt.Sprintf("key%d", i))
	}
	for i, k := range keys {
		a, b := w.home(k)
		place(a, k, fmt.Sprint("first ", i), uint32(i), 0)
		place(b, k, fmt.Sprint("first ", i), uint32(i), 0)
	}
	// clients that never pause
	var stop int32
	var bg sync.WaitGroup
	var ok, failed int64
	for i := 0; i < 3; i++ {
		proto := protos[i]
		wr := &x05Writer{may: map[string]map[string]bool{}}
		for j := 0; j < 4; j++ {
			k := fmt.Sprintf("own%d-%d", i, j)
			wr.keys = append(wr.keys, k)
			wr.may[k] = map[string]bool{"": true}
		}
		rr := rand.New(rand.NewSource(r.Int63()))
		bg.Add(1)
		go func() {
			defer bg.Done()
			var cl client.Server
			defer func() {
				if cl != nil {
					cl.Close()
				}
			}()
			for atomic.LoadInt32(&stop) == 0 {
				if cl == nil {
					s, err := dial(proto, "x", routerAddr, 2*time.Minute)
					if err != nil {
						time.Sleep(5 * time.Millisecond)
						continue
					}
					cl = s
				}
				if y := wr.step(cl, rr, &ok, &failed); y != "" {
					if y != "error" {
						c.Report("%s client of the router: %s", proto, y)
						return
					}
					cl.Close()
					cl = nil
					time.Sleep(time.Duration(rr.Intn(5)) * time.Millisecond)
				}
				time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
			}
		}()
	}
	quit := func() { atomic.StoreInt32(&stop, 1); bg.Wait() }
	c.Defer(quit)
	cl := map[string]client.Server{}
	conn := func(proto string) client.Server {
		if cl[proto] == nil {
			s, err := dial(proto, "x", routerAddr, 2*time.Minute)
			if err != nil {
				p.alive(c)
				c.Fail("the router does not accept a client: %v", err)
			}
			cl[proto] = s
		}
		return cl[proto]
	}
	c.Defer(func() {
		for _, s := range cl {
			if s != nil {
				s.Close()
			}
		}
	})
	call := func(proto string, o Op) Res {
		res := c.Call(proto+" client of the router", conn(proto), o)
		if res.Class() == "error" {
			cl[proto].Close()
			cl[proto] = nil
		}
		return res
	}
	sig := fmt.Sprintf("%d|%d", np, ns)
	for round, rounds := 0, 2+r.Intn(3); round < rounds; round++ {
		lost := map[Backend]bool{}
		for len(lost) == 0 {
			for _, m := range all {
				if r.Intn(3) == 0 {
					lost[m] = true
				}
			}
		}
		kind := pick(r, "down", "down", "bounce", "drop")
		var list []*RefMC
		for _, m := range all {
			if lost[m] {
				list = append(list, m)
			}
		}
		c.Logf("round %d: %s of %d servers", round, kind, len(list))
		for _, m := range list {
			if kind == "drop" {
				m.DropConns()
			} else {
				m.SetDown()
			}
		}
		pause := time.Duration(0)
		if kind == "down" {
			pause = time.Duration(pick(r, 100, 1100, 2300, 3500)) * time.Millisecond
			for t0, n := time.Now(), 0; n < 20 || time.Since(t0) < pause; n++ {
				k := keys[r.Intn(len(keys))]
				pb, sb := w.home(k)
				proto := pick(r, protos...)
				p0, s0 := pb.Inspect(k), sb.Inspect(k)
				if r.Intn(2) == 0 {
					res := call(proto, Op{Kind: "get", Key: k})
					if lost[pb] {
						if res.Class() != "error" {
							c.Fail("key %q: its primary is down, a get through the router returned %s", k, res)
						}
					} else if y := judge(Op{Kind: "get", Key: k}, res, p0, pb.Inspect(k), w.cx(proto)); y != "" {
						c.Fail("key %q: its primary is up, others are not: %s", k, y)
					}
				} else {
					o := Op{Kind: "set", Key: k, Val: []byte(fmt.Sprintf("round %d.%d", round, n)), Flags: be32(uint32(n))}
					res := call(proto, o)
					p1, s1 := pb.Inspect(k), sb.Inspect(k)
					switch {
					case lost[pb] || lost[sb]:
						if res.Class() != "error" {
							c.Fail("key %q: %s is down, a set through the router returned %s", k, map[bool]string{true: "its primary", false: "its secondary"}[lost[pb]], res)
						}
						if lost[pb] && s1 != s0 {
							c.Fail("key %q: its primary is down, a failed set changed the secondary from %s to %s", k, s0, s1)
						}
					case res.Err != nil || p1.Val != string(o.Val) || !alike(p1, s1, 0):
						c.Fail("key %q: its servers are up, others are not: set returned %s, primary %s, secondary %s", k, res, p1, s1)
					}
				}
				c.R.Count("requests_judged_during_an_outage", 1)
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
			}
		}
		p.alive(c)
		if kind != "drop" {
			for _, m := range list {
				c.Must(m.SetUp())
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
				}
			}
		}
		t0, s0 := time.Now(), atomic.LoadInt64(&canarySteps)
		for i, k := range keys {
			for n := 0; ; n++ {
				proto := protos[(i+n)%3]
				o := Op{Kind: "set", Key: k, Val: []byte(fmt.Sprintf("back %d.%d.%d", round, i, n)), Flags: be32(uint32(n))}
				res := call(proto, o)
				if res.Err == nil {
					break
				}
				p.alive(c)
				if time.Since(t0) > 15*time.Second && atomic.LoadInt64(&canarySteps)-s0 > 30000 {
					c.Fail("all servers have been back for %v (%s of %d of %d), the router still fails a set of %q: %v", time.Since(t0).Round(time.Second), kind, len(list), len(all), k, res.Err)
				}
				time.Sleep(20 * time.Millisecond)
			}
			pb, sb := w.home(k)
			if a, b := pb.Inspect(k), sb.Inspect(k); !a.Ok || !alike(a, b, 0) {
				c.Fail("key %q was set after its servers came back: primary %s, secondary %s", k, a, b)
			}
		}
		c.R.Max("recovery_ms_max", time.Since(t0).Milliseconds())
		c.R.Count("recoveries", 1)
		c.R.Count("servers_lost", int64(len(list)))
		for n := 0; n < 30; n++ {
			k := keys[r.Intn(len(keys))]
			o := Op{Kind: pick(r, "get", "set"), Key: k}
			if o.Kind == "set" {
				o.Val, o.Flags, o.Exp = genVal(r), genFlags(r), genExp(r, w.now())
			}
			proto := pick(r, protos...)
			if rr := x01Step(w, conn(proto), proto, keys, o); rr.Class() == "error" {
				c.Fail("after the servers came back: %s %s", o, rr)
			}
		}
		sig += fmt.Sprintf("|%s%d/%v", kind, len(list), pause)
		c.R.Eval(sig)
	}
	c.Do("clients of the router ending", quit)
	p.alive(c)
	p.stop()
	c.R.Count("requests_answered_meanwhile", atomic.LoadInt64(&ok))
	c.R.Count("requests_failed_meanwhile", atomic.LoadInt64(&failed))
}

func (w *x05Writer) step(cl client.Server, r *rand.Rand, ok, failed *int64) string {
	k := w.keys[r.Intn(len(w.keys))]
	if r.Intn(2) == 0 {
		w.seq++
		v := fmt.Sprintf("%s=%d", k, w.seq)
		res := do(cl, Op{Kind: "set", Key: k, Val: []byte(v), Flags: be32(1)})
		if res.Err != nil {
			w.may[k][v] = true
			atomic.AddInt64(failed, 1)
			return "error"
		}
		w.may[k] = map[string]bool{v: true}
		atomic.AddInt64(ok, 1)
		return ""
	}
	res := do(cl, Op{Kind: "get", Key: k})
	switch res.Class() {
	case "error":
		atomic.AddInt64(failed, 1)
		return "error"
	case "notfound":
		if !w.may[k][""] {
			return fmt.Sprintf("get of %q: not found, although it was set", k)
		}
	case "ok":
		if res.Item == nil || !w.may[k][string(res.Item.Value)] {
			return fmt.Sprintf("get of %q: %s; possible are %v", k, res, w.may[k])
		}
	}
	atomic.AddInt64(ok, 1)
	return ""
}

// x4World: what the model knows of the router process.
func (c *Case) x4World(pri, sec []xentry) *routerWorld {
	w := &routerWorld{repWorld: &repWorld{c: c, pi: map[string]int{}, si: map[string]int{}}, addr: routerAddr}
	log := &fakeLog{}
	var a, b []client.Server
	for i, e := range pri {
		w.pri, w.pn = append(w.pri, e.be), append(w.pn, e.name)
		w.pi[e.name] = i
		a = append(a, fakes(log, e.name)[0])
	}
	for i, e := range sec {
		w.sec, w.sn = append(w.sec, e.be), append(w.sn, e.name)
		w.si[e.name] = i
		b = append(b, fakes(log, e.name)[0])
	}
	w.pr, w.sr = client.NewRing(a...), client.NewRing(b...)
	return w
}
