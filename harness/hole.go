package main

import (
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"go.f110.dev/go-memcached/client"
)

// A server that is there but takes no connections: its queue of connections is full and nobody accepts them, so that
// a dial neither succeeds nor fails, as with a host that went away without a word.

type holeListener struct {
	net.Listener
	mu   sync.Mutex
	cond *sync.Cond
	shut bool
	bin  bool            // connections from before unplug are thrown away
	own  map[string]bool // local addresses of the connections that fill the queue
	seen map[string]bool
	last string // that of the last of them
}

func (h *holeListener) Accept() (net.Conn, error) {
	for {
		c, err := h.Listener.Accept()
		if err != nil {
			h.mu.Lock()
			h.bin = false
			h.cond.Broadcast()
			h.mu.Unlock()
			return nil, err
		}
		h.mu.Lock()
		for h.shut {
			h.cond.Wait()
		}
		a := c.RemoteAddr().String()
		drop := h.bin || h.own[a]
		h.seen[a] = true
		if a == h.last {
			h.bin = false
			h.cond.Broadcast()
		}
		h.mu.Unlock()
		if drop {
			c.Close()
			continue
		}
		return c, nil
	}
}

type holeServer struct {
	*RefMC
	l    *holeListener
	fill []net.Conn
}

func (c *Case) holeServer() *holeServer {
	m := c.ref()
	var l net.Listener
	for i := 0; i < 100 && l == nil; i++ {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		c.Must(err)
		if syscall.Bind(fd, &syscall.SockaddrInet4{Port: nextPort(), Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
			syscall.Close(fd)
			continue
		}
		f := os.NewFile(uintptr(fd), "hole")
		l, err = net.FileListener(f)
		f.Close()
		c.Must(err)
	}
	h := &holeServer{RefMC: m, l: &holeListener{Listener: l, own: map[string]bool{}, seen: map[string]bool{}}}
	h.l.cond = sync.NewCond(&h.l.mu)
	old := m.l
	m.mu.Lock()
	m.l = h.l
	m.mu.Unlock()
	old.Close()
	go m.accept(h.l)
	c.Defer(h.unplug)
	return h
}

// plug drops all connections; from now on no dial comes to an end.
func (h *holeServer) plug() {
	h.l.mu.Lock()
	h.l.shut = true
	h.l.mu.Unlock()
	h.DropConns()
	for n := 0; n < 3; {
		d, err := net.DialTimeout("tcp", h.Addr(), 60*time.Millisecond)
		if err != nil {
			n++
			continue
		}
		n = 0
		h.l.mu.Lock()
		h.l.own[d.LocalAddr().String()] = true
		h.l.mu.Unlock()
		h.fill = append(h.fill, d)
	}
}

// unplug throws away what is in the queue, then serves again.
func (h *holeServer) unplug() {
	h.l.mu.Lock()
	defer h.l.mu.Unlock()
	if !h.l.shut {
		return
	}
	h.l.shut, h.l.bin, h.l.last = false, true, ""
	h.l.cond.Broadcast()
	h.l.mu.Unlock()
	d, err := net.Dial("tcp", h.Addr())
	h.l.mu.Lock()
	if err == nil {
		a := d.LocalAddr().String()
		h.l.own[a], h.l.last = true, a
		if h.l.seen[a] {
			h.l.bin = false
		}
		for h.l.bin {
			h.l.cond.Wait()
		}
		d.Close()
	}
	h.l.bin, h.l.own, h.l.seen = false, map[string]bool{}, map[string]bool{}
	for _, d := range h.fill {
		d.Close()
	}
	h.fill = nil
}

type dialing struct {
	what string
	res  Res
	err  error
	pan  any
}

// dialers starts a Reconnect, if asked to, and calls that wait for it.
func (c *Case) dialers(cl client.Server, reconnect bool, n int, back *int32) chan dialing {
	out := make(chan dialing, n+1)
	run := func(d dialing, f func(d *dialing)) {
		go func() {
			defer func() {
				d.pan = recover()
				atomic.AddInt32(back, 1)
				out <- d
			}()
			f(&d)
		}()
	}
	if reconnect {
		run(dialing{what: "Reconnect"}, func(d *dialing) { d.err = cl.Reconnect() })
		time.Sleep(time.Duration(1+c.Rng.Intn(20)) * time.Millisecond)
	}
	for i := 0; i < n; i++ {
		o := plainOp(c, pick(c.Rng, allKinds...), []string{"a", "b"})
		run(dialing{what: o.String()}, func(d *dialing) { d.res = do(cl, o) })
	}
	return out
}

func (c *Case) dialed(what string, out chan dialing, n int) {
	done := make(chan struct{})
	var all []dialing
	go func() {
		defer close(done)
		for i := 0; i < n; i++ {
			all = append(all, <-out)
		}
	}()
	switch c.waitDone(done) {
	case 1:
		c.Fail("%s: calls did not return", what)
	case 2:
		c.Skip("no progress")
	}
	for _, d := range all {
		if d.pan != nil {
			c.Fail("%s: %s panicked: %v", what, d.what, d.pan)
		}
		if d.what == "Reconnect" {
			if d.err == nil {
				c.Fail("%s: Reconnect reported success", what)
			}
		} else if d.res.Class() != "error" {
			c.Fail("%s: %s returned %s", what, d.what, d.res)
		}
	}
}

// c07Dialing: Close while the client tries to reach a server that does not take connections.
func c07Dialing(c *Case) {
	proto := protos[c.Idx()%3]
	kind := c.Idx() / 3 % 3
	iv := 5 * time.Millisecond
	h := c.holeServer()
	cl := c.connect(proto, h.Addr(), 0, c07Opts(kind, iv)...)
	if kind == 0 && c.Rng.Intn(2) == 0 {
		setTimeout(cl, 5*time.Minute)
	}
	probe(c, h.RefMC, proto, cl, "before")
	h.plug()
	n := c.Rng.Intn(4)
	auto := kind == 2
	var back int32
	m := n
	if !auto || c.Rng.Intn(2) == 0 {
		m++
	}
	out := c.dialers(cl, m > n, n, &back)
	time.Sleep(time.Duration(60+c.Rng.Intn(100)) * time.Millisecond)
	waiting := m - int(atomic.LoadInt32(&back))
	if err := closeIt(c, cl); kind != 1 && err != nil {
		c.Logf("Close: %v", err)
	}
	c.dialed("Close while the server takes no connections", out, m)
	c.R.Count("calls_released_while_dialing", int64(waiting))
	h.unplug()
	dead(c, h.RefMC, proto, cl, iv)
	c.R.Eval(fmt.Sprintf("dialing|%s|%d|%d|%d", proto, kind, m, waiting))
}

// c05Dialing: the timeout holds as well while the client tries to reach a server that does not take connections.
func c05Dialing(c *Case) {
	proto := protos[c.Idx()%3]
	h := c.holeServer()
	tmo := time.Duration(pick(c.Rng, 100, 300)) * time.Millisecond
	cl := c.connect(proto, h.Addr(), tmo)
	for i := 0; i < 2; i++ {
		h.plug()
		n := 1 + c.Rng.Intn(3)
		var back int32
		out := c.dialers(cl, true, n, &back)
		c.dialed(fmt.Sprintf("a client with a timeout of %v whose server takes no connections", tmo), out, n+1)
		h.unplug()
		var err error
		var res Res
		if !c.eventually("recovery by Reconnect", func() bool {
			if err = cl.Reconnect(); err != nil {
				return false
			}
			res = do(cl, Op{Kind: "get", Key: "absent"})
			return res.Class() == "notfound"
		}) {
			c.Fail("the server takes connections again: Reconnect returned %v, then Get %s", err, res)
		}
		c.R.Count("dials_timed_out", 1)
	}
	c.R.Eval(fmt.Sprintf("dialing|%s|%v", proto, tmo))
}
