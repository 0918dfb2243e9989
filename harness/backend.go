package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Backend is a server the clients under test talk to, with an inspection port of its own.
type Backend interface {
	Addr() string
	Inspect(key string) State
	Put(key, val string, flags uint32, ttl int64)
	Exact() bool // clock frozen
	Kind() string
}

func (m *RefMC) Exact() bool  { return true }
func (m *RefMC) Kind() string { return "refmc" }

// RealMC is a real memcached process.
type RealMC struct {
	cmd  *exec.Cmd
	addr string
	mu   sync.Mutex
	c    net.Conn
	r    *bufio.Reader
}

var (
	procMu sync.Mutex
	procs  []*exec.Cmd
)

func stopProcs() {
	procMu.Lock()
	defer procMu.Unlock()
	for _, p := range procs {
		if p.Process != nil {
			p.Process.Kill()
			p.Wait()
		}
	}
	procs = nil
}

func freePort() int {
	l, err := listenLocal()
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func StartReal(args ...string) (*RealMC, error) {
	var last error
	for try := 0; try < 5; try++ {
		port := freePort()
		a := append([]string{"-l", "127.0.0.1", "-p", strconv.Itoa(port), "-U", "0", "-m", "1024", "-t", "4"}, args...)
		if os.Getuid() == 0 {
			a = append(a, "-u", "root")
		}
		cmd := exec.Command("memcached", a...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		procMu.Lock()
		procs = append(procs, cmd)
		procMu.Unlock()
		m := &RealMC{cmd: cmd, addr: fmt.Sprintf("127.0.0.1:%d", port)}
		for i := 0; i < 600; i++ {
			c, err := net.Dial("tcp", m.addr)
			if err == nil {
				m.c, m.r = c, bufio.NewReader(c)
				// make sure it is our memcached
				c.SetDeadline(time.Now().Add(30 * time.Second))
				fmt.Fprintf(c, "stats\r\n")
				pid := 0
				for {
					l, err := m.r.ReadString('\n')
					if err != nil || l == "END\r\n" {
						break
					}
					fmt.Sscanf(l, "STAT pid %d", &pid)
				}
				if pid == cmd.Process.Pid {
					c.SetDeadline(time.Time{})
					return m, nil
				}
				c.Close()
				break
			}
			last = err
			time.Sleep(10 * time.Millisecond)
		}
		cmd.Process.Kill()
	}
	return nil, fmt.Errorf("memcached did not start: %v", last)
}

func (m *RealMC) Addr() string { return m.addr }
func (m *RealMC) Exact() bool  { return false }
func (m *RealMC) Kind() string { return "memcached" }
func (m *RealMC) Version() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	fmt.Fprintf(m.c, "version\r\n")
	l, _ := m.r.ReadString('\n')
	return strings.TrimSpace(strings.TrimPrefix(l, "VERSION "))
}

// Evictions: a full server drops items by itself.
func (m *RealMC) Evictions() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	fmt.Fprintf(m.c, "stats\r\n")
	n := 0
	for {
		l, err := m.r.ReadString('\n')
		if err != nil || l == "END\r\n" {
			return n
		}
		fmt.Sscanf(l, "STAT evictions %d", &n)
	}
}

func (m *RealMC) Inspect(key string) State {
	m.mu.Lock()
	defer m.mu.Unlock()
	fmt.Fprintf(m.c, "mg %s f c t s v\r\n", key)
	l, err := m.r.ReadString('\n')
	if err != nil {
		panic("inspect: " + err.Error())
	}
	t := strings.Fields(l)
	if t[0] == "EN" {
		return State{}
	}
	if t[0] != "VA" {
		panic("inspect: " + l)
	}
	n, _ := strconv.Atoi(t[1])
	s := State{Ok: true}
	for _, f := range t[2:] {
		switch f[0] {
		case 'f':
			u, _ := strconv.ParseUint(f[1:], 10, 32)
			s.Flags = uint32(u)
		case 'c':
			s.Cas, _ = strconv.ParseUint(f[1:], 10, 64)
		case 't':
			s.TTL, _ = strconv.ParseInt(f[1:], 10, 64)
		case 'X', 'W', 'Z':
			s.Stale = true
		}
	}
	b := make([]byte, n+2)
	if _, err := io.ReadFull(m.r, b); err != nil {
		panic("inspect: " + err.Error())
	}
	s.Val = string(b[:n])
	return s
}

func (m *RealMC) Put(key, val string, flags uint32, ttl int64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	fmt.Fprintf(m.c, "set %s %d %d %d\r\n%s\r\n", key, flags, ttl, len(val), val)
	l, err := m.r.ReadString('\n')
	if err != nil || l != "STORED\r\n" {
		panic(fmt.Sprintf("put: %q %v", l, err))
	}
}

// SegProxy forwards to a backend, cutting both directions into small segments.
type SegProxy struct {
	l    net.Listener
	dst  string
	size func() int
	beat *int64
	mu   sync.Mutex
	cs   []net.Conn
}

func (c *Case) SegProxy(dst string, size func() int) *SegProxy {
	l, err := listenLocal()
	if err != nil {
		panic(err)
	}
	p := &SegProxy{l: l, dst: dst, size: size, beat: &c.beats}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			d, err := net.Dial("tcp", dst)
			if err != nil {
				c.Close()
				continue
			}
			p.mu.Lock()
			p.cs = append(p.cs, c, d)
			p.mu.Unlock()
			go p.pump(c, d)
			go p.pump(d, c)
		}
	}()
	return p
}

func (p *SegProxy) pump(a, b net.Conn) {
	defer a.Close()
	defer b.Close()
	buf := make([]byte, 8192)
	full := 0
	for {
		n, err := a.Read(buf)
		x := buf[:n]
		if n == len(buf) {
			full++
		} else {
			full = 0
		}
		for len(x) > 0 {
			k := p.size()
			if full > 4 {
				k *= 50
			}
			if k > len(x) {
				k = len(x)
			}
			if _, err := b.Write(x[:k]); err != nil {
				return
			}
			x = x[k:]
			atomic.AddInt64(p.beat, 1)
			if len(x) > 0 {
				time.Sleep(20 * time.Microsecond)
			}
		}
		if err != nil {
			return
		}
	}
}
func (p *SegProxy) Addr() string { return p.l.Addr().String() }
func (p *SegProxy) Close() {
	p.l.Close()
	p.mu.Lock()
	for _, c := range p.cs {
		c.Close()
	}
	p.mu.Unlock()
}
