package main

import (
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"time"
)

// Every listener of the harness gets a port outside the range the kernel hands out (32768 to 60999), and no
// port twice in a process. A server that goes down keeps its port to itself: no other listener of a case
// that runs at the same time, and no outgoing connection, can turn up there and answer in its place.

var (
	portMu   sync.Mutex
	portUsed = map[int]bool{8090: true, 11211: true}
	portRnd  = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<32))
)

func nextPort() int {
	portMu.Lock()
	defer portMu.Unlock()
	if len(portUsed) > 12000 {
		portUsed = map[int]bool{8090: true, 11211: true}
	}
	for {
		p := 10000 + portRnd.Intn(22000)
		if portRnd.Intn(4) == 0 {
			p = 61000 + portRnd.Intn(4536)
		}
		if !portUsed[p] {
			portUsed[p] = true
			return p
		}
	}
}

func listenOn(host string) (net.Listener, error) {
	var l net.Listener
	var err error
	for i := 0; i < 200; i++ {
		if l, err = net.Listen("tcp", net.JoinHostPort(host, strconv.Itoa(nextPort()))); err == nil {
			return l, nil
		}
	}
	return nil, err
}

func listenLocal() (net.Listener, error) { return listenOn("127.0.0.1") }
