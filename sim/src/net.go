package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// rng is a small splitmix64 generator; every random choice of the harness
// comes from one of these, seeded from the plan.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed} }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

func (r *rng) chance(pct int) bool { return r.intn(100) < pct }

func (r *rng) pick(l ...string) string { return l[r.intn(len(l))] }

func (r *rng) fork() *rng { return newRng(newRng(r.next()).next() ^ 0x666f726b) }

// half is one direction of a simulated TCP connection.
type half struct {
	segs     []seg
	queued   int // bytes not yet read
	capacity int // 0: unlimited
	stalled  bool
	eof      bool
	err      error // read side error (reset)
	wake     chan struct{}
	lastAt   time.Time
	rng      *rng
	latency  time.Duration // max per-segment latency
	chunk    bool          // split segments at arbitrary places
	total    int
}

type seg struct {
	b  []byte
	at time.Time
}

func (h *half) signal() {
	close(h.wake)
	h.wake = make(chan struct{})
}

type simConn struct {
	net           *simNet
	in, out       *half
	peer          *simConn
	laddr, raddr  net.Addr
	closed        bool
	rdead, wdead  time.Time
	name          string
	instance      uint64
	closeObserved time.Time
	lineAt        []time.Time // when soju wrote each line, on connections it made
}

var _ net.Conn = (*simConn)(nil)

type simNet struct {
	rng       *rng
	conns     []*simConn
	listeners map[string]*simListener
	dns       map[string][]net.IP
	nextPort  int
	dialFault func(addr string) (delay time.Duration, err error)
	maxLat    time.Duration
	chunk     bool
	faults    map[string]int
	bytes     int
	onDial    func(instance uint64) bool
	ports     int // number of local ports for outgoing connections, 0: never reused
}

func newSimNet(r *rng) *simNet {
	return &simNet{
		rng:       r,
		listeners: make(map[string]*simListener),
		dns:       make(map[string][]net.IP),
		nextPort:  40000,
		faults:    make(map[string]int),
	}
}

func (n *simNet) pair(name string, laddr, raddr net.Addr) (a, b *simConn) {
	now := time.Now()
	mk := func() *half {
		return &half{wake: make(chan struct{}), lastAt: now, rng: n.rng.fork(), latency: n.maxLat, chunk: n.chunk}
	}
	x, y := mk(), mk()
	a = &simConn{net: n, in: x, out: y, laddr: laddr, raddr: raddr, name: name}
	b = &simConn{net: n, in: y, out: x, laddr: raddr, raddr: laddr, name: name + "'"}
	a.peer, b.peer = b, a
	n.conns = append(n.conns, a)
	return a, b
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
var errPipe = &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(err error) bool {
	return err == os.ErrDeadlineExceeded
}

func waitWake(ch chan struct{}, until time.Time) {
	if until.IsZero() {
		<-ch
		return
	}
	d := time.Until(until)
	if d <= 0 {
		return
	}
	t := time.NewTimer(d)
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

func (c *simConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for {
		h := c.in
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		now := time.Now()
		if !c.rdead.IsZero() && !now.Before(c.rdead) {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
		}
		if h.err != nil {
			return 0, h.err
		}
		var until time.Time
		if !h.stalled {
			if len(h.segs) > 0 {
				if s := &h.segs[0]; !now.Before(s.at) {
					n := copy(b, s.b)
					if h.chunk && n > 1 && h.rng.chance(25) {
						n = 1 + h.rng.intn(n)
						if n > len(b) {
							n = len(b)
						}
					}
					s.b = s.b[n:]
					if len(s.b) == 0 {
						h.segs = h.segs[1:]
					}
					h.queued -= n
					if h.capacity > 0 {
						h.signal()
					}
					return n, nil
				} else {
					until = s.at
				}
			} else if h.eof {
				return 0, io.EOF
			}
		}
		if !c.rdead.IsZero() && (until.IsZero() || c.rdead.Before(until)) {
			until = c.rdead
		}
		waitWake(h.wake, until)
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	runtime.SimYield()
	written := 0
	for {
		h := c.out
		if c.closed {
			return written, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if c.peer.closed || h.err != nil {
			return written, errPipe
		}
		now := time.Now()
		if !c.wdead.IsZero() && !now.Before(c.wdead) {
			return written, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}
		}
		room := len(b) - written
		if h.capacity > 0 && h.capacity-h.queued < room {
			room = h.capacity - h.queued
			if room < 0 {
				room = 0
			}
		}
		if room > 0 {
			c.push(b[written : written+room])
			written += room
		}
		if written == len(b) {
			return written, nil
		}
		waitWake(h.wake, c.wdead)
	}
}

func (c *simConn) push(b []byte) {
	h := c.out
	if strings.HasPrefix(c.name, "up:") && !strings.HasSuffix(c.name, "'") {
		for i := bytes.Count(b, []byte("\n")); i > 0; i-- {
			c.lineAt = append(c.lineAt, time.Now())
		}
	}
	at := time.Now()
	if h.latency > 0 {
		at = at.Add(time.Duration(h.rng.intn(int(h.latency/time.Millisecond)+1)) * time.Millisecond)
	}
	if at.Before(h.lastAt) {
		at = h.lastAt
	}
	h.lastAt = at
	h.segs = append(h.segs, seg{append([]byte(nil), b...), at})
	h.queued += len(b)
	h.total += len(b)
	c.net.bytes += len(b)
	h.signal()
}

// Close closes this end; the peer reads what was in flight, then EOF.
func (c *simConn) Close() error {
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.closed = true
	c.out.eof = true
	c.closeObserved = time.Now()
	c.out.signal()
	c.in.signal()
	return nil
}

// Reset aborts the connection: both ends fail at once, data in flight is lost.
func (c *simConn) Reset() {
	for _, h := range []*half{c.in, c.out} {
		h.err = errReset
		h.segs = nil
		h.signal()
	}
}

func (c *simConn) Stall(in bool, on bool) {
	h := c.out
	if in {
		h = c.in
	}
	h.stalled = on
	h.signal()
}

func (c *simConn) LocalAddr() net.Addr  { return c.laddr }
func (c *simConn) RemoteAddr() net.Addr { return c.raddr }
func (c *simConn) SetDeadline(t time.Time) error {
	c.rdead, c.wdead = t, t
	c.in.signal()
	c.out.signal()
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.rdead = t
	c.in.signal()
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.wdead = t
	c.out.signal()
	return nil
}

type simListener struct {
	net    *simNet
	addr   net.Addr
	ch     chan net.Conn
	done   chan struct{}
	closed bool
	errs   []error // errors to return from Accept, in order
}

type tempErr struct{}

func (tempErr) Error() string   { return "accept: too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

func (n *simNet) listen(hostport string) *simListener {
	l := &simListener{net: n, addr: tcpAddr(hostport), ch: make(chan net.Conn, 16), done: make(chan struct{})}
	n.listeners[hostport] = l
	return l
}

func (l *simListener) Accept() (net.Conn, error) {
	if len(l.errs) > 0 {
		err := l.errs[0]
		l.errs = l.errs[1:]
		return nil, err
	}
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *simListener) Close() error {
	if !l.closed {
		l.closed = true
		close(l.done)
	}
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

func tcpAddr(hostport string) net.Addr {
	host, port, err := net.SplitHostPort(hostport)
	if err != nil {
		panic(err)
	}
	ip := net.ParseIP(host)
	if ip == nil {
		// stable fake address per name
		var h uint32 = 2166136261
		for _, c := range []byte(host) {
			h = (h ^ uint32(c)) * 16777619
		}
		ip = net.IPv4(10, byte(h>>16), byte(h>>8), byte(h)|1)
	}
	var p int
	fmt.Sscan(port, &p)
	return &net.TCPAddr{IP: ip, Port: p}
}

// connect opens a connection from "from" to a listener.
func (n *simNet) connect(name, from, hostport string) (*simConn, error) {
	return n.connectTo(name, from, hostport, "")
}

// connectTo does the same with another of the listener's addresses.
func (n *simNet) connectTo(name, from, hostport, to string) (*simConn, error) {
	l := n.listeners[hostport]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	n.nextPort++
	port := n.nextPort
	if n.ports > 0 && strings.HasPrefix(name, "up:") {
		if port = n.freePort(net.ParseIP(from), l.addr); port == 0 {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.EADDRNOTAVAIL}
		}
	}
	laddr := l.addr
	if to != "" {
		laddr = &net.TCPAddr{IP: net.ParseIP(to), Port: l.addr.(*net.TCPAddr).Port}
	}
	a, b := n.pair(name, &net.TCPAddr{IP: net.ParseIP(from), Port: port}, laddr)
	select {
	case l.ch <- b:
	case <-l.done:
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	return a, nil
}

// freePort picks a local port that makes the connection's addresses unique.
// It is free again as soon as its last user was closed after a reset, and a
// second after an orderly close.
func (n *simNet) freePort(from net.IP, to net.Addr) int {
	first := n.rng.intn(n.ports)
	for i := 0; i < n.ports; i++ {
		port := 50000 + (first+i)%n.ports
		used := false
		for _, c := range n.conns {
			la, ok := c.laddr.(*net.TCPAddr)
			if !ok || la.Port != port || !la.IP.Equal(from) || c.raddr.String() != to.String() {
				continue
			}
			if n.onDial != nil && !n.onDial(c.instance) {
				continue // of a crashed process
			}
			if !c.closed || c.in.err == nil && time.Since(c.closeObserved) < time.Second {
				used = true
			}
		}
		if !used {
			return port
		}
	}
	return 0
}

// dial is what net.Dialer reaches in the simulation.
func (n *simNet) dial(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
	instance := runtime.SimTag()
	if n.onDial != nil && !n.onDial(instance) {
		select {} // the process this goroutine belonged to has crashed
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	host = strings.ToLower(host)
	if net.ParseIP(host) != nil {
		// by address
		for _, hp := range sortedKeys(n.listeners) {
			if a := n.listeners[hp].addr.(*net.TCPAddr); a.String() == net.JoinHostPort(host, port) {
				host, _, _ = net.SplitHostPort(hp)
				break
			}
		}
	}
	if ctx.Err() != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}
	}
	if n.dialFault != nil {
		delay, err := n.dialFault(net.JoinHostPort(host, port))
		if delay > 0 {
			t := time.NewTimer(delay)
			defer t.Stop()
			select {
			case <-t.C:
			case <-ctx.Done():
				return nil, &net.OpError{Op: "dial", Net: network, Err: timeoutErr{}}
			}
		}
		if err != nil {
			return nil, err
		}
	}
	if n.onDial != nil && !n.onDial(instance) {
		select {}
	}
	from := "192.0.2.1"
	if d != nil && d.LocalAddr != nil {
		if ta, ok := d.LocalAddr.(*net.TCPAddr); ok && ta.IP != nil {
			from = ta.IP.String()
		}
	}
	c, err := n.connect("up:"+host, from, net.JoinHostPort(host, port))
	if err != nil {
		return nil, err
	}
	c.instance = instance
	return c, nil
}
