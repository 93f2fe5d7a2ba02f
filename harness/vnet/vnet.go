// Package vnet is an in-memory network for driving a real tcpx server inside a
// testing/synctest bubble. The net package is built through an overlay (see
// /verif/check.py) that routes net.Listen, net.ListenPacket and net.Dial
// here, so the server under test uses its own, unmodified listen path.
//
// Everything blocks on sync.Cond or time.Sleep, which synctest knows to be
// durable, so a bubble is quiescent exactly when every goroutine is parked.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// SpinLimit is how many reads after a final error one connection may make
// before the reader is considered to be spinning.
const SpinLimit = 2000

type Net struct {
	// Split6 keeps the addresses of tcp6 and udp6 apart from those of the others.
	Split6 bool

	mu        sync.Mutex
	listeners map[string]*Listener
	packets   map[string]*PacketConn
	conns     []*Conn
	allL      []*Listener
	allP      []*PacketConn
	spins     int32
	closed    bool

	// DialOpt is used for connections made through the net.Dial hook.
	DialOpt Opt
}

// Opt shapes one connection.
type Opt struct {
	// ReadPlan gives the maximum size of successive Reads on the server side
	// (cyclic; empty: unlimited).
	ReadPlan []int
	// DataEOF makes the server-side Read that drains the last bytes return io.EOF with them.
	DataEOF bool
	// WriteDelay is how long a server-side Write lasts after its bytes are delivered. It is real
	// time: a library that writes under a lock would otherwise keep the bubble's clock from moving.
	WriteDelay time.Duration
	// Capacity bounds the bytes buffered towards the client; server writes block beyond it (0: unbounded).
	Capacity int
	// ClientAddr is the client's address as seen by the server.
	ClientAddr net.Addr
}

func New() *Net {
	return &Net{listeners: map[string]*Listener{}, packets: map[string]*PacketConn{}}
}

var cur atomic.Pointer[Net]

// Install makes n the network behind net.Listen, net.ListenPacket and net.Dial.
func Install(n *Net) {
	cur.Store(n)
	if n == nil {
		net.VerifListenHook = nil
		net.VerifListenPacketHook = nil
		net.VerifDialHook = nil
		return
	}
	net.VerifListenHook = func(network, address string) (net.Listener, bool, error) {
		if m := cur.Load(); m != nil {
			l, err := m.Listen(network, address)
			if err != nil {
				return nil, true, err
			}
			return l, true, nil
		}
		return nil, false, nil
	}
	net.VerifListenPacketHook = func(network, address string) (net.PacketConn, bool, error) {
		if m := cur.Load(); m != nil {
			p, err := m.ListenPacket(network, address)
			if err != nil {
				return nil, true, err
			}
			return p, true, nil
		}
		return nil, false, nil
	}
	net.VerifDialHook = func(network, address string) (net.Conn, bool, error) {
		if m := cur.Load(); m != nil {
			c, err := m.Dial(network, address, m.DialOpt)
			if err != nil {
				return nil, true, err
			}
			return c, true, nil
		}
		return nil, false, nil
	}
}

func family(network string) string {
	switch network {
	case "tcp", "tcp4", "tcp6":
		return "tcp"
	case "udp", "udp4", "udp6":
		return "udp"
	}
	return network
}

func (n *Net) key(network, address string) string {
	f := family(network)
	if n.Split6 && (network == "tcp6" || network == "udp6") {
		f = network
	}
	return f + "|" + address
}

// Spins reports how many connections or sockets were read in a spin after their end.
func (n *Net) Spins() int { return int(atomic.LoadInt32(&n.spins)) }

func (n *Net) Conns() []*Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Conn(nil), n.conns...)
}

func (n *Net) Listening(network, address string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := n.key(network, address)
	return n.listeners[k] != nil || n.packets[k] != nil
}

// CloseAll ends everything, so that a server under test can wind down.
func (n *Net) CloseAll() {
	n.mu.Lock()
	n.closed = true
	ls, ps, cs := n.allL, n.allP, n.conns
	n.mu.Unlock()
	for _, l := range ls {
		l.Close()
	}
	for _, p := range ps {
		p.Close()
	}
	for _, c := range cs {
		c.Close()
		c.peer.Close()
	}
}

func listenAddr(network, address string) net.Addr {
	switch family(network) {
	case "tcp":
		if a, err := net.ResolveTCPAddr("tcp", address); err == nil {
			return a
		}
	case "udp":
		if a, err := net.ResolveUDPAddr("udp", address); err == nil {
			return a
		}
	}
	return &net.UnixAddr{Name: address, Net: network}
}

func (n *Net) Listen(network, address string) (*Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := n.key(network, address)
	switch network {
	case "tcp", "tcp4", "tcp6", "unix", "unixpacket":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	if n.closed || n.listeners[k] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{n: n, k: k, addr: listenAddr(network, address)}
	l.cond = sync.NewCond(&l.mu)
	n.listeners[k] = l
	n.allL = append(n.allL, l)
	return l, nil
}

type Listener struct {
	n      *Net
	k      string
	addr   net.Addr
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*Conn
	closed bool
	after  int

	failing int // so many Accept calls fail with failure
	failure syscall.Errno
}

func (l *Listener) Addr() net.Addr { return l.addr }

func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			l.after++
			if l.after > SpinLimit {
				atomic.AddInt32(&l.n.spins, 1)
				for {
					l.cond.Wait()
				}
			}
			return nil, &net.OpError{Op: "accept", Net: l.addr.Network(), Addr: l.addr, Err: net.ErrClosed}
		}
		if l.failing > 0 {
			l.failing--
			return nil, &net.OpError{Op: "accept", Net: l.addr.Network(), Addr: l.addr, Err: os.NewSyscallError("accept4", l.failure)}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

// InjectAcceptErrors makes the next k Accept calls of a listener fail for want of a resource.
func (n *Net) InjectAcceptErrors(network, address string, k int, errno syscall.Errno) bool {
	n.mu.Lock()
	l := n.listeners[n.key(network, address)]
	n.mu.Unlock()
	if l == nil {
		return false
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.failing, l.failure = l.failing+k, errno
	l.cond.Broadcast()
	return true
}

func (l *Listener) Close() error {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return &net.OpError{Op: "close", Net: l.addr.Network(), Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	q := l.queue
	l.queue = nil
	l.cond.Broadcast()
	l.mu.Unlock()
	for _, c := range q {
		c.Close()
	}
	l.n.mu.Lock()
	if l.n.listeners[l.k] == l {
		delete(l.n.listeners, l.k)
	}
	l.n.mu.Unlock()
	return nil
}

// Dial connects to a listener; the returned Conn is the client side.
func (n *Net) Dial(network, address string, opt Opt) (*Conn, error) {
	n.mu.Lock()
	l := n.listeners[n.key(network, address)]
	n.mu.Unlock()
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	ca := opt.ClientAddr
	if ca == nil {
		ca = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000}
	}
	cl, sv := newPair(n, ca, l.addr, opt)
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	l.queue = append(l.queue, sv)
	l.cond.Broadcast()
	l.mu.Unlock()
	n.mu.Lock()
	n.conns = append(n.conns, sv)
	n.mu.Unlock()
	return cl, nil
}

// half is one direction of a connection.
type half struct {
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	eof  bool // the writer has closed
	rst  bool // the reader has closed: writes fail
	cap  int
}

func newHalf(capacity int) *half {
	h := &half{cap: capacity}
	h.cond = sync.NewCond(&h.mu)
	return h
}

type deadline struct {
	t     time.Time
	timer *time.Timer
}

func (d *deadline) passed() bool { return !d.t.IsZero() && !time.Now().Before(d.t) }

// Conn is one end of a connection.
type Conn struct {
	n             *Net
	peer          *Conn
	in, out       *half
	local, remote net.Addr
	server        bool

	plan    []int
	planI   int
	dataEOF bool
	wdelay  time.Duration

	wsem chan struct{} // serialises Writes, as the fd write lock does

	mu      sync.Mutex
	closed  bool
	closedT time.Time
	rd, wd  deadline
	after   int
	writes  int
	dlCalls []string
}

func newPair(n *Net, ca, sa net.Addr, opt Opt) (cl, sv *Conn) {
	c2s, s2c := newHalf(0), newHalf(opt.Capacity)
	cl = &Conn{n: n, in: s2c, out: c2s, local: ca, remote: sa, wsem: make(chan struct{}, 1)}
	sv = &Conn{n: n, in: c2s, out: s2c, local: sa, remote: ca, server: true, wsem: make(chan struct{}, 1),
		plan: opt.ReadPlan, dataEOF: opt.DataEOF, wdelay: opt.WriteDelay}
	cl.peer, sv.peer = sv, cl
	return
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: c.local.Network(), Source: c.local, Addr: c.remote, Err: err}
}

func (c *Conn) state(read bool) (closed, late bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if read {
		return c.closed, c.rd.passed()
	}
	return c.closed, c.wd.passed()
}

func (c *Conn) final(h *half) {
	// called with h.mu held, when a read is about to return a final error
	c.after++
	if c.server && c.after > SpinLimit {
		atomic.AddInt32(&c.n.spins, 1)
		for {
			h.cond.Wait()
		}
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		closed, late := c.state(true)
		if closed {
			c.final(h)
			return 0, c.opErr("read", net.ErrClosed)
		}
		if late {
			c.final(h)
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			m := len(p)
			if len(c.plan) > 0 {
				if k := c.plan[c.planI%len(c.plan)]; k > 0 && k < m {
					m = k
				}
				c.planI++
			}
			k := copy(p[:m], h.buf)
			h.buf = h.buf[k:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.cond.Broadcast()
			if c.dataEOF && h.eof && len(h.buf) == 0 {
				return k, io.EOF
			}
			return k, nil
		}
		if h.eof {
			c.final(h)
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	c.wsem <- struct{}{}
	n, err := c.write(p)
	<-c.wsem
	if c.wdelay > 0 {
		ts := syscall.NsecToTimespec(int64(c.wdelay))
		syscall.Nanosleep(&ts, nil)
	}
	return n, err
}

func (c *Conn) write(p []byte) (int, error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	c.mu.Lock()
	c.writes++
	c.mu.Unlock()
	n := 0
	for {
		closed, late := c.state(false)
		if closed {
			return n, c.opErr("write", net.ErrClosed)
		}
		if late {
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if h.rst {
			return n, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if n == len(p) {
			return n, nil
		}
		room := len(p) - n
		if h.cap > 0 {
			if r := h.cap - len(h.buf); r < room {
				room = r
			}
		}
		if room > 0 {
			h.buf = append(h.buf, p[n:n+room]...)
			n += room
			h.cond.Broadcast()
			if n == len(p) {
				return n, nil
			}
		}
		h.cond.Wait()
	}
}

// CloseWrite half-closes the connection, as a client that has finished sending does.
func (c *Conn) CloseWrite() error {
	c.out.mu.Lock()
	c.out.eof = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	return nil
}

// WriteLast delivers p and the end of the stream in one step.
func (c *Conn) WriteLast(p []byte) error {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	if c.out.rst {
		return c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	c.out.buf = append(c.out.buf, p...)
	c.out.eof = true
	c.out.cond.Broadcast()
	return nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.closedT = time.Now()
	if c.rd.timer != nil {
		c.rd.timer.Stop()
	}
	if c.wd.timer != nil {
		c.wd.timer.Stop()
	}
	c.mu.Unlock()
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		if h == c.in {
			h.rst = true
		} else {
			h.eof = true
		}
		h.cond.Broadcast()
		h.mu.Unlock()
	}
	return nil
}

// Closed reports whether this end has been closed, and when (virtual time).
func (c *Conn) Closed() (bool, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closedT
}

// Server is the server end of a client Conn.
func (c *Conn) Server() *Conn { return c.peer }

// TakeAll removes and returns what has arrived, without blocking; eof is whether the peer has closed.
func (c *Conn) TakeAll() (b []byte, eof bool) {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	b = c.in.buf
	c.in.buf = nil
	c.in.cond.Broadcast()
	return b, c.in.eof
}

// Unread is how much of what this end has written is still unread by the peer.
func (c *Conn) Unread() int {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return len(c.out.buf)
}

// Pending is how much has arrived at this end and was not read yet.
func (c *Conn) Pending() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.buf)
}

func (c *Conn) setDeadline(t time.Time, r, w bool) error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("set", net.ErrClosed)
	}
	set := func(d *deadline, h *half) {
		if d.timer != nil {
			d.timer.Stop()
			d.timer = nil
		}
		d.t = t
		if !t.IsZero() {
			dur := time.Until(t)
			if dur < 0 {
				dur = 0
			}
			d.timer = time.AfterFunc(dur, func() {
				h.mu.Lock()
				h.cond.Broadcast()
				h.mu.Unlock()
			})
		}
	}
	if r {
		set(&c.rd, c.in)
	}
	if w {
		set(&c.wd, c.out)
	}
	c.mu.Unlock()
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.cond.Broadcast()
		h.mu.Unlock()
	}
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.setDeadline(t, true, true) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDeadline(t, true, false) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDeadline(t, false, true) }

// Datagram is one packet with the address of the other side.
type Datagram struct {
	Data []byte
	Addr net.Addr
}

// PacketConn is the server's packet socket.
type PacketConn struct {
	n      *Net
	k      string
	addr   net.Addr
	mu     sync.Mutex
	cond   *sync.Cond
	q      []Datagram
	sent   []Datagram
	closed bool
	rd, wd deadline
	after  int
	errs   int
}

func (n *Net) ListenPacket(network, address string) (*PacketConn, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := n.key(network, address)
	switch network {
	case "udp", "udp4", "udp6", "unixgram":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	if n.closed || n.packets[k] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	p := &PacketConn{n: n, k: k, addr: listenAddr(network, address)}
	p.cond = sync.NewCond(&p.mu)
	n.packets[k] = p
	n.allP = append(n.allP, p)
	return p, nil
}

// Packet returns the socket bound to an address, or nil.
func (n *Net) Packet(network, address string) *PacketConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.packets[n.key(network, address)]
}

// Send delivers a datagram to the socket bound to an address.
func (n *Net) Send(network, address string, d Datagram) error {
	p := n.Packet(network, address)
	if p == nil {
		return errors.New("connection refused")
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.q = append(p.q, d)
	p.cond.Broadcast()
	return nil
}

func (p *PacketConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: p.addr.Network(), Addr: p.addr, Err: err}
}

// InjectReadErrors makes the next k reads fail with a transient error.
func (p *PacketConn) InjectReadErrors(k int) {
	p.mu.Lock()
	p.errs += k
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *PacketConn) ReadFrom(b []byte) (int, net.Addr, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.closed {
			p.after++
			if p.after > SpinLimit {
				atomic.AddInt32(&p.n.spins, 1)
				for {
					p.cond.Wait()
				}
			}
			return 0, nil, p.opErr("read", net.ErrClosed)
		}
		if p.rd.passed() {
			p.after++
			if p.after > SpinLimit {
				atomic.AddInt32(&p.n.spins, 1)
				for {
					p.cond.Wait()
				}
			}
			return 0, nil, p.opErr("read", os.ErrDeadlineExceeded)
		}
		if p.errs > 0 {
			p.errs--
			return 0, nil, p.opErr("read", os.NewSyscallError("recvfrom", syscall.ECONNREFUSED))
		}
		if len(p.q) > 0 {
			d := p.q[0]
			p.q = p.q[1:]
			k := copy(b, d.Data)
			return k, d.Addr, nil
		}
		p.cond.Wait()
	}
}

func (p *PacketConn) WriteTo(b []byte, a net.Addr) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, p.opErr("write", net.ErrClosed)
	}
	if p.wd.passed() {
		return 0, p.opErr("write", os.ErrDeadlineExceeded)
	}
	if a == nil {
		return 0, p.opErr("write", fmt.Errorf("missing address"))
	}
	p.sent = append(p.sent, Datagram{append([]byte(nil), b...), a})
	return len(b), nil
}

// Sent returns what the server has sent.
func (p *PacketConn) Sent() []Datagram {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Datagram(nil), p.sent...)
}

func (p *PacketConn) Close() error {
	p.mu.Lock()
	if p.closed {
		p.mu.Unlock()
		return p.opErr("close", net.ErrClosed)
	}
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
	p.n.mu.Lock()
	if p.n.packets[p.k] == p {
		delete(p.n.packets, p.k)
	}
	p.n.mu.Unlock()
	return nil
}

func (p *PacketConn) Closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

func (p *PacketConn) LocalAddr() net.Addr { return p.addr }

func (p *PacketConn) setDeadline(t time.Time, r, w bool) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	set := func(d *deadline) {
		if d.timer != nil {
			d.timer.Stop()
			d.timer = nil
		}
		d.t = t
		if !t.IsZero() {
			dur := time.Until(t)
			if dur < 0 {
				dur = 0
			}
			d.timer = time.AfterFunc(dur, func() {
				p.mu.Lock()
				p.cond.Broadcast()
				p.mu.Unlock()
			})
		}
	}
	if r {
		set(&p.rd)
	}
	if w {
		set(&p.wd)
	}
	p.cond.Broadcast()
	return nil
}

func (p *PacketConn) SetDeadline(t time.Time) error      { return p.setDeadline(t, true, true) }
func (p *PacketConn) SetReadDeadline(t time.Time) error  { return p.setDeadline(t, true, false) }
func (p *PacketConn) SetWriteDeadline(t time.Time) error { return p.setDeadline(t, false, true) }
