package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// H is one bubble: a virtual network, virtual time, and a log of what happened.
type H struct {
	*Env
	Net *vnet.Net

	hmu    sync.Mutex
	events []string
	gates  map[string]chan struct{}
	srvs   []*tcpx.TcpX
	open   bool
	pace   int  // seconds to let pass at every step, for those who give up on what takes long
	unix   bool // what says tcp is a unix socket, whose clients all have the same (empty) address
}

// on is where a case that says "tcp" really listens and dials.
func (h *H) on(network, addr string) (string, string) {
	if h.unix && network == "tcp" {
		return "unix", "/run/tcpx" + addr + ".sock"
	}
	return network, addr
}

// unixAddrs are the addresses of unix clients: all alike, told apart by the harness only.
var unixAddrs, unixIndex = func() ([]net.Addr, map[net.Addr]int) {
	l, m := make([]net.Addr, 1200), map[net.Addr]int{}
	for i := range l {
		l[i] = &net.UnixAddr{Net: "unix"}
		m[l[i]] = i
	}
	return l, m
}()

// addrName is an address in words; unix clients are named as the tcp clients they stand for.
func addrName(a net.Addr) string {
	if i, ok := unixIndex[a]; ok {
		return tcpAddr(i).String()
	}
	return a.String()
}

const tick = 5 * time.Millisecond

// Bubble runs f in a synctest bubble on a fresh virtual network. It reports whether
// goroutines were left blocked once everything had been shut down.
func (e *Env) Bubble(f func(h *H)) (leak string) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.Contains(s, "deadlock") {
				leak = s
				return
			}
			panic(p)
		}
	}()
	synctest.Test(e.T, func(*testing.T) {
		h := &H{Env: e, Net: vnet.New(), gates: map[string]chan struct{}{}}
		vnet.Install(h.Net)
		func() {
			defer func() {
				if p := recover(); p != nil {
					e.Fail("panic", "panic: %v\n%s", p, debug.Stack())
				}
			}()
			f(h)
		}()
		h.openAll()
		h.Settle()
		if n := h.Net.Spins(); n > 0 {
			e.Fail("spin", "%d socket(s) were read over and over after their end", n)
		}
		h.Net.CloseAll()
		h.Settle()
		vnet.Install(nil)
	})
	return ""
}

// Settle lets every goroutine run until it blocks.
func (h *H) Settle() {
	synctest.Wait()
	time.Sleep(tick + time.Duration(h.pace)*time.Second)
	synctest.Wait()
}

// genPace is how long (in seconds) a case lets pass at every step: mostly nothing, at times hours.
func genPace(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 7, 40, 150, 1000, 8000, 100000}).Draw(t, "pace")
}

// settleNow lets every goroutine run until it blocks, without letting time pass.
func (h *H) settleNow() { synctest.Wait() }

// Log appends an event.
func (h *H) Log(format string, a ...any) {
	h.hmu.Lock()
	h.events = append(h.events, fmt.Sprintf(format, a...))
	h.hmu.Unlock()
}

// Events returns the log so far.
func (h *H) Events() []string {
	h.hmu.Lock()
	defer h.hmu.Unlock()
	return append([]string(nil), h.events...)
}

// TakeEvents returns the log and empties it.
func (h *H) TakeEvents() []string {
	h.hmu.Lock()
	defer h.hmu.Unlock()
	e := h.events
	h.events = nil
	return e
}

// Gate blocks the caller until Open(name), or the end of the case.
func (h *H) Gate(name string) {
	h.hmu.Lock()
	if h.open {
		h.hmu.Unlock()
		return
	}
	g, ok := h.gates[name]
	if !ok {
		g = make(chan struct{})
		h.gates[name] = g
	}
	h.hmu.Unlock()
	<-g
}

func (h *H) Open(name string) {
	h.hmu.Lock()
	defer h.hmu.Unlock()
	g, ok := h.gates[name]
	if !ok {
		g = make(chan struct{})
		h.gates[name] = g
	}
	select {
	case <-g:
	default:
		close(g)
	}
}

func (h *H) openAll() {
	h.hmu.Lock()
	defer h.hmu.Unlock()
	h.open = true
	for _, g := range h.gates {
		select {
		case <-g:
		default:
			close(g)
		}
	}
}

// Serving is a server running in the background.
type Serving struct {
	mu   sync.Mutex
	done bool
	err  error
	pan  string
}

func (s *Serving) Returned() (bool, error, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.done, s.err, s.pan
}

// Go runs f in the background and notes how it ends.
func (h *H) Go(f func() error) *Serving {
	s := &Serving{}
	go func() {
		var err error
		defer func() {
			p := recover()
			s.mu.Lock()
			defer s.mu.Unlock()
			s.done, s.err = true, err
			if p != nil {
				s.pan = fmt.Sprint(p)
			}
		}()
		err = f()
	}()
	return s
}

// Serve starts a server and waits until it listens.
func (h *H) Serve(srv *tcpx.TcpX, network, addr string) *Serving {
	network, addr = h.on(network, addr)
	s := h.Go(func() error { return srv.ListenAndServe(network, addr) })
	h.Settle()
	if d, err, pan := s.Returned(); d {
		h.Fail("no-listen", "ListenAndServe(%s,%s) returned at once: %v %s", network, addr, err, pan)
	}
	return s
}

// Client is a client connection under the control of the case.
type Client struct {
	h    *H
	Conn *vnet.Conn
	got  []byte
	eof  bool
}

func (h *H) Dial(network, addr string, opt vnet.Opt) *Client {
	if h.unix && network == "tcp" && opt.ClientAddr != nil {
		opt.ClientAddr = unixAddrs[addrIndex(opt.ClientAddr.String())]
	}
	network, addr = h.on(network, addr)
	c, err := h.Net.Dial(network, addr, opt)
	if err != nil {
		return nil
	}
	return &Client{h: h, Conn: c}
}

// Send writes bytes as a client; an error (the server has closed) is returned.
func (c *Client) Send(b []byte) error {
	_, err := c.Conn.Write(b)
	return err
}

// Poll collects what has arrived.
func (c *Client) Poll() {
	b, eof := c.Conn.TakeAll()
	c.got = append(c.got, b...)
	c.eof = c.eof || eof
}

// Frames is everything received, cut into blocks.
func (c *Client) Frames() ([]wire.Frame, error) {
	c.Poll()
	return wire.Split(c.got)
}

// Closed is whether the server has closed the connection.
func (c *Client) Closed() bool {
	c.Poll()
	return c.eof
}

func (c *Client) Close() { c.Conn.Close() }

// small helpers

func js(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func hexs(b []byte) string { return trunc(fmt.Sprintf("%x", b), 400) }

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tcpAddr(i int) net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, byte(i>>8), byte(i)), Port: 40000 + i}
}

func udpAddr(i int) net.Addr {
	return &net.UDPAddr{IP: net.IPv4(10, 1, byte(i>>8), byte(i)), Port: 30000 + i}
}

// msgFrame is a messageID-routed request whose header is JSON.
func msgFrame(id int32, body []byte) []byte { return wire.Build(id, []byte(`{}`), body) }

func urlHeader(u string) []byte {
	return js(map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u})
}

func urlFrame(u string, body []byte) []byte { return wire.Build(0, urlHeader(u), body) }

// safely runs f and returns what it panicked with.
func safely(f func()) (p any, stack string) {
	defer func() {
		if p = recover(); p != nil {
			stack = string(debug.Stack())
		}
	}()
	f()
	return
}

var _ = bytes.Equal
var _ = os.Getenv

func peerAddr(ip string, port int, udp bool) net.Addr {
	ip, zone, _ := strings.Cut(ip, "%")
	if udp {
		return &net.UDPAddr{IP: net.ParseIP(ip), Port: port, Zone: zone}
	}
	return &net.TCPAddr{IP: net.ParseIP(ip), Port: port, Zone: zone}
}

func jsonDecode(s string, v any) error { return json.Unmarshal([]byte(s), v) }
