package props

import (
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// connIndex tells which harness client a context belongs to (its address carries the index).
func connIndex(ctx *tcpx.Context) int {
	a := ""
	if ctx.Conn != nil {
		a = addrName(ctx.Conn.RemoteAddr())
	} else if ctx.Addr != nil {
		a = ctx.Addr.String()
	}
	return addrIndex(a)
}

func addrIndex(a string) int {
	i := strings.LastIndex(a, ":")
	var p int
	fmt.Sscan(a[i+1:], &p)
	if p >= 40000 {
		return p - 40000
	}
	return p - 30000
}

// ---------------------------------------------------------------- C11 connection lifecycle

type lifeConn struct {
	Spec  connSpec `json:"spec"`
	Msgs  int      `json:"msgs"`
	Slow  bool     `json:"slow"` // the handler of its last message is still running when it ends
	Cause string   `json:"cause"`
	Twice bool     `json:"twice"` // a second cause follows at once
	Eager bool     `json:"eager"` // its messages are sent together with the connection
}

type lifeCase struct {
	Raw      bool       `json:"raw"`
	Pool     bool       `json:"pool"`
	Signals  bool       `json:"signals"`
	Beat     bool       `json:"beat"`
	Auth     bool       `json:"auth"`
	Max      bool       `json:"max"`
	SlowConn bool       `json:"slow_connect"`
	SlowEnd  bool       `json:"slow_close"`
	PanicEnd bool       `json:"panic_close"`
	Conns    []lifeConn `json:"conns"`
	StopAll  bool       `json:"stop_all"`
	Pace     int        `json:"pace,omitempty"`
	Unix     bool       `json:"unix,omitempty"`
}

var lifeCauses = []string{"client-close", "client-half", "cut", "badheader", "oversize", "handler-close", "beat-loss", "auth-late", "auth-deny", "alive", "alive", "hostile-length", "connect-close", "panic", "badpipe", "cutpipe", "deadline", "instant", "raw-return", "connect-panic"}

func genLifeCase(t *rapid.T) lifeCase {
	c := lifeCase{
		Raw:      rapid.IntRange(0, 4).Draw(t, "raw") == 0,
		Pool:     rapid.Bool().Draw(t, "pool"),
		Signals:  rapid.Bool().Draw(t, "signals"),
		Beat:     rapid.Bool().Draw(t, "beat"),
		Auth:     rapid.Bool().Draw(t, "auth"),
		Max:      rapid.Bool().Draw(t, "max"),
		SlowConn: rapid.IntRange(0, 3).Draw(t, "slowc") == 0,
		SlowEnd:  rapid.IntRange(0, 3).Draw(t, "slowe") == 0,
		PanicEnd: rapid.IntRange(0, 6).Draw(t, "panice") == 0,
		StopAll:  rapid.Bool().Draw(t, "stopall"),
		Unix:     genUnix(t),
	}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		n = rapid.IntRange(6, 20).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		c.Conns = append(c.Conns, lifeConn{
			Eager: rapid.IntRange(0, 2).Draw(t, "eager") == 0,
			Spec:  genOpt(t),
			Msgs:  rapid.IntRange(0, 3).Draw(t, "msgs"),
			Slow:  rapid.IntRange(0, 3).Draw(t, "slow") == 0,
			Cause: rapid.SampledFrom(lifeCauses).Draw(t, "cause"),
			Twice: rapid.IntRange(0, 3).Draw(t, "twice") == 0,
		})
	}
	timed := c.Beat || c.Auth
	for _, lc := range c.Conns {
		timed = timed || lc.Cause == "deadline"
	}
	if !timed {
		c.Pace = genPace(t)
	}
	return c
}

func runLifeCase(e *Env, c lifeCase) {
	e.Bubble(func(h *H) {
		h.unix, h.pace = c.Unix, c.Pace
		slow := time.Millisecond + time.Duration(c.Pace)*900*time.Millisecond
		const interval = 10 * time.Second
		const authIn = 60 * time.Second
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		if c.Signals {
			srv.WithBroadCastSignal(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, interval)
		}
		auth := c.Auth && !c.Raw
		if auth {
			srv.WithAuthDetail(true, authIn, false, 77, func(ctx *tcpx.Context) {
				var s string
				ctx.Bind(&s)
				if s == "deny" {
					ctx.RecvAuthDeny()
				} else {
					ctx.RecvAuthPass()
				}
			})
		}
		if c.Max {
			srv.SetMaxBytePerMessage(500)
		}
		var mu sync.Mutex
		base := map[int]*tcpx.Context{}
		connects, closes, early := map[int]int{}, map[int]int{}, 0
		srv.OnConnect = func(ctx *tcpx.Context) {
			i := connIndex(ctx)
			if c.SlowConn {
				time.Sleep(slow)
			}
			ctx.SetCtxPerConn("mark", i)
			if c.Pool {
				ctx.Online(fmt.Sprintf("u%d", i))
			}
			if i < len(c.Conns) && c.Conns[i].Cause == "connect-close" {
				ctx.CloseConn()
			}
			mu.Lock()
			connects[i]++
			base[i] = ctx
			mu.Unlock()
			if i < len(c.Conns) && c.Conns[i].Cause == "connect-panic" {
				panic("in OnConnect")
			}
		}
		srv.OnClose = func(ctx *tcpx.Context) {
			i := connIndex(ctx)
			if c.SlowEnd {
				time.Sleep(slow)
			}
			if v, ok := ctx.GetCtxPerConn("mark"); !ok || v != any(i) {
				h.Fail("scope", "OnClose of connection %d does not see the value OnConnect stored (%v %v)", i, v, ok)
			}
			mu.Lock()
			closes[i]++
			if connects[i] == 0 {
				early++
			}
			mu.Unlock()
			if c.PanicEnd {
				panic("in OnClose")
			}
		}
		handled := map[int]int{}
		used := map[int][]*tcpx.Context{} // those the handlers were given
		note := func(ctx *tcpx.Context) int {
			i := connIndex(ctx)
			mu.Lock()
			defer mu.Unlock()
			handled[i]++
			used[i] = append(used[i], ctx)
			if connects[i] != 1 {
				early++
			}
			return i
		}
		srv.AddHandler(1, func(ctx *tcpx.Context) {
			i := note(ctx)
			var s string
			ctx.Bind(&s)
			switch s {
			case "slow":
				h.Gate(fmt.Sprintf("c%d", i))
			case "close":
				ctx.CloseConn()
			case "panic":
				panic("in handler")
			case "fast":
				if c.Pool && i%2 == 1 && (c.Signals || !c.StopAll) {
					ctx.Offline() // leaves the pool, not the connection
				}
			case "deadline":
				ctx.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
			}
		})
		srv.HandleRaw = func(ctx *tcpx.Context) {
			note(ctx)
			b := make([]byte, 64)
			for {
				n, err := ctx.ConnReader.Read(b)
				for _, x := range b[:n] {
					switch x {
					case 'C':
						ctx.CloseConn()
					case 'P':
						panic("in HandleRaw")
					case 'R':
						return
					case 'D':
						ctx.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
					}
				}
				if err != nil {
					return
				}
			}
		}
		if c.Raw {
			network, addr := h.on("tcp", addr)
			s := h.Go(func() error { return srv.ListenAndServeRaw(network, addr) })
			h.Settle()
			if d, err, p := s.Returned(); d {
				h.Fail("no-listen", "ListenAndServeRaw returned: %v %s", err, p)
				return
			}
		} else {
			h.Serve(srv, "tcp", addr)
		}
		cls := make([]*Client, len(c.Conns))
		ended := make([]bool, len(c.Conns))
		beat := func() { // keep the others alive
			for i, cl := range cls {
				if cl != nil && !ended[i] && c.Beat && c.Conns[i].Cause != "beat-loss" && !c.Raw {
					cl.Send(msgFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, js("b")))
				}
			}
			h.Settle()
		}
		check := func(when string) {
			mu.Lock()
			defer mu.Unlock()
			if early > 0 {
				h.Fail("order", "%s: a message was handled, or OnClose ran, before OnConnect had run once", when)
			}
			for i := range c.Conns {
				if cls[i] == nil {
					continue
				}
				if connects[i] != 1 {
					h.Fail("connect", "%s: OnConnect ran %d times for connection %d (%s)", when, connects[i], i, c.Conns[i].Cause)
				}
				want := 0
				if ended[i] {
					want = 1
				}
				if closes[i] != want && c.Conns[i].Cause != "connect-panic" { // whether it counts as connected is not specified
					h.Fail("close", "%s: OnClose ran %d times for connection %d (%s), want %d", when, closes[i], i, c.Conns[i].Cause, want)
				}
				if cls[i].Closed() != ended[i] {
					h.Fail("open", "%s: connection %d (%s): closed by the server is %v, want %v", when, i, c.Conns[i].Cause, cls[i].Closed(), ended[i])
				}
				if b := base[i]; b != nil && c.Pool && ended[i] && b.GetPoolRef().GetClientPool(fmt.Sprintf("u%d", i)) != nil {
					h.Fail("pool", "%s: connection %d (%s) has ended and is still in the pool", when, i, c.Conns[i].Cause)
				}
				if b := base[i]; b != nil && (b.IsOffline() != ended[i] || b.IsOnline() == ended[i]) {
					h.Fail("state", "%s: connection %d (%s): IsOffline is %v, IsOnline %v, ended %v", when, i, c.Conns[i].Cause, b.IsOffline(), b.IsOnline(), ended[i])
				}
				for _, b := range used[i] {
					if b.IsOffline() != ended[i] || b.IsOnline() == ended[i] {
						h.Fail("state", "%s: connection %d (%s): IsOffline of a message's context is %v, IsOnline %v, ended %v", when, i, c.Conns[i].Cause, b.IsOffline(), b.IsOnline(), ended[i])
						break
					}
				}
			}
		}
		endings := 0
		beatLoss := false
		for i, lc := range c.Conns {
			cls[i] = h.Dial("tcp", addr, lc.Spec.opt(i))
			if cls[i] == nil {
				h.Fail("refused", "connection %d refused", i)
				return
			}
			if !lc.Eager {
				h.Settle()
			}
			if lc.Cause == "connect-close" || lc.Cause == "connect-panic" {
				ended[i] = true
				endings++
			}
			if auth && lc.Cause != "auth-late" && lc.Cause != "auth-deny" {
				cls[i].Send(msgFrame(77, js("pass")))
			}
			for m := 0; m < lc.Msgs; m++ {
				if c.Raw {
					cls[i].Send([]byte("hello"))
				} else if m == lc.Msgs-1 && lc.Slow {
					cls[i].Send(msgFrame(1, js("slow")))
				} else {
					cls[i].Send(msgFrame(1, js("fast")))
				}
			}
			if lc.Cause == "instant" {
				cls[i].Close()
				cls[i].eof = true
				ended[i] = true
				endings++
			}
			if lc.Eager && i+1 < len(c.Conns) {
				continue
			}
			h.Settle()
			if c.SlowConn {
				time.Sleep(time.Duration(len(c.Conns)) * 2 * time.Millisecond)
				h.Settle()
			}
		}
		check("after connecting")
		for i, lc := range c.Conns {
			if h.Failed() {
				return
			}
			cause := lc.Cause
			cl := cls[i]
			if c.Raw {
				switch cause {
				case "badheader", "oversize", "auth-late", "hostile-length", "raw-return", "badpipe", "cutpipe":
					cl.Send([]byte("R"))
				case "deadline":
					cl.Send([]byte("D"))
					h.Settle()
					check("before a deadline")
					time.Sleep(30 * time.Millisecond)
				case "handler-close", "auth-deny":
					cl.Send([]byte("C"))
				case "panic":
					cl.Send([]byte("P"))
				case "client-close":
					cl.Close()
				case "client-half", "cut":
					cl.Conn.CloseWrite()
				case "beat-loss":
					if !c.Beat {
						continue
					}
					beatLoss = true
					continue
				default:
					continue
				}
				ended[i] = true
				endings++
				h.Settle()
				h.Settle()
				if cause == "client-close" {
					cls[i].eof = true
				}
				check(fmt.Sprintf("after raw %s of %d", cause, i))
				continue
			}
			switch cause {
			case "client-close":
				cl.Close()
				cl.eof = true
			case "client-half":
				cl.Conn.CloseWrite()
			case "cut":
				cl.Send(msgFrame(1, js("fast"))[:11])
				cl.Conn.CloseWrite()
			case "badheader":
				cl.Send(wire.Build(1, []byte("{nojson"), js("x")))
			case "oversize":
				if !c.Max {
					continue
				}
				cl.Send(msgFrame(1, make([]byte, 600)))
			case "hostile-length":
				cl.Send([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3})
			case "handler-close":
				cl.Send(msgFrame(1, js("close")))
			case "badpipe":
				cl.Send(pipeFrame(1, "enable;many", js("fast")))
			case "cutpipe":
				cl.Send(pipeFrame(1, "enable;3", js("fast")))
				cl.Send(msgFrame(1, js("fast")))
				cl.Conn.CloseWrite()
			case "deadline":
				cl.Send(msgFrame(1, js("deadline")))
				h.Settle()
				check("before a deadline")
				time.Sleep(30 * time.Millisecond)
			case "panic": // not an end
				cl.Send(msgFrame(1, js("panic")))
				h.Settle()
				check("after a panicking handler")
				continue
			case "auth-deny":
				if !auth {
					continue
				}
				cl.Send(msgFrame(77, js("deny")))
			case "beat-loss", "auth-late":
				if cause == "beat-loss" && !c.Beat || cause == "auth-late" && !auth {
					continue
				}
				beatLoss = true
				continue // below, together
			default:
				continue
			}
			ended[i] = true
			endings++
			if lc.Twice && cause != "client-close" {
				switch {
				case cause != "handler-close":
					base[i].CloseConn()
				default:
					cl.Close()
					cl.eof = true
				}
				e.Label("two causes")
			}
			h.Settle()
			h.Settle()
			check(fmt.Sprintf("after %s of %d", cause, i))
		}
		if beatLoss {
			for k := 0; k < 7; k++ {
				time.Sleep(9 * time.Second)
				beat()
			}
			for i, lc := range c.Conns {
				if ended[i] {
					continue
				}
				if c.Beat && (lc.Cause == "beat-loss" || c.Raw) || lc.Cause == "auth-late" && auth {
					ended[i] = true
					endings++
				}
			}
			h.Settle()
			check("after heartbeat loss and auth timeouts")
			e.Label("timeouts")
		}
		if c.StopAll && (c.Signals || c.Pool) && !h.Failed() {
			srv.Stop(true)
			h.Settle()
			h.Settle()
			for i := range ended {
				if !ended[i] {
					endings++
				}
				ended[i] = true
			}
			check("after Stop(true)")
			e.Label("stop")
		}
		for i := range c.Conns {
			h.Open(fmt.Sprintf("c%d", i))
		}
		h.Settle()
		check("at the end")
		if endings > 0 {
			e.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C12 pool

type poolOp struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	User int    `json:"user"`
	Via  string `json:"via"` // where it is called: handler, base, url, pipe, kept (after the handler has returned)
}

type poolCase struct {
	Ops  []poolOp `json:"ops"`
	Unix bool     `json:"unix,omitempty"`
	Pace int      `json:"pace,omitempty"`
}

var poolOps = []string{"connect", "connect", "online", "online", "online", "offline", "send", "send", "send", "close", "srvclose", "sendconn", "empty", "panic", "swap", "swap", "race", "late", "late", "udp", "udp", "udpout"}

const poolConns = 5

var poolUsers = []string{"ann", "bob", "用户", "ann ", "tcpx-username", "Ann", " ann", "ann\x00", strings.Repeat("n", 300), "0", "u\u0308", "ü", "\t", strings.Repeat("n", 299) + "m"}

// poolUser is any number of names.
func poolUser(i int) string {
	if i < len(poolUsers) {
		return poolUsers[i]
	}
	return fmt.Sprintf("one of a crowd %d", i)
}

func genPoolCase(t *rapid.T) poolCase {
	c := poolCase{Unix: genUnix(t), Pace: genPace(t)}
	if rapid.IntRange(0, 4).Draw(t, "prefix") != 0 {
		for i := 0; i < 3; i++ {
			c.Ops = append(c.Ops, poolOp{Op: "online", C: i, User: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "user"), Via: rapid.SampledFrom([]string{"handler", "base", "url"}).Draw(t, "via")})
		}
	}
	n := rapid.IntRange(2, 30).Draw(t, "n")
	if rapid.IntRange(0, 39).Draw(t, "crowd") == 0 {
		m := rapid.SampledFrom([]int{10, 20, 40, 70, 140, 260}).Draw(t, "crowdn")
		for i := 0; i < m; i++ {
			c.Ops = append(c.Ops, poolOp{Op: "online", C: i * i % poolConns, User: len(poolUsers) + i, Via: []string{"handler", "base", "url"}[i%3]})
		}
	}
	for i := 0; i < n; i++ {
		if k := len(c.Ops); k > 0 && rapid.IntRange(0, 3).Draw(t, "follow") == 0 { // write to who was just dealt with
			o := c.Ops[k-1]
			c.Ops = append(c.Ops, poolOp{Op: "send", C: rapid.IntRange(0, poolConns-1).Draw(t, "c"), User: o.User, Via: o.Via})
			continue
		}
		c.Ops = append(c.Ops, poolOp{
			Op:   rapid.SampledFrom(poolOps).Draw(t, "op"),
			C:    rapid.IntRange(0, poolConns-1).Draw(t, "c"),
			User: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}).Draw(t, "user"),
			Via:  rapid.SampledFrom([]string{"handler", "handler", "base", "url", "kept", "pipe"}).Draw(t, "via"),
		})
	}
	return c
}

func runPoolCase(e *Env, c poolCase) {
	e.Bubble(func(h *H) {
		h.unix, h.pace = c.Unix, c.Pace
		kept := map[int]*tcpx.Context{} // the contexts of handlers that have returned
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{}).WithBuiltInPool(true)
		var mu sync.Mutex
		base := map[int]*tcpx.Context{}
		var job func(ctx *tcpx.Context)
		srv.OnConnect = func(ctx *tcpx.Context) {
			mu.Lock()
			base[connIndex(ctx)] = ctx
			mu.Unlock()
		}
		h1 := func(ctx *tcpx.Context) {
			if j := job; j != nil {
				j(ctx)
			}
			if ctx.Network() == "tcp" {
				mu.Lock()
				kept[connIndex(ctx)] = ctx
				mu.Unlock()
			}
		}
		srv.AddHandler(1, h1)
		srv.Any("/j/", h1)
		h.Serve(srv, "tcp", addr)
		h.Serve(srv, "udp", addr) // peers over UDP share the pool
		// the pool of another server is another pool
		srv2 := tcpx.NewTcpX(tcpx.JsonMarshaller{}).WithBuiltInPool(true)
		srv2.OnConnect = func(ctx *tcpx.Context) { ctx.Online("ann") }
		h.Serve(srv2, "tcp", ":7272")
		elsewhere := h.Dial("tcp", ":7272", vnet.Opt{ClientAddr: tcpAddr(900)})
		h.Settle()

		// a connection keeps one index for its life; a slot's next connection gets a new one
		type conn struct {
			idx    int
			cl     *Client
			name   string // last name it went online with
			got    int    // frames checked so far
			closed bool
			udp    bool
		}
		slots := make([]*conn, poolConns)
		next := 0
		online := map[string]*conn{}
		all := []*conn{}
		var witness *tcpx.Context // any context: gives access to the pool
		peers := map[int]*conn{}  // UDP peers: no connection, so nothing to close
		do := func(k *conn, via string, f func(ctx *tcpx.Context)) bool {
			ran := false
			job = func(ctx *tcpx.Context) { ran = true; f(ctx) }
			switch via {
			case "udp":
				h.Net.Send("udp", addr, vnet.Datagram{Data: msgFrame(1, js("x")), Addr: udpAddr(k.idx)})
			case "base", "kept":
				mu.Lock()
				b := base[k.idx]
				if via == "kept" && kept[k.idx] != nil {
					b = kept[k.idx]
				}
				mu.Unlock()
				if b == nil {
					h.Fail("lost", "no OnConnect")
					return false
				}
				job(b)
			case "url":
				k.cl.Send(urlFrame("/j/", js("x")))
			case "pipe":
				k.cl.Send(append(pipeFrame(31337, `"enable;2"`, js("x")), msgFrame(1, js("x"))...))
			default:
				k.cl.Send(msgFrame(1, js("x")))
			}
			h.Settle()
			job = nil
			if !ran {
				h.Fail("lost", "the request was not handled")
			}
			return ran
		}
		sent, superseded := 0, 0
		names := append([]string(nil), poolUsers...)
		for _, o := range c.Ops {
			if o.User >= len(poolUsers) {
				names = append(names, poolUser(o.User))
			}
		}
		names = uniq(names)
		var expect map[*conn][]string
		datagrams := 0
		verify := func(step string) {
			if witness == nil || h.Failed() {
				return
			}
			p := witness.GetPoolRef()
			if p == nil {
				h.Fail("pool", "GetPoolRef is nil")
				return
			}
			for _, u := range names {
				got, want := p.GetClientPool(u), online[u]
				if want == nil {
					if got != nil {
						h.Fail("stale", "%s: %q is in the pool (%s) but should not be", step, u, got.ClientIP())
					}
					continue
				}
				if got == nil {
					h.Fail("missing", "%s: %q is not in the pool but is online on connection %d", step, u, want.idx)
				} else if got.Network() == "udp" {
					if !want.udp || got.Addr.String() != udpAddr(want.idx).String() {
						h.Fail("wrong", "%s: %q is the UDP peer %s in the pool, want %d (udp %v)", step, u, got.Addr, want.idx, want.udp)
					}
				} else if want.udp || connIndex(got) != want.idx {
					h.Fail("wrong", "%s: %q is connection %d in the pool, want %d", step, u, connIndex(got), want.idx)
				} else if !got.IsOnline() {
					h.Fail("state", "%s: %q is on a living connection but not IsOnline", step, u)
				}
			}
			out := h.Net.Packet("udp", addr).Sent()
			byPeer := map[string][]string{}
			for _, d := range out[datagrams:] {
				f, err := wire.Parse(d.Data)
				if err != nil {
					h.Fail("garbled", "%s: the datagram %s to %s: %v", step, hexs(d.Data), d.Addr, err)
					return
				}
				byPeer[d.Addr.String()] = append(byPeer[d.Addr.String()], fmt.Sprintf("%d:%s:%s", f.ID, canonHeader(f.Header), f.Body))
			}
			datagrams = len(out)
			for i, k := range peers {
				if a := udpAddr(i).String(); !eqStrings(byPeer[a], expect[k]) {
					h.Fail("delivery", "%s: UDP peer %d received %q, want %q", step, i, byPeer[a], expect[k])
				} else {
					delete(byPeer, a)
				}
			}
			for a, g := range byPeer {
				h.Fail("delivery", "%s: %s received %q, want nothing", step, a, g)
			}
			for _, k := range all {
				fs, err := k.cl.Frames()
				if err != nil {
					h.Fail("garbled", "%s: connection %d received garbage: %v", step, k.idx, err)
					return
				}
				var got []string
				for _, f := range fs[k.got:] {
					got = append(got, fmt.Sprintf("%d:%s:%s", f.ID, canonHeader(f.Header), f.Body))
				}
				k.got = len(fs)
				if !eqStrings(got, expect[k]) {
					h.Fail("delivery", "%s: connection %d received %q, want %q", step, k.idx, got, expect[k])
				}
				if k.cl.Closed() != k.closed {
					h.Fail("closed", "%s: connection %d: closed is %v, want %v", step, k.idx, k.cl.Closed(), k.closed)
				}
			}
		}
		drop := func(k *conn) {
			k.closed = true
			k.cl.eof = true
			for u, o := range online {
				if o == k {
					delete(online, u)
				}
			}
			for i := range slots {
				if slots[i] == k {
					slots[i] = nil
				}
			}
		}
		for step, o := range c.Ops {
			if h.Failed() {
				return
			}
			expect = map[*conn][]string{}
			k := slots[o.C]
			user := poolUser(o.User)
			name := fmt.Sprintf("step %d %s(%d,%q,%s)", step, o.Op, o.C, user, o.Via)
			if o.Op == "connect" || k == nil {
				if k != nil {
					continue
				}
				k = &conn{idx: next, cl: h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(next)})}
				next++
				if k.cl == nil {
					h.Fail("refused", "connection refused")
					return
				}
				slots[o.C] = k
				all = append(all, k)
				h.Settle()
				mu.Lock()
				if witness == nil {
					witness = base[k.idx]
				}
				mu.Unlock()
				if o.Op == "connect" {
					verify(name)
					continue
				}
			}
			switch o.Op {
			case "online":
				if k.name != "" && k.name != user && online[k.name] == k {
					e.Label("a second name")
				}
				do(k, o.Via, func(ctx *tcpx.Context) {
					if err := ctx.Online(user); err != nil {
						h.Fail("online", "%s: %v", name, err)
					}
				})
				if online[user] != nil && online[user] != k {
					superseded++
				}
				k.name = user
				online[user] = k
			case "offline":
				do(k, o.Via, func(ctx *tcpx.Context) {
					err := ctx.Offline()
					if (err != nil) != (k.name == "") {
						h.Fail("offline", "%s: Offline returned %v for name %q", name, err, k.name)
					}
				})
				for u, x := range online { // it may be known under several names
					if x == k {
						delete(online, u)
					}
				}
			case "udp", "udpout":
				p := peers[o.C]
				if p == nil {
					p = &conn{idx: o.C, udp: true}
					peers[o.C] = p
				}
				if o.Op == "udpout" && online[user] != p {
					continue // whether a datagram can take another one's name out is not specified
				}
				do(p, "udp", func(ctx *tcpx.Context) {
					if o.Op == "udpout" {
						ctx.SetUsername(user)
						if err := ctx.Offline(); err != nil {
							h.Fail("offline", "%s: %v", name, err)
						}
					} else if err := ctx.Online(user); err != nil {
						h.Fail("online", "%s: %v", name, err)
					}
				})
				if o.Op == "udpout" {
					delete(online, user)
				} else {
					if online[user] != nil && online[user] != p {
						superseded++
					}
					online[user] = p
				}
			case "late":
				// a handler that is still busy when its connection ends, and then goes online
				gate := make(chan struct{})
				var err error
				back := false
				late := k
				job = func(ctx *tcpx.Context) {
					if o.Via == "base" {
						mu.Lock()
						ctx = base[late.idx]
						mu.Unlock()
					}
					<-gate
					err = ctx.Online(user)
					back = true
				}
				if o.Via == "url" {
					k.cl.Send(urlFrame("/j/", js("x")))
				} else {
					k.cl.Send(msgFrame(1, js("x")))
				}
				h.Settle()
				job = nil
				k.cl.Close()
				drop(k)
				h.Settle()
				close(gate)
				h.Settle()
				if !back || err == nil {
					h.Fail("online", "%s: going online on a connection that has ended returned %v, no error", name, back)
				}
				e.Label("online too late")
			case "send":
				to := online[user]
				body := fmt.Sprintf("s%d", step)
				id := int32(100 + step)
				do(k, o.Via, func(ctx *tcpx.Context) {
					err := ctx.SendToUsername(user, id, body, map[string]any{"n": step})
					if (err == nil) != (to != nil) {
						h.Fail("send", "%s: SendToUsername returned %v, the user is online: %v", name, err, to != nil)
					}
				})
				if to != nil {
					sent++
					expect[to] = append(expect[to], fmt.Sprintf("%d:{\"n\":%d}:%s", id, step, js(body)))
				}
			case "sendconn":
				to := slots[o.User%poolConns]
				if to == nil {
					continue
				}
				mu.Lock()
				tc := base[to.idx]
				mu.Unlock()
				do(k, o.Via, func(ctx *tcpx.Context) {
					if err := ctx.SendToConn(tc, 99, "direct"); err != nil {
						h.Fail("send", "%s: %v", name, err)
					}
				})
				expect[to] = append(expect[to], `99:{}:"direct"`)
			case "swap", "race":
				// another connection takes the name over just as this one ends, or both take it at once
				k2 := slots[(o.C+1)%poolConns]
				if k2 == nil {
					continue
				}
				if o.Op == "swap" {
					if online[user] != k {
						continue
					}
					k.cl.Close()
					do(k2, o.Via, func(ctx *tcpx.Context) {
						if err := ctx.Online(user); err != nil {
							h.Fail("online", "%s: %v", name, err)
						}
					})
					drop(k)
					e.Label("taken over while closing")
				} else {
					mu.Lock()
					b := base[k.idx]
					mu.Unlock()
					job = func(ctx *tcpx.Context) { ctx.Online(user) }
					k2.cl.Send(msgFrame(1, js("x")))
					b.Online(user)
					h.Settle()
					job = nil
					got := b.GetPoolRef().GetClientPool(user)
					if got == nil {
						h.Fail("missing", "%s: two connections went online as %q and it is not in the pool", name, user)
						return
					}
					k.name = user
					if connIndex(got) == k.idx {
						k2.name = user
						k2 = k
					}
				}
				k2.name = user
				online[user] = k2
				superseded++
			case "close":
				k.cl.Close()
				drop(k)
			case "srvclose":
				do(k, o.Via, func(ctx *tcpx.Context) { ctx.CloseConn() })
				drop(k)
			case "empty":
				do(k, o.Via, func(ctx *tcpx.Context) {
					if err := ctx.Online(""); err == nil {
						h.Fail("online", "%s: an empty name was accepted", name)
					}
				})
			case "panic":
				do(k, "handler", func(ctx *tcpx.Context) { panic("boom") })
			}
			h.Settle()
			h.Settle()
			verify(name)
		}
		if fs, err := elsewhere.Frames(); err != nil || len(fs) > 0 || elsewhere.Closed() {
			h.Fail("delivery", "a connection of another server received %d messages or was closed (%v)", len(fs), elsewhere.Closed())
		}
		if sent > 0 {
			e.NonTrivial()
		}
		if superseded > 0 {
			e.Label("superseded")
		}
	})
}

// canonHeader writes a header without regard to how an empty one or its spacing is encoded.
func canonHeader(b []byte) string {
	var m map[string]any
	if len(b) > 0 {
		if err := json.Unmarshal(b, &m); err != nil {
			return "bad:" + string(b)
		}
	}
	if len(m) == 0 {
		return "{}"
	}
	return string(js(m))
}

// ---------------------------------------------------------------- C14 heartbeat

type beatEvt struct {
	Gap  int    `json:"gap"` // in twentieths of an interval after the one before, never a multiple of 20
	Kind string `json:"kind"`
	Rep  int    `json:"rep,omitempty"` // it happens this many times more, with the same gap
}

type beatCase struct {
	Mode   string      `json:"mode"` // off, plain, detail, through, rewrite, rewrite-deaf
	ID     int32       `json:"id"`
	ID2    int32       `json:"id2"`
	Unit   int         `json:"unit_ms"`
	UnitUS int         `json:"unit_us,omitempty"` // in microseconds, instead
	Loss   bool        `json:"loss"`
	Conns  [][]beatEvt `json:"conns"`
	Raw    bool        `json:"raw"`
	Global string      `json:"global"` // "", noop, abort: a global middleware
	Slow   bool        `json:"slow"`
	Two    bool        `json:"two"`   // every other connection is on a second listener
	Pool   bool        `json:"pool"`  // connections are online in the pool
	Panic  bool        `json:"panic"` // the loss handler panics
	Unix   bool        `json:"unix,omitempty"`
	Stop   int         `json:"stop,omitempty"` // before this event, counted from 1, the server is stopped
}

func genBeatCase(t *rapid.T) beatCase {
	c := beatCase{
		Mode:   rapid.SampledFrom([]string{"off", "never", "plain", "plain", "detail", "detail", "through", "through", "rewrite", "rewrite", "rewrite-deaf", "rewrite-through", "rewrite-detail", "detail-off", "off-plain", "off-detail"}).Draw(t, "mode"),
		ID:     rapid.SampledFrom([]int32{1392, 5, 0, -7, 2147483647}).Draw(t, "id"),
		ID2:    rapid.SampledFrom([]int32{6, 1392, 5, -1}).Draw(t, "id2"),
		Unit:   rapid.SampledFrom([]int{1, 20, 500, 3000, 90000}).Draw(t, "unit"),
		Loss:   rapid.IntRange(0, 3).Draw(t, "loss") != 0,
		Panic:  rapid.IntRange(0, 5).Draw(t, "panic") == 0,
		Unix:   genUnix(t),
		Global: rapid.SampledFrom([]string{"", "noop", "abort"}).Draw(t, "global"),
		Slow:   rapid.IntRange(0, 3).Draw(t, "slow") == 0,
		Two:    rapid.IntRange(0, 2).Draw(t, "two") == 0,
		Pool:   rapid.Bool().Draw(t, "pool"),
		Raw:    rapid.IntRange(0, 5).Draw(t, "raw") == 0,
	}
	if rapid.IntRange(0, 5).Draw(t, "oddunit") == 0 {
		c.UnitUS = rapid.SampledFrom([]int{40, 777, 1001, 12345, 333333, 1000001}).Draw(t, "unitus")
	} else if rapid.IntRange(0, 19).Draw(t, "longunit") == 0 {
		c.Unit = rapid.SampledFrom([]int{3600 * 1000, 2 * 86400 * 1000}).Draw(t, "unitlong")
	}
	if rapid.IntRange(0, 5).Draw(t, "stopped") == 3 {
		c.Stop = rapid.IntRange(1, 6).Draw(t, "stop")
	}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		var evs []beatEvt
		k := rapid.IntRange(0, 12).Draw(t, "k")
		for j := 0; j < k; j++ {
			evs = append(evs, beatEvt{
				Gap:  rapid.SampledFrom([]int{0, 1, 9, 17, 19, 21, 27, 33, 39, 41, 51, 57, 59, 61, 70, 81}).Draw(t, "gap"),
				Kind: rapid.SampledFrom([]string{"beat", "beat", "beat", "beat", "other", "old", "slow", "burst", "unknown", "url", "pipe", "pipe"}).Draw(t, "kind"),
			})
			if rapid.IntRange(0, 99).Draw(t, "again") == 0 {
				evs[j].Rep = rapid.IntRange(1, 300).Draw(t, "rep")
			}
		}
		c.Conns = append(c.Conns, evs)
	}
	return c
}

func runBeatCase(e *Env, c beatCase) {
	e.Bubble(func(h *H) {
		h.unix = c.Unix
		unit := time.Duration(c.Unit) * time.Millisecond // a twentieth of the interval
		if c.UnitUS > 0 {
			unit = time.Duration(c.UnitUS) * time.Microsecond
		}
		interval := 20 * unit
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		on := true
		id := int32(tcpx.DEFAULT_HEARTBEAT_MESSAGEID)
		counts := true
		old := int32(-99)
		switch c.Mode {
		case "off":
			srv.HeartBeatMode(false, interval)
			on = false
			srv.AddHandler(id, func(ctx *tcpx.Context) {}) // the id is free
		case "detail-off":
			srv.HeartBeatModeDetail(false, interval, true, c.ID)
			on = false
			id = c.ID
			srv.AddHandler(id, func(ctx *tcpx.Context) {})
		case "off-plain":
			// the last call counts
			srv.HeartBeatModeDetail(false, interval*7, true, c.ID)
			srv.HeartBeatMode(true, interval)
		case "off-detail":
			srv.HeartBeatMode(false, interval*7)
			srv.HeartBeatModeDetail(true, interval, false, c.ID)
			id = c.ID
		case "never":
			on = false
		case "plain":
			srv.HeartBeatMode(true, interval)
		case "detail":
			srv.HeartBeatModeDetail(true, interval, false, c.ID)
			id = c.ID
		case "through":
			srv.HeartBeatModeDetail(true, interval, true, c.ID)
			id = c.ID
		case "rewrite", "rewrite-deaf", "rewrite-through", "rewrite-detail":
			old = 1392
			switch c.Mode {
			case "rewrite-through", "rewrite-detail":
				old = c.ID
				srv.HeartBeatModeDetail(true, interval, c.Mode == "rewrite-through", c.ID)
			default:
				srv.HeartBeatMode(true, interval)
			}
			counts = c.Mode != "rewrite-deaf"
			id = c.ID2
			deaf := !counts
			srv.RewriteHeartBeatHandler(id, func(ctx *tcpx.Context) {
				if !deaf {
					ctx.RecvHeartBeat()
				}
			})
		}
		switch c.Global {
		case "noop":
			srv.UseGlobal(func(ctx *tcpx.Context) {})
		case "abort":
			if !c.Raw {
				srv.UseGlobal(func(ctx *tcpx.Context) { ctx.Abort() })
				if c.Mode == "through" || c.Mode == "rewrite-through" {
					counts = false
				}
			}
		}
		if c.Raw {
			counts = true
		}
		srv.HandleRaw = func(ctx *tcpx.Context) {
			b := make([]byte, 1)
			for {
				if _, err := ctx.ConnReader.Read(b); err != nil {
					return
				}
				if b[0] == 'b' {
					ctx.RecvHeartBeat()
				}
			}
		}
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		const other = int32(12345)
		srv.AddHandler(other, func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			if s == "slow" {
				h.Gate("slow")
			}
		})
		srv.Any("/o/", func(ctx *tcpx.Context) {})
		var mu sync.Mutex
		start := time.Now()
		type lost struct {
			n  int
			at time.Duration
			ok bool
		}
		losses := map[int]*lost{}
		closedAt := map[int]time.Duration{}
		closes := map[int]int{}
		srv.OnConnect = func(ctx *tcpx.Context) {
			ctx.SetCtxPerConn("k", connIndex(ctx))
			if c.Pool {
				ctx.Online(fmt.Sprintf("u%d", connIndex(ctx)))
			}
		}
		srv.OnClose = func(ctx *tcpx.Context) {
			mu.Lock()
			closedAt[connIndex(ctx)] = time.Since(start)
			closes[connIndex(ctx)]++
			mu.Unlock()
		}
		if c.Loss {
			srv.SetEventOnHeartbeatLoss(func(ctx *tcpx.Context) {
				mu.Lock()
				i := connIndex(ctx)
				if losses[i] == nil {
					losses[i] = &lost{}
				}
				losses[i].n++
				losses[i].at = time.Since(start)
				v, ok := ctx.GetCtxPerConn("k")
				losses[i].ok = ok && v == any(i) && closes[i] == 0 && ctx.IsOnline() && ctx.JSON(4, "bye") == nil
				if c.Pool && ctx.GetPoolRef().GetClientPool(fmt.Sprintf("u%d", i)) == nil {
					losses[i].ok = false
				}
				mu.Unlock()
				if c.Panic {
					panic("in OnHeartbeatLoss")
				}
			})
		}
		addrs := []string{addr}
		if c.Two {
			addrs = append(addrs, ":7272")
		}
		for _, a := range addrs {
			if c.Raw {
				network, a := h.on("tcp", a)
				h.Go(func() error { return srv.ListenAndServeRaw(network, a) })
				h.Settle()
			} else {
				h.Serve(srv, "tcp", a)
			}
		}
		n := len(c.Conns)
		cls := make([]*Client, n)
		type at struct {
			t    time.Duration
			conn int
			kind string
		}
		var plan []at
		last := make([]time.Duration, n)  // last beat so far
		death := make([]time.Duration, n) // when it must die (0: not yet known)
		now := time.Since(start)
		for i := range c.Conns {
			if cls[i] = h.Dial("tcp", addrs[i%len(addrs)], vnet.Opt{ClientAddr: tcpAddr(i)}); cls[i] == nil {
				h.Fail("refused", "connection refused")
				return
			}
			last[i] = now
			t := now
			for _, ev := range c.Conns[i] {
				for k := 0; k <= ev.Rep; k++ {
					if t > 60*365*24*time.Hour {
						break // the virtual clock ends in 2262
					}
					t += time.Duration(ev.Gap) * unit
					plan = append(plan, at{t, i, ev.Kind})
				}
			}
		}
		sort.SliceStable(plan, func(a, b int) bool { return plan[a].t < plan[b].t })
		slack := unit / 2
		alive := func(i int, t time.Duration) bool { return !on || t < last[i]+3*interval }
		verify := func() {
			t := time.Since(start)
			mu.Lock()
			defer mu.Unlock()
			for i := range cls {
				if death[i] != 0 {
					continue
				}
				due := last[i] + 3*interval
				if !on || t < due-slack {
					if cls[i].Closed() {
						h.Fail("early", "connection %d closed at %v: last heartbeat %v, interval %v, on %v", i, closedAt[i], last[i], interval, on)
					}
					if losses[i] != nil {
						h.Fail("early", "connection %d: loss reported at %v: last heartbeat %v, interval %v, on %v", i, losses[i].at, last[i], interval, on)
					}
				}
				if on && t > due+slack {
					death[i] = due
					if !cls[i].Closed() {
						h.Fail("late", "connection %d still open at %v: last heartbeat %v, interval %v", i, t, last[i], interval)
						continue
					}
					if closes[i] != 1 || closedAt[i] < due-slack || closedAt[i] > due+slack {
						h.Fail("when", "connection %d closed %d times, at %v: last heartbeat %v, interval %v", i, closes[i], closedAt[i], last[i], interval)
					}
					if c.Loss {
						if fs, err := cls[i].Frames(); err != nil || len(fs) != 1 || fs[0].ID != 4 {
							h.Fail("loss", "connection %d: what the loss event sent did not arrive (%d blocks, %v)", i, len(fs), err)
						}
						if l := losses[i]; l == nil || l.n != 1 || l.at > due+slack || !l.ok {
							h.Fail("loss", "connection %d: heartbeat-loss event %+v, want one at %v before the close", i, l, due)
						}
					}
				}
			}
		}
		goTo := func(t time.Duration) {
			// stop on both sides of every death on the way
			for {
				next := t
				for i := range cls {
					if on && death[i] == 0 {
						for _, s := range []time.Duration{last[i] + 3*interval - unit, last[i] + 3*interval + unit} {
							if s > time.Since(start) && s < next {
								next = s
							}
						}
					}
				}
				if d := next - time.Since(start); d > 0 {
					time.Sleep(d)
				}
				h.settleNow()
				verify()
				if next == t || h.Failed() {
					return
				}
			}
		}
		beats, dead := 0, 0
		for k, p := range plan {
			goTo(p.t)
			if h.Failed() {
				return
			}
			if k+1 == c.Stop { // the connections stay, and so do their rules
				srv.Stop(false)
				h.settleNow()
			}
			if !alive(p.conn, p.t) {
				dead++
				continue
			}
			cl := cls[p.conn]
			beat := false
			if c.Raw {
				if beat = p.kind == "beat" || p.kind == "burst" || p.kind == "pipe"; beat {
					cl.Send([]byte("b"))
				} else {
					cl.Send([]byte("x"))
				}
				h.settleNow()
				if beat {
					last[p.conn] = time.Since(start)
					beats++
				}
				continue
			}
			switch p.kind {
			case "beat":
				cl.Send(msgFrame(id, js("b")))
				beat = true
			case "burst":
				for k := 0; k < 4; k++ {
					cl.Send(msgFrame(id, js("b")))
				}
				beat = true
			case "pipe": // one among the messages of a pipe
				b := append(pipeFrame(other, `"enable;2"`, js("x")), msgFrame(id, js("b"))...)
				if len(plan)%2 == 1 {
					b = append(pipeFrame(id, `"enable;2"`, js("b")), msgFrame(other, js("x"))...)
				}
				cl.Send(b)
				beat = true
			case "other":
				cl.Send(msgFrame(other, js("x")))
			case "slow":
				if c.Slow {
					cl.Send(msgFrame(other, js("slow")))
				}
			case "old":
				if old != -99 && id != old {
					cl.Send(msgFrame(old, js("b")))
				}
			case "unknown":
				cl.Send(msgFrame(777, js("b")))
			case "url":
				cl.Send(urlFrame("/o/", js("b")))
			}
			h.settleNow()
			if beat && counts && on {
				last[p.conn] = time.Since(start)
				beats++
			}
			if beat {
				beats++
			}
		}
		end := time.Since(start) + 9*interval + unit
		goTo(end)
		if !on {
			for i := range cls {
				if cls[i].Closed() {
					h.Fail("early", "connection %d closed although heartbeats are off", i)
				}
			}
		}
		mu.Lock()
		for i, l := range losses {
			if l.n != 1 {
				h.Fail("loss", "connection %d: heartbeat loss reported %d times", i, l.n)
			}
		}
		mu.Unlock()
		if beats > 0 || on {
			e.NonTrivial()
		}
		e.Label(c.Mode)
	})
}

// ---------------------------------------------------------------- C15 auth

type authEvt struct {
	Gap  int    `json:"gap"` // in twentieths of the deadline
	Kind string `json:"kind"`
	Pipe int    `json:"pipe,omitempty"` // in a pipe of so many: 1 alone, 2 behind another
}

type authCase struct {
	On      bool        `json:"on"`
	Through bool        `json:"through"`
	Stop    bool        `json:"stop"` // a middleware that aborts unauthenticated auth messages
	ID      int32       `json:"id"`
	Unit    int         `json:"unit_ms"`
	UnitUS  int         `json:"unit_us,omitempty"` // in microseconds, instead
	Beat    bool        `json:"beat"`
	Conns   [][]authEvt `json:"conns"`
	Two     bool        `json:"two"`            // every other connection is on a second listener
	Halt    int         `json:"halt,omitempty"` // before this event, counted from 1, the server is stopped
	Connect []string    `json:"connect"`        // per connection: a verdict given in OnConnect
	Unix    bool        `json:"unix,omitempty"`
}

func genAuthCase(t *rapid.T) authCase {
	c := authCase{
		On:      rapid.IntRange(0, 5).Draw(t, "on") != 0,
		Through: rapid.Bool().Draw(t, "through"),
		Stop:    rapid.IntRange(0, 4).Draw(t, "stop") == 0,
		ID:      rapid.SampledFrom([]int32{1393, 9, 0, -5}).Draw(t, "id"),
		Unit:    rapid.SampledFrom([]int{1, 20, 500, 3000, 90000}).Draw(t, "unit"),
		Two:     rapid.IntRange(0, 2).Draw(t, "two") == 0,
		Beat:    rapid.IntRange(0, 3).Draw(t, "beat") == 0,
		Unix:    genUnix(t),
	}
	if rapid.IntRange(0, 5).Draw(t, "oddunit") == 0 {
		c.UnitUS = rapid.SampledFrom([]int{40, 777, 1001, 12345, 333333, 1000001}).Draw(t, "unitus")
	} else if rapid.IntRange(0, 19).Draw(t, "longunit") == 0 {
		c.Unit = rapid.SampledFrom([]int{3600 * 1000, 2 * 86400 * 1000}).Draw(t, "unitlong")
	}
	if rapid.IntRange(0, 5).Draw(t, "halted") == 3 {
		c.Halt = rapid.IntRange(1, 4).Draw(t, "halt")
	}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Connect = append(c.Connect, rapid.SampledFrom([]string{"", "", "", "", "", "", "", "", "pass", "pass", "deny", "deny", "passdeny", "denypass"}).Draw(t, "connect"))
		var evs []authEvt
		k := rapid.IntRange(0, 7).Draw(t, "k")
		for j := 0; j < k; j++ {
			evs = append(evs, authEvt{
				Gap:  rapid.SampledFrom([]int{0, 1, 5, 9, 13, 19, 21, 30}).Draw(t, "gap"),
				Kind: rapid.SampledFrom([]string{"pass", "pass", "deny", "deny", "silent", "other", "both", "unknown", "pass-other", "deny-other"}).Draw(t, "kind"),
				Pipe: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2}).Draw(t, "pipe"),
			})
		}
		c.Conns = append(c.Conns, evs)
	}
	return c
}

func runAuthCase(e *Env, c authCase) {
	e.Bubble(func(h *H) {
		h.unix = c.Unix
		unit := time.Duration(c.Unit) * time.Millisecond
		if c.UnitUS > 0 {
			unit = time.Duration(c.UnitUS) * time.Microsecond
		}
		limit := 20 * unit
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		verdict := func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			switch s {
			case "pass", "pass-other":
				ctx.RecvAuthPass()
			case "deny", "deny-other":
				ctx.RecvAuthDeny()
			case "both":
				ctx.RecvAuthPass()
				ctx.RecvAuthDeny()
			}
		}
		if c.Stop {
			srv.UseGlobal(func(ctx *tcpx.Context) {
				var s string
				ctx.Bind(&s)
				if s == "pass" || s == "deny" || s == "both" {
					ctx.Abort()
				}
			})
		}
		srv.WithAuthDetail(c.On, limit, c.Through, c.ID, verdict)
		if !c.On {
			srv.AddHandler(c.ID, func(ctx *tcpx.Context) {})
		}
		// a verdict may also come from any other handler
		srv.AddHandler(4242, verdict)
		var mu sync.Mutex
		start := time.Now()
		closedAt := map[int]time.Duration{}
		closes := map[int]int{}
		srv.OnClose = func(ctx *tcpx.Context) {
			mu.Lock()
			closedAt[connIndex(ctx)] = time.Since(start)
			closes[connIndex(ctx)]++
			mu.Unlock()
		}
		srv.OnConnect = func(ctx *tcpx.Context) {
			switch c.Connect[connIndex(ctx)] {
			case "pass":
				ctx.RecvAuthPass()
			case "deny":
				ctx.RecvAuthDeny()
			case "passdeny":
				ctx.RecvAuthPass()
				ctx.RecvAuthDeny()
			case "denypass":
				ctx.RecvAuthDeny()
				ctx.RecvAuthPass()
			}
		}
		if c.Beat {
			srv.HeartBeatMode(true, 100*limit) // never due in this case
		}
		addrs := []string{addr}
		if c.Two {
			addrs = append(addrs, ":7272")
		}
		for _, a := range addrs {
			h.Serve(srv, "tcp", a)
		}
		n := len(c.Conns)
		cls := make([]*Client, n)
		type at struct {
			t    time.Duration
			conn int
			kind string
			pipe int
		}
		var plan []at
		t0 := time.Since(start)
		for i := range c.Conns {
			if cls[i] = h.Dial("tcp", addrs[i%len(addrs)], vnet.Opt{ClientAddr: tcpAddr(i)}); cls[i] == nil {
				h.Fail("refused", "connection refused")
				return
			}
			t := t0
			for _, ev := range c.Conns[i] {
				t += time.Duration(ev.Gap) * unit
				if (t-t0)%limit == 0 && t != t0 {
					t += unit
				}
				plan = append(plan, at{t, i, ev.Kind, ev.Pipe})
			}
		}
		h.settleNow()
		sort.SliceStable(plan, func(a, b int) bool { return plan[a].t < plan[b].t })
		// state: 0 waiting, 1 passed, 2 denied, 3 timed out
		state := make([]int, n)
		when := make([]time.Duration, n)
		slack := unit / 2
		for i, v := range c.Connect {
			if !c.On {
				continue
			}
			switch v {
			case "pass", "passdeny":
				state[i] = 1
			case "deny", "denypass":
				state[i], when[i] = 2, t0
			}
		}
		verify := func(ctx string) {
			t := time.Since(start)
			mu.Lock()
			defer mu.Unlock()
			for i := range cls {
				if c.On && state[i] == 0 && t > t0+limit+slack {
					state[i] = 3
					when[i] = t0 + limit
				}
				dead := state[i] >= 2
				if cls[i].Closed() != dead {
					h.Fail("state", "%s: connection %d (on %v): closed is %v, want %v (state %d); events %+v", ctx, i, c.On, cls[i].Closed(), dead, state[i], c.Conns[i])
					continue
				}
				if dead && (closes[i] != 1 || closedAt[i] < when[i]-slack || closedAt[i] > when[i]+slack) {
					h.Fail("when", "%s: connection %d closed %d times at %v, want once at %v (connected %v, deadline %v)", ctx, i, closes[i], closedAt[i], when[i], t0, limit)
				}
			}
		}
		goTo := func(t time.Duration) {
			for _, s := range []time.Duration{t0 + limit - unit/4, t0 + limit + unit} {
				if now := time.Since(start); now < s && s < t {
					time.Sleep(s - now)
					h.settleNow()
					verify("around the deadline")
				}
			}
			if d := t - time.Since(start); d > 0 {
				time.Sleep(d)
			}
			h.settleNow()
			verify("on the way")
		}
		verdicts := 0
		for k, p := range plan {
			goTo(p.t)
			if h.Failed() {
				return
			}
			if k+1 == c.Halt { // the connections stay, and so does their deadline
				srv.Stop(false)
				h.settleNow()
			}
			if state[p.conn] >= 2 {
				continue
			}
			id := c.ID
			if p.kind == "unknown" {
				id = 31337
			}
			if p.kind == "other" || strings.HasSuffix(p.kind, "-other") {
				id = 4242
			}
			switch p.pipe {
			case 1:
				cls[p.conn].Send(pipeFrame(id, `"enable;1"`, js(p.kind)))
			case 2:
				cls[p.conn].Send(append(pipeFrame(31337, `"enable;2"`, js("x")), msgFrame(id, js(p.kind))...))
			default:
				cls[p.conn].Send(msgFrame(id, js(p.kind)))
			}
			h.settleNow()
			blocked := c.Stop && id == c.ID && c.Through
			if c.On && state[p.conn] == 0 && !blocked {
				switch p.kind {
				case "pass", "both", "pass-other":
					state[p.conn] = 1
					verdicts++
				case "deny", "deny-other":
					state[p.conn] = 2
					when[p.conn] = time.Since(start)
					verdicts++
				}
			}
			verify("after " + p.kind)
		}
		goTo(time.Since(start) + 3*limit + unit)
		if c.On {
			e.NonTrivial()
		}
		if verdicts > 0 {
			e.Label("verdict")
		}
	})
}

// One pool for all a server serves: plain, raw and packet listeners, whatever else is configured.

type kindOp struct {
	Op   string `json:"op"` // online, offline, send, leave, restart
	Kind string `json:"kind"`
	C    int    `json:"c"`
	User int    `json:"user"`
}

type kindCase struct {
	Connect bool     `json:"connect"` // OnConnect set
	Close   bool     `json:"close"`   // OnClose set
	Signals bool     `json:"signals"`
	Beat    bool     `json:"beat"`
	Max     bool     `json:"max"`     // a size limit
	Buffer  int      `json:"buffer"`  // of the packet listener, 0: the default
	Message bool     `json:"message"` // OnMessage instead of a handler
	Restart bool     `json:"restart"`
	Ops     []kindOp `json:"ops"`
}

func genKindCase(t *rapid.T) kindCase {
	c := kindCase{
		Connect: rapid.Bool().Draw(t, "connect"), Close: rapid.Bool().Draw(t, "close"), Signals: rapid.Bool().Draw(t, "signals"),
		Beat: rapid.Bool().Draw(t, "beat"), Max: rapid.Bool().Draw(t, "max"), Buffer: rapid.SampledFrom([]int{0, 200, 9000}).Draw(t, "buffer"),
		Message: rapid.IntRange(0, 3).Draw(t, "message") == 0,
		Restart: rapid.IntRange(0, 2).Draw(t, "restart") == 0,
	}
	kinds := []string{"tcp", "raw", "raw", "udp"}
	ops := []string{"online", "online", "online", "send", "send", "send", "offline", "leave"}
	if c.Restart { // packet peers do not outlive the socket
		kinds = kinds[:3]
		ops = append(ops, "restart")
	}
	for i, n := 0, rapid.IntRange(2, 12).Draw(t, "n"); i < n; i++ {
		c.Ops = append(c.Ops, kindOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
			C: rapid.IntRange(0, 1).Draw(t, "c"), User: rapid.IntRange(0, 2).Draw(t, "user")})
	}
	return c
}

func runKindCase(e *Env, c kindCase) {
	e.Bubble(func(h *H) {
		const rawAddr = ":7373"
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{}).WithBuiltInPool(true)
		if c.Signals {
			srv.WithBroadCastSignal(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, 1000*time.Hour)
		}
		if c.Max {
			srv.SetMaxBytePerMessage(500)
		}
		if c.Connect {
			srv.OnConnect = func(ctx *tcpx.Context) {}
		}
		if c.Close {
			srv.OnClose = func(ctx *tcpx.Context) {}
		}
		var job func(ctx *tcpx.Context)
		hd := func(ctx *tcpx.Context) {
			if j := job; j != nil {
				j(ctx)
			}
		}
		if c.Message {
			srv.OnMessage = hd
		} else {
			srv.AddHandler(1, hd)
		}
		srv.HandleRaw = func(ctx *tcpx.Context) {
			for {
				if _, err := wire.ReadBlock(ctx.ConnReader); err != nil {
					return
				}
				hd(ctx)
			}
		}
		h.Serve(srv, "tcp", addr)
		h.Go(func() error { return srv.ListenAndServeRaw("tcp", rawAddr) })
		h.Go(func() error {
			if c.Buffer > 0 {
				return srv.ListenAndServeUDP("udp", addr, c.Buffer)
			}
			return srv.ListenAndServeUDP("udp", addr)
		})
		h.Settle()
		type peer struct {
			kind string
			idx  int
			cl   *Client
			name string
		}
		slots := map[string]*peer{}
		online := map[string]*peer{}
		var witness *tcpx.ClientPool
		next, mixed := 0, false
		do := func(p *peer, step string, f func(ctx *tcpx.Context)) {
			ran := 0
			job = func(ctx *tcpx.Context) { ran++; f(ctx) }
			if p.kind == "udp" {
				h.Net.Send("udp", addr, vnet.Datagram{Data: msgFrame(1, js("x")), Addr: udpAddr(p.idx)})
			} else {
				p.cl.Send(msgFrame(1, js("x")))
			}
			h.Settle()
			job = nil
			if ran != 1 && !h.Failed() {
				h.Fail("lost", "%s: the request was handled %d times", step, ran)
			}
		}
		received := func(p *peer) int {
			if p.kind != "udp" {
				fs, err := p.cl.Frames()
				if err != nil {
					h.Fail("garbled", "%s peer %d received garbage: %v", p.kind, p.idx, err)
				}
				return len(fs)
			}
			n := 0
			for _, d := range h.Net.Packet("udp", addr).Sent() {
				if d.Addr.String() == udpAddr(p.idx).String() {
					n++
				}
			}
			return n
		}
		drop := func(p *peer) {
			for u, o := range online {
				if o == p {
					delete(online, u)
				}
			}
		}
		for i, o := range c.Ops {
			if h.Failed() {
				return
			}
			key := fmt.Sprint(o.Kind, o.C)
			user := poolUsers[o.User]
			step := fmt.Sprintf("step %d %s(%s %d, %q)", i, o.Op, o.Kind, o.C, user)
			if o.Op == "restart" {
				if err := srv.Restart(false); err != nil {
					h.Fail("restart", "%s: %v", step, err)
				}
				h.Settle()
			} else {
				p := slots[key]
				if p == nil {
					next++
					p = &peer{kind: o.Kind, idx: next}
					at := addr
					if o.Kind == "raw" {
						at = rawAddr
					}
					if o.Kind != "udp" {
						if p.cl = h.Dial("tcp", at, vnet.Opt{ClientAddr: tcpAddr(next)}); p.cl == nil {
							h.Fail("refused", "%s: connection refused", step)
							return
						}
						h.Settle()
					}
					slots[key] = p
				}
				switch o.Op {
				case "online":
					do(p, step, func(ctx *tcpx.Context) {
						if err := ctx.Online(user); err != nil {
							h.Fail("online", "%s: %v", step, err)
						}
						witness = ctx.GetPoolRef()
					})
					p.name = user
					online[user] = p
				case "offline":
					if p.kind == "udp" || p.name == "" {
						continue
					}
					do(p, step, func(ctx *tcpx.Context) {
						if err := ctx.Offline(); err != nil {
							h.Fail("offline", "%s: %v", step, err)
						}
					})
					drop(p)
				case "leave":
					if p.kind == "udp" {
						continue
					}
					p.cl.Close()
					h.Settle()
					drop(p)
					delete(slots, key)
				case "send":
					to := online[user]
					before := map[*peer]int{}
					for _, q := range slots {
						before[q] = received(q)
					}
					do(p, step, func(ctx *tcpx.Context) {
						if err := ctx.SendToUsername(user, 9, "hello"); (err == nil) != (to != nil) {
							h.Fail("send", "%s: SendToUsername returned %v, the user is online: %v", step, err, to != nil)
						}
					})
					for _, q := range slots {
						want := before[q]
						if q == to {
							want++
						}
						if n := received(q); n != want {
							h.Fail("delivery", "%s: %s peer %d received %d messages, want %d", step, q.kind, q.idx, n-before[q], want-before[q])
						}
					}
					if to != nil && to.kind != p.kind {
						mixed = true
					}
				}
			}
			if witness == nil || h.Failed() {
				continue
			}
			for _, u := range poolUsers[:3] {
				got, want := witness.GetClientPool(u), online[u]
				if (got == nil) != (want == nil) {
					h.Fail("pool", "%s: %q is in the pool: %v, is online: %v", step, u, got != nil, want != nil)
				} else if got != nil {
					is := got.ClientIP()
					if a := tcpAddr(want.idx); want.kind == "udp" {
						if got.Network() != "udp" || got.Addr.String() != udpAddr(want.idx).String() {
							h.Fail("wrong", "%s: %q is %s %s, want udp peer %d", step, u, got.Network(), is, want.idx)
						}
					} else if got.Network() != "tcp" || got.Conn.RemoteAddr().String() != a.String() {
						h.Fail("wrong", "%s: %q is %s %s, want %s", step, u, got.Network(), is, a)
					}
				}
			}
		}
		if len(online) > 0 || mixed {
			e.NonTrivial()
		}
		if mixed {
			e.Label("sent from one kind to another")
		}
	})
}

// Going online and ending at the very same time, over and over.

type hammerRound struct {
	Kind string `json:"kind"` // takeover, late, offline
	Lead int    `json:"lead"` // how far the second goroutine is held back (negative: the first)
}

type hammerCase struct {
	Rounds []hammerRound `json:"rounds"`
	Repeat int           `json:"repeat"`
	Raw    bool          `json:"raw"`
}

func genHammerCase(t *rapid.T) hammerCase {
	c := hammerCase{Repeat: 12, Raw: rapid.IntRange(0, 3).Draw(t, "raw") == 0}
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
		c.Rounds = append(c.Rounds, hammerRound{Kind: rapid.SampledFrom([]string{"takeover", "late", "late", "offline"}).Draw(t, "kind"), Lead: rapid.SampledFrom([]int{0, 10, 30, -10, -30, 1000, 300, 100, 60, -60, 150, 200, 250, 400, 500, 600, 800, 1300, 1700}).Draw(t, "lead")})
	}
	return c
}

// together runs f and g in parallel, as nearly at one time as can be, the one or the other held back a little.
func together(lead int, f, g func()) {
	var ready int32
	var wg sync.WaitGroup
	start := func(wait int, f func()) {
		defer wg.Done()
		atomic.AddInt32(&ready, 1)
		for i := 0; atomic.LoadInt32(&ready) < 2; i++ {
			if i > 1000 {
				runtime.Gosched()
			}
		}
		for ; wait > 0; wait-- {
			atomic.LoadInt32(&ready)
		}
		f()
	}
	wg.Add(2)
	go start(-lead*8, f)
	go start(lead*8, g)
	wg.Wait()
}

func runHammerCase(e *Env, c hammerCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{}).WithBuiltInPool(true)
		var mu sync.Mutex
		base := map[int]*tcpx.Context{}
		srv.OnConnect = func(ctx *tcpx.Context) {
			mu.Lock()
			base[connIndex(ctx)] = ctx
			mu.Unlock()
		}
		srv.HandleRaw = func(ctx *tcpx.Context) { io.Copy(io.Discard, ctx.ConnReader) }
		if c.Raw {
			h.Go(func() error { return srv.ListenAndServeRaw("tcp", addr) })
			h.settleNow()
		} else {
			h.Serve(srv, "tcp", addr)
		}
		next := 0
		dial := func() *tcpx.Context {
			next++
			if cl := h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(next)}); cl == nil {
				h.Fail("refused", "connection refused")
				return nil
			}
			h.settleNow()
			mu.Lock()
			defer mu.Unlock()
			if base[next] == nil {
				h.Fail("lost", "no OnConnect")
			}
			return base[next]
		}
		b := dial()
		if b == nil {
			return
		}
		pool := b.GetPoolRef()
		for i := 0; i < c.Repeat*len(c.Rounds) && !h.Failed(); i++ {
			r := c.Rounds[i%len(c.Rounds)]
			a := dial()
			if a == nil {
				return
			}
			if err := a.Online("ann"); err != nil {
				h.Fail("online", "Online: %v", err)
			}
			switch r.Kind {
			case "takeover", "offline":
				leave := func() { a.CloseConn() }
				if r.Kind == "offline" {
					leave = func() { a.Offline() }
				}
				together(r.Lead, leave, func() {
					if err := b.Online("ann"); err != nil {
						h.Fail("online", "Online: %v", err)
					}
				})
				h.settleNow()
				if got := pool.GetClientPool("ann"); got == nil {
					h.Fail("missing", "round %d (%s): a connection went online as the former one under that name left, and is not in the pool", i, r.Kind)
				} else if connIndex(got) != 1 {
					h.Fail("stale", "round %d (%s): the name stands for the connection that left", i, r.Kind)
				}
				b.Offline()
				a.CloseConn()
			case "late":
				together(r.Lead, func() { a.CloseConn() }, func() { a.Online("bob") })
				h.settleNow()
				for _, u := range []string{"ann", "bob"} {
					if pool.GetClientPool(u) != nil {
						h.Fail("stale", "round %d: %q is in the pool, its connection ended as it went online", i, u)
					}
				}
			}
			h.settleNow()
			if len(c.Rounds) > 0 && pool.GetClientPool("ann") != nil && !h.Failed() {
				h.Fail("stale", "round %d (%s): everybody has left, but the name is in the pool", i, r.Kind)
			}
		}
		e.NonTrivial()
	})
}

func init() {
	reg("C11", "life", 64000, 640000, "1-5 connections (framed or raw, with drawn pool, signal, heartbeat, auth and size-limit settings), each with messages, handlers still running, and one of 18 causes of its end; one case in eight on a unix socket, whose clients all have the same address; non-trivial: at least one connection ends while the server runs", genLifeCase, runLifeCase)
	reg("C12", "pool", 64000, 640000, "2-33 steps of connect, online (also under further names, or after the end), offline, send by name, send by context, close by either side and handler panics over 5 connection slots, 5 UDP peers and 14 names (at times with a crowd of others online), called from handlers of either router, alone or in a pipe, or from the OnConnect context; one case in eight on a unix socket, whose clients all have the same address; non-trivial: at least one message was delivered by name", genPoolCase, runPoolCase)
	reg("C12", "hammer", 4000, 48000, "12-144 times a connection is closed or taken offline while, at that very moment, another takes its name over or it goes online under another name itself, on parallel processors; non-trivial: every case", genHammerCase, runHammerCase)
	reg("C12", "kinds", 8000, 96000, "2-12 of going online and offline, sending, leaving and restarting by up to 6 peers of one server over plain, raw and packet listeners which share a pool, under drawn settings; non-trivial: somebody is online at the end, or a message went from one kind to another", genKindCase, runKindCase)
	reg("C14", "beat", 64000, 640000, "1-3 connections in virtual time with up to 8 timed events (heartbeats, alone, in pipes and in bursts of up to hundreds, other, unknown, old-id and never-ending messages) under 8 heartbeat settings; one case in eight on a unix socket, whose clients all have the same address; non-trivial: heartbeats are on or one is sent", genBeatCase, runBeatCase)
	reg("C15", "auth", 64000, 640000, "1-4 connections in virtual time with up to 5 timed events (pass, deny, both, silent, other) before and after the deadline, through middlewares or not; one case in eight on a unix socket, whose clients all have the same address; non-trivial: authentication is on", genAuthCase, runAuthCase)
}
