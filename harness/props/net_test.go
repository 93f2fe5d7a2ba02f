package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/netip"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- C16 stop and start

type stopOp struct {
	Op   string `json:"op"` // stop, stopall, stops (at once), start, restart, restartall, dial, ask, close, wait
	L    int    `json:"l"`  // listener
	K    int    `json:"k"`
	Anon bool   `json:"anon"`         // the connection does not go online
	In   bool   `json:"in,omitempty"` // called by a handler
}

type stopCase struct {
	Listeners []string `json:"listeners"`
	Pool      bool     `json:"pool"`
	Signals   bool     `json:"signals"`
	Beat      bool     `json:"beat"`
	Auth      bool     `json:"auth"`
	Message   bool     `json:"message,omitempty"` // OnMessage does it all
	Share     bool     `json:"share"`             // packet and stream listeners share port numbers
	Ops       []stopOp `json:"ops"`
}

var stopNets = []string{"tcp", "tcp", "tcp4", "tcp6", "unix", "udp", "udp4", "raw", "udp-big"}
var stopOps = []string{"stop", "stop", "stopall", "stopall", "start", "start", "start", "restart", "restartall", "stops", "stops", "dial", "dial", "dial", "ask", "ask", "close", "wait", "greet", "greeted", "peer", "peer"}

func genStopCase(t *rapid.T) stopCase {
	c := stopCase{
		Listeners: rapid.SliceOfN(rapid.SampledFrom(stopNets), 1, 3).Draw(t, "nets"),
		Pool:      rapid.Bool().Draw(t, "pool"),
		Signals:   rapid.Bool().Draw(t, "signals"),
		Beat:      rapid.Bool().Draw(t, "beat"),
		Auth:      rapid.IntRange(0, 3).Draw(t, "auth") == 0,
		Share:     rapid.Bool().Draw(t, "share"),
	}
	if rapid.IntRange(0, 5).Draw(t, "onmessage") == 3 {
		c.Message, c.Beat, c.Auth = true, false, false
	}
	n := rapid.IntRange(2, 12).Draw(t, "n")
	if rapid.IntRange(0, 79).Draw(t, "many") == 79 { // a server with many listeners
		c.Listeners = rapid.SliceOfN(rapid.SampledFrom(stopNets), 9, 14).Draw(t, "nets")
		c.Beat, c.Auth = false, false
		n = rapid.IntRange(2, 5).Draw(t, "n")
	}
	c.Ops = append(c.Ops, stopOp{Op: "dial", L: 0, K: 0})
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, stopOp{Op: rapid.SampledFrom(stopOps).Draw(t, "op"), L: rapid.IntRange(0, len(c.Listeners)-1|2).Draw(t, "l"), K: rapid.IntRange(0, 3).Draw(t, "k"), Anon: rapid.IntRange(0, 3).Draw(t, "anon") == 0, In: rapid.IntRange(0, 3).Draw(t, "in") == 3})
	}
	return c
}

func runStopCase(e *Env, c stopCase) {
	e.Bubble(func(h *H) {
		const interval = 10 * time.Second
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		if c.Signals {
			srv.WithBroadCastSignal(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, interval)
		}
		if c.Auth {
			srv.WithAuthDetail(true, 5*time.Second, false, 77, func(ctx *tcpx.Context) { ctx.RecvAuthPass() })
		}
		anon := map[int]bool{}
		var mu sync.Mutex
		var pool *tcpx.ClientPool
		greets := map[int]chan struct{}{} // connections whose OnConnect takes its time
		srv.OnConnect = func(ctx *tcpx.Context) {
			i := connIndex(ctx)
			mu.Lock()
			g := greets[i]
			mu.Unlock()
			if g != nil {
				<-g
			}
			if !c.Pool {
				return
			}
			mu.Lock()
			a := anon[i]
			pool = ctx.GetPoolRef()
			mu.Unlock()
			if !a {
				ctx.Online(fmt.Sprintf("u%d", i))
			}
		}
		routes := map[int32]func(*tcpx.Context){}
		add := func(id int32, f func(*tcpx.Context)) {
			routes[id] = f
			srv.AddHandler(id, f)
		}
		echo := func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			ctx.JSON(2, s)
		}
		add(1, echo)
		srv.Any("/e/", echo)
		var inside func()
		add(5, func(ctx *tcpx.Context) {
			if f := inside; f != nil {
				f()
			}
		})
		if c.Message {
			srv.OnMessage = func(ctx *tcpx.Context) {
				f, err := wire.Parse(ctx.Stream)
				if err != nil {
					h.Fail("content", "OnMessage got %s: %v", hexs(ctx.Stream), err)
					return
				}
				if bytes.Contains(f.Header, []byte("/e/")) {
					echo(ctx)
				} else if do := routes[f.ID]; do != nil {
					do(ctx)
				}
			}
		}
		peers := map[string]bool{} // names of packet peers: whether online
		add(3, func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			mu.Lock()
			pool = ctx.GetPoolRef()
			mu.Unlock()
			if err := ctx.Online(s); err != nil {
				h.Fail("pool", "a packet peer cannot go online as %q: %v", s, err)
			}
		})
		srv.HandleRaw = func(ctx *tcpx.Context) {
			b := make([]byte, 256)
			for {
				n, err := ctx.ConnReader.Read(b)
				if n > 0 {
					ctx.ConnWriter.Write(append([]byte("raw:"), b[:n]...))
				}
				if err != nil {
					return
				}
			}
		}
		h.Net.Split6 = true
		type lst struct{ kind, network, addr string }
		family := map[string]int{}
		var ls []lst
		var serving []*Serving
		for i, k := range c.Listeners {
			port := 8000 + i
			if c.Share { // tcp and udp have port numbers of their own, and so does version 6
				f := k[:3]
				if k == "tcp6" {
					f = k
				}
				port = 8000 + family[f]
				family[f]++
			}
			l := lst{k, k, fmt.Sprintf(":%d", port)}
			switch k {
			case "raw":
				l.network, l.addr = "tcp", fmt.Sprintf(":%d", port+100)
			case "unix":
				l.addr = fmt.Sprintf("/virtual/%d.sock", i)
			case "udp-big":
				l.network = "udp"
			}
			ls = append(ls, l)
		}
		packet := func(l lst) bool { return l.network == "udp" || l.network == "udp4" }
		for _, l := range ls {
			switch l.kind {
			case "raw":
				serving = append(serving, h.Go(func() error { return srv.ListenAndServeRaw(l.network, l.addr) }))
			case "udp-big":
				serving = append(serving, h.Go(func() error { return srv.ListenAndServeUDP(l.network, l.addr, 9000) }))
			default:
				serving = append(serving, h.Go(func() error { return srv.ListenAndServe(l.network, l.addr) }))
			}
			h.Settle()
		}
		type conn struct {
			cl   *Client
			l    lst
			anon bool
			idx  int
			hit  bool // by a Stop(true), during its OnConnect
		}
		var live []*conn
		var gone []*conn
		var greeted []*conn // still in OnConnect
		next := 0
		running := true
		asks := 0
		ask := func(k *conn, when string) {
			asks++
			tag := fmt.Sprintf("a%d", asks)
			k.cl.Poll()
			before := len(k.cl.got)
			if k.l.kind == "raw" {
				k.cl.Send([]byte(tag))
				h.Settle()
				k.cl.Poll()
				if got := string(k.cl.got[before:]); got != "raw:"+tag {
					h.Fail("unserved", "%s: a connection on %s (raw) is not served: got %q", when, k.l.addr, got)
				}
				return
			}
			switch asks % 3 {
			case 0:
				k.cl.Send(msgFrame(1, js(tag)))
			case 1:
				k.cl.Send(urlFrame("/e/", js(tag)))
			case 2:
				k.cl.Send(append(pipeFrame(31337, `"enable;2"`, js("x")), msgFrame(1, js(tag))...))
			}
			h.Settle()
			k.cl.Poll()
			f, err := wire.Parse(k.cl.got[before:])
			if err != nil || string(f.Body) != string(js(tag)) {
				h.Fail("unserved", "%s: a connection on %s %s is not served (closed %v): %q", when, k.l.network, k.l.addr, k.cl.Closed(), k.cl.got[before:])
			}
		}
		udpAsk := func(l lst, when string) {
			asks++
			tag := fmt.Sprintf("a%d", asks)
			p := h.Net.Packet(l.network, l.addr)
			if p == nil {
				h.Fail("down", "%s: nothing listens on %s %s", when, l.network, l.addr)
				return
			}
			before := len(p.Sent())
			body := js(tag)
			if l.kind == "udp-big" {
				body = append(body, bytes.Repeat([]byte(" "), 6000)...)
			}
			d := msgFrame(1, body)
			if asks%3 == 1 {
				d = urlFrame("/e/", body)
			}
			h.Net.Send(l.network, l.addr, vnet.Datagram{Data: d, Addr: udpAddr(1)})
			h.Settle()
			out := p.Sent()
			if len(out) != before+1 {
				h.Fail("unserved", "%s: a datagram to %s %s (%s) got %d answers", when, l.network, l.addr, l.kind, len(out)-before)
			}
		}
		dial := func(l lst, an bool, when string) *conn {
			mu.Lock()
			anon[next] = an
			mu.Unlock()
			k := &conn{l: l, anon: an, idx: next}
			k.cl = h.Dial(l.network, l.addr, vnet.Opt{ClientAddr: tcpAddr(next)})
			next++
			if k.cl == nil {
				return nil
			}
			h.Settle()
			if c.Auth && l.kind != "raw" {
				k.cl.Send(msgFrame(77, js("x")))
				h.Settle()
			}
			return k
		}
		beat := func() {
			for _, k := range live {
				if c.Beat && k.l.kind != "raw" {
					k.cl.Send(msgFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, js("b")))
				}
			}
			h.Settle()
		}
		verify := func(when string) {
			if h.Failed() {
				return
			}
			st := tcpx.STATE_STOP
			if running {
				st = tcpx.STATE_RUNNING
			}
			if srv.State() != st {
				h.Fail("state", "%s: State() is %d, want %d", when, srv.State(), st)
			}
			for _, l := range ls {
				up := h.Net.Listening(l.network, l.addr)
				if up != running {
					h.Fail("listening", "%s: listening on %s %s is %v, want %v", when, l.network, l.addr, up, running)
					return
				}
				if !running {
					continue
				}
				if packet(l) {
					udpAsk(l, when)
				} else if k := dial(l, true, when); k == nil {
					h.Fail("down", "%s: %s %s refuses connections", when, l.network, l.addr)
				} else {
					ask(k, when+", fresh connection")
					k.cl.Close()
					h.Settle()
				}
				if h.Failed() {
					return
				}
			}
			for _, k := range live {
				if k.cl.Closed() {
					h.Fail("dropped", "%s: connection %d on %s was closed", when, k.idx, k.l.network)
					return
				}
				ask(k, when+", older connection")
				if c.Pool && !k.anon {
					mu.Lock()
					x := pool.GetClientPool(fmt.Sprintf("u%d", k.idx))
					mu.Unlock()
					if x == nil || connIndex(x) != k.idx {
						h.Fail("pool", "%s: living connection %d is no longer in the pool", when, k.idx)
					}
				}
			}
			for name, on := range peers {
				mu.Lock()
				x := pool.GetClientPool(name)
				mu.Unlock()
				if on && running && x == nil || !on && x != nil {
					h.Fail("pool", "%s: the packet peer %q is in the pool: %v, want %v", when, name, x != nil, on)
				}
			}
			for _, k := range gone {
				if !k.cl.Closed() {
					h.Fail("survivor", "%s: connection %d on %s %s survived Stop(true) (signals %v, pool %v)", when, k.idx, k.l.network, k.l.addr, c.Signals, c.Pool)
				}
				if c.Pool && pool != nil && pool.GetClientPool(fmt.Sprintf("u%d", k.idx)) != nil {
					h.Fail("pool", "%s: closed connection %d is still in the pool", when, k.idx)
				}
			}
		}
		killAll := func() {
			var keep []*conn
			for _, k := range live {
				switch {
				case c.Signals, c.Pool && !k.anon:
					gone = append(gone, k)
				case c.Beat || c.Auth || c.Pool:
					// whether Stop(true) reaches a connection which is in no pool, without
					// signals, is not specified
					k.cl.Close()
				default:
					k.cl.Close()
				}
			}
			live = keep
			for name := range peers {
				peers[name] = false
				h.Label("stopped with a packet peer online")
			}
			for _, k := range greeted {
				k.hit = true
			}
		}
		release := func(when string) {
			for _, k := range greeted {
				close(greets[k.idx])
				h.Settle()
				switch {
				case k.hit && c.Signals:
					gone = append(gone, k)
					h.NonTrivial()
					h.Label("stopped during OnConnect")
				case k.hit: // in no pool, as above
					k.cl.Close()
				default:
					if c.Auth && k.l.kind != "raw" {
						k.cl.Send(msgFrame(77, js("x")))
					}
					live = append(live, k)
				}
				h.Settle()
			}
			greeted = nil
		}
		// from has f called here, or by a handler of a living connection
		from := func(in bool, when string, f func()) {
			if in {
				for _, k := range live {
					if k.l.kind != "raw" {
						done := false
						inside = func() { f(); done = true }
						k.cl.Send(msgFrame(5, js("x")))
						h.Settle()
						inside = nil
						if !done {
							h.Fail("stuck", "%s: called by a handler, it has not returned", when)
						}
						h.Label("called by a handler")
						return
					}
				}
			}
			f()
		}
		verify("at the start")
		stops := 0
		for i, o := range c.Ops {
			if h.Failed() {
				return
			}
			when := fmt.Sprintf("step %d (%s)", i, o.Op)
			l := ls[o.L%len(ls)]
			switch o.Op {
			case "stop", "stopall", "stops":
				if o.Op == "stops" {
					n := 2 + o.K
					oks := make([]bool, n)
					pans := make([]string, n)
					all := o.L > 0
					var wg sync.WaitGroup
					gun := make(chan struct{})
					for j := 0; j < n; j++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-gun
							p, _ := safely(func() { oks[j] = srv.Stop(all) == nil })
							if p != nil {
								pans[j] = fmt.Sprint(p)
							}
						}()
					}
					synctest.Wait()
					close(gun)
					wg.Wait()
					good := 0
					for j := range oks {
						if oks[j] {
							good++
						}
						if pans[j] != "" {
							h.Fail("panic", "%s: one of %d Stop(%v) calls at once panicked: %s", when, n, all, pans[j])
						}
					}
					want := 0
					if running {
						want = 1
					}
					if good != want {
						h.Fail("error", "%s: %d of %d Stop(%v) calls at once succeeded; running was %v", when, good, n, all, running)
					}
					if running && all {
						killAll()
					}
				} else {
					var err error
					from(o.In, when, func() { err = srv.Stop(o.Op == "stopall") })
					if (err == nil) != running {
						h.Fail("error", "%s: Stop returned %v, running was %v", when, err, running)
					}
					if running && o.Op == "stopall" {
						killAll()
					}
				}
				if running {
					stops++
				}
				running = false
				h.Settle()
				h.Settle()
				for j, s := range serving {
					if d, err, p := s.Returned(); !d || err != nil || p != "" {
						h.Fail("return", "%s: serving %s ended: %v, error %v, panic %q", when, ls[j].network, d, err, p)
					}
				}
			case "start":
				var err error
				from(o.In, when, func() { err = srv.Start() })
				if (err == nil) == running {
					h.Fail("error", "%s: Start returned %v, running was %v", when, err, running)
				}
				running = true
				h.Settle()
			case "restart", "restartall":
				var order []int
				mk := func(n int) func() {
					return func() {
						order = append(order, n)
						for _, l := range ls {
							if h.Net.Listening(l.network, l.addr) {
								h.Fail("restart", "%s: %s %s is still listening when the beforeStart functions run", when, l.network, l.addr)
							}
						}
					}
				}
				var err error
				from(o.In, when, func() { err = srv.Restart(o.Op == "restartall", mk(0), mk(1)) })
				if (err == nil) != running {
					h.Fail("error", "%s: Restart returned %v, running was %v", when, err, running)
				}
				want := 0
				if running {
					want = 2
					stops++
					if o.Op == "restartall" {
						killAll()
					}
				}
				if len(order) != want || want == 2 && (order[0] != 0 || order[1] != 1) {
					h.Fail("restart", "%s: beforeStart functions ran as %v", when, order)
				}
				h.Settle()
				h.Settle()
			case "dial":
				if packet(l) || len(live) >= 4 {
					continue
				}
				k := dial(l, o.Anon, when)
				if (k != nil) != running {
					h.Fail("listening", "%s: dialing %s succeeded: %v, running %v", when, l.network, k != nil, running)
				}
				if k != nil {
					live = append(live, k)
				}
			case "peer":
				if !packet(l) || !running || !c.Pool {
					continue
				}
				name := fmt.Sprintf("p%d", o.K)
				h.Net.Send(l.network, l.addr, vnet.Datagram{Data: msgFrame(3, js(name)), Addr: udpAddr(10 + o.K)})
				h.Settle()
				peers[name] = true
			case "greet":
				if packet(l) || !running || len(greeted) > 1 {
					continue
				}
				mu.Lock()
				anon[next], greets[next] = true, make(chan struct{})
				mu.Unlock()
				k := &conn{l: l, anon: true, idx: next}
				k.cl = h.Dial(l.network, l.addr, vnet.Opt{ClientAddr: tcpAddr(next)})
				next++
				if k.cl == nil {
					h.Fail("listening", "%s: dialing %s failed", when, l.network)
					continue
				}
				h.Settle()
				greeted = append(greeted, k)
			case "greeted":
				release(when)
			case "ask":
				if len(live) > 0 {
					ask(live[o.K%len(live)], when)
				}
			case "close":
				if len(live) > 0 {
					j := o.K % len(live)
					live[j].cl.Close()
					live = append(live[:j], live[j+1:]...)
					h.Settle()
				}
			case "wait":
				for j := 0; j < 5; j++ {
					beat()
					time.Sleep(9 * time.Second)
				}
				beat()
				if c.Beat { // a raw connection has no messages, so no heartbeats
					var keep []*conn
					for _, k := range live {
						if k.l.kind == "raw" {
							k.cl.Close()
						} else {
							keep = append(keep, k)
						}
					}
					live = keep
					h.Settle()
				}
			}
			verify(when)
			// a raw listener's connections would time out for want of heartbeats
		}
		if len(greeted) > 0 && !h.Failed() {
			release("at the end")
			verify("at the end")
		}
		if stops > 0 {
			e.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C17 udp

type udpMsg struct {
	From  int    `json:"from"`
	Kind  string `json:"kind"`
	ID    int32  `json:"id"`
	Size  int    `json:"size"`
	Gate  bool   `json:"gate"`
	Burst bool   `json:"burst"` // sent without waiting for the one before
	Errs  int    `json:"errs"`  // transient read errors ahead of it
	WaitS int    `json:"wait_s"`
	Rep   int    `json:"rep,omitempty"`  // as many more like it
	Keep  bool   `json:"keep,omitempty"` // a goroutine replies with the context after the handler has returned
}

type udpCase struct {
	Beat    bool     `json:"beat"`
	Signals bool     `json:"signals"`
	Pool    bool     `json:"pool"`
	Buf     int      `json:"buf"`
	Msgs    []udpMsg `json:"msgs"`
	Message bool     `json:"message,omitempty"` // OnMessage is set
	Peers   int      `json:"peers,omitempty"`   // among how many peers repeated messages go round; 4 if 0
}

func genUDPCase(t *rapid.T) udpCase {
	c := udpCase{
		Beat:    rapid.Bool().Draw(t, "beat"),
		Signals: rapid.Bool().Draw(t, "signals"),
		Pool:    rapid.Bool().Draw(t, "pool"),
		Buf:     rapid.SampledFrom([]int{0, 0, 100, 9000}).Draw(t, "buf"),
	}
	if rapid.IntRange(0, 19).Draw(t, "oddbuf") == 0 {
		c.Buf = rapid.SampledFrom([]int{500, 1472, 4095, 4097, 32769, 40000, 65507}).Draw(t, "buf")
	}
	n := rapid.IntRange(1, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, udpMsg{
			From:  rapid.IntRange(0, 3).Draw(t, "from"),
			Kind:  rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "url", "cut", "tail", "garbage", "empty", "beat", "unknown", "panic", "fit", "over", "piped"}).Draw(t, "kind"),
			ID:    rapid.SampledFrom([]int32{1, 2, -3}).Draw(t, "id"),
			Size:  rapid.IntRange(0, 60).Draw(t, "size"),
			Gate:  rapid.IntRange(0, 2).Draw(t, "gate") == 0,
			Burst: rapid.Bool().Draw(t, "burst"),
			Errs:  rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 3, 12}).Draw(t, "errs"),
			WaitS: rapid.SampledFrom([]int{0, 0, 0, 0, 25, 100, 4000, 200000}).Draw(t, "wait"),
			Keep:  rapid.IntRange(0, 4).Draw(t, "keep") == 0,
		})
		if rapid.IntRange(0, 79).Draw(t, "again") == 0 {
			c.Msgs[i].Rep = rapid.IntRange(1, 280).Draw(t, "rep")
		}
	}
	if rapid.IntRange(0, 399).Draw(t, "busy") == 200 { // a server that has received thousands of datagrams
		c.Buf = rapid.SampledFrom([]int{0, 100}).Draw(t, "smallbuf")
		c.Msgs[0].Kind, c.Msgs[0].Size = rapid.SampledFrom([]string{"ok", "ok", "url", "unknown", "garbage", "panic"}).Draw(t, "manykind"), 3
		c.Msgs[0].Gate, c.Msgs[0].Rep = rapid.Bool().Draw(t, "parked"), rapid.SampledFrom([]int{550, 1100, 2100, 4200}).Draw(t, "manymsgs")
	}
	c.Message = rapid.IntRange(0, 6).Draw(t, "onmessage") == 0
	c.Peers = rapid.SampledFrom([]int{0, 0, 1, 50, 5000}).Draw(t, "peers")
	return c
}

func runUDPCase(e *Env, c udpCase) {
	var msgs []udpMsg
	for _, m := range c.Msgs {
		for k := 0; k <= m.Rep; k++ {
			if k == 1 {
				m.Errs, m.WaitS = 0, 0
			}
			peers := c.Peers
			if peers == 0 {
				peers = 4
			}
			m.From = (m.From + 1) % peers
			msgs = append(msgs, m)
		}
	}
	c.Msgs = msgs
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Beat {
			srv.HeartBeatMode(true, 10*time.Second)
		}
		if c.Signals {
			srv.WithBroadCastSignal(true)
		}
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		gated := map[string]bool{}
		kept := map[string]bool{}
		for i, m := range c.Msgs {
			if m.Gate {
				gated[fmt.Sprintf("d%d", i)] = true
			}
			if m.Keep {
				kept[fmt.Sprintf("d%d", i)] = true
			}
		}
		rec := &recorder{}
		mk := func(route string) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				if v, ok := ctx.GetCtxPerConn("seen"); ok {
					h.Fail("scope", "a datagram's context already holds %v", v)
				}
				v := rec.begin(route, ctx)
				if ctx.Network() != "udp" {
					h.Fail("network", "Network() is %q", ctx.Network())
				}
				ctx.SetCtxPerConn("seen", v.bind)
				ctx.SetCtxPerRequest("mine", v.bind)
				if gated[v.bind] {
					h.Gate(v.bind)
				}
				if x, ok := ctx.GetCtxPerConn("seen"); !ok || x != any(v.bind) {
					h.Fail("scope", "a datagram's own value is %v (%v)", x, ok)
				}
				answer := func() {
					if err := ctx.Reply(100, v.bind, map[string]any{"r": route}); err != nil {
						h.Fail("reply", "Reply: %v", err)
					}
					if err := ctx.JSON(101, "second"); err != nil {
						h.Fail("reply", "JSON: %v", err)
					}
					rec.finish(v)
				}
				if kept[v.bind] {
					go func() {
						time.Sleep(time.Second)
						if x, ok := ctx.GetCtxPerRequest("mine"); !ok || x != any(v.bind) {
							h.Fail("scope", "a datagram's own value is %v (%v) after its handler returned", x, ok)
						}
						answer()
					}()
					return
				}
				answer()
			}
		}
		order := map[string][]string{}
		var mu sync.Mutex
		srv.UseGlobal(func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			mu.Lock()
			order[s] = append(order[s], "global")
			mu.Unlock()
		})
		srv.Use("anchor", func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			mu.Lock()
			order[s] = append(order[s], "anchor")
			mu.Unlock()
		})
		for _, id := range []int32{1, 2, -3} {
			srv.AddHandler(id, mk(fmt.Sprintf("id:%d", id)))
		}
		srv.AddHandler(50, func(ctx *tcpx.Context) { panic("boom") })
		srv.Any("/u/", mk("url:/u/"))
		if c.Message {
			srv.OnMessage = mk("onmessage")
		}
		buf := 4096
		var s *Serving
		if c.Buf > 0 {
			buf = c.Buf
			s = h.Go(func() error { return srv.ListenAndServeUDP("udp", addr, c.Buf) })
		} else {
			s = h.Go(func() error { return srv.ListenAndServe("udp", addr) })
		}
		h.Settle()
		p := h.Net.Packet("udp", addr)
		if p == nil {
			h.Fail("no-listen", "no udp socket")
			return
		}
		type want struct {
			route string
			frame []byte
			from  int
		}
		wants := map[string]want{}
		silent := map[string]bool{}
		for i, m := range c.Msgs {
			tag := fmt.Sprintf("d%d", i)
			body := js(tag)
			if m.Size > 0 && m.Kind != "fit" && m.Kind != "over" {
				body = append(body, blanks(m.Size%24)...)
			}
			f := wire.Build(m.ID, []byte(`{}`), body)
			route := fmt.Sprintf("id:%d", m.ID)
			d := f
			switch m.Kind {
			case "url":
				f = urlFrame("/u/", js(tag))
				d, route = f, "url:/u/"
			case "piped": // a datagram is a message of its own, whatever it announces
				f = pipeFrame(m.ID, fmt.Sprintf(`"enable;%d"`, 1+m.Size%3), js(tag))
				d = f
			case "cut":
				d, route = f[:len(f)-1-m.Size%10], ""
			case "tail": // only the first block counts
				d = append(append([]byte(nil), f...), wire.Build(2, []byte(`{}`), js("hidden"))[:m.Size%26]...)
			case "garbage":
				d, route = bytes.Repeat([]byte{0xfe}, 1+m.Size), ""
			case "empty":
				d, route = nil, ""
			case "beat":
				d, route = msgFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, js(tag)), ""
			case "unknown":
				d, route = msgFrame(31337, js(tag)), ""
			case "panic":
				d, route = msgFrame(50, js(tag)), ""
			case "fit", "over":
				n := buf - len(f)
				if m.Kind == "over" {
					n++
				}
				if n < 0 {
					continue
				}
				f = wire.Build(m.ID, []byte(`{}`), append(append([]byte(nil), body...), blanks(n)...))
				d = f
				if m.Kind == "over" {
					route = ""
				}
			}
			if c.Message {
				switch m.Kind {
				case "beat", "unknown", "panic":
					f, route = d, "onmessage"
				}
				if route != "" {
					route = "onmessage"
				}
			}
			if m.Kind != "over" && len(d) > buf {
				continue // does not fit the buffer: see "over"
			}
			if route == "" {
				silent[tag] = true
			} else {
				wants[tag] = want{route, f, m.From}
			}
			if m.Errs > 0 {
				p.InjectReadErrors(m.Errs)
			}
			if err := h.Net.Send("udp", addr, vnet.Datagram{Data: d, Addr: udpAddr(m.From)}); err != nil {
				h.Fail("down", "datagram %d: the socket is gone", i)
				return
			}
			if !m.Burst {
				h.Settle()
			}
			if m.WaitS > 0 {
				time.Sleep(time.Duration(m.WaitS) * time.Second)
			}
		}
		h.Settle()
		early := rec.byTag()
		for tag := range wants {
			if len(early[tag]) != 1 {
				h.Fail("held", "datagram %s was handled %d times while handlers of other datagrams were busy (parked: %v)", tag, len(early[tag]), gated)
				return
			}
		}
		for i := range c.Msgs {
			h.Open(fmt.Sprintf("d%d", i))
		}
		h.Settle()
		time.Sleep(time.Minute)
		h.Settle()
		if d, err, pan := s.Returned(); d || p.Closed() {
			h.Fail("down", "the server stopped by itself: returned %v %v %s, socket closed %v", d, err, pan, p.Closed())
			return
		}
		got := rec.byTag()
		for tag, w := range wants {
			vs := got[tag]
			if len(vs) != 1 {
				h.Fail("lost", "datagram %s was handled %d times", tag, len(vs))
				return
			}
			v := vs[0]
			if v.route != w.route || v.addr != udpAddr(w.from).String() {
				h.Fail("misrouted", "datagram %s of peer %d went to %s as of %s, want %s", tag, w.from, v.route, v.addr, w.route)
			}
			if !bytes.Equal(v.stream, w.frame) || !bytes.Equal(v.streamEnd, w.frame) {
				h.Fail("content", "datagram %s: the handler's stream is %s, later %s, want %s", tag, hexs(v.stream), hexs(v.streamEnd), hexs(w.frame))
			}
			if !eqStrings(order[tag], []string{"global", "anchor"}) {
				h.Fail("middleware", "datagram %s went through %v", tag, order[tag])
			}
		}
		for tag, vs := range got {
			if _, ok := wants[tag]; !ok {
				h.Fail("fabricated", "a handler got %q (%d times), which is no whole message", tag, len(vs))
			}
		}
		// replies
		have := map[string]int{}
		for _, d := range p.Sent() {
			f, err := wire.Parse(d.Data)
			if err != nil {
				h.Fail("reply", "a reply is not one block: %s", hexs(d.Data))
				return
			}
			have[fmt.Sprintf("%s %d %s %s", d.Addr, f.ID, canonHeader(f.Header), f.Body)]++
		}
		need := map[string]int{}
		for tag, w := range wants {
			need[fmt.Sprintf("%s 100 {\"r\":%s} %s", udpAddr(w.from), js(w.route), js(tag))]++
			need[fmt.Sprintf("%s 101 {} \"second\"", udpAddr(w.from))]++
		}
		for k, n := range need {
			if have[k] != n {
				h.Fail("reply", "reply %q was sent %d times, want %d", k, have[k], n)
			}
		}
		for k := range have {
			if need[k] == 0 {
				h.Fail("reply", "unexpected reply %q", k)
			}
		}
		if len(wants) > 0 {
			e.NonTrivial()
		}
		if len(silent) > 0 {
			e.Label("malformed")
		}
	})
}

// ---------------------------------------------------------------- C18 raw

type rawConn struct {
	Spec   connSpec `json:"spec"`
	Chunks [][]byte `json:"chunks"`
	End    string   `json:"end"` // half, return, panic, closeconn, none
	Abort  int      `json:"abort"`
	Via    []bool   `json:"via"` // which reads and writes go through Conn itself
	Buf    int      `json:"buf"`
	Bulk   int      `json:"bulk,omitempty"` // the last chunk is sent this many times over
}

type rawCase struct {
	Global int       `json:"global"`
	Use    int       `json:"use"`
	UnUse  bool      `json:"unuse"`
	Conns  []rawConn `json:"conns"`
	Beat   bool      `json:"beat"`
	Pace   int       `json:"pace,omitempty"`  // seconds that pass between the steps
	More   bool      `json:"more,omitempty"`  // pool, signals and a size limit are on as well
	Hooks  bool      `json:"hooks,omitempty"` // OnConnect and OnClose are set
	Slow   int       `json:"slow,omitempty"`  // seconds the handler takes before each read
}

func genRawCase(t *rapid.T) rawCase {
	c := rawCase{Global: rapid.IntRange(0, 2).Draw(t, "g"), Use: rapid.IntRange(0, 2).Draw(t, "u"), UnUse: rapid.Bool().Draw(t, "uu")}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	c.Pace, c.More, c.Hooks = genPace(t), rapid.Bool().Draw(t, "more"), rapid.Bool().Draw(t, "hooks")
	if c.Pace > 0 {
		c.Slow = rapid.SampledFrom([]int{0, 0, c.Pace / 100, c.Pace / 30}).Draw(t, "slow")
	}
	bulk := 0
	if rapid.IntRange(0, 199).Draw(t, "bulk") == 199 { // a long transfer
		n, bulk = 1, rapid.IntRange(1<<19, 3<<19).Draw(t, "size")
	} else if rapid.IntRange(0, 39).Draw(t, "many") == 0 {
		n = rapid.IntRange(5, 40).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		rc := rawConn{Spec: genOpt(t), End: rapid.SampledFrom([]string{"half", "return", "panic", "closeconn", "none"}).Draw(t, "end"), Abort: rapid.IntRange(-6, 3).Draw(t, "abort")}
		k := rapid.IntRange(0, 5).Draw(t, "k")
		for j := 0; j < k; j++ {
			b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "chunk")
			if len(b) > 0 {
				b = bytes.Repeat(b, rapid.SampledFrom([]int{1, 1, 1, 1, 3, 110, 250}).Draw(t, "times"))
			}
			if bulk > 0 && j == k-1 {
				b = append(b, 'x')
				rc.Spec.Plan = nil
				rc.Bulk = bulk / len(b)
			}
			rc.Chunks = append(rc.Chunks, b)
		}
		rc.Via = rapid.SliceOfN(rapid.Bool(), 1, 6).Draw(t, "via")
		rc.Buf = rapid.SampledFrom([]int{1, 2, 5, 33, 33, 512, 5000}).Draw(t, "buf")
		c.Conns = append(c.Conns, rc)
	}
	return c
}

func runRawCase(e *Env, c rawCase) {
	conns := append([]rawConn(nil), c.Conns...)
	for i := range conns {
		if last := len(conns[i].Chunks) - 1; conns[i].Bulk > 1 && last >= 0 {
			conns[i].Chunks = append([][]byte(nil), conns[i].Chunks...)
			conns[i].Chunks[last] = bytes.Repeat(conns[i].Chunks[last], conns[i].Bulk)
			e.Label("long transfer")
		}
	}
	c.Conns = conns
	e.Bubble(func(h *H) {
		h.pace = c.Pace
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.More {
			srv.WithBuiltInPool(true)
			srv.WithBroadCastSignal(true)
			srv.SetMaxBytePerMessage(20)
		}
		var mu sync.Mutex
		hooks := map[int][2]int{}
		hook := func(k int) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				i := connIndex(ctx)
				mu.Lock()
				v := hooks[i]
				v[k]++
				hooks[i] = v
				mu.Unlock()
			}
		}
		if c.Hooks {
			srv.OnConnect, srv.OnClose = hook(0), hook(1)
		}
		trace := map[int][]string{}
		got := map[int][]byte{}
		where := 0
		ended := false
		var names []string
		mid := func(name string, pos int) func(*tcpx.Context) {
			names = append(names, name)
			return func(ctx *tcpx.Context) {
				i := connIndex(ctx)
				mu.Lock()
				trace[i] = append(trace[i], name)
				mu.Unlock()
				if c.Conns[i].Abort == pos {
					ctx.Abort()
				}
			}
		}
		for k := 0; k < c.Global; k++ {
			srv.UseGlobal(mid(fmt.Sprintf("g%d", k), where))
			where++
		}
		for k := 0; k < c.Use; k++ {
			srv.Use(fmt.Sprintf("m%d", k), mid(fmt.Sprintf("m%d", k), where))
			where++
		}
		srv.HandleRaw = func(ctx *tcpx.Context) {
			i := connIndex(ctx)
			mu.Lock()
			trace[i] = append(trace[i], "raw")
			mu.Unlock()
			total := 0
			for _, ch := range c.Conns[i].Chunks {
				total += len(ch)
			}
			size := c.Conns[i].Buf
			if size < total/200 {
				size = total/200 + 1
			}
			b := make([]byte, size)
			n := 0
			via := c.Conns[i].Via
			turn := 0
			pick := func() bool { turn++; return via[turn%len(via)] }
			for {
				if n == total {
					switch c.Conns[i].End {
					case "return":
						return
					case "panic":
						panic("boom")
					case "closeconn":
						ctx.CloseConn()
						return
					}
				}
				rd, wr := ctx.ConnReader, ctx.ConnWriter
				if pick() {
					rd = ctx.Conn
				}
				if pick() {
					wr = ctx.Conn
				}
				if c.Slow > 0 && turn < 20 {
					time.Sleep(time.Duration(c.Slow) * time.Second)
				}
				k, err := rd.Read(b)
				mu.Lock()
				got[i] = append(got[i], b[:k]...)
				mu.Unlock()
				n += k
				if k > 0 {
					if m, err := wr.Write(b[:k]); err != nil || m != k {
						h.Fail("write", "writing to connection %d: %d %v", i, m, err)
					}
				}
				if err != nil {
					mu.Lock()
					over := ended
					mu.Unlock()
					if err != io.EOF && !over {
						h.Fail("read", "reading connection %d: %v", i, err)
					}
					return
				}
			}
		}
		s := h.Go(func() error { return srv.ListenAndServeRaw("tcp", addr) })
		h.Settle()
		if d, err, p := s.Returned(); d {
			h.Fail("no-listen", "ListenAndServeRaw returned: %v %s", err, p)
			return
		}
		cls := make([]*Client, len(c.Conns))
		for i, rc := range c.Conns {
			if cls[i] = h.Dial("tcp", addr, rc.Spec.opt(i)); cls[i] == nil {
				h.Fail("refused", "connection %d refused", i)
				return
			}
		}
		longest := 0
		for _, rc := range c.Conns {
			if len(rc.Chunks) > longest {
				longest = len(rc.Chunks)
			}
		}
		for j := 0; j < longest; j++ {
			for i, rc := range c.Conns {
				if j < len(rc.Chunks) {
					cls[i].Send(rc.Chunks[j])
				}
			}
			h.Settle()
		}
		h.Settle()
		for i, rc := range c.Conns {
			switch rc.End {
			case "half":
				cls[i].Conn.CloseWrite()
			}
		}
		h.Settle()
		data := 0
		for i, rc := range c.Conns {
			var sent []byte
			for _, ch := range rc.Chunks {
				sent = append(sent, ch...)
			}
			want := append([]string(nil), names...)
			aborted := rc.Abort >= 0 && rc.Abort < where
			if aborted {
				want = want[:rc.Abort+1]
			} else {
				want = append(want, "raw")
			}
			mu.Lock()
			tr, g, hk := trace[i], got[i], hooks[i]
			mu.Unlock()
			if over := map[bool]int{true: 1}[aborted || rc.End != "none"]; c.Hooks && hk != [2]int{1, over} {
				h.Fail("hooks", "connection %d (%s, aborted %v): OnConnect and OnClose ran %v times, want 1 and %d", i, rc.End, aborted, hk, over)
			}
			if !eqStrings(tr, want) {
				h.Fail("chain", "connection %d went through %v, want %v", i, tr, want)
			}
			if aborted {
				if !cls[i].Closed() {
					h.Fail("open", "connection %d is still open though its handling was aborted", i)
				}
				continue
			}
			if !bytes.Equal(g, sent) {
				h.Fail("bytes", "connection %d: the handler read %s, sent %s", i, hexs(g), hexs(sent))
			}
			cls[i].Poll()
			if !bytes.Equal(cls[i].got, sent) {
				h.Fail("bytes", "connection %d: the client received %s, the handler wrote %s", i, hexs(cls[i].got), hexs(sent))
			}
			closed := rc.End != "none"
			if cls[i].Closed() != closed {
				h.Fail("open", "connection %d (%s): closed by the server is %v, want %v", i, rc.End, cls[i].Closed(), closed)
			}
			data += len(sent)
		}
		mu.Lock()
		ended = true
		mu.Unlock()
		if k := h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(0)}); k == nil {
			h.Fail("refused", "a new connection is refused")
		}
		if data > 0 {
			e.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C22 deadlines

type dlSet struct {
	Kind string `json:"kind"` // both, read, write
	At   int    `json:"at"`   // seconds from now; -1 clears
}

type dlOp struct {
	Gap  int    `json:"gap"`  // seconds, even
	Kind string `json:"kind"` // ask, set, auth, beat
	Set  dlSet  `json:"set"`
}

type dlCase struct {
	Server  []dlSet `json:"server"`
	Connect []dlSet `json:"connect"`
	Ops     []dlOp  `json:"ops"`
	Raw     bool    `json:"raw"`
	UDP     bool    `json:"udp"`
	URL     bool    `json:"url"`
	Wait    int     `json:"wait"`              // seconds before the client comes
	More    bool    `json:"more,omitempty"`    // heartbeats, authentication, signals and a pool are on as well
	Restart int     `json:"restart,omitempty"` // how often the server restarts before that
}

func genDlSet(t *rapid.T) dlSet {
	return dlSet{Kind: rapid.SampledFrom([]string{"both", "read", "write"}).Draw(t, "dk"), At: rapid.SampledFrom([]int{-1, 3, 5, 9, 15, 21, 33, 101}).Draw(t, "dat")}
}

func genDlCase(t *rapid.T) dlCase {
	c := dlCase{UDP: rapid.IntRange(0, 5).Draw(t, "udp") == 0, URL: rapid.Bool().Draw(t, "url"),
		Wait: rapid.SampledFrom([]int{0, 0, 0, 2, 6, 10, 40}).Draw(t, "wait")}
	c.Restart = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "restarts")
	if !c.UDP {
		c.Raw = rapid.IntRange(0, 3).Draw(t, "raw") == 0
	} else {
		c.Wait = 0
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "ns"); i < n; i++ {
		s := genDlSet(t)
		if s.At < 0 {
			s.At = 7
		}
		c.Server = append(c.Server, s)
	}
	if !c.UDP {
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "nc"); i < n; i++ {
			c.Connect = append(c.Connect, genDlSet(t))
		}
	}
	c.More = rapid.IntRange(0, 2).Draw(t, "more") == 1
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
		o := dlOp{Gap: rapid.SampledFrom([]int{0, 0, 2, 4, 8, 20}).Draw(t, "gap"), Kind: rapid.SampledFrom([]string{"ask", "ask", "set"}).Draw(t, "kind")}
		if c.More && rapid.IntRange(0, 2).Draw(t, "other") == 1 {
			o.Kind = rapid.SampledFrom([]string{"auth", "beat"}).Draw(t, "otherkind")
		}
		if c.UDP || c.Raw && o.Kind != "set" {
			o.Kind = "ask"
		}
		o.Set = genDlSet(t)
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runDlCase(e *Env, c dlCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		start := time.Now()
		// the server's settings: the last of each kind; a read or write deadline overrides the common one
		var both, rd, wr time.Time
		for _, s := range c.Server {
			t := start.Add(time.Duration(s.At) * time.Second)
			switch s.Kind {
			case "both":
				srv.SetDeadline(t)
				both = t
			case "read":
				srv.SetReadDeadline(t)
				rd = t
			case "write":
				srv.SetWriteDeadline(t)
				wr = t
			}
		}
		if rd.IsZero() {
			rd = both
		}
		if wr.IsZero() {
			wr = both
		}
		resolve := func(s dlSet) time.Time {
			if s.At < 0 {
				return time.Time{}
			}
			return time.Now().Add(time.Duration(s.At) * time.Second)
		}
		var mu sync.Mutex
		apply := func(ctx *tcpx.Context, s dlSet) {
			t := resolve(s)
			var err error
			switch s.Kind {
			case "both":
				err = ctx.SetDeadline(t)
			case "read":
				err = ctx.SetReadDeadline(t)
			case "write":
				err = ctx.SetWriteDeadline(t)
			}
			if err != nil {
				h.Fail("set", "setting a deadline: %v", err)
			}
			mu.Lock()
			if s.Kind != "write" {
				rd = t
			}
			if s.Kind != "read" {
				wr = t
			}
			mu.Unlock()
		}
		if c.More { // none of which has to do anything within the time of a case
			srv.WithBuiltInPool(true).WithBroadCastSignal(true)
			srv.HeartBeatMode(true, time.Hour)
			srv.WithAuthDetail(true, time.Hour, false, 77, func(ctx *tcpx.Context) { ctx.RecvAuthPass() })
		}
		var closedAt time.Time
		srv.OnConnect = func(ctx *tcpx.Context) {
			if c.More {
				ctx.Online("ann")
			}
			for _, s := range c.Connect {
				apply(ctx, s)
			}
		}
		srv.OnClose = func(ctx *tcpx.Context) { mu.Lock(); closedAt = time.Now(); mu.Unlock() }
		replies, replyErr := 0, error(nil)
		sets := map[string]dlSet{}
		answer := func(ctx *tcpx.Context, s string) {
			if d, ok := sets[s]; ok {
				apply(ctx, d)
				return
			}
			err := ctx.JSON(2, s)
			mu.Lock()
			replies++
			replyErr = err
			mu.Unlock()
		}
		hd := func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			answer(ctx, s)
		}
		srv.AddHandler(1, hd)
		srv.Any("/d/", hd)
		srv.HandleRaw = func(ctx *tcpx.Context) {
			for {
				b, err := wire.ReadBlock(ctx.ConnReader)
				if err != nil {
					return
				}
				var s string
				if f, err := wire.Parse(b); err == nil && json.Unmarshal(f.Body, &s) == nil {
					answer(ctx, s)
				}
			}
		}
		network := "tcp"
		if c.UDP {
			network = "udp"
		}
		sv := h.Go(func() error {
			if c.Raw {
				return srv.ListenAndServeRaw(network, addr)
			}
			return srv.ListenAndServe(network, addr)
		})
		h.settleNow()
		time.Sleep(time.Duration(c.Wait) * time.Second)
		for i := 0; i < c.Restart; i++ {
			if err := srv.Restart(false); err != nil {
				h.Fail("restart", "Restart: %v", err)
				return
			}
			h.settleNow()
		}
		var cl *Client
		came := time.Now()
		if !c.UDP {
			if cl = h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(0)}); cl == nil {
				h.Fail("refused", "connection refused")
				return
			}
			h.settleNow()
		}
		dead := false
		late := 0
		slack := 100 * time.Millisecond
		// pass lets time pass up to t, checking the read deadline on the way
		check := func() {
			mu.Lock()
			defer mu.Unlock()
			now := time.Now()
			if c.UDP {
				d, _, _ := sv.Returned()
				if c.Restart > 0 { // that was the first run
					d = !h.Net.Listening("udp", addr)
				}
				due := !rd.IsZero() && now.After(rd.Add(slack))
				if d != due {
					h.Fail("when", "at %v: serving has ended: %v; read deadline %v", now.Sub(start), d, rd.Sub(start))
				}
				if l := h.Net.Listening("udp", addr); l == due {
					h.Fail("socket", "at %v: serving has ended: %v, its socket is open: %v", now.Sub(start), d, l)
				}
				dead = due
				return
			}
			due := dead || !rd.IsZero() && now.After(rd.Add(slack))
			if cl.Closed() != due {
				h.Fail("when", "at %v: the connection is closed: %v; read deadline set %v, at %v", now.Sub(start), cl.Closed(), !rd.IsZero(), rd.Sub(start))
				return
			}
			if due && !dead {
				late++
				want := rd
				if want.Before(came) { // it was over before the client came
					want = came
				}
				if closedAt.Before(want.Add(-slack)) || closedAt.After(want.Add(slack)) {
					h.Fail("when", "the connection ended at %v, read deadline %v", closedAt.Sub(start), rd.Sub(start))
				}
			}
			dead = due
		}
		pass := func(d time.Duration) {
			// seconds apart, staying half a second away from deadlines (which are odd seconds)
			for d > 0 {
				s := 2 * time.Second
				if s > d {
					s = d
				}
				time.Sleep(s)
				d -= s
				h.settleNow()
				check()
				if h.Failed() {
					return
				}
			}
		}
		wfail := 0
		for i, o := range c.Ops {
			pass(time.Duration(o.Gap) * time.Second)
			if i == 0 && !c.UDP {
				check()
			}
			if h.Failed() || dead {
				break
			}
			tag := fmt.Sprintf("t%d", i)
			f := msgFrame(1, js(tag))
			if c.URL {
				f = urlFrame("/d/", js(tag))
			}
			if o.Kind == "auth" || o.Kind == "beat" {
				cl.Send(msgFrame(map[string]int32{"auth": 77, "beat": tcpx.DEFAULT_HEARTBEAT_MESSAGEID}[o.Kind], js(tag)))
				h.settleNow()
				check()
				continue
			}
			if o.Kind == "set" {
				sets[tag] = o.Set
				cl.Send(f)
				h.settleNow()
				check()
				continue
			}
			before := replies
			nb := 0
			if c.UDP {
				nb = len(h.Net.Packet("udp", addr).Sent())
				h.Net.Send("udp", addr, vnet.Datagram{Data: f, Addr: udpAddr(0)})
			} else {
				fs, _ := cl.Frames()
				nb = len(fs)
				cl.Send(f)
			}
			h.settleNow()
			na := 0
			if c.UDP {
				na = len(h.Net.Packet("udp", addr).Sent())
			} else {
				fs, _ := cl.Frames()
				na = len(fs)
			}
			mu.Lock()
			if replies != before+1 {
				h.Fail("lost", "op %d: the request was handled %d times", i, replies-before)
			}
			expired := !wr.IsZero() && time.Now().After(wr)
			if (replyErr != nil) != expired || (na == nb+1) == expired {
				h.Fail("write", "op %d at %v: reply error %v, %d messages sent; write deadline set %v, at %v", i, time.Since(start), replyErr, na-nb, !wr.IsZero(), wr.Sub(start))
			}
			if expired {
				wfail++
			}
			mu.Unlock()
			if h.Failed() {
				return
			}
		}
		pass(120 * time.Second)
		mu.Lock()
		if !rd.IsZero() || late > 0 || wfail > 0 {
			e.NonTrivial()
		}
		mu.Unlock()
		if wfail > 0 {
			e.Label("write deadline hit")
		}
		if dead {
			e.Label("read deadline hit")
		}
	})
}

// ---------------------------------------------------------------- C26 peers

type peerCase struct {
	Peers []string `json:"peers"`
	UDP   bool     `json:"udp"`
}

func genPeer(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "pk") {
	case 0, 1:
		return fmt.Sprintf("%d.%d.%d.%d", rapid.IntRange(1, 254).Draw(t, "a"), rapid.IntRange(0, 255).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "c"), rapid.IntRange(0, 255).Draw(t, "d"))
	case 2:
		return rapid.SampledFrom([]string{"::1", "127.0.0.1", "fe80::1", "2001:db8::1", "::", "ff02::1", "2001:db8:1:2:3:4:5:6", "fe80::1%eth0", "fe80::a:b%2", "fe80::1%lo"}).Draw(t, "s")
	case 3: // near the loopback address
		p := rapid.SampledFrom([]string{"::1%x:%x", "::%x:%x", "::%x", "::1:%x", "%x::1", "fe80::%x", "1:%x::1"}).Draw(t, "form")
		var a []any
		for i := strings.Count(p, "%"); i > 0; i-- {
			a = append(a, rapid.IntRange(1, 0xfff).Draw(t, "w"))
		}
		q := fmt.Sprintf(p, a...)
		if strings.HasPrefix(p, "::1%x") {
			q = fmt.Sprintf(p, a[0].(int)&0xff, a[1])
		}
		return netip.MustParseAddr(q).String()
	case 4:
		return fmt.Sprintf("127.%d.%d.%d", rapid.IntRange(0, 255).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "c"), rapid.IntRange(0, 255).Draw(t, "d"))
	}
	return fmt.Sprintf("2001:db8:%x::%x", rapid.IntRange(1, 65535).Draw(t, "a"), rapid.IntRange(1, 65535).Draw(t, "b"))
}

func genPeerCase(t *rapid.T) peerCase {
	c := peerCase{UDP: rapid.Bool().Draw(t, "udp")}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
		c.Peers = append(c.Peers, genPeer(t))
	}
	return c
}

func runPeerCase(e *Env, c peerCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		type seen struct{ ip, network, proto string }
		var mu sync.Mutex
		got := map[string][]seen{}
		note := func(tag string, ctx *tcpx.Context) {
			mu.Lock()
			got[tag] = append(got[tag], seen{ctx.ClientIP(), ctx.Network(), ctx.ConnectionProtocolType()})
			mu.Unlock()
		}
		srv.OnConnect = func(ctx *tcpx.Context) {
			note(fmt.Sprintf("c%d", addrIndex(ctx.Conn.RemoteAddr().String())), ctx)
		}
		srv.AddHandler(1, func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			note(s, ctx)
		})
		network := "tcp"
		if c.UDP {
			network = "udp"
		}
		h.Serve(srv, network, addr)
		for i, p := range c.Peers {
			f := msgFrame(1, js(fmt.Sprintf("m%d", i)))
			if c.UDP {
				h.Net.Send("udp", addr, vnet.Datagram{Data: f, Addr: peerAddr(p, 40000+i, true)})
			} else if cl := h.Dial("tcp", addr, vnet.Opt{ClientAddr: peerAddr(p, 40000+i, false)}); cl == nil {
				h.Fail("refused", "connection refused")
				return
			} else {
				cl.Send(f)
			}
		}
		h.Settle()
		for i, p := range c.Peers {
			want := p
			if p == "::1" { // the local host is reported as such
				want = "127.0.0.1"
			}
			tags := []string{fmt.Sprintf("m%d", i)}
			if !c.UDP {
				tags = append(tags, fmt.Sprintf("c%d", i))
			}
			for _, tag := range tags {
				g := got[tag]
				if len(g) != 1 {
					h.Fail("lost", "%s was seen %d times", tag, len(g))
					return
				}
				if bare, _, zoned := strings.Cut(want, "%"); g[0].ip != want && !(zoned && g[0].ip == bare) { // whether the zone is shown is open
					h.Fail("ip", "ClientIP() of peer %s is %q, want %q", p, g[0].ip, want)
				}
				if g[0].network != network || g[0].proto != network {
					h.Fail("network", "Network() is %q, ConnectionProtocolType() %q, want %q", g[0].network, g[0].proto, network)
				}
			}
		}
		e.NonTrivial()
	})
}

func init() {
	reg("C16", "stop", 56000, 560000, "1-3 (at times 9-14) listeners of 8 kinds (tcp, tcp4, tcp6, unix, udp, udp4, raw, udp with its own buffer), drawn pool, signal, heartbeat and auth settings, and 3-13 steps of stop, start, restart, dial, connections that stay in OnConnect, ask, close and waiting, everything checked after each; non-trivial: a running server was stopped", genStopCase, runStopCase)
	reg("C17", "udp", 64000, 640000, "1-12 datagrams of 15 kinds (at times each many times over) from 4 (at times 5000) peers, in bursts or apart, with parked handlers, contexts kept after them, transient read errors and long waits, under drawn heartbeat, signal, pool and buffer settings; non-trivial: at least one whole message", genUDPCase, runUDPCase)
	reg("C18", "raw", 8000, 96000, "1-4 (at times up to 40) raw connections sending drawn chunks under drawn read plans through 0-4 middlewares, one of which may abort, at any pace, with and without pool, signals, OnConnect and OnClose, ended in 5 ways; non-trivial: some bytes went through a handler", genRawCase, runRawCase)
	reg("C22", "deadline", 64000, 640000, "deadlines of the server and of the connection (both, read, write; set and cleared in OnConnect and in handlers) with requests in virtual time, over TCP (also raw, after restarts, and with the client coming late) and UDP; non-trivial: a deadline was in force", genDlCase, runDlCase)
	reg("C26", "peer", 80000, 800000, "1-5 peers with drawn IPv4 and IPv6 addresses over TCP or UDP; non-trivial: every case", genPeerCase, runPeerCase)
}
