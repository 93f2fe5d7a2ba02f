package props

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
)

// ---------------------------------------------------------------- C25 data races

type raceCase struct {
	Pool     bool       `json:"pool"`
	Signals  bool       `json:"signals"`
	Beat     bool       `json:"beat"`
	Auth     bool       `json:"auth"`
	UDP      bool       `json:"udp"`
	Raw      bool       `json:"raw"`
	More     bool       `json:"more"`     // a second stream listener
	Together bool       `json:"together"` // the listeners start at once
	Conns    int        `json:"conns"`
	Handler  [][]string `json:"handler"` // what each request does
	Outside  [][]string `json:"outside"` // what each goroutine of the application does
	Procs    int        `json:"procs"`
}

var raceOps = []string{"online", "offline", "setconn", "getconn", "username", "isonline", "isoffline", "reply", "sendto", "sendconn", "setreq", "getreq", "beat", "pass", "clientip", "deadline", "keep", "usekept", "bind", "router", "yield", "pool", "urlreply", "async", "async"}
var raceRare = []string{"closeconn", "abort", "next"}
var outOps = []string{"state", "poolget", "poolsend", "poolonline", "keptuse", "keptuse", "newconn", "close", "send", "send", "sendpipe", "sendbeat", "yield", "poolget"}
var outRare = []string{"listen", "listenudp", "stop", "stopall", "start", "restart", "wait"}

func genRaceCase(t *rapid.T) raceCase {
	c := raceCase{
		Pool:     rapid.IntRange(0, 3).Draw(t, "pool") > 0,
		Signals:  rapid.Bool().Draw(t, "signals"),
		Beat:     rapid.Bool().Draw(t, "beat"),
		Auth:     rapid.IntRange(0, 3).Draw(t, "auth") == 0,
		UDP:      rapid.IntRange(0, 3).Draw(t, "udp") == 0,
		Raw:      rapid.IntRange(0, 4).Draw(t, "raw") == 0,
		More:     rapid.IntRange(0, 2).Draw(t, "more") == 0,
		Together: rapid.Bool().Draw(t, "together"),
		Conns:    rapid.IntRange(1, 3).Draw(t, "conns"),
		Procs:    rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "procs"),
	}
	op := func(common, rare []string) func(*rapid.T) string {
		return func(t *rapid.T) string {
			if rapid.IntRange(0, 9).Draw(t, "rare") == 0 {
				return rapid.SampledFrom(rare).Draw(t, "r")
			}
			return rapid.SampledFrom(common).Draw(t, "c")
		}
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "nh"); i < n; i++ {
		c.Handler = append(c.Handler, rapid.SliceOfN(rapid.Custom(op(raceOps, raceRare)), 1, 6).Draw(t, "h"))
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "no"); i < n; i++ {
		c.Outside = append(c.Outside, rapid.SliceOfN(rapid.Custom(op(outOps, outRare)), 1, 8).Draw(t, "o"))
	}
	return c
}

func runRaceCase(e *Env, c raceCase) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs + 1))
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		if c.Signals {
			srv.WithBroadCastSignal(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, 3*time.Second)
			srv.SetEventOnHeartbeatLoss(func(ctx *tcpx.Context) { ctx.JSON(9, "lost"); ctx.Username() })
		}
		if c.Auth {
			srv.WithAuthDetail(true, 5*time.Second, false, 77, func(ctx *tcpx.Context) { ctx.RecvAuthPass() })
		}
		var keptMu sync.Mutex
		var kept []*tcpx.Context
		var pool *tcpx.ClientPool
		take := func() *tcpx.Context {
			keptMu.Lock()
			defer keptMu.Unlock()
			if len(kept) == 0 {
				return nil
			}
			return kept[len(kept)-1]
		}
		keep := func(ctx *tcpx.Context) {
			keptMu.Lock()
			kept = append(kept, ctx)
			keptMu.Unlock()
		}
		srv.OnConnect = func(ctx *tcpx.Context) {
			keep(ctx)
			if c.Pool {
				keptMu.Lock()
				pool = ctx.GetPoolRef()
				keptMu.Unlock()
				ctx.Online(fmt.Sprintf("u%d", connIndex(ctx)%2))
			}
			ctx.SetCtxPerConn("born", time.Now())
		}
		srv.OnClose = func(ctx *tcpx.Context) {
			ctx.GetCtxPerConn("k")
			ctx.Username()
			ctx.IsOnline()
		}
		use := func(ctx *tcpx.Context) {
			ctx.SetCtxPerConn("k", 3)
			ctx.GetCtxPerConn("k")
			ctx.IsOnline()
			ctx.Username()
			if ctx.Conn != nil {
				ctx.JSON(8, "from afar")
			}
			ctx.ClientIP()
		}
		handler := func(ctx *tcpx.Context) {
			var k int
			ctx.Bind(&k)
			if k < 0 || k >= len(c.Handler) {
				return
			}
			for _, op := range c.Handler[k] {
				switch op {
				case "online":
					if ctx.Conn != nil {
						ctx.Online(fmt.Sprintf("u%d", k%2))
					}
				case "offline":
					if c.Pool {
						ctx.Offline()
					}
				case "setconn":
					ctx.SetCtxPerConn("k", k)
				case "getconn":
					ctx.GetCtxPerConn("k")
				case "username":
					ctx.Username()
				case "isonline":
					ctx.IsOnline()
				case "isoffline":
					ctx.IsOffline()
				case "reply":
					ctx.JSON(7, k)
				case "sendto":
					if c.Pool && ctx.Conn != nil {
						ctx.SendToUsername("u0", 6, k)
					}
				case "sendconn":
					if o := take(); o != nil {
						ctx.SendToConn(o, 5, k)
					}
				case "setreq":
					ctx.SetCtxPerRequest("r", k)
				case "getreq":
					ctx.GetCtxPerRequest("r")
				case "beat":
					ctx.RecvHeartBeat()
				case "pass":
					ctx.RecvAuthPass()
				case "clientip":
					ctx.ClientIP()
				case "deadline":
					if ctx.Conn != nil {
						ctx.SetReadDeadline(time.Now().Add(time.Hour))
					}
				case "keep":
					if ctx.Conn != nil {
						keep(ctx)
					}
				case "usekept":
					if o := take(); o != nil {
						use(o)
					}
				case "bind":
					var x int
					ctx.Bind(&x)
				case "router":
					ctx.RouterType()
				case "pool":
					if p := ctx.GetPoolRef(); p != nil {
						p.GetClientPool("u0")
					}
				case "urlreply":
					ctx.JSONURLPattern(k)
				case "async": // the handler returns, its request goes on
					for i := 0; i < 1+k%2; i++ {
						go func() {
							runtime.Gosched()
							switch (k + i) % 4 {
							case 0:
								ctx.JSONURLPattern(k)
							case 1:
								ctx.SetCtxPerRequest("late", k)
								ctx.GetCtxPerRequest("g")
							case 2:
								ctx.RouterType()
								ctx.GetURLPattern()
							case 3:
								var x int
								ctx.Bind(&x)
								ctx.RawStream()
								ctx.Reply(7, x)
							}
						}()
					}
				case "closeconn":
					if ctx.Conn != nil {
						ctx.CloseConn()
					}
				case "abort":
					ctx.Abort()
				case "next":
					ctx.Next()
				case "yield":
					runtime.Gosched()
				}
			}
		}
		srv.UseGlobal(func(ctx *tcpx.Context) { ctx.SetCtxPerRequest("g", 1); ctx.Next() })
		srv.Use("m", func(ctx *tcpx.Context) { ctx.GetCtxPerRequest("g") })
		srv.AddHandler(1, handler)
		srv.Any("/h/", handler)
		srv.HandleRaw = func(ctx *tcpx.Context) {
			b := make([]byte, 10)
			for {
				if _, err := ctx.ConnReader.Read(b); err != nil {
					return
				}
				ctx.IsOnline()
			}
		}
		h.Go(func() error { return srv.ListenAndServe("tcp", ":1") })
		if !c.Together {
			h.Settle()
		}
		if c.UDP {
			h.Go(func() error { return srv.ListenAndServe("udp", ":2") })
		}
		if c.Raw {
			h.Go(func() error { return srv.ListenAndServeRaw("tcp", ":3") })
		}
		if c.More {
			h.Go(func() error { return srv.ListenAndServe("tcp", ":4") })
		}
		h.Settle()
		cls := make([]*Client, c.Conns)
		dial := func(i int) *Client { return h.Dial("tcp", ":1", vnet.Opt{ClientAddr: tcpAddr(i)}) }
		for i := range cls {
			cls[i] = dial(i)
		}
		if c.Raw {
			if cl := h.Dial("tcp", ":3", vnet.Opt{ClientAddr: tcpAddr(50)}); cl != nil {
				cl.Send([]byte("hello"))
			}
		}
		request := func(i, k int) {
			cl := cls[i%len(cls)]
			if cl == nil {
				return
			}
			if k%3 == 2 {
				cl.Send(urlFrame("/h/", js(k)))
			} else {
				cl.Send(msgFrame(1, js(k)))
			}
		}
		var wg sync.WaitGroup
		for oi, ops := range c.Outside {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, op := range ops {
					switch op {
					case "state":
						srv.State()
					case "poolget":
						keptMu.Lock()
						p := pool
						keptMu.Unlock()
						if p != nil {
							p.GetClientPool("u0")
						}
					case "poolsend":
						keptMu.Lock()
						p := pool
						keptMu.Unlock()
						if p != nil {
							if x := p.GetClientPool(fmt.Sprintf("u%d", k%2)); x != nil {
								x.JSON(4, "push")
							}
						}
					case "poolonline":
						keptMu.Lock()
						p := pool
						keptMu.Unlock()
						if o := take(); o != nil && p != nil {
							p.Online("guest", o)
							p.Offline("guest")
						}
					case "keptuse":
						if o := take(); o != nil {
							use(o)
						}
					case "newconn":
						if cl := dial(10 + oi*10 + k); cl != nil {
							cl.Send(msgFrame(1, js(k%len(c.Handler))))
						}
					case "close":
						if cl := cls[oi%len(cls)]; cl != nil && k%2 == 0 {
							cl.Close()
						}
					case "send":
						request(oi, k%len(c.Handler))
						request(oi, (k+1)%len(c.Handler))
					case "sendpipe":
						if cl := cls[oi%len(cls)]; cl != nil {
							cl.Send(append(pipeFrame(1, `"enable;2"`, js(k%len(c.Handler))), msgFrame(1, js(0))...))
						}
					case "sendbeat":
						if cl := cls[oi%len(cls)]; cl != nil {
							cl.Send(msgFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, js("b")))
						}
					case "listen":
						h.Go(func() error { return srv.ListenAndServe("tcp", fmt.Sprintf(":%d", 100+oi*10+k)) })
					case "listenudp":
						h.Go(func() error { return srv.ListenAndServe("udp", fmt.Sprintf(":%d", 100+oi*10+k)) })
					case "stop":
						srv.Stop(false)
					case "stopall":
						srv.Stop(true)
					case "start", "restart":
						if oi == 0 { // starting twice at once is not supported
							if op == "start" {
								srv.Start()
							} else {
								srv.Restart(k%2 == 0)
							}
							time.Sleep(time.Millisecond)
						}
					case "wait":
						time.Sleep(2 * time.Second)
					case "yield":
						runtime.Gosched()
					}
				}
			}()
		}
		for k := range c.Handler {
			for i := range cls {
				request(i, k)
			}
			if c.UDP {
				h.Net.Send("udp", ":2", vnet.Datagram{Data: msgFrame(1, js(k)), Addr: udpAddr(k)})
			}
		}
		wg.Wait()
		h.Settle()
		time.Sleep(20 * time.Second)
		h.Settle()
		e.NonTrivial()
	})
	// whether the outcome is right is for the other properties to say
	e.mu.Lock()
	e.viol = nil
	e.mu.Unlock()
}

// raced runs another property's cases for their races only.
func raced[T any](run func(*Env, T)) func(*Env, T) {
	return func(e *Env, c T) {
		safely(func() { run(e, c) })
		e.mu.Lock()
		e.viol = nil
		e.mu.Unlock()
	}
}

// ---------------------------------------------------------------- C29 exit

type exitCase struct {
	Funcs  int    `json:"funcs"`
	Calls  []int  `json:"calls"`  // where the functions are cut into several calls
	Others bool   `json:"others"` // of other servers
	Signal int    `json:"signal"`
	More   []int  `json:"more"`
	Slow   bool   `json:"slow"`
	SlowMS int    `json:"slow_ms,omitempty"` // how long the first function takes
	Serve  bool   `json:"serve"`
	Delay  int    `json:"delay_us"`
	Before string `json:"before"`
}

func genExitCase(t *rapid.T) exitCase {
	sigs := []int{int(syscall.SIGINT), int(syscall.SIGTERM), int(syscall.SIGQUIT)}
	c := exitCase{
		Funcs:  rapid.IntRange(0, 6).Draw(t, "funcs"),
		Calls:  rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(t, "calls"),
		Others: rapid.Bool().Draw(t, "others"),
		Signal: rapid.SampledFrom(sigs).Draw(t, "sig"),
		More:   rapid.SliceOfN(rapid.SampledFrom(sigs), 0, 3).Draw(t, "more"),
		Slow:   rapid.Bool().Draw(t, "slow"),
		Serve:  rapid.Bool().Draw(t, "serve"),
		Delay:  rapid.SampledFrom([]int{0, 0, 50, 2000}).Draw(t, "delay"),
		Before: rapid.SampledFrom([]string{"", "spin"}).Draw(t, "before"),
	}
	switch rapid.IntRange(0, 399).Draw(t, "odd") {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		c.Funcs = rapid.IntRange(7, 40).Draw(t, "funcs")
	case 8:
		if c.Funcs > 0 && c.Before == "" {
			c.SlowMS = rapid.SampledFrom([]int{1200, 2500, 6000, 11000}).Draw(t, "slowms")
		}
	}
	return c
}

func runExitCase(e *Env, c exitCase) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestExitChild$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VERIF_EXIT_CHILD="+string(js(c)))
	out, err := cmd.Output()
	code := 0
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic("harness: " + err.Error())
		}
		code = x.ExitCode()
	}
	var ran []string
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "ran ") {
			ran = append(ran, strings.TrimPrefix(l, "ran "))
		}
		if strings.HasPrefix(l, "harness ") {
			panic("harness: " + l)
		}
	}
	parts := c.parts()
	count := map[string]int{}
	for _, r := range ran {
		count[r]++
	}
	for i := 0; i < c.Funcs; i++ {
		if n := count[fmt.Sprint(i)]; n != 1 {
			e.Fail("functions", "after signal %d function %d ran %d times: %v of %v (exit status %d)", c.Signal, i, n, ran, parts, code)
			break
		}
	}
	last := map[int]int{}
	for _, r := range ran { // in order, within one call
		var i int
		fmt.Sscan(r, &i)
		for p, part := range parts {
			if part[0] <= i && i < part[1] {
				if l, ok := last[p]; ok && l > i {
					e.Fail("functions", "after signal %d the functions ran as %v, calls were %v", c.Signal, ran, parts)
				}
				last[p] = i
			}
		}
	}
	if len(parts) > 1 {
		e.Label("several calls")
	}
	if code != 0 {
		e.Fail("status", "after signal %d the process ended with status %d, want 0", c.Signal, code)
	}
	if c.Funcs > 0 {
		e.NonTrivial()
	}
	if c.Delay == 0 {
		e.Label("signal at once")
	}
}

// parts are the ranges of functions given to each call of BeforeExit
func (c exitCase) parts() (l [][2]int) {
	cuts := append([]int(nil), c.Calls...)
	sort.Ints(cuts)
	from := 0
	for _, k := range append(cuts, c.Funcs) {
		k = min(k, c.Funcs)
		l = append(l, [2]int{from, k})
		from = k
	}
	return
}

// TestExitChild is the process that gets the signals; it only ever signals itself.
func TestExitChild(t *testing.T) {
	s := os.Getenv("VERIF_EXIT_CHILD")
	if s == "" {
		t.Skip()
	}
	var c exitCase
	if err := jsonDecode(s, &c); err != nil {
		fmt.Println("harness", err)
		os.Exit(0)
	}
	go func(parent int) { // nobody waits for it any more
		for os.Getppid() == parent {
			time.Sleep(time.Second)
		}
		os.Exit(99)
	}(os.Getppid())
	srv := tcpx.NewTcpX(nil)
	if c.Serve {
		n := vnet.New()
		vnet.Install(n)
		go srv.ListenAndServe("tcp", ":1")
		for !n.Listening("tcp", ":1") {
			time.Sleep(100 * time.Microsecond)
		}
		if cl, err := n.Dial("tcp", ":1", vnet.Opt{}); err == nil {
			cl.Write(msgFrame(1, js("x")))
		}
	}
	if c.Before == "spin" {
		for i := 0; i < 8; i++ {
			go func() {
				for {
					runtime.Gosched()
				}
			}()
		}
	}
	var fs []func()
	for i := 0; i < c.Funcs; i++ {
		fs = append(fs, func() {
			for _, m := range c.More { // an impatient user
				syscall.Kill(os.Getpid(), syscall.Signal(m))
			}
			if c.Slow {
				time.Sleep(2 * time.Millisecond)
			}
			if i == 0 {
				time.Sleep(time.Duration(c.SlowMS) * time.Millisecond)
			}
			os.Stdout.WriteString(fmt.Sprintf("\nran %d\n", i))
		})
	}
	for _, p := range c.parts() {
		srv.BeforeExit(fs[p[0]:p[1]]...)
		if c.Others {
			srv = tcpx.NewTcpX(nil)
		}
	}
	if c.Delay > 0 {
		time.Sleep(time.Duration(c.Delay) * time.Microsecond)
	}
	syscall.Kill(os.Getpid(), syscall.Signal(c.Signal))
	time.Sleep(60 * time.Second)
	os.Stdout.WriteString("\nstill alive\n")
	os.Exit(7)
}

func init() {
	reg("C25", "mix", 3200, 48000, "1-3 connections, 1-6 kinds of handlers doing 1-6 of 26 context calls each, 1-3 application goroutines doing 1-8 of 19 calls (pool, kept contexts, new connections, stop, start, waiting) at the same time, under the race detector; non-trivial: every case", genRaceCase, runRaceCase)
	reg("C25", "dispatch", 400, 8000, "the cases of C05 under the race detector; non-trivial: as there", genDispCase, raced(runDispCase))
	reg("C25", "life", 600, 12000, "the cases of C11 under the race detector; non-trivial: as there", genLifeCase, raced(runLifeCase))
	reg("C25", "pool", 600, 12000, "the cases of C12 under the race detector; non-trivial: as there", genPoolCase, raced(runPoolCase))
	reg("C25", "beat", 400, 8000, "the cases of C14 under the race detector; non-trivial: as there", genBeatCase, raced(runBeatCase))
	reg("C25", "auth", 400, 8000, "the cases of C15 under the race detector; non-trivial: as there", genAuthCase, raced(runAuthCase))
	reg("C25", "stop", 600, 12000, "the cases of C16 under the race detector; non-trivial: as there", genStopCase, raced(runStopCase))
	reg("C25", "udp", 400, 8000, "the cases of C17 under the race detector; non-trivial: as there", genUDPCase, raced(runUDPCase))
	reg("C25", "scope", 400, 8000, "the cases of C10 under the race detector; non-trivial: as there", genScopeCase, raced(runScopeCase))
	reg("C25", "reply", 400, 8000, "the cases of C13 under the race detector; non-trivial: as there", genReplyCase, raced(runReplyCase))
	reg("C29", "exit", 3200, 32000, "a process with 0-6 (at times up to 40) functions, slow ones among them, in 1-3 calls of BeforeExit of one or several servers, serving or not, which signals itself (INT, TERM or QUIT) at once or a little later, with more signals while the functions run; non-trivial: there are functions", genExitCase, runExitCase)
}
