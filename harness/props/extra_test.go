package props

import (
	"bytes"
	"crypto/md5"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- C30 what cannot be served

type openOp struct {
	Op   string `json:"op"` // serve, again, taken, bad, notls, stop, start, start-taken
	Kind string `json:"kind"`
	K    int    `json:"k"`
}

type openCase struct {
	Ops []openOp `json:"ops"`
}

var openKinds = []string{"tcp", "tcp4", "tcp6", "unix", "unixpacket", "udp", "udp4", "udp6", "unixgram", "raw", "tcp-direct", "udp-direct"}
var openBad = []string{"", "tpc", "TCP", "http", "kcp", "tcp5", "udp5", "tcp ", " udp", "icmp", "x-ip", "unixx", "tcp%", "%", "%tcp%", "udp4 ", "ip", "ip4:icmp", "ipx"}

func genOpenCase(t *rapid.T) openCase {
	var c openCase
	n := rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, openOp{
			Op:   rapid.SampledFrom([]string{"serve", "serve", "serve", "again", "taken", "bad", "notls", "stop", "start", "start-taken", "break"}).Draw(t, "op"),
			Kind: rapid.SampledFrom(openKinds).Draw(t, "kind"),
			K:    rapid.IntRange(0, 40).Draw(t, "k"),
		})
	}
	return c
}

func runOpenCase(e *Env, c openCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		srv.AddHandler(1, func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			ctx.JSON(2, s)
		})
		srv.HandleRaw = func(ctx *tcpx.Context) {
			b := make([]byte, 64)
			for {
				n, err := ctx.ConnReader.Read(b)
				if n > 0 {
					ctx.ConnWriter.Write(b[:n])
				}
				if err != nil {
					return
				}
			}
		}
		type lst struct {
			kind, network, addr string
			sv                  *Serving
			down                bool // its address was taken when the server started again
		}
		var ls []*lst
		running := true
		next := 0
		serve := func(l *lst) *Serving {
			return h.Go(func() error {
				switch l.kind {
				case "raw":
					return srv.ListenAndServeRaw(l.network, l.addr)
				case "tcp-direct":
					return srv.ListenAndServeTCP(l.network, l.addr)
				case "udp-direct":
					return srv.ListenAndServeUDP(l.network, l.addr)
				}
				return srv.ListenAndServe(l.network, l.addr)
			})
		}
		fresh := func(kind string) *lst {
			next++
			l := &lst{kind: kind, network: kind, addr: fmt.Sprintf(":%d", 7000+next)}
			switch kind {
			case "raw", "tcp-direct":
				l.network = "tcp"
			case "udp-direct":
				l.network = "udp"
			case "unix", "unixpacket", "unixgram":
				l.addr = fmt.Sprintf("/virtual/%d.sock", next)
			}
			return l
		}
		packet := func(l *lst) bool { return strings.HasPrefix(l.network, "udp") || l.network == "unixgram" }
		asks := 0
		ask := func(l *lst, when string) {
			asks++
			tag := fmt.Sprintf("q%d", asks)
			if packet(l) {
				p := h.Net.Packet(l.network, l.addr)
				if p == nil {
					h.Fail("down", "%s: nothing listens on %s %s", when, l.network, l.addr)
					return
				}
				n := len(p.Sent())
				h.Net.Send(l.network, l.addr, vnet.Datagram{Data: msgFrame(1, js(tag)), Addr: udpAddr(3)})
				h.Settle()
				if m := len(p.Sent()); m != n+1 {
					h.Fail("unserved", "%s: a datagram to %s %s got %d answers", when, l.network, l.addr, m-n)
				}
				return
			}
			cl := h.Dial(l.network, l.addr, vnet.Opt{ClientAddr: tcpAddr(asks)})
			if cl == nil {
				h.Fail("down", "%s: %s %s refuses connections", when, l.network, l.addr)
				return
			}
			b := msgFrame(1, js(tag))
			cl.Send(b)
			h.Settle()
			cl.Poll()
			if l.kind == "raw" {
				if !bytes.Equal(cl.got, b) {
					h.Fail("unserved", "%s: raw %s answers %q", when, l.addr, cl.got)
				}
			} else if f, err := wire.Parse(cl.got); err != nil || f.ID != 2 || string(f.Body) != string(js(tag)) {
				h.Fail("unserved", "%s: %s %s answers %q", when, l.network, l.addr, cl.got)
			}
			cl.Close()
			h.Settle()
		}
		verify := func(when string) {
			if h.Failed() {
				return
			}
			for _, l := range ls {
				if running && !l.down {
					if st := srv.State(); st != tcpx.STATE_RUNNING {
						h.Fail("state", "%s: State() is %d", when, st)
					}
					ask(l, when)
				}
			}
		}
		refuse := func(s *Serving, when string) {
			h.Settle()
			if d, err, p := s.Returned(); !d || err == nil || p != "" {
				h.Fail("unreported", "%s: the call returned: %v, error %v, panic %q", when, d, err, p)
			}
		}
		failed := 0
		for i, o := range c.Ops {
			if h.Failed() {
				return
			}
			when := fmt.Sprintf("step %d (%s %s)", i, o.Op, o.Kind)
			switch o.Op {
			case "serve":
				if !running || len(ls) >= 5 {
					continue
				}
				l := fresh(o.Kind)
				l.sv = serve(l)
				h.Settle()
				if d, err, p := l.sv.Returned(); d {
					h.Fail("refused", "%s: serving %s %s returned: %v %s", when, l.network, l.addr, err, p)
				}
				ls = append(ls, l)
			case "again":
				if !running || len(ls) == 0 {
					continue
				}
				l := ls[o.K%len(ls)]
				if l.down {
					continue
				}
				failed++
				refuse(serve(l), when)
			case "break":
				// a listener whose Accept fails for good: its call returns, its address can be served again
				if !running || len(ls) == 0 {
					continue
				}
				l := ls[o.K%len(ls)]
				if l.down || packet(l) || l.sv == nil {
					continue
				}
				if !h.Net.InjectAcceptErrors(l.network, l.addr, 1, []syscall.Errno{syscall.EINVAL, syscall.EBADF, syscall.EPERM}[o.K%3]) {
					h.Fail("down", "%s: nothing listens on %s %s", when, l.network, l.addr)
					continue
				}
				h.Settle()
				if d, _, p := l.sv.Returned(); !d || p != "" || h.Net.Listening(l.network, l.addr) {
					h.Fail("broken", "%s: accepting on %s %s failed for good; the call returned: %v %s, listening: %v", when, l.network, l.addr, d, p, h.Net.Listening(l.network, l.addr))
					continue
				}
				failed++
				h.Label("accept fails for good")
				l.sv = serve(l)
				h.Settle()
				if d, err, p := l.sv.Returned(); d {
					h.Fail("refused", "%s: serving %s %s again returned: %v %s", when, l.network, l.addr, err, p)
				}
			case "taken":
				l := fresh(o.Kind)
				if packet(l) {
					h.Net.ListenPacket(l.network, l.addr)
				} else {
					h.Net.Listen(l.network, l.addr)
				}
				failed++
				refuse(serve(l), when)
			case "bad":
				failed++
				w := openBad[o.K%len(openBad)]
				refuse(h.Go(func() error { return srv.ListenAndServe(w, fmt.Sprintf(":%d", 100+i)) }), when+" "+w)
				if h.Net.Listening("tcp", fmt.Sprintf(":%d", 100+i)) || h.Net.Listening("udp", fmt.Sprintf(":%d", 100+i)) {
					h.Fail("listening", "%s: network %q is listened on", when, w)
				}
			case "notls":
				l := fresh("tcp")
				failed++
				srv.TLSConfig = &tls.Config{}
				refuse(serve(l), when)
				srv.TLSConfig = nil
				if h.Net.Listening(l.network, l.addr) {
					h.Fail("listening", "%s: it listens without a certificate", when)
				}
			case "stop":
				if len(ls) == 0 || !running {
					continue
				}
				if err := srv.Stop(false); err != nil {
					h.Fail("stop", "%s: %v", when, err)
				}
				running = false
				h.Settle()
				for _, l := range ls {
					l.down = false
					if h.Net.Listening(l.network, l.addr) {
						h.Fail("stop", "%s: %s %s is still listened on", when, l.network, l.addr)
					}
				}
			case "start", "start-taken":
				if running || len(ls) == 0 {
					continue
				}
				var other io.Closer
				for _, l := range ls {
					l.down = false
				}
				if o.Op == "start-taken" {
					l := ls[o.K%len(ls)]
					l.down = true
					if packet(l) {
						other, _ = h.Net.ListenPacket(l.network, l.addr)
					} else {
						other, _ = h.Net.Listen(l.network, l.addr)
					}
					failed++
				}
				if err := srv.Start(); err != nil {
					h.Fail("start", "%s: %v", when, err)
				}
				for _, l := range ls {
					l.sv = nil // served by Start from now on
				}
				h.Settle()
				if other != nil {
					other.Close()
				}
				if running = other == nil || len(ls) > 1; !running && srv.State() != tcpx.STATE_STOP {
					h.Fail("state", "%s: nothing could be served, but State() is %d", when, srv.State())
				}
			}
			h.Settle()
			verify(when)
		}
		if failed > 0 {
			h.NonTrivial()
		}
		if len(ls) > 0 {
			h.Label("beside working listeners")
		}
	})
}

// ---------------------------------------------------------------- C31 small helpers

type utilCase struct {
	Op    string   `json:"op"` // in, defer, md5, debug, request, message
	S     string   `json:"s"`
	Arr   []string `json:"arr"`
	Value any      `json:"value"`
	N     int      `json:"n"`
	Panic int      `json:"panic"`
}

func genUtilCase(t *rapid.T) utilCase {
	text := rapid.OneOf(genText(12), rapid.StringOfN(rapid.SampledFrom([]rune("ab")), 0, 5, -1))
	c := utilCase{
		Op:    rapid.SampledFrom([]string{"in", "in", "in", "defer", "md5", "debug", "request", "closechan", "bindjson"}).Draw(t, "op"),
		S:     text.Draw(t, "s"),
		N:     rapid.IntRange(0, 4).Draw(t, "n"),
		Panic: rapid.IntRange(0, 6).Draw(t, "panic"),
	}
	if c.Op == "debug" || c.Op == "request" || c.Op == "bindjson" {
		c.Value = jsonRound(genJSONValue(t, 2))
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "arr"); i < n; i++ {
		var v string
		switch rapid.IntRange(0, 4).Draw(t, "from") {
		case 0:
			v = text.Draw(t, "v")
		case 1:
			v = c.S
		case 2: // a part of s
			if len(c.S) > 0 {
				a := rapid.IntRange(0, len(c.S)).Draw(t, "a")
				b := rapid.IntRange(a, len(c.S)).Draw(t, "b")
				v = c.S[a:b]
			}
		case 3:
			if len(c.S) > 0 {
				v = c.S[:len(c.S)-1]
			}
		case 4:
			if len(c.S) > 0 {
				v = c.S[1:]
			}
		}
		v = strings.ReplaceAll(v, "%", "p") // what a % inside a pattern means is not documented
		switch rapid.IntRange(0, 4).Draw(t, "wild") {
		case 0:
			v = "%" + v
		case 1:
			v += "%"
		case 2:
			v = "%" + v + "%"
		}
		c.Arr = append(c.Arr, v)
	}
	return c
}

// likeModel: % at an end of a pattern stands for anything
func likeModel(s, v string) bool {
	pre, suf := strings.HasPrefix(v, "%"), strings.HasSuffix(v, "%")
	w := strings.TrimSuffix(strings.TrimPrefix(v, "%"), "%")
	for i := 0; i <= len(s); i++ {
		for j := i; j <= len(s); j++ {
			if s[i:j] == w && (pre || i == 0) && (suf || j == len(s)) {
				return true
			}
		}
	}
	return false
}

func runUtilCase(e *Env, c utilCase) {
	switch c.Op {
	case "bindjson":
		b := js(c.Value)
		switch c.Panic {
		case 1:
			b = append(b, c.S...)
		case 2:
			b = append(b, '}')
		case 3:
			b = append(append(b, ' '), b...)
		case 4:
			b = b[:len(b)-1]
		case 5:
			b = []byte(c.S)
		}
		var got, want any
		err, wantErr := tcpx.BindJSON(b, &got), json.Unmarshal(b, &want)
		if (err == nil) != (wantErr == nil) {
			e.Fail("bindjson", "BindJSON(%q) returned %v, encoding/json %v", b, err, wantErr)
		} else if err == nil && !bytes.Equal(js(got), js(want)) {
			e.Fail("bindjson", "BindJSON(%q) gave %v, want %v", b, got, want)
		}
		e.NonTrivial()
	case "in":
		want := false
		for _, v := range c.Arr {
			if likeModel(c.S, v) {
				want = true
			}
		}
		arr := append([]string(nil), c.Arr...)
		if got := tcpx.In(c.S, arr); got != want {
			e.Fail("in", "In(%q, %q) is %v", c.S, c.Arr, got)
		}
		if !eqStrings(arr, c.Arr) {
			e.Fail("in", "In changed its argument to %q", arr)
		}
		if len(c.Arr) > 1 || want {
			e.NonTrivial()
		}
	case "defer":
		var values = []any{nil, "text", 42, fmt.Errorf("err"), []string{"a"}, struct{}{}, error(nil)}
		v := values[c.Panic%len(values)]
		doPanic := v != nil
		ran := 0
		var calls []string
		var hs []func(any)
		for i := 0; i < c.N; i++ {
			hs = append(hs, func(x any) { calls = append(calls, fmt.Sprintf("%d:%v", i, x)) })
		}
		out := captured(func() {
			if p, _ := safely(func() {
				tcpx.Defer(func() {
					ran++
					if doPanic {
						panic(v)
					}
				}, hs...)
			}); p != nil {
				e.Fail("defer", "Defer let the panic %v through", p)
			}
		})
		_ = out
		var want []string
		if doPanic {
			for i := 0; i < c.N; i++ {
				want = append(want, fmt.Sprintf("%d:%v", i, v))
			}
			e.NonTrivial()
		}
		if ran != 1 || !eqStrings(calls, want) {
			e.Fail("defer", "the function ran %d times, the handlers as %q, want %q", ran, calls, want)
		}
	case "closechan":
		var none chan int
		for _, f := range []func(){func() { close(none) }, func() { panic(c.S) }, func() { panic(fmt.Errorf("%s", c.S)) }, func() {}} {
			if p, _ := safely(func() { tcpx.CloseChanel(f) }); p != nil {
				e.Fail("closechan", "CloseChanel let the panic %v through", p)
			}
		}
		ch := make(chan int)
		for i := 0; i <= c.N; i++ {
			if p, _ := safely(func() { tcpx.CloseChanel(func() { close(ch) }) }); p != nil {
				e.Fail("closechan", "closing time %d panicked: %v", i, p)
			}
			select {
			case <-ch:
			default:
				e.Fail("closechan", "the channel is not closed")
			}
		}
		if c.N > 0 {
			e.NonTrivial()
		}
	case "md5":
		sum := md5.Sum([]byte(c.S))
		if got := tcpx.MD5(c.S); got != strings.ToUpper(hex.EncodeToString(sum[:])) {
			e.Fail("md5", "MD5(%q) is %s", c.S, got)
		}
		e.NonTrivial()
	case "debug":
		var got any
		if err := json.Unmarshal([]byte(tcpx.Debug(c.Value)), &got); err != nil || !reflect.DeepEqual(got, c.Value) {
			e.Fail("debug", "Debug(%s) is %s (%v)", js(c.Value), tcpx.Debug(c.Value), err)
		}
		e.NonTrivial()
	case "request":
		r := tcpx.NewRequest(c.S, strings.NewReader(c.S+"body"))
		b, err := io.ReadAll(r.Body)
		if err != nil || string(b) != c.S+"body" || r.URL != c.S {
			e.Fail("request", "a request for %q has url %q, body %q (%v)", c.S, r.URL, b, err)
		}
		want := map[string]any{}
		for i, k := range c.Arr {
			r.Set(k, i)
			want[k] = i
		}
		if len(want) > 0 && !reflect.DeepEqual(map[string]any(r.Header), want) {
			e.Fail("request", "the header is %v, want %v", r.Header, want)
		}
		e.NonTrivial()
	}
	e.Label(c.Op)
}

// captured returns what f prints, on standard output, standard error or through the library's logger.
func captured(f func()) string {
	dir := os.Getenv("VERIF_OUT")
	file, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("captured-%d", os.Getpid())), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer file.Close()
	so, se := os.Stdout, os.Stderr
	lw := tcpx.Logger.Logger.Writer()
	os.Stdout, os.Stderr = file, file
	tcpx.Logger.Logger.SetOutput(file)
	func() {
		defer func() {
			os.Stdout, os.Stderr = so, se
			tcpx.Logger.Logger.SetOutput(lw)
		}()
		f()
	}()
	b, err := os.ReadFile(file.Name())
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// ---------------------------------------------------------------- C32 logging

type logOp struct {
	Op   string `json:"op"` // mode, own-mode, print, own-print, serve
	Mode int    `json:"mode"`
	Text string `json:"text"`
	Num  int    `json:"num"`
}

type logCase struct {
	Ops   []logOp  `json:"ops"`
	Serve []string `json:"serve"`
	UDP   bool     `json:"udp"`
}

var logServe = []string{"ok", "unknown", "unknown-url", "panic", "garbage", "badheader", "badpipe", "cut", "beat", "lost", "authdeny", "authlate", "closed-reply", "pipe-panic", "pipe-cut", "pipe-unknown"}

func genLogCase(t *rapid.T) logCase {
	var c logCase
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
		c.Ops = append(c.Ops, logOp{
			Op:   rapid.SampledFrom([]string{"mode", "mode", "own-mode", "method-mode", "print", "print", "own-print", "own-print"}).Draw(t, "op"),
			Mode: rapid.SampledFrom([]int{tcpx.DEBUG, tcpx.RELEASE}).Draw(t, "mode"),
			Text: strings.Map(func(r rune) rune {
				if r < ' ' || r > '~' {
					return 'x'
				}
				return r
			}, genText(20).Draw(t, "text")),
			Num: rapid.IntRange(0, 1<<30).Draw(t, "num"),
		})
	}
	if rapid.IntRange(0, 2).Draw(t, "server") > 0 {
		c.Serve = rapid.SliceOfN(rapid.SampledFrom(logServe), 1, 6).Draw(t, "serve")
		c.UDP = rapid.IntRange(0, 3).Draw(t, "udp") == 0
	}
	return c
}

func runLogCase(e *Env, c logCase) {
	before := tcpx.Logger.Mode
	defer func() { tcpx.Logger.Mode = before }()
	tcpx.SetLogMode(tcpx.DEBUG)
	mode := tcpx.DEBUG
	own := tcpx.Log{Logger: tcpx.Logger.Logger, Mode: tcpx.RELEASE}
	ownMode := tcpx.RELEASE
	prints := 0
	for i, o := range c.Ops {
		switch o.Op {
		case "mode":
			tcpx.SetLogMode(o.Mode)
			mode = o.Mode
		case "method-mode":
			tcpx.Logger.SetLogMode(o.Mode)
			mode = o.Mode
		case "own-mode":
			own.SetLogMode(o.Mode)
			ownMode = o.Mode
		case "print", "own-print":
			l, m := &tcpx.Logger, mode
			if o.Op == "own-print" {
				l, m = &own, ownMode
			}
			mark := fmt.Sprintf("<%d %s %d>", i, o.Text, o.Num)
			out := captured(func() { l.Println(mark, o.Num) })
			if m == tcpx.RELEASE && out != "" {
				e.Fail("noise", "op %d: printed %q in release mode", i, trunc(out, 300))
			}
			if m == tcpx.DEBUG && (strings.Count(out, mark) != 1 || !strings.Contains(out, fmt.Sprint(o.Num))) {
				e.Fail("missing", "op %d: printing %q in debug mode gave %q", i, mark, trunc(out, 300))
			}
			prints++
		}
	}
	if prints > 0 {
		e.NonTrivial()
	}
	if len(c.Serve) == 0 {
		return
	}
	// a server in release mode is silent
	tcpx.SetLogMode(tcpx.RELEASE)
	e.NonTrivial()
	e.Label("served")
	out := captured(func() {
		e.Bubble(func(h *H) {
			srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
			srv.HeartBeatMode(true, 10*time.Second)
			srv.WithAuthDetail(true, 5*time.Second, false, 77, func(ctx *tcpx.Context) {
				var s string
				ctx.Bind(&s)
				if s == "deny" {
					ctx.RecvAuthDeny()
				} else {
					ctx.RecvAuthPass()
				}
			})
			srv.AddHandler(1, func(ctx *tcpx.Context) { ctx.JSON(2, "ok") })
			srv.AddHandler(2, func(ctx *tcpx.Context) { panic("boom") })
			srv.AddHandler(3, func(ctx *tcpx.Context) { ctx.CloseConn(); ctx.JSON(2, "gone") })
			network := "tcp"
			if c.UDP {
				network = "udp"
			}
			h.Serve(srv, network, addr)
			for i, k := range c.Serve {
				var f []byte
				switch k {
				case "ok", "lost", "authlate":
					f = msgFrame(1, js("x"))
				case "unknown":
					f = msgFrame(999, js("x"))
				case "unknown-url":
					f = urlFrame("/nowhere/", js("x"))
				case "panic":
					f = msgFrame(2, js("x"))
				case "garbage":
					f = bytes.Repeat([]byte{0xfe}, 30)
				case "badheader":
					f = wire.Build(1, []byte(`{"x":`), js("x"))
				case "badpipe":
					f = pipeFrame(1, `"enable;x"`, js("x"))
				case "cut":
					f = msgFrame(1, js("x"))[:10]
				case "pipe-panic":
					f = append(pipeFrame(1, `"enable;2"`, js("x")), msgFrame(2, js("x"))...)
				case "pipe-unknown":
					f = append(pipeFrame(999, `"enable;2"`, js("x")), urlFrame("/nowhere/", js("x"))...)
				case "pipe-cut":
					f = pipeFrame(1, `"enable;2"`, js("x"))
				case "beat":
					f = msgFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, js("x"))
				case "authdeny":
					f = msgFrame(77, js("deny"))
				case "closed-reply":
					f = msgFrame(3, js("x"))
				}
				if c.UDP {
					if k == "closed-reply" { // it would close the one socket
						continue
					}
					h.Net.Send("udp", addr, vnet.Datagram{Data: f, Addr: udpAddr(i)})
					continue
				}
				cl := h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(i)})
				if cl == nil {
					continue
				}
				if k != "authlate" && k != "authdeny" {
					cl.Send(msgFrame(77, js("pass")))
				}
				cl.Send(f)
				if k == "cut" || k == "pipe-cut" {
					cl.Conn.CloseWrite()
				}
				h.Settle()
			}
			time.Sleep(time.Minute)
			h.Settle()
		})
		e.mu.Lock()
		e.viol = nil // how it is served is for other properties
		e.mu.Unlock()
	})
	// the end of the case closes the listener, which is reported through the standard logger
	var left []string
	for _, l := range strings.Split(out, "\n") {
		if l != "" {
			left = append(left, l)
		}
	}
	if len(left) > 0 {
		e.Fail("noise", "in release mode, serving %v over %v printed %q", c.Serve, c.UDP, trunc(strings.Join(left, "\n"), 400))
	}
}

// ---------------------------------------------------------------- C33 pools and contexts of one's own

type ownOp struct {
	Op   string `json:"op"` // login, logout, whoami, send, sendconn, push, close, hand, handclose
	C    int    `json:"c"`
	User int    `json:"user"`
	Via  int    `json:"via"`
}

type ownCase struct {
	Ops    []ownOp `json:"ops"`
	Global bool    `json:"global,omitempty"` // the library's own pool, tcpx.GlobalClientPool
}

func genOwnCase(t *rapid.T) ownCase {
	var c ownCase
	c.Global = rapid.IntRange(0, 4).Draw(t, "global") == 0
	for i, n := 0, rapid.IntRange(2, 20).Draw(t, "n"); i < n; i++ {
		c.Ops = append(c.Ops, ownOp{
			Op:   rapid.SampledFrom([]string{"login", "login", "login", "logout", "whoami", "send", "send", "send", "push", "push", "close", "set", "delete", "hand", "handudp", "tag", "reserved"}).Draw(t, "op"),
			C:    rapid.IntRange(0, 3).Draw(t, "c"),
			User: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 5, 8, 8, 13, 13, 14}).Draw(t, "user"),
			Via:  rapid.IntRange(0, 1).Draw(t, "via"),
		})
		if i == 0 && rapid.IntRange(0, 39).Draw(t, "crowd") == 0 {
			for k := rapid.IntRange(5, 140).Draw(t, "crowdn"); k > 0; k-- {
				c.Ops = append(c.Ops, ownOp{Op: []string{"login", "set"}[k%2], C: k * k % 4, User: len(poolUsers) + k})
			}
		}
	}
	return c
}

// signals: a heartbeat or an authentication signal waits to be received, and giving more of them does not block.
func signals(h *H, when string, ctx *tcpx.Context) {
	for i := 0; i < 3; i++ {
		ctx.RecvHeartBeat()
	}
	select {
	case <-ctx.HeartBeatChan():
	default:
		h.Fail("signal", "%s: a heartbeat did not arrive", when)
	}
	for i := 0; i < 3; i++ {
		if i%2 == 0 {
			ctx.RecvAuthPass()
		} else {
			ctx.RecvAuthDeny()
		}
		select {
		case v := <-ctx.AuthChan():
			if (v > 0) != (i%2 == 0) {
				h.Fail("signal", "%s: an authentication signal arrived as %d", when, v)
			}
		default:
			h.Fail("signal", "%s: an authentication signal did not arrive", when)
		}
	}
	for i := 0; i < 3; i++ {
		ctx.RecvAuthPass()
	}
}

func runOwnCase(e *Env, c ownCase) {
	e.Bubble(func(h *H) {
		users := append([]string(nil), poolUsers...)
		for _, o := range c.Ops {
			users = append(users, poolUser(o.User))
		}
		users = uniq(users)
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{}) // without the built-in pool
		pool := tcpx.NewClientPool()
		other := tcpx.NewClientPool()
		if c.Global {
			pool = tcpx.GlobalClientPool
			if pool == nil {
				h.Fail("no-pool", "tcpx.GlobalClientPool is nil")
				return
			}
			defer func() {
				for _, u := range users {
					pool.DeleteFromClientPool(u)
				}
			}()
		}
		var job func(*tcpx.Context)
		srv.AddHandler(1, func(ctx *tcpx.Context) { job(ctx) })
		h.Serve(srv, "tcp", addr)
		type conn struct {
			cl     *Client
			n      int
			closed bool
			name   string // as told to the connection
			expect []string
		}
		conns := make([]*conn, 4)
		var all []*conn
		byCtx := map[*tcpx.Context]*conn{}
		model := map[string]*conn{}
		ctxOf := map[string]*tcpx.Context{}
		next := 0
		sent := 0
		for i, o := range c.Ops {
			if h.Failed() {
				return
			}
			k := conns[o.C]
			if k == nil {
				k = &conn{cl: h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(next)})}
				next++
				if k.cl == nil {
					h.Fail("refused", "connection refused")
					return
				}
				conns[o.C] = k
				all = append(all, k)
				h.Settle()
			}
			u := poolUser(o.User)
			when := fmt.Sprintf("step %d %s(%d,%q)", i, o.Op, o.C, u)
			do := func(f func(*tcpx.Context)) {
				ran, ended := false, false
				job = func(ctx *tcpx.Context) {
					ran = true
					byCtx[ctx] = k
					f(ctx)
					ended = true
				}
				k.cl.Send(msgFrame(1, js(i)))
				h.Settle()
				if !ran {
					h.Fail("lost", "%s: the request was not handled", when)
				} else if !ended {
					h.Fail("panic", "%s: a call on the context panicked", when)
				}
			}
			tell := func(ctx *tcpx.Context, x *tcpx.Context, to *conn) {
				var err error
				if o.Via == 0 && ctx != nil {
					err = ctx.SendToConn(x, 50, when, map[string]any{"n": i})
				} else {
					err = x.JSON(50, when, map[string]any{"n": i})
				}
				if to.closed {
					if err == nil {
						h.Fail("send", "%s: sending to a closed connection gave no error", when)
					}
					return
				}
				if err != nil {
					h.Fail("send", "%s: %v", when, err)
				}
				to.expect = append(to.expect, fmt.Sprintf("50 {\"n\":%d} %s", i, js(when)))
				sent++
			}
			switch o.Op {
			case "login":
				do(func(ctx *tcpx.Context) {
					if err := ctx.Online(u); err == nil {
						h.Fail("pool", "%s: Online without a pool gave no error", when)
					}
					if err := ctx.Offline(); err == nil {
						h.Fail("pool", "%s: Offline without a pool gave no error", when)
					}
					if err := ctx.SendToUsername(u, 9, "x"); err == nil {
						h.Fail("pool", "%s: SendToUsername without a pool gave no error", when)
					}
					ctx.SetUsername(u)
					pool.Online(u, ctx)
					ctxOf[u] = ctx
				})
				k.name = u
				model[u] = k
			case "set":
				do(func(ctx *tcpx.Context) { pool.SetClientPool(u, ctx); ctxOf[u] = ctx })
				model[u] = k
			case "tag":
				do(func(ctx *tcpx.Context) { ctx.SetUsername(u) })
				k.name = u
			case "logout":
				do(func(ctx *tcpx.Context) {
					name, ok := ctx.Username()
					if ok != (k.name != "") || name != k.name {
						h.Fail("name", "%s: Username is %q, %v, want %q", when, name, ok, k.name)
					}
					if ok {
						pool.Offline(name)
					}
				})
				delete(model, k.name)
			case "delete":
				pool.DeleteFromClientPool(u)
				delete(model, u)
			case "whoami":
				do(func(ctx *tcpx.Context) {
					name, ok := ctx.Username()
					if ok != (k.name != "") || name != k.name || ctx.GetUsername() != k.name {
						h.Fail("name", "%s: Username is %q, %v, want %q", when, name, ok, k.name)
					}
				})
			case "reserved":
				do(func(ctx *tcpx.Context) {
					for _, key := range []string{"tcpx-username", "tcpx-", "tcpx-x"} {
						if p, _ := safely(func() { ctx.SetCtxPerConn(key, "forged") }); p == nil {
							h.Fail("reserved", "%s: the reserved key %q can be set", when, key)
						}
					}
					for _, key := range []string{"tcp-x", "xtcpx-", "tcpx", "TCPX-"} {
						if p, _ := safely(func() { ctx.SetCtxPerConn(key, i) }); p != nil {
							h.Fail("reserved", "%s: the key %q cannot be set: %v", when, key, p)
						}
						if v, ok := ctx.GetCtxPerConn(key); !ok || v != any(i) {
							h.Fail("reserved", "%s: %q holds %v, %v", when, key, v, ok)
						}
					}
				})
			case "send":
				do(func(ctx *tcpx.Context) {
					x := pool.GetClientPool(u)
					if (x != nil) != (model[u] != nil) {
						h.Fail("pool", "%s: found %v, want %v", when, x != nil, model[u] != nil)
						return
					}
					if x != nil {
						tell(ctx, x, model[u])
					}
				})
			case "push":
				if x := pool.GetClientPool(u); (x != nil) != (model[u] != nil) {
					h.Fail("pool", "%s: found %v, want %v", when, x != nil, model[u] != nil)
				} else if x != nil {
					tell(nil, x, model[u])
				}
			case "close":
				k.cl.Close()
				k.closed = true
				k.cl.eof = true
				conns[o.C] = nil
			case "hand": // a client that uses a context for its own end of a connection
				h.Net.DialOpt = vnet.Opt{ClientAddr: tcpAddr(next)}
				next++
				cn, err := net.Dial("tcp", addr)
				if err != nil {
					h.Fail("refused", "net.Dial: %v", err)
					return
				}
				mk := tcpx.NewContext
				if o.Via == 1 {
					mk = tcpx.NewTCPContext
				}
				ctx := mk(cn, tcpx.JsonMarshaller{})
				got := ""
				job = func(c *tcpx.Context) { c.Bind(&got); c.JSON(60, got) }
				if !ctx.IsOnline() || ctx.IsOffline() || ctx.Network() != "tcp" {
					h.Fail("hand", "%s: a new context is online %v, network %q", when, ctx.IsOnline(), ctx.Network())
				}
				if err := ctx.JSON(1, when); err != nil {
					h.Fail("hand", "%s: %v", when, err)
				}
				sent++
				h.Settle()
				b, _ := cn.(*vnet.Conn).TakeAll()
				if f, err := wire.Parse(b); got != when || err != nil || f.ID != 60 || string(f.Body) != string(js(when)) {
					h.Fail("hand", "%s: the server bound %q and replied %q", when, got, b)
				}
				if name, ok := ctx.Username(); ok || name != "" || ctx.GetUsername() != "" {
					h.Fail("hand", "%s: a new context is called %q", when, name)
				}
				signals(h, when, ctx)
				ctx.SetCtxPerConn("k", 1)
				ctx.SetCtxPerRequest("k", 2)
				if a, _ := ctx.GetCtxPerConn("k"); a != any(1) {
					h.Fail("hand", "%s: the connection value is %v", when, a)
				}
				if a, _ := ctx.GetCtxPerRequest("k"); a != any(2) {
					h.Fail("hand", "%s: the request value is %v", when, a)
				}
				ctx.Reset()
				if a, ok := ctx.GetCtxPerRequest("k"); ok {
					h.Fail("hand", "%s: the request value is %v after Reset", when, a)
				}
				if a, _ := ctx.GetCtxPerConn("k"); a != any(1) {
					h.Fail("hand", "%s: the connection value is %v after Reset", when, a)
				}
				if err := ctx.CloseConn(); err != nil {
					h.Fail("hand", "%s: CloseConn: %v", when, err)
				}
				if p, _ := safely(func() { ctx.CloseConn() }); p != nil {
					h.Fail("hand", "%s: closing again panicked: %v", when, p)
				}
				if ctx.IsOnline() || ctx.JSON(1, "x") == nil {
					h.Fail("hand", "%s: a closed context is online %v or sends", when, ctx.IsOnline())
				}
			case "handudp": // a context for one peer of a packet connection of one's own
				pc, err := h.Net.ListenPacket("udp", fmt.Sprintf(":%d", 9100+i))
				if err != nil {
					h.Fail("handudp", "%s: %v", when, err)
					return
				}
				to := []net.Addr{udpAddr(o.C), udpAddr(o.C + 4)}
				var ctxs []*tcpx.Context
				for _, a := range to {
					ctxs = append(ctxs, tcpx.NewUDPContext(pc, a, tcpx.JsonMarshaller{}))
				}
				for j, ctx := range ctxs {
					if !ctx.IsOnline() || ctx.IsOffline() || ctx.Network() != "udp" {
						h.Fail("handudp", "%s: a new context is online %v, network %q", when, ctx.IsOnline(), ctx.Network())
					}
					if got := ctx.ClientIP(); !strings.HasPrefix(to[j].String(), got+":") {
						h.Fail("handudp", "%s: ClientIP is %q for %s", when, got, to[j])
					}
					signals(h, when, ctx)
					ctx.SetUsername(users[j])
					ctx.SetCtxPerConn("k", 10+j)
					ctx.SetCtxPerRequest("r", 20+j)
				}
				first := o.Via
				for k, j := range []int{first, 1 - first, first} {
					ctx := ctxs[j]
					if a, ok := ctx.GetCtxPerConn("k"); !ok || a != any(10+j) {
						h.Fail("handudp", "%s: the connection value is %v", when, a)
					}
					if name, ok := ctx.Username(); !ok || name != users[j] || ctx.GetUsername() != name {
						h.Fail("handudp", "%s: Username is %q, %v", when, name, ok)
					}
					if a, ok := ctx.GetCtxPerRequest("r"); !ok || a != any(20+j) {
						h.Fail("handudp", "%s: the request value is %v", when, a)
					}
					if err := ctx.JSON(int32(70+k), when); err != nil {
						h.Fail("handudp", "%s: %v", when, err)
					}
					sent++
					out := pc.Sent()
					if len(out) != k+1 {
						h.Fail("handudp", "%s: %d datagrams after %d replies", when, len(out), k+1)
						return
					}
					if f, err := wire.Parse(out[k].Data); err != nil || f.ID != int32(70+k) || string(f.Body) != string(js(when)) || out[k].Addr.String() != to[j].String() {
						h.Fail("handudp", "%s: reply %d went out as %q to %s, want %s", when, k, out[k].Data, out[k].Addr, to[j])
					}
				}
				if err := ctxs[first].CloseConn(); err != nil {
					h.Fail("handudp", "%s: CloseConn: %v", when, err)
				}
				if p, _ := safely(func() { ctxs[first].CloseConn() }); p != nil {
					h.Fail("handudp", "%s: closing again panicked: %v", when, p)
				}
				if ctxs[first].IsOnline() || ctxs[first].JSON(1, "x") == nil || !pc.Closed() || len(pc.Sent()) != 3 {
					h.Fail("handudp", "%s: a closed context is online %v or sends", when, ctxs[first].IsOnline())
				}
			}
			h.Settle()
			for _, name := range users {
				x := pool.GetClientPool(name)
				if (x != nil) != (model[name] != nil) || x != nil && (byCtx[x] != model[name] || x != ctxOf[name]) {
					h.Fail("pool", "%s: %q leads to the wrong context (%v, want %v)", when, name, x != nil, model[name] != nil)
				}
				online := false
				if p, _ := safely(func() { online = x.IsOnline() }); p != nil || online != (model[name] != nil && !model[name].closed) {
					h.Fail("pool", "%s: whoever is found as %q is online: %v (panic %v)", when, name, online, p)
				}
				if other.GetClientPool(name) != nil {
					h.Fail("pool", "%s: %q is in another pool", when, name)
				}
			}
			for j, x := range all {
				if x.closed {
					continue
				}
				fs, err := x.cl.Frames()
				if err != nil {
					h.Fail("garbled", "%s: %v", when, err)
					return
				}
				var got []string
				for _, f := range fs {
					got = append(got, fmt.Sprintf("%d %s %s", f.ID, canonHeader(f.Header), f.Body))
				}
				if !eqStrings(got, x.expect) {
					h.Fail("delivery", "%s: connection %d received %q, want %q", when, j, got, x.expect)
				}
			}
		}
		if sent > 0 {
			h.NonTrivial()
		}
	})
}

var _ sync.Mutex

func init() {
	reg("C30", "open", 30000, 300000, "1-10 steps: serving on 12 kinds of listener, on an address in use by itself or by somebody else, on 19 unsupported networks, with an unusable TLS configuration, a listener on which accepting fails for good, and stop and start with an address taken meanwhile; the working listeners are asked after each; non-trivial: something could not be served", genOpenCase, runOpenCase)
	reg("C31", "utils", 150000, 1500000, "calls of In (lists made of parts of the string, with and without % at the ends), Defer, CloseChanel, MD5, Debug, BindJSON, NewRequest with drawn arguments; non-trivial: more than one pattern or a match, a panic, or any of the others", genUtilCase, runUtilCase)
	reg("C32", "log", 15000, 150000, "1-6 steps of switching modes and printing on the library's logger and one of one's own, and a server in release mode with clients of 16 kinds; non-trivial: something was printed or served", genLogCase, runLogCase)
	reg("C33", "own", 30000, 300000, "2-20 steps over 4 connections, 3 names (at times among a crowd) and a pool of one's own: login, logout, sending, pushing, closing, reserved keys, contexts made by hand; non-trivial: something was sent through the pool or with a context made by hand", genOwnCase, runOwnCase)
}
