package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- C23 nothing left behind

type leakConn struct {
	Raw  bool     `json:"raw"`
	Spec connSpec `json:"spec"`
	Msgs []string `json:"msgs"`
	End  string   `json:"end"`
}

type leakCase struct {
	Pool    bool       `json:"pool"`
	Signals bool       `json:"signals"`
	Beat    bool       `json:"beat"`
	Auth    bool       `json:"auth"`
	Raw     bool       `json:"raw"`
	UDP     int        `json:"udp"` // datagrams
	Conns   []leakConn `json:"conns"`
	Rounds  int        `json:"rounds"`
	LetBe   bool       `json:"let_be"` // time passes before what is still open is closed
	Stop    string     `json:"stop"`   // all, none, cycle
}

var leakMsgs = []string{"ask", "ask", "gate", "panic", "pipe", "pipe-cut", "beat", "beats", "pass", "passes", "deny", "online", "offline", "unknown"}
var leakEnds = []string{"close", "close", "half", "garbage", "oversized", "server", "server2", "stay", "partial", "deadline"}

func genLeakCase(t *rapid.T) leakCase {
	c := leakCase{
		Pool:    rapid.Bool().Draw(t, "pool"),
		Signals: rapid.Bool().Draw(t, "signals"),
		Beat:    rapid.Bool().Draw(t, "beat"),
		Auth:    rapid.Bool().Draw(t, "auth"),
		Raw:     rapid.Bool().Draw(t, "raw"),
		UDP:     rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "udp"),
		Rounds:  rapid.IntRange(1, 2).Draw(t, "rounds"),
		LetBe:   rapid.Bool().Draw(t, "letbe"),
		Stop:    rapid.SampledFrom([]string{"all", "listener", "cycle"}).Draw(t, "stop"),
	}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Conns = append(c.Conns, leakConn{
			Raw:  rapid.IntRange(0, 3).Draw(t, "israw") == 0,
			Spec: genOpt(t),
			Msgs: rapid.SliceOfN(rapid.SampledFrom(leakMsgs), 0, 5).Draw(t, "msgs"),
			End:  rapid.SampledFrom(leakEnds).Draw(t, "end"),
		})
	}
	return c
}

func runLeakCase(e *Env, c leakCase) {
	before := stacks()
	mine := func() map[string][2]string {
		now := stacks()
		for k := range before {
			delete(now, k)
		}
		return now
	}
	describe := func(old, now map[string][2]string) string {
		var l []string
		for k, v := range now {
			if _, ok := old[k]; !ok {
				l = append(l, trunc(v[1], 1200))
			}
		}
		sort.Strings(l)
		return strings.Join(l, "\n\n")
	}
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		if c.Signals {
			srv.WithBroadCastSignal(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, 10*time.Second)
		}
		if c.Auth {
			srv.WithAuthDetail(true, 7*time.Second, false, 77, func(ctx *tcpx.Context) {
				var s string
				ctx.Bind(&s)
				k := 1
				if s == "passes" {
					k = 4
				}
				for i := 0; i < k; i++ {
					if s == "deny" {
						ctx.RecvAuthDeny()
					} else {
						ctx.RecvAuthPass()
					}
				}
			})
		}
		srv.SetMaxBytePerMessage(2000)
		srv.OnConnect = func(ctx *tcpx.Context) {
			if c.Conns[connIndex(ctx)].End == "deadline" {
				ctx.SetReadDeadline(time.Now().Add(20 * time.Second))
			}
		}
		srv.AddHandler(1, func(ctx *tcpx.Context) {
			var s string
			ctx.Bind(&s)
			switch s {
			case "gate":
				h.Gate("gate")
				ctx.JSON(2, s)
			case "panic":
				panic("boom")
			case "online":
				if c.Pool {
					ctx.Online(fmt.Sprintf("u%d", connIndex(ctx)))
				}
			case "offline":
				if c.Pool {
					ctx.Offline()
				}
			case "beats":
				for i := 0; i < 5; i++ {
					ctx.RecvHeartBeat()
				}
			case "server":
				ctx.CloseConn()
			case "server2":
				go ctx.CloseConn()
				ctx.CloseConn()
			default:
				ctx.JSON(2, s)
			}
		})
		srv.HandleRaw = func(ctx *tcpx.Context) {
			b := make([]byte, 64)
			for {
				n, err := ctx.ConnReader.Read(b)
				if bytes.Contains(b[:n], []byte("server")) {
					ctx.CloseConn()
				}
				if err != nil {
					return
				}
			}
		}
		h.Go(func() error { return srv.ListenAndServe("tcp", ":1") })
		h.Settle()
		if c.Raw {
			h.Go(func() error { return srv.ListenAndServeRaw("tcp", ":2") })
			h.Settle()
		}
		if c.UDP > 0 {
			h.Go(func() error { return srv.ListenAndServe("udp", ":3") })
			h.Settle()
		}
		base := mine()
		msgs := 0
		for round := 0; round < c.Rounds; round++ {
			var cls []*Client
			for i, k := range c.Conns {
				a := ":1"
				if k.Raw && c.Raw {
					a = ":2"
				}
				cl := h.Dial("tcp", a, k.Spec.opt(i))
				if cl == nil {
					h.Fail("refused", "connection %d refused", i)
					return
				}
				cls = append(cls, cl)
			}
			h.Settle()
			for j := 0; j < 5; j++ {
				for i, k := range c.Conns {
					if j >= len(k.Msgs) {
						continue
					}
					msgs++
					m := k.Msgs[j]
					switch m {
					case "pipe":
						cls[i].Send(append(pipeFrame(1, `"enable;2"`, js("ask")), msgFrame(1, js("ask"))...))
					case "pipe-cut":
						if j == len(k.Msgs)-1 { // else it would swallow what follows
							cls[i].Send(pipeFrame(1, `"enable;3"`, js("ask")))
						}
					case "beat":
						cls[i].Send(msgFrame(tcpx.DEFAULT_HEARTBEAT_MESSAGEID, js("b")))
					case "pass", "passes", "deny":
						cls[i].Send(msgFrame(77, js(m)))
					case "unknown":
						cls[i].Send(msgFrame(4242, js(m)))
					default:
						cls[i].Send(msgFrame(1, js(m)))
					}
				}
				h.Settle()
			}
			for i := 0; i < c.UDP; i++ {
				h.Net.Send("udp", ":3", vnet.Datagram{Data: msgFrame(1, js("ask")), Addr: udpAddr(i)})
			}
			h.Settle()
			for i, k := range c.Conns {
				switch k.End {
				case "close":
					cls[i].Close()
				case "half":
					cls[i].Conn.CloseWrite()
				case "garbage":
					cls[i].Send([]byte{0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0})
					cls[i].Conn.CloseWrite()
				case "oversized":
					cls[i].Send(msgFrame(1, bytes.Repeat([]byte(" "), 3000)))
					cls[i].Conn.CloseWrite()
				case "server", "server2":
					cls[i].Send(msgFrame(1, js(k.End)))
				case "partial":
					cls[i].Send(msgFrame(1, js("ask"))[:9])
					cls[i].Conn.CloseWrite()
				}
			}
			h.Settle()
			h.Open("gate")
			h.Settle()
			if c.LetBe {
				time.Sleep(time.Minute)
				h.Settle()
			}
			for _, cl := range cls { // whatever is still open ends now
				cl.Close()
			}
			h.Settle()
			time.Sleep(2 * time.Second) // well below the heartbeat interval
			h.Settle()
			if now := mine(); len(now) > len(base) {
				h.Fail("leak", "round %d: every connection has ended, but %d goroutines of the library are there, %d before the connections:\n%s", round, len(now), len(base), describe(base, now))
				return
			}
			for _, s := range h.Net.Conns() {
				if cl, _ := s.Closed(); !cl {
					h.Fail("open", "a connection of %v has ended but its socket is still open on the server", s.RemoteAddr())
				}
			}
		}
		switch c.Stop {
		case "all":
			srv.Stop(true)
		case "listener":
			srv.Stop(false)
		case "cycle":
			srv.Stop(true)
			h.Settle()
			srv.Start()
			h.Settle()
			srv.Stop(false)
		}
		h.Settle()
		time.Sleep(time.Hour)
		h.Settle()
		if now := mine(); len(now) > 0 {
			h.Fail("leak", "the server has stopped, but %d goroutines of the library are left:\n%s", len(now), describe(nil, now))
		}
		if msgs > 0 || len(c.Conns) > 1 {
			h.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C24 TLS

var (
	tlsOnce sync.Once
	tlsDir  string
	tlsPool *x509.CertPool
	tlsPair tls.Certificate
)

func tlsFiles() {
	tlsOnce.Do(func() {
		tlsDir = filepath.Join(os.Getenv("VERIF_OUT"), "tls")
		if err := os.MkdirAll(tlsDir, 0o700); err != nil {
			panic("harness: " + err.Error())
		}
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic("harness: " + err.Error())
		}
		tpl := &x509.Certificate{
			SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "tcpx"}, DNSNames: []string{"tcpx.test"},
			NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
		if err != nil {
			panic("harness: " + err.Error())
		}
		kb, _ := x509.MarshalECPrivateKey(key)
		cp := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		kp := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
		os.WriteFile(filepath.Join(tlsDir, "cert.pem"), cp, 0o600)
		os.WriteFile(filepath.Join(tlsDir, "key.pem"), kp, 0o600)
		tlsPool = x509.NewCertPool()
		tlsPool.AppendCertsFromPEM(cp)
		tlsPair, _ = tls.X509KeyPair(cp, kp)
	})
}

// tlsClient speaks TLS over a virtual connection and notes both the plain and the wire bytes.
type tlsClient struct {
	tc    *tls.Conn
	q     chan []byte
	mu    sync.Mutex
	plain []byte
	wire  []byte
	ended bool
	werr  error
}

type teeConn struct {
	net.Conn
	t *tlsClient
}

func (t teeConn) note(b []byte) {
	t.t.mu.Lock()
	t.t.wire = append(t.t.wire, b...)
	t.t.mu.Unlock()
}

func (t teeConn) Read(p []byte) (int, error) {
	n, err := t.Conn.Read(p)
	t.note(p[:n])
	return n, err
}

func (t teeConn) Write(p []byte) (int, error) {
	t.note(p)
	return t.Conn.Write(p)
}

func newTLSClient(c net.Conn) *tlsClient {
	t := &tlsClient{q: make(chan []byte, 1000)}
	t.tc = tls.Client(teeConn{c, t}, &tls.Config{RootCAs: tlsPool, ServerName: "tcpx.test", DynamicRecordSizingDisabled: true})
	shaken := make(chan struct{})
	go func() {
		<-shaken
		for b := range t.q {
			if _, err := t.tc.Write(b); err != nil {
				t.mu.Lock()
				t.werr = err
				t.mu.Unlock()
			}
		}
	}()
	go func() {
		// the handshake first: a writer would wait for a lock meanwhile, which no bubble
		// counts as being idle
		err := t.tc.Handshake()
		close(shaken)
		if err != nil {
			t.mu.Lock()
			t.werr, t.ended = err, true
			t.mu.Unlock()
			return
		}
		b := make([]byte, 4096)
		for {
			n, err := t.tc.Read(b)
			t.mu.Lock()
			t.plain = append(t.plain, b[:n]...)
			if err != nil {
				t.ended = true
			}
			t.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return t
}

type tlsReq struct {
	Client int   `json:"client"`
	ID     int32 `json:"id"`
	URL    bool  `json:"url"`
	Pad    int   `json:"pad"`
	Cuts   []int `json:"cuts"`
	Wait   bool  `json:"wait"`
	Pipe   bool  `json:"pipe"`
}

type tlsCase struct {
	Config  bool       `json:"config"` // srv.TLSConfig set directly
	BadFile int        `json:"bad_file"`
	Conns   []connSpec `json:"conns"`
	Plain   int        `json:"plain"` // plaintext intruders
	Reqs    []tlsReq   `json:"reqs"`
	Restart int        `json:"restart"`        // request before which the server restarts, -1 for never
	More    int        `json:"more,omitempty"` // further addresses served
	Says    string     `json:"says,omitempty"` // what the intruders say: a message, or its beginning, that of a TLS record, nothing
	Keep    int        `json:"keep,omitempty"` // so many bytes of it
	Leave   bool       `json:"leave,omitempty"`
	Pace    int        `json:"pace,omitempty"`
	After   string     `json:"after,omitempty"` // what ends the TLS clients' connections at last
}

func genTLSCase(t *rapid.T) tlsCase {
	c := tlsCase{
		Config:  rapid.IntRange(0, 3).Draw(t, "config") == 0,
		BadFile: rapid.IntRange(0, 6).Draw(t, "bad"),
		Plain:   rapid.IntRange(0, 2).Draw(t, "plain"),
	}
	nc := rapid.IntRange(1, 3).Draw(t, "nc")
	for i := 0; i < nc; i++ {
		o := genOpt(t)
		o.DataEOF = false
		c.Conns = append(c.Conns, o)
	}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		r := tlsReq{Client: rapid.IntRange(0, nc-1).Draw(t, "cl"), ID: rapid.SampledFrom([]int32{1, 2, -9}).Draw(t, "id"), URL: rapid.IntRange(0, 3).Draw(t, "url") == 0,
			Wait: rapid.Bool().Draw(t, "wait"), Pipe: rapid.IntRange(0, 4).Draw(t, "pipe") == 0,
			Cuts: rapid.SliceOfN(rapid.IntRange(1, 40), 0, 4).Draw(t, "cuts")}
		if rapid.IntRange(0, 3).Draw(t, "padded") == 0 {
			r.Pad = rapid.SampledFrom([]int{100, 3000, 20000, 40000}).Draw(t, "pad")
		}
		c.Reqs = append(c.Reqs, r)
	}
	c.Restart = rapid.IntRange(-3, n).Draw(t, "restart")
	c.Says = rapid.SampledFrom([]string{"", "", "start", "record", "none"}).Draw(t, "says")
	c.Keep = rapid.IntRange(1, 12).Draw(t, "keep")
	c.Leave = rapid.IntRange(0, 3).Draw(t, "leave") == 0
	c.Pace = genPace(t)
	c.After = rapid.SampledFrom([]string{"", "", "beat", "auth", "deadline", "stop", "limit", "leave"}).Draw(t, "after")
	if c.After == "beat" || c.After == "auth" || c.After == "deadline" {
		c.Pace = 0
	}
	if rapid.IntRange(0, 3).Draw(t, "addrs") == 3 {
		c.More = rapid.IntRange(1, 5).Draw(t, "more")
	}
	return c
}

func runTLSCase(e *Env, c tlsCase) {
	tlsFiles()
	e.Bubble(func(h *H) {
		h.pace = c.Pace
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		srv.SetMaxBytePerMessage(1 << 20)
		cert, key := filepath.Join(tlsDir, "cert.pem"), filepath.Join(tlsDir, "key.pem")
		if c.Config {
			srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{tlsPair}}
		} else if err := srv.LoadTLSFile(cert, key); err != nil {
			h.Fail("load", "LoadTLSFile: %v", err)
			return
		}
		bad := func(a, b string) {
			if err := srv.LoadTLSFile(a, b); err == nil {
				h.Fail("load", "LoadTLSFile(%s, %s) returned no error", a, b)
			}
		}
		switch c.BadFile { // the settings in force stay
		case 0:
			bad(filepath.Join(tlsDir, "nope.pem"), key)
		case 1:
			bad(key, cert)
		}
		var mu sync.Mutex
		got := map[string][]string{}
		mk := func(route string) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				b, _ := ctx.RawStream()
				var s string
				ctx.Bind(&s)
				mu.Lock()
				got[s] = append(got[s], fmt.Sprintf("%s %s %s %d", route, ctx.Network(), ctx.ClientIP(), len(b)))
				mu.Unlock()
				if err := ctx.JSON(100, "reply to "+s); err != nil {
					h.Fail("reply", "reply to %s: %v", s, err)
				}
			}
		}
		for _, id := range []int32{1, 2, -9} {
			srv.AddHandler(id, mk(fmt.Sprintf("id:%d", id)))
		}
		srv.Any("/t/", mk("url"))
		switch c.After {
		case "beat":
			srv.HeartBeatMode(true, time.Hour)
		case "auth":
			srv.WithAuthDetail(true, time.Hour, false, 77, func(ctx *tcpx.Context) {})
		case "deadline":
			srv.SetReadDeadline(time.Now().Add(time.Hour))
		case "stop":
			srv.WithBroadCastSignal(true)
		}
		var lmu sync.Mutex
		life := map[string][2]int{}
		hook := func(k int) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				lmu.Lock()
				v := life[ctx.ClientIP()]
				v[k]++
				life[ctx.ClientIP()] = v
				lmu.Unlock()
			}
		}
		srv.OnConnect, srv.OnClose = hook(0), hook(1)
		srv.AddHandler(66, func(ctx *tcpx.Context) { ctx.JSON(66, "plaintext accepted") })
		addrs := []string{addr}
		for i := 0; i < c.More; i++ {
			addrs = append(addrs, fmt.Sprintf(":74%02d", i))
		}
		for _, a := range addrs {
			h.Serve(srv, "tcp", a)
		}
		var intruders []*Client
		intrude := func() {
			for i := 0; i < c.Plain*len(addrs); i++ {
				if cl := h.Dial("tcp", addrs[i%len(addrs)], vnet.Opt{ClientAddr: tcpAddr(90 + i)}); cl != nil {
					b := msgFrame(66, js("intruder"))
					switch c.Says {
					case "start":
						b = b[:c.Keep]
					case "record":
						b = []byte{0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3, 7}[:c.Keep]
					case "none":
						b = nil
					}
					if len(b) > 0 {
						cl.Send(b)
					}
					if c.Leave {
						cl.Conn.CloseWrite()
					}
					intruders = append(intruders, cl)
				}
			}
		}
		intrude()
		cls := make([]*tlsClient, len(c.Conns))
		dial := func(i int) *tlsClient {
			vc, err := h.Net.Dial("tcp", addrs[(len(addrs)-1)*(i+1)%len(addrs)], c.Conns[i].opt(i))
			if err != nil {
				h.Fail("refused", "client %d refused", i)
				return nil
			}
			return newTLSClient(vc)
		}
		for i := range cls {
			if cls[i] = dial(i); cls[i] == nil {
				return
			}
		}
		h.Settle()
		type want struct {
			cl    *tlsClient
			seen  string
			reply string
		}
		wants := map[string]want{}
		var all []*tlsClient
		all = append(all, cls...)
		for i, r := range c.Reqs {
			if i == c.Restart {
				h.Settle()
				if err := srv.Restart(false); err != nil {
					h.Fail("restart", "Restart: %v", err)
					return
				}
				h.Settle()
				intrude()
				if cls[0] = dial(0); cls[0] == nil {
					return
				}
				all = append(all, cls[0])
				h.Settle()
			}
			tag := fmt.Sprintf("secret-message-%d", i)
			body := append(js(tag), bytes.Repeat([]byte(" "), r.Pad)...)
			b := msgFrame(r.ID, body)
			route := fmt.Sprintf("id:%d", r.ID)
			if r.URL {
				b, route = urlFrame("/t/", body), "url"
			}
			if r.Pipe {
				b = pipeFrame(r.ID, `"enable;2"`, body)
				route = fmt.Sprintf("id:%d", r.ID)
				second := tag + "-second"
				b = append(b, msgFrame(1, js(second))...)
				wants[second] = want{cls[r.Client], fmt.Sprintf("id:1 tcp 10.0.0.%d %d", r.Client, len(js(second))), "reply to " + second}
			}
			wants[tag] = want{cls[r.Client], fmt.Sprintf("%s tcp 10.0.0.%d %d", route, r.Client, len(body)), "reply to " + tag}
			for _, k := range r.Cuts {
				if k < len(b) {
					cls[r.Client].q <- b[:k]
					b = b[k:]
				}
			}
			cls[r.Client].q <- b
			if r.Wait {
				h.Settle()
			}
		}
		h.Settle()
		h.Settle()
		mu.Lock()
		defer mu.Unlock()
		for tag, w := range wants {
			if !eqStrings(got[tag], []string{w.seen}) {
				w.cl.mu.Lock()
				h.Fail("lost", "%s was handled as %q, want %q (write error %v, ended %v)", tag, got[tag], w.seen, w.cl.werr, w.cl.ended)
				w.cl.mu.Unlock()
				return
			}
		}
		for tag := range got {
			if _, ok := wants[tag]; !ok {
				h.Fail("fabricated", "a handler got %q", tag)
			}
		}
		for i, t := range all {
			t.mu.Lock()
			fs, err := wire.Split(t.plain)
			if err != nil || t.ended {
				h.Fail("reply", "client %d received %s (%v), ended %v", i, hexs(t.plain), err, t.ended)
			}
			var have, need []string
			for _, f := range fs {
				have = append(have, fmt.Sprintf("%d %s", f.ID, f.Body))
			}
			for _, w := range wants {
				if w.cl == t {
					need = append(need, fmt.Sprintf("100 %s", js(w.reply)))
				}
			}
			sort.Strings(have)
			sort.Strings(need)
			if !eqStrings(have, need) {
				h.Fail("reply", "client %d received %q, want %q", i, have, need)
			}
			if bytes.Contains(t.wire, []byte("secret-message")) || bytes.Contains(t.wire, []byte("Router-")) {
				h.Fail("plaintext", "client %d: a message is on the wire in the clear", i)
			}
			t.mu.Unlock()
		}
		// the end of a connection is what it is over plain TCP
		switch c.After {
		case "beat":
			time.Sleep(3*time.Hour + time.Minute)
		case "auth", "deadline":
			time.Sleep(time.Hour + time.Minute)
		case "stop":
			if err := srv.Stop(true); err != nil {
				h.Fail("stop", "Stop: %v", err)
			}
		case "limit":
			for _, t := range all {
				t.q <- []byte{0x7f, 0xff, 0xff, 0xff}
			}
		case "leave":
			for _, t := range all {
				t.tc.Close()
			}
		}
		h.Settle()
		h.Settle()
		for i := range c.Conns {
			n := 1
			if i == 0 {
				n = len(all) - len(c.Conns) + 1
			}
			want := [2]int{n, n}
			if c.After == "" {
				want[1] = 0
			}
			lmu.Lock()
			v := life[fmt.Sprintf("10.0.0.%d", i)]
			lmu.Unlock()
			if v != want {
				h.Fail("life", "client %d, ended by %q: OnConnect and OnClose ran %v times, want %v", i, c.After, v, want)
			}
		}
		for i, t := range all {
			t.mu.Lock()
			if t.ended != (c.After != "") {
				h.Fail("life", "client %d, ended by %q: its connection has ended: %v", i, c.After, t.ended)
			}
			t.mu.Unlock()
			close(t.q)
		}
		if c.After != "" {
			h.Label("ended by " + c.After)
		}
		for _, cl := range intruders {
			cl.Poll()
			if bytes.Contains(cl.got, []byte("plaintext accepted")) {
				h.Fail("plaintext", "a client without TLS is served")
			}
		}
		h.NonTrivial()
		if c.Restart >= 0 && c.Restart < len(c.Reqs) {
			h.Label("restarted")
		}
		if c.Plain > 0 {
			h.Label("plaintext intruder")
		}
	})
}

var _ = io.EOF

func init() {
	reg("C23", "leak", 4000, 48000, "1-5 connections (raw or not) sending up to 5 messages of 14 kinds, ended in 10 ways, once or twice, under drawn pool, signal, heartbeat and auth settings, with datagrams, then a stop; the library's goroutines are counted before the connections, after their end and after the stop; non-trivial: messages were sent or several connections made", genLeakCase, runLeakCase)
	reg("C24", "tls", 8000, 96000, "1-3 TLS clients sending 1-8 requests cut into drawn TLS records under drawn read plans, on up to 6 addresses, with plaintext intruders (that send a message, part of one or of a TLS record, or nothing), long pauses, failing LoadTLSFile calls and a restart, then ended by a lost heartbeat, missing authentication, a deadline, Stop(true), the size limit or the client; non-trivial: every case", genTLSCase, runTLSCase)
}
