# The planted bugs, from which seed.py writes /verif/seeded.  Development aid only.
S = []


def s(id, property, edits, needs, breaks, demo=None, **kw):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **kw)
    if demo:
        imports = kw.get("imports", [])
        d["demo"] = "package tcpx\n\nimport (\n" + "".join('\t"%s"\n' % i for i in sorted(set(imports + ["testing"]))) + ")\n\n" + demo.strip() + "\n"
    S.append(d)


s("header-merge-aliases", "C01", [("packx.go", '''		return PackWithMarshaller(Message{MessageID: messageID, Header: make(map[string]interface{}), Body: src}, packx.Marshaller)
	}
	var header = make(map[string]interface{}, 0)
	for _, v := range headers {''', '''		return PackWithMarshaller(Message{MessageID: messageID, Header: make(map[string]interface{}), Body: src}, packx.Marshaller)
	}
	var header = headers[0]
	for _, v := range headers[1:] {''')],
  "Pack called with two header maps, the first of which the caller uses again",
  "Pack writes the later headers into the caller's first map, so that the next message packed with it carries them too",
  '''
func TestSeededDemo(t *testing.T) {
	common := map[string]interface{}{"a": "1"}
	if _, e := PackJSON.Pack(1, "x", common, map[string]interface{}{"b": "2"}); e != nil {
		t.Fatal(e)
	}
	if len(common) != 1 {
		t.Fatalf("the caller's header became %v", common)
	}
}''')

s("empty-read-is-error", "C02", [("packx.go", '''	var content = make([]byte, length, length)
	if e := readUntil(reader, content); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}

	return append(info, content ...), nil
}

''', '''	var content = make([]byte, length, length)
	if n, e := io.ReadAtLeast(reader, content, int(length)); e != nil {
		if e == io.EOF || e == io.ErrUnexpectedEOF && n >= int(length)/2 {
			return append(info, content[:n]...), nil
		}
		return nil, errorx.Wrap(e)
	}

	return append(info, content ...), nil
}

''') if 0 else ("packx.go", '''func readUntil(reader io.Reader, buf []byte) error {
	if len(buf) == 0 {
		return nil
	}
	var offset int
	for {
		n, e := reader.Read(buf[offset:])''', '''func readUntil(reader io.Reader, buf []byte) error {
	if len(buf) == 0 {
		return nil
	}
	var offset int
	for {
		// never ask for more than a segment at once
		end := offset + 1460
		if end > len(buf) {
			end = len(buf)
		}
		n, e := reader.Read(buf[offset:end])
		if n == 0 && e == nil {
			e = io.ErrNoProgress
		}''')],
  "a reader that returns 0 bytes and no error once, as the io.Reader contract allows",
  "an empty read in the middle of a stream is reported as an error and the block is lost",
  '''
type demoReader struct {
	parts [][]byte
}

func (r *demoReader) Read(b []byte) (int, error) {
	if len(r.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(b, r.parts[0])
	if r.parts[0] = r.parts[0][n:]; len(r.parts[0]) == 0 {
		r.parts = r.parts[1:]
	}
	return n, nil
}

func TestSeededDemo(t *testing.T) {
	buf := demoBlock(t, 7, nil, []byte("hello"))
	got, e := FirstBlockOf(&demoReader{[][]byte{buf[:9], {}, buf[9:]}})
	if e != nil || string(got) != string(buf) {
		t.Fatalf("got %v, %v", got, e)
	}
}''', imports=["io"])

s("udp-stale-tail", "C03", [("packx.go", '''	if len(buffer) < 4+int(length) {
		return''', '''	if len(buffer) < int(length) {
		return''')],
  "a datagram whose declared length exceeds what arrived by up to four bytes",
  "FirstBlockOfBytes returns bytes beyond the end of the slice it was given (or panics when there is no capacity)",
  '''
func TestSeededDemo(t *testing.T) {
	buf := demoBlock(t, 7, nil, []byte("hello world"))
	spare := append(append([]byte{}, buf...), "secret"...)
	if got, e := FirstBlockOfBytes(spare[:len(buf)-2]); e == nil {
		t.Fatalf("a truncated block was accepted: %q", got)
	}
}''')

s("url-route-outside-recover", "C04", [("tcpx.go", '''	if ctx.RouterType() == URLPATTERN {
		handleURLPatternHandlers(ctx, tcpx)
		return
	}
''', '''	if ctx.RouterType() == URLPATTERN {
		done := make(chan struct{})
		go func() {
			defer close(done)
			handleURLPatternHandlers(ctx, tcpx)
		}()
		<-done
		return
	}
''')],
  "a url-routed message whose handler panics",
  "the panic happens in a goroutine without a recover and ends the whole process",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.Any("/boom/", func(c *Context) { panic("boom") })
	srv.AddHandler(1, func(c *Context) { c.Reply(2, "ok") })
	addr := demoServe(t, srv)
	c := demoDial(t, "tcp", addr)
	buf, _ := NewURLPatternMessage("/boom/", "x").Pack(JsonMarshaller{})
	demoSend(t, c, buf)
	time.Sleep(200 * time.Millisecond)
	demoSend(t, c, demoBlock(t, 1, nil, nil))
	if demoRecv(c, 5*time.Second) == nil {
		t.Fatal("no answer")
	}
}''', imports=["time"])

s("shared-length-word", "C05", [("packx.go", '''func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
	if reader == nil {
		return nil, errors.New("reader is nil")
	}
	var info = make([]byte, 4, 4)''', '''func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
	if reader == nil {
		return nil, errors.New("reader is nil")
	}
	var info = lengthWord[:]'''),
   ("packx.go", '''func UnpackToBlockFromReaderLimitMaxLengthOfByte(''', '''// saves an allocation per block
var lengthWord [4]byte

func UnpackToBlockFromReaderLimitMaxLengthOfByte(''')],
  "two connections whose length words arrive in pieces at the same time",
  "all connections read the length of a block into one shared buffer, so one can take another's length for its own",
  '''
func TestSeededDemo(t *testing.T) {
	got := make(chan string, 2)
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) { b, _ := c.RawStream(); got <- string(b) })
	addr := demoServe(t, srv)
	a, b := demoDial(t, "tcp", addr), demoDial(t, "tcp", addr)
	x, y := demoBlock(t, 1, nil, []byte("aaaaaaaaaaaaaaaa")), demoBlock(t, 1, nil, bytes.Repeat([]byte("b"), 70000))
	demoSend(t, a, x[:2])
	time.Sleep(100 * time.Millisecond)
	demoSend(t, b, y[:3])
	time.Sleep(100 * time.Millisecond)
	demoSend(t, a, x[2:])
	select {
	case s := <-got:
		if s != "aaaaaaaaaaaaaaaa" {
			t.Fatalf("the handler saw %q", s)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the message was not handled")
	}
}''', imports=["time", "bytes"])

s("reuse-moves-to-end", "C06", [("mux.go", '''		if v.MiddlewareKey == anchor.MiddlewareKey {
			mux.MiddlewareAnchors[i] = anchor
			break L''', '''		if v.MiddlewareKey == anchor.MiddlewareKey {
			mux.MiddlewareAnchors = append(append(mux.MiddlewareAnchors[:i:i], mux.MiddlewareAnchors[i+1:]...), anchor)
			break L''')],
  "two middlewares in use, the first of them un-used (or used again) after the second was added",
  "the middlewares of routes registered earlier run in another order than that of their first use",
  '''
func TestSeededDemo(t *testing.T) {
	got := make(chan string, 10)
	mw := func(n string) func(c *Context) { return func(c *Context) { got <- n } }
	srv := NewTcpX(JsonMarshaller{})
	srv.Use("one", mw("one"), "two", mw("two"))
	srv.AddHandler(1, mw("h"))
	srv.UnUse("one")
	c := demoDial(t, "tcp", demoServe(t, srv))
	demoSend(t, c, demoBlock(t, 1, nil, nil))
	if s := <-got + <-got + <-got; s != "onetwoh" {
		t.Fatal(s)
	}
}''')

s("chain-shares-backing-array", "C07", [("tcpx.go", '''	// global middleware
	ctx.handlers = append(ctx.handlers, tcpx.Mux.GlobalMiddlewares...)
	// anchor middleware
	messageIDAnchorIndex''', '''	// global middleware
	ctx.handlers = tcpx.Mux.GlobalMiddlewares
	// anchor middleware
	messageIDAnchorIndex''')],
  "global middlewares, and two requests for different routes in their chains at the same time",
  "all chains are built in the spare capacity of one slice, so a running request goes on with the handlers of a later one",
  '''
func TestSeededDemo(t *testing.T) {
	got := make(chan int, 2)
	gate := make(chan bool)
	srv := NewTcpX(JsonMarshaller{})
	srv.UseGlobal(func(c *Context) {
		if id, _ := c.Packx.MessageIDOf(c.Stream); id == 1 {
			<-gate
		}
	})
	srv.AddHandler(1, func(c *Context) { got <- 1 })
	srv.AddHandler(2, func(c *Context) { got <- 2 })
	c := demoDial(t, "tcp", demoServe(t, srv))
	demoSend(t, c, demoBlock(t, 1, nil, nil))
	time.Sleep(100 * time.Millisecond)
	demoSend(t, c, demoBlock(t, 2, nil, nil))
	if n := <-got; n != 2 {
		t.Fatal("the second request was not handled first")
	}
	gate <- true
	if n := <-got; n != 1 {
		t.Fatalf("request 1 ran handler %d", n)
	}
}''', imports=["time"])

s("pipe-dropped-when-closed", "C08", [("tcpx.go", '''	for i, _ := range ctxs {
		handleMiddleware(ctxs[i], tcpx)
	}''', '''	for i := 0; i < len(ctxs) && ctxs[i].IsOnline(); i++ {
		handleMiddleware(ctxs[i], tcpx)
	}''')],
  "a client which closes its connection while the first handlers of its pipe still run",
  "the remaining messages of the pipe, already received, are never handled",
  '''
func TestSeededDemo(t *testing.T) {
	var n int32
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) { time.Sleep(200 * time.Millisecond); atomic.AddInt32(&n, 1) })
	c := demoDial(t, "tcp", demoServe(t, srv))
	if e := PipeJSON(c, 1, "a", 1, "b", 1, "c"); e != nil {
		t.Fatal(e)
	}
	time.Sleep(50 * time.Millisecond)
	c.Close()
	if !demoWait(func() bool { return atomic.LoadInt32(&n) == 3 }, 3*time.Second) {
		t.Fatalf("only %d of 3 messages were handled", n)
	}
}''', imports=["time", "sync/atomic"])

s("limit-counts-length-word", "C09", [("packx.go", '''	return UnpackToBlockFromReaderLimitMaxLengthOfByte(r, int(maxByte))''', '''	// the length word counts as well
	return UnpackToBlockFromReaderLimitMaxLengthOfByte(r, int(maxByte)-4)''')],
  "a limit and a message of at most four bytes less",
  "messages within the limit are refused and their connection closed",
  '''
func TestSeededDemo(t *testing.T) {
	buf := demoBlock(t, 1, nil, make([]byte, 40))
	srv := NewTcpX(JsonMarshaller{})
	srv.SetMaxBytePerMessage(int32(len(buf) - 4))
	srv.AddHandler(1, func(c *Context) { c.Reply(2, "ok") })
	c := demoDial(t, "tcp", demoServe(t, srv))
	demoSend(t, c, buf)
	if demoRecv(c, 3*time.Second) == nil {
		t.Fatal("a message of exactly the limit was not handled")
	}
}''', imports=["time"])

s("request-scope-falls-through", "C10", [("context.go", '''	return ctx.PerRequestContext.Load(k)''', '''	v, ok := ctx.PerRequestContext.Load(k)
	if !ok && ctx.PerConnectionContext != nil {
		v, ok = ctx.PerConnectionContext.Load(k)
	}
	return v, ok''')],
  "a key which is set in connection scope and asked for in request scope",
  "a request-scope lookup returns a value that no part of the request has set",
  '''
func TestSeededDemo(t *testing.T) {
	got := make(chan bool, 1)
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) { c.SetCtxPerConn("k", 1); c.Reply(1, nil) })
	srv.AddHandler(2, func(c *Context) { _, ok := c.GetCtxPerRequest("k"); got <- ok })
	c := demoDial(t, "tcp", demoServe(t, srv))
	demoSend(t, c, demoBlock(t, 1, nil, nil))
	demoRecv(c, 5*time.Second)
	demoSend(t, c, demoBlock(t, 2, nil, nil))
	if <-got {
		t.Fatal("a request sees a request value nobody set in it")
	}
}''', imports=["time"])

s("no-onclose-after-server-close", "C11", [("tcpx.go", '''			if tcpx.OnClose != nil {
				defer tcpx.OnClose(ctx)
			}
			for {''', '''			if tcpx.OnClose != nil {
				defer func() {
					// closed by our own side already
					if ctx.Conn.SetReadDeadline(time.Time{}) == nil {
						tcpx.OnClose(ctx)
					}
				}()
			}
			for {''')],
  "a connection that the server side closes (CloseConn in a handler, lost heartbeat, failed authentication)",
  "OnClose does not run for such a connection",
  '''
func TestSeededDemo(t *testing.T) {
	var n int32
	srv := NewTcpX(JsonMarshaller{})
	srv.OnClose = func(c *Context) { atomic.AddInt32(&n, 1) }
	srv.AddHandler(1, func(c *Context) { c.CloseConn() })
	addr := demoServe(t, srv)
	for i := 0; i < 5; i++ {
		demoSend(t, demoDial(t, "tcp", addr), demoBlock(t, 1, nil, nil))
	}
	if !demoWait(func() bool { return atomic.LoadInt32(&n) == 5 }, 3*time.Second) {
		t.Fatalf("OnClose ran %d times for 5 connections", n)
	}
}''', imports=["time", "sync/atomic"])

s("peer-remembered", "C12", [("context.go", '''	anotherCtx := ctx.poolRef.GetClientPool(username)
	if anotherCtx == nil || anotherCtx.IsOffline() {''', '''	// the pool is one for all connections, ask it only once for each name
	var anotherCtx *Context
	if known, ok := ctx.GetCtxPerConn("tcpx-peer-" + username); ok && known.(*Context).IsOnline() {
		anotherCtx = known.(*Context)
	} else if anotherCtx = ctx.poolRef.GetClientPool(username); anotherCtx != nil {
		ctx.setCtxPerConn("tcpx-peer-"+username, anotherCtx)
	}
	if anotherCtx == nil || anotherCtx.IsOffline() {''')],
  "a connection that sends to a name twice, another connection going online under it in between while the first stays open",
  "messages to the name still go to the first connection",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{}).WithBuiltInPool(true)
	srv.AddHandler(1, func(c *Context) { c.Online("joe"); c.Reply(1, nil) })
	srv.AddHandler(2, func(c *Context) { c.SendToUsername("joe", 3, "hi") })
	addr := demoServe(t, srv)
	sender := demoDial(t, "tcp", addr)
	for _, c := range []net.Conn{demoDial(t, "tcp", addr), demoDial(t, "tcp", addr)} {
		demoSend(t, c, demoBlock(t, 1, nil, nil))
		if demoRecv(c, 5*time.Second) == nil {
			t.Fatal("no answer")
		}
		demoSend(t, sender, demoBlock(t, 2, nil, nil))
		if demoRecv(c, 2*time.Second) == nil {
			t.Fatal("the message did not go to the connection that went online last")
		}
	}
}''', imports=["time", "net"])

s("reply-written-in-chunks", "C13", [("context.go", '''		if _, e = ctx.Conn.Write(buf); e != nil {
			return errorx.Wrap(e)
		}
	case "udp":''', '''		for len(buf) > 0 {
			n := len(buf)
			if n > 65535 {
				n = 65535
			}
			if _, e = ctx.Conn.Write(buf[:n]); e != nil {
				return errorx.Wrap(e)
			}
			buf = buf[n:]
		}
	case "udp":''')],
  "two replies to one connection at the same time, one of them longer than 65535 bytes",
  "another reply can be written into the middle of a long one, which damages the stream",
  '''
func TestSeededDemo(t *testing.T) {
	const n, size = 8, 2000000
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(s string) { defer wg.Done(); c.Reply(2, s) }(strings.Repeat(string(rune('a'+i)), size))
		}
		wg.Wait()
	})
	c := demoDial(t, "tcp", demoServe(t, srv))
	for round := 0; round < 6; round++ {
		demoSend(t, c, demoBlock(t, 1, nil, nil))
		time.Sleep(200 * time.Millisecond)
		for i := 0; i < n; i++ {
			buf := demoRecv(c, 20*time.Second)
			body, e := BodyBytesOf(buf)
			if e != nil || len(body) != size+2 || strings.Count(string(body), string(body[1:2])) != size {
				t.Fatalf("reply %d of round %d is damaged", i, round)
			}
		}
	}
}''', imports=["time", "strings", "sync"])

s("heartbeat-does-not-reset", "C14", [("tcpx.go", '''				case <-ctx.HeartBeatChan():
					times = 0
					continue L''', '''				case <-ctx.HeartBeatChan():
					if times > 0 {
						times--
					}
					continue L''')],
  "a connection that twice lets two intervals pass with one heartbeat between them",
  "misses are no longer counted in a row: such a connection is closed though it never missed three intervals running",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.HeartBeatMode(true, 300*time.Millisecond)
	srv.AddHandler(1, func(c *Context) { c.Reply(2, nil) })
	c := demoDial(t, "tcp", demoServe(t, srv))
	for i := 0; i < 3; i++ {
		time.Sleep(750 * time.Millisecond)
		demoSend(t, c, PackHeartbeat())
	}
	time.Sleep(100 * time.Millisecond)
	c.Write(demoBlock(t, 1, nil, nil))
	if demoRecv(c, 2*time.Second) == nil {
		t.Fatal("closed without three missed intervals in a row")
	}
}''', imports=["time"])

s("deny-after-pass-closes", "C15", [("tcpx.go", '''			if v >= 0 {
				// auth pass
				return
			} else {''', '''			if v >= 0 {
				// auth pass, until it is withdrawn
				select {
				case v := <-ctx.AuthChan():
					if v < 0 {
						ctx.CloseConn()
					}
				case <-ctx.recvEnd:
				}
				return
			} else {''')],
  "a deny signalled after a pass",
  "a connection which was authenticated in time is closed afterwards",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.WithAuthDetail(true, 3*time.Second, false, 9, func(c *Context) { c.RecvAuthPass(); c.Reply(2, nil) })
	srv.AddHandler(1, func(c *Context) { c.RecvAuthDeny(); c.Reply(2, nil) })
	c := demoDial(t, "tcp", demoServe(t, srv))
	demoSend(t, c, demoBlock(t, 9, nil, nil))
	if demoRecv(c, 2*time.Second) == nil {
		t.Fatal("no answer")
	}
	time.Sleep(200 * time.Millisecond)
	demoSend(t, c, demoBlock(t, 1, nil, nil))
	if demoRecv(c, 2*time.Second) == nil {
		t.Fatal("no answer")
	}
	if demoClosed(c, time.Second) {
		t.Fatal("closed after it had passed")
	}
}''', imports=["time"])

s("properties-keyed-by-address", "C16", [("tcpx.go", '''		if v.Network == network && v.Port == addr {''', '''		if v.Port == addr {''')],
  "one server serving tcp and udp on the same address, then stopped or restarted",
  "the later listener replaces the earlier one in the table, so Stop leaves the earlier one open and Start does not bring it back",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) { c.Reply(2, nil) })
	addr := demoServe(t, srv)
	go srv.ListenAndServe("udp", addr)
	time.Sleep(300 * time.Millisecond)
	if e := srv.Stop(false); e != nil {
		t.Fatal(e)
	}
	time.Sleep(300 * time.Millisecond)
	l, e := net.Listen("tcp", addr)
	if e != nil {
		t.Fatal("stopped, but still listening: ", e)
	}
	l.Close()
}''', imports=["time", "net"])

s("udp-shared-buffer", "C17", [("tcpx.go", '''	if len(maxBufferSize) <= 0 {
		buffer = make([]byte, 4096, 4096)
	} else {''', '''	if len(maxBufferSize) <= 0 {
		buffer = defaultUDPBuffer
	} else {'''), ("tcpx.go", '''func ReadAllUDP(''', '''var defaultUDPBuffer = make([]byte, 4096, 4096)

func ReadAllUDP(''')],
  "a second datagram arriving while the handler of the first still looks at its message",
  "all datagrams are read into one buffer, so the message of a running handler changes under it",
  '''
func TestSeededDemo(t *testing.T) {
	got := make(chan string, 1)
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) {
		time.Sleep(300 * time.Millisecond)
		b, _ := c.RawStream()
		got <- string(b)
	})
	srv.AddHandler(2, func(c *Context) {})
	addr := demoRun(t, srv, func(addr string) { srv.ListenAndServe("udp", addr) })
	c := demoDial(t, "udp", addr)
	demoSend(t, c, demoBlock(t, 1, nil, []byte("first")))
	time.Sleep(100 * time.Millisecond)
	demoSend(t, c, demoBlock(t, 2, nil, []byte("other")))
	select {
	case s := <-got:
		if s != "first" {
			t.Fatalf("the handler saw %q", s)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("not handled")
	}
}''', imports=["time"])

s("raw-reader-buffers-ahead", "C18", [("context.go", '''		ctx.ConnReader = ctx.Conn
''', '''		ctx.ConnReader = bufio.NewReader(ctx.Conn)
'''), ("context.go", '''import (
''', '''import (
	"bufio"
''')],
  "a raw handler that reads some bytes through ConnReader and the rest from Conn",
  "bytes read ahead into a hidden buffer are missing from the connection",
  '''
func TestSeededDemo(t *testing.T) {
	got := make(chan string, 1)
	srv := NewTcpX(JsonMarshaller{})
	srv.HandleRaw = func(c *Context) {
		b := make([]byte, 4)
		io.ReadFull(c.ConnReader, b)
		c.Conn.SetReadDeadline(time.Now().Add(2 * time.Second))
		n, _ := io.ReadFull(c.Conn, b)
		got <- string(b[:n])
	}
	c := demoDial(t, "tcp", demoRun(t, srv, func(addr string) { srv.ListenAndServeRaw("tcp", addr) }))
	demoSend(t, c, []byte("abcdefgh"))
	if s := <-got; s != "efgh" {
		t.Fatalf("the handler read %q", s)
	}
}''', imports=["time", "io"])

s("unuse-twice-accepted", "C19", [("anchor.go", '''	if len(ma.AnchorEndIndexRange) >= len(ma.AnchorStartIndexRange) {''', '''	if len(ma.AnchorEndIndexRange) > len(ma.AnchorStartIndexRange) {''')],
  "a key un-used twice without a Use between",
  "the second UnUse is accepted silently (and the server refuses to start or mis-assembles chains later)",
  '''
func TestSeededDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a second UnUse was accepted")
		}
	}()
	srv := NewTcpX(JsonMarshaller{})
	srv.Use("a", func(c *Context) {})
	srv.UnUse("a")
	srv.UnUse("a")
}''')

s("udp-forgets-marshaller", "C20", [("tcpx.go", '''			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)''', '''			ctx := NewUDPContext(conn, addr, JsonMarshaller{})''')],
  "a server with a marshaller other than JSON, serving UDP",
  "Bind and Reply use JSON over UDP whatever the server was created with",
  '''
func TestSeededDemo(t *testing.T) {
	type T struct{ A string }
	got := make(chan string, 1)
	srv := NewTcpX(YamlMarshaller{})
	srv.AddHandler(1, func(c *Context) { var x T; c.Bind(&x); got <- x.A })
	addr := demoRun(t, srv, func(addr string) { srv.ListenAndServe("udp", addr) })
	c := demoDial(t, "udp", addr)
	buf, _ := PackYAML.Pack(1, T{"x"})
	demoSend(t, c, buf)
	select {
	case s := <-got:
		if s != "x" {
			t.Fatalf("bound %q", s)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("not handled")
	}
}''', imports=["time"])

s("python-length-in-characters", "C21", [("all-language-clients/python/protocol.py", '''            _body = bytes(json.dumps(body), 'utf-8')''', '''            _body = bytes(json.dumps(body, ensure_ascii=False), 'utf-8')'''),
   ("all-language-clients/python/protocol.py", '''        _body_length = len(_body).to_bytes(4, 'big')''', '''        _body_length = len(_body.decode('utf-8') if self.serializer == 'json' else _body).to_bytes(4, 'big')''')],
  "a JSON body with characters outside ASCII",
  "the length words no longer count the bytes, so the Go side cuts the body off",
  sh='''#!/bin/bash
exec python3 "$(dirname "$0")/demo.py" all-language-clients/python
''', files={"demo.py": '''import struct, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from protocol import TCPXProtocol, TCPXMessage
m = TCPXMessage()
m.id, m.header, m.body = 7, {"k": "v"}, {"name": "J\\u00f6rg \\u4e2d\\u6587"}
b = TCPXProtocol("json").pack(m)
n, i, h, l = struct.unpack(">IIII", b[:16])
assert n == len(b) - 4 and i == 7 and 16 + h + l == len(b), (n, h, l, len(b))
'''})

s("zero-deadline-ignored", "C22", [("context.go", '''		return ctx.Conn.SetReadDeadline(t)''', '''		if t.After(time.Now()) {
			return ctx.Conn.SetReadDeadline(t)
		}''')],
  "a handler that clears the read deadline it set before",
  "the deadline cannot be cleared, and the connection is closed when the old one passes",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) {
		c.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		c.SetReadDeadline(time.Time{})
		c.Reply(2, nil)
	})
	c := demoDial(t, "tcp", demoServe(t, srv))
	demoSend(t, c, demoBlock(t, 1, nil, nil))
	demoRecv(c, 2*time.Second)
	if demoClosed(c, 1500*time.Millisecond) {
		t.Fatal("closed by a deadline that had been cleared")
	}
}''', imports=["time"])

s("heartbeat-watcher-outlives", "C23", [("tcpx.go", '''					ctx.CloseConn()
					return
				case <-ctx.recvEnd:
					return
				}
			}
		}()''', '''					ctx.CloseConn()
					return
				}
			}
		}()''')],
  "heartbeats on, and connections that end before they miss a heartbeat",
  "the watcher of an ended connection goes on for three intervals, and reports a heartbeat loss for it",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.HeartBeatMode(true, time.Hour)
	addr := demoServe(t, srv)
	count := func() int {
		buf := make([]byte, 1<<20)
		return strings.Count(string(buf[:runtime.Stack(buf, true)]), "heartBeatWatch")
	}
	before := count()
	for i := 0; i < 10; i++ {
		demoDial(t, "tcp", addr).Close()
	}
	if !demoWait(func() bool { return count() <= before }, 5*time.Second) {
		t.Fatalf("%d watchers left", count()-before)
	}
}''', imports=["time", "runtime", "strings"])

s("tls-lost-on-second-listener", "C24", [("tcpx.go", '''	if tcpx.TLSConfig == nil {
		listener, err = net.Listen(network, addr)''', '''	if tcpx.TLSConfig == nil || len(tcpx.properties) > 0 {
		listener, err = net.Listen(network, addr)''')],
  "a server with TLS that is stopped and started again",
  "after the restart it serves plain TCP",
  '''
func TestSeededDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
	der, e := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if e != nil {
		t.Fatal(e)
	}
	srv := NewTcpX(JsonMarshaller{})
	srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	srv.AddHandler(1, func(c *Context) { c.Reply(2, nil) })
	addr := demoServe(t, srv)
	try := func() {
		c := demoDial(t, "tcp", addr)
		defer c.Close()
		tc := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
		tc.SetDeadline(time.Now().Add(3 * time.Second))
		if e := tc.Handshake(); e != nil {
			t.Fatal(e)
		}
		demoSend(t, tc, demoBlock(t, 1, nil, nil))
		if _, e := FirstBlockOf(tc); e != nil {
			t.Fatal(e)
		}
	}
	try()
	if e := srv.Restart(false); e != nil {
		t.Fatal(e)
	}
	time.Sleep(300 * time.Millisecond)
	try()
}''', imports=["time", "crypto/ecdsa", "crypto/elliptic", "crypto/rand", "crypto/tls", "crypto/x509", "math/big"])

s("state-read-without-lock", "C25", [("tcpx.go", '''	tcpx.pLock.RLock()
	defer tcpx.pLock.RUnlock()
	return tcpx.state''', '''	return tcpx.state''')],
  "State called by the application while the server is stopped or started",
  "a data race on the state",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	addr := demoAddr(t)
	go srv.ListenAndServe("tcp", addr)
	for i := 0; i < 200; i++ {
		srv.State()
		time.Sleep(time.Millisecond)
	}
	srv.Stop(false)
}''', imports=["time"], flags="-race ")

s("ipv6-prefix-is-loopback", "C26", [("context.go", '''		clientAddr = ctx.Conn.RemoteAddr().String()
''', '''		clientAddr = strings.Replace(ctx.Conn.RemoteAddr().String(), "[::1", "[127.0.0.1", 1)
''')],
  "a TCP client whose IPv6 address starts with ::1 but is not the loopback",
  "ClientIP reports an address that is not the client's",
  '''
type demoConn struct{ net.Conn }

func (demoConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.ParseIP("::1234:5"), Port: 80} }

func TestSeededDemo(t *testing.T) {
	if ip := NewContext(demoConn{}, nil).ClientIP(); ip != "::1234:5" {
		t.Fatal(ip)
	}
}''', imports=["net"])

s("pipe-sends-what-it-could", "C27", [("utils.go", '''		buf, e := PackWithMarshaller(msg, JsonMarshaller{})
		if e != nil {
			return errorx.Wrap(e)
		}

		allBuf''', '''		buf, e := PackWithMarshaller(msg, JsonMarshaller{})
		if e != nil {
			if _, e2 := conn.Write(allBuf); e2 == nil {
				return errorx.Wrap(e)
			}
			return e
		}

		allBuf''')],
  "PipeJSON with a later value that cannot be encoded",
  "the messages before it are sent although the call returns an error, and leave the server waiting for the rest of the pipe",
  '''
func TestSeededDemo(t *testing.T) {
	a, b := net.Pipe()
	n := make(chan int, 1)
	go func() {
		buf, _ := io.ReadAll(b)
		n <- len(buf)
	}()
	if PipeJSON(a, 1, "x", 2, func() {}) == nil {
		t.Fatal("no error")
	}
	a.Close()
	if k := <-n; k != 0 {
		t.Fatalf("%d bytes were sent", k)
	}
}''', imports=["net", "io"])

s("writeconn-retries-timeouts", "C28", [("utils.go", '''			if e == io.EOF {
				return io.EOF
			}
			return errorx.Wrap(e)
		}
		sum += n''', '''			if e == io.EOF {
				return io.EOF
			}
			if ne, ok := e.(net.Error); !ok || !ne.Timeout() {
				return errorx.Wrap(e)
			}
			continue
		}
		sum += n''')],
  "a write that times out after part of its bytes went out",
  "the bytes that already went out are written again",
  '''
type demoTimeout struct{}

func (demoTimeout) Error() string   { return "i/o timeout" }
func (demoTimeout) Timeout() bool   { return true }
func (demoTimeout) Temporary() bool { return true }

type demoConn struct {
	net.Conn
	got   []byte
	calls int
}

func (c *demoConn) Write(b []byte) (int, error) {
	c.calls++
	if c.calls == 1 {
		c.got = append(c.got, b[:3]...)
		return 3, demoTimeout{}
	}
	c.got = append(c.got, b...)
	return len(b), nil
}

func TestSeededDemo(t *testing.T) {
	c := &demoConn{}
	e := WriteConn([]byte("hello world"), c)
	if e == nil || !strings.HasPrefix("hello world", string(c.got)) {
		t.Fatalf("%v, wrote %q", e, c.got)
	}
}''', imports=["net", "strings"])

s("exit-stops-listening", "C29", [("tcpx.go", '''		fmt.Println("prepare to stop server")
''', '''		fmt.Println("prepare to stop server, signal again to end it at once")
		signal.Reset()
''')],
  "a second signal while the ending functions run",
  "the second signal kills the process before they are done",
  '''
func TestSeededDemo(t *testing.T) {
	if os.Getenv("SEEDED_CHILD") != "" {
		NewTcpX(nil).BeforeExit(func() {
			syscall.Kill(os.Getpid(), syscall.SIGTERM)
			time.Sleep(500 * time.Millisecond)
			os.WriteFile(os.Getenv("SEEDED_CHILD"), []byte("done"), 0600)
		})
		syscall.Kill(os.Getpid(), syscall.SIGINT)
		time.Sleep(10 * time.Second)
		os.Exit(3)
	}
	f := filepath.Join(t.TempDir(), "done")
	cmd := exec.Command(os.Args[0], "-test.run=^TestSeededDemo$")
	cmd.Env = append(os.Environ(), "SEEDED_CHILD="+f)
	e := cmd.Run()
	if _, e2 := os.Stat(f); e != nil || e2 != nil {
		t.Fatal(e, e2)
	}
}''', imports=["os", "os/exec", "path/filepath", "syscall", "time"])

s("failed-listen-means-running", "C30", [("tcpx.go", '''	var listener net.Listener
	var err error
	if tcpx.TLSConfig == nil {
		listener, err = net.Listen(network, addr)
	} else {
		listener, err = newListener(listenerConfig{
			Network:   network,
			Addr:      addr,
			TLSConfig: tcpx.TLSConfig,
		})
	}
	if err != nil {
		return err
	}
	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServe(network, addr) })

	defer listener.Close()
	tcpx.openState()
''', '''	var listener net.Listener
	var err error
	tcpx.openState()
	if tcpx.TLSConfig == nil {
		listener, err = net.Listen(network, addr)
	} else {
		listener, err = newListener(listenerConfig{
			Network:   network,
			Addr:      addr,
			TLSConfig: tcpx.TLSConfig,
		})
	}
	if err != nil {
		return err
	}
	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServe(network, addr) })

	defer listener.Close()
''')],
  "a stopped server, then serving on an address that is taken",
  "the failed call leaves the server marked as running, so Start refuses",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(nil)
	addr := demoServe(t, srv)
	_ = addr
	if e := srv.Stop(false); e != nil {
		t.Fatal(e)
	}
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		t.Fatal(e)
	}
	defer l.Close()
	if e := srv.ListenAndServe("tcp", l.Addr().String()); e == nil {
		t.Fatal("no error")
	}
	if e := srv.Start(); e != nil {
		t.Fatal(e)
	}
}''', imports=["net"])

s("closechanel-rethrows", "C31", [("utils.go", '''		if e := recover(); e != nil {
			// when close(chan) panic from 'close of closed chan' do nothing
		}''', '''		// when close(chan) panic from 'close of closed chan' do nothing
		if e := recover(); e != nil && fmt.Sprint(e) != "close of closed channel" {
			panic(e)
		}''')],
  "CloseChanel on a channel that was never made",
  "the panic gets out of CloseChanel",
  '''
func TestSeededDemo(t *testing.T) {
	var ch chan int
	CloseChanel(func() { close(ch) })
	ch = make(chan int)
	CloseChanel(func() { close(ch) })
	CloseChanel(func() { close(ch) })
}''')

s("release-prints-panics", "C32", [("log.go", '''	if l.Mode == DEBUG {''', '''	if l.Mode == DEBUG || strings.HasPrefix(rs, "recover from panic") {''')],
  "a handler that panics, in release mode",
  "the panic is printed although the log is off",
  '''
func TestSeededDemo(t *testing.T) {
	SetLogMode(RELEASE)
	defer SetLogMode(DEBUG)
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) { panic("boom") })
	srv.AddHandler(2, func(c *Context) { c.JSON(3, "ok") })
	addr := demoServe(t, srv)
	defer srv.Stop(true)
	c := demoDial(t, "tcp", addr)
	defer c.Close()
	r, w, e := os.Pipe()
	if e != nil {
		t.Fatal(e)
	}
	so := os.Stdout
	os.Stdout = w
	demoSend(t, c, demoBlock(t, 1, nil, []byte("1")))
	time.Sleep(300 * time.Millisecond)
	os.Stdout = so
	w.Close()
	b, _ := io.ReadAll(r)
	if len(b) != 0 {
		t.Fatalf("printed %q", b)
	}
}''', imports=["io", "os", "time"])

s("first-login-wins", "C33", [("client-pool.go", '''func (cp *ClientPool) Online(username string, ctx *Context) {
	cp.SetClientPool(username, ctx)
}''', '''func (cp *ClientPool) Online(username string, ctx *Context) {
	if old := cp.GetClientPool(username); old == nil || !old.IsOnline() {
		cp.SetClientPool(username, ctx)
	}
}''')],
  "a name put into a pool of one's own again, while its former connection is open",
  "messages for the name go to the former connection",
  '''
func TestSeededDemo(t *testing.T) {
	a1, _ := net.Pipe()
	a2, _ := net.Pipe()
	x, y := NewContext(a1, JsonMarshaller{}), NewContext(a2, JsonMarshaller{})
	p := NewClientPool()
	p.Online("ann", x)
	p.Online("ann", y)
	if p.GetClientPool("ann") != y {
		t.Fatal("the pool leads to the former connection")
	}
}''', imports=["net"])

s("heartbeat-lost-in-pipe", "C14", [("tcpx.go", """		handleMiddleware(ctxs[i], tcpx)
	}
}""", """		// only business messages are handled in serial
		if id, e := tcpx.Packx.MessageIDOf(ctxs[i].Stream); e == nil && i > 0 && tcpx.HeartBeatOn && id == tcpx.HeartBeatMessageID {
			Logger.Println("heartbeat in a pipe")
		} else {
			handleMiddleware(ctxs[i], tcpx)
		}
	}
}""")],
  "a client whose heartbeats travel behind other messages of a pipe",
  "they do not count, and the connection is closed as lost",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.HeartBeatMode(true, 200*time.Millisecond)
	srv.AddHandler(1, func(c *Context) {})
	addr := demoServe(t, srv)
	defer srv.Stop(true)
	c := demoDial(t, "tcp", addr)
	defer c.Close()
	for i := 0; i < 20; i++ {
		b := demoBlock(t, 1, map[string]interface{}{PIPED: "enable;2"}, []byte("1"))
		c.Write(append(b, demoBlock(t, DEFAULT_HEARTBEAT_MESSAGEID, nil, nil)...))
		time.Sleep(60 * time.Millisecond)
	}
	if demoClosed(c, 50*time.Millisecond) {
		t.Fatal("the connection was closed although it sent its heartbeats")
	}
}''', imports=["time"])

s("pipe-dropped-while-stopped", "C16", [("tcpx.go", """	for i, _ := range ctxs {
		handleMiddleware(ctxs[i], tcpx)""", """	for i := 0; i < len(ctxs) && tcpx.State() == STATE_RUNNING; i++ {
		handleMiddleware(ctxs[i], tcpx)""")],
  "a pipe on a living connection, at or after Stop(false)",
  "what is left of its messages is not handled, though the connection is to go on working",
  '''
func TestSeededDemo(t *testing.T) {
	srv := NewTcpX(JsonMarshaller{})
	srv.AddHandler(1, func(c *Context) { c.JSON(2, "ok") })
	addr := demoServe(t, srv)
	c := demoDial(t, "tcp", addr)
	defer c.Close()
	ask := func() {
		demoSend(t, c, demoBlock(t, 1, map[string]interface{}{PIPED: "enable;1"}, []byte("1")))
		c.SetReadDeadline(time.Now().Add(3 * time.Second))
		if _, e := FirstBlockOf(c); e != nil {
			t.Fatal(e)
		}
	}
	ask()
	if e := srv.Stop(false); e != nil {
		t.Fatal(e)
	}
	time.Sleep(100 * time.Millisecond)
	ask()
}''', imports=["time"])

s("handshake-before-next-accept", "C24", [("tcpx.go", """		ctx := NewContext(conn, tcpx.Packx.Marshaller)

		if tcpx.builtInPool""", """		ctx := NewContext(handshaken(conn), tcpx.Packx.Marshaller)

		if tcpx.builtInPool"""), ("tcpx.go", """func handlePipe(ctxs""", """// a tls connection whose handshake is over, so that OnConnect sees its state
func handshaken(conn net.Conn) net.Conn {
	if tc, ok := conn.(*tls.Conn); ok {
		if e := tc.Handshake(); e != nil {
			conn.Close()
		}
	}
	return conn
}

func handlePipe(ctxs""")],
  "a client that connects to a TLS server and says nothing, or only part of a handshake",
  "nobody else can connect as long as it stays",
  '''
func TestSeededDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
	der, e := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if e != nil {
		t.Fatal(e)
	}
	srv := NewTcpX(JsonMarshaller{})
	srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	srv.AddHandler(1, func(c *Context) { c.Reply(2, nil) })
	addr := demoServe(t, srv)
	silent := demoDial(t, "tcp", addr)
	defer silent.Close()
	time.Sleep(100 * time.Millisecond)
	c := demoDial(t, "tcp", addr)
	defer c.Close()
	tc := tls.Client(c, &tls.Config{InsecureSkipVerify: true})
	tc.SetDeadline(time.Now().Add(5 * time.Second))
	if e := tc.Handshake(); e != nil {
		t.Fatal(e)
	}
	demoSend(t, tc, demoBlock(t, 1, nil, nil))
	if _, e := FirstBlockOf(tc); e != nil {
		t.Fatal(e)
	}
}''', imports=["time", "crypto/ecdsa", "crypto/elliptic", "crypto/rand", "crypto/tls", "crypto/x509", "math/big"])
