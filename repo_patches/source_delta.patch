From 51592e4caa5fd7d3695e7036e8b63740a04b2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:20 +0000
Subject: [PATCH 01/47] fix: Message.Set on a message without a header no
 longer panics

---
 message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message.go b/message.go
index 47bcdf3..3ddda5e 100644
--- a/message.go
+++ b/message.go
@@ -50,5 +50,8 @@ func (msg Message) Get(key string) interface{} {
 // if you should never operate the header in multiple goroutines, it's better to design a context yourself per request
 // rather than straightly use message.Header.
 func (msg *Message) Set(k string, v interface{}) {
+	if msg.Header == nil {
+		msg.Header = make(map[string]interface{})
+	}
 	msg.Header[k] = v
 }
-- 
2.43.0


From 060aa038dcb4af63b2b9304030ecfc897b18727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 02/47] fix: keep the bytes a reader returns together with an
 error

---
 packx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..b02c9c1 100644
--- a/packx.go
+++ b/packx.go
@@ -495,16 +495,17 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		// a reader may return the last bytes together with an error
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From e3cfdf1ff6ea6a40d0488fcbbb2e88ac15af9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:28 +0000
Subject: [PATCH 03/47] fix: HeaderBytesOf and BodyBytesOf reject lengths
 beyond int32 instead of panicking

---
 packx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packx.go b/packx.go
index b02c9c1..d94c14d 100644
--- a/packx.go
+++ b/packx.go
@@ -219,6 +219,9 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 {
+		return nil, errors.New(fmt.Sprintf("invalid header length %d", headerLen))
+	}
 	if len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
@@ -260,6 +263,9 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 || bodyLen < 0 {
+		return nil, errors.New(fmt.Sprintf("invalid header length %d or body length %d", headerLen, bodyLen))
+	}
 	if len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
-- 
2.43.0


From 055d9cb6861603f5b54435ae592ddecbebd012be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 04/47] fix: reading a block with a length beyond int32 fails
 instead of panicking

---
 packx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packx.go b/packx.go
index d94c14d..0d65c8e 100644
--- a/packx.go
+++ b/packx.go
@@ -451,6 +451,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("invalid message length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -478,8 +481,11 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("invalid message length %d", length)
+	}
 
-	if length > int32(maxByTe) {
+	if int(length) > maxByTe {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
 	}
 
-- 
2.43.0


From f161b2e02c624454f9f71abacd47a37742d5cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:36 +0000
Subject: [PATCH 05/47] fix: unpacking a malformed block returns an error
 instead of panicking

---
 packx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packx.go b/packx.go
index 0d65c8e..47d14eb 100644
--- a/packx.go
+++ b/packx.go
@@ -366,8 +366,14 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		marshaller = JsonMarshaller{}
 	}
 	var e error
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("require stream length at least 16 but got %d", len(stream)))
+	}
 	// 包长
 	length := binary.BigEndian.Uint32(stream[0:4])
+	if uint64(length)+4 < 16 || uint64(length)+4 > uint64(len(stream)) {
+		return Message{}, errors.New(fmt.Sprintf("invalid message length %d in a stream of length %d", length, len(stream)))
+	}
 	stream = stream[0 : length+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
@@ -375,6 +381,9 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
 	// body长度
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if 16+uint64(headerLength)+uint64(bodyLength) > uint64(len(stream)) {
+		return Message{}, errors.New(fmt.Sprintf("header length %d and body length %d exceed message length %d", headerLength, bodyLength, length))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
-- 
2.43.0


From 67ae080d6c4ea7ba0e60be7777b20e29307e456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:40 +0000
Subject: [PATCH 06/47] fix: a block with header length 0 has an empty header
 instead of an undecodable one

---
 packx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packx.go b/packx.go
index 47d14eb..007021c 100644
--- a/packx.go
+++ b/packx.go
@@ -241,6 +241,10 @@ func HeaderOf(stream []byte) (map[string]interface{}, error) {
 	if e != nil {
 		return nil, errorx.Wrap(e)
 	}
+	// a block may carry no header at all
+	if len(headerBytes) == 0 {
+		return header, nil
+	}
 	e = json.Unmarshal(headerBytes, &header)
 	if e != nil {
 		return nil, errorx.Wrap(e)
-- 
2.43.0


From 70d0f10d5c6bef8bfd09eecda1efe6975fb948e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:23 +0000
Subject: [PATCH 07/47] fix: a request gets its own request scope instead of
 sharing the connection's

copyContext stored the connection map as the request map, so the cached router
type and url pattern of one message decided how later messages were routed.
---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From 1a0919531121f98971bcfdddb11f1ca2c2182499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:27 +0000
Subject: [PATCH 08/47] fix: Any with several handlers registers them once, not
 twice

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..dbe2ad3 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From ef3f346bb22d7058ac55e0da2ead42b5b79c8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:30 +0000
Subject: [PATCH 09/47] fix: Use after UnUse applies to the handlers added
 after it

Only the map was updated, while requests are served from the anchor slice.
---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index dbe2ad3..b1848fa 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From 0dad1607b6b2ede0084b022c308fe6adca4beef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:35 +0000
Subject: [PATCH 10/47] fix: only a heartbeat or auth handler that is in use
 skips the middlewares

With both modes off their message ids are 0, so the handler of message 0 ran
without any middleware.
---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b1848fa..f37ff86 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -896,12 +896,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From 2a974bbbdc236c44caac441397a7c878e6941f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:39 +0000
Subject: [PATCH 11/47] fix: a pipe cut short or announcing a bad length no
 longer crashes the server

The slice was sized by the client's number up front and the entries never
received stayed nil; handling those panicked in a goroutine of its own.
---
 tcpx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index f37ff86..f52ec84 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -579,8 +579,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
@@ -591,10 +590,15 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+
+					// the pipe is incomplete, nothing after it can be read
+					if e != nil {
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
-- 
2.43.0


From ce8f122adfcf261efeaa315edc0a4433f85195bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:43 +0000
Subject: [PATCH 12/47] fix: a panic while handling one message no longer ends
 the whole process

---
 tcpx.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index f52ec84..2715d56 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -852,6 +852,13 @@ func (tcpx *TcpX) ListenAndServeGRPC(network, addr string) error {
 //
 // However, this method is not open export for outer uset. When rebuild new protocol server, this will be considerately used.
 func handleMiddleware(ctx *Context, tcpx *TcpX) {
+	defer func() {
+		if e := recover(); e != nil {
+			Logger.Println(fmt.Sprintf("recover from panic %v", e))
+			Logger.Println(string(debug.Stack()))
+		}
+	}()
+
 	if tcpx.OnMessage != nil {
 		handleOnMessage(ctx, tcpx)
 		return
-- 
2.43.0


From 2f18957bbb1ee26cdfe86d22c483f47a65b80592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:45 +0000
Subject: [PATCH 13/47] fix: WriteConn goes on after a short write instead of
 sending the start again

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a44053..0d52080 100644
--- a/utils.go
+++ b/utils.go
@@ -99,7 +99,7 @@ func MD5(rawMsg string) string {
 func WriteConn(buf []byte, conn net.Conn) error {
 	var sum = 0
 	for {
-		n, e := conn.Write(buf)
+		n, e := conn.Write(buf[sum:])
 
 		if e != nil {
 			if e == io.EOF {
-- 
2.43.0


From 5d4e6e1cdf9ede6105c1fad6f4f244b865415a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:50 +0000
Subject: [PATCH 14/47] fix: heartbeat and auth signals nobody waits for no
 longer block their handler

The channels hold one value. Once the watching goroutine is gone, or heartbeats
are off, every further signal blocked its goroutine for ever.
---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index d5e045e..762c1b1 100644
--- a/context.go
+++ b/context.go
@@ -637,7 +637,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+		// a heartbeat is already waiting to be seen
+	}
 }
 
 // Send to another conn index via username.
@@ -671,11 +675,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	ctx.sendAuth(PASS)
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	ctx.sendAuth(DENY)
+}
+
+// the first auth signal of a connection decides, later ones have no one to receive them
+func (ctx *Context) sendAuth(signal int) {
+	select {
+	case ctx.recvAuth <- signal:
+	default:
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From 65a49e9898b4a15619466aa6a1d154ff0dd66134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:54 +0000
Subject: [PATCH 15/47] fix: the heartbeat watcher and the first heartbeat
 agree on one channel

Both looked the channel up and stored a new one in two steps, so a first
heartbeat could go to a channel the watcher never saw.
---
 context.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/context.go b/context.go
index 762c1b1..db199f9 100644
--- a/context.go
+++ b/context.go
@@ -619,20 +619,12 @@ func (ctx *Context) RawStream() ([]byte, error) {
 // HeartBeatChan returns a prepared chan int to save heart-beat signal.
 // It will never be nil, if not exist the channel, it will auto-make.
 func (ctx *Context) HeartBeatChan() chan int {
-	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
-	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-		return channel.(chan int)
-	} else {
-		tmp, ok := channel.(chan int)
-		if !ok {
-			channel = make(chan int, 1)
-			ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-			return channel.(chan int)
-		}
-		return tmp
+	scope := ctx.PerConnectionContext
+	if ctx.ConnectionProtocolType() == "udp" {
+		scope = ctx.PerRequestContext
 	}
+	channel, _ := scope.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
+	return channel.(chan int)
 }
 
 // RecvHeartBeat
-- 
2.43.0


From cf9497a6521dcbc49992b4e7467e2b88c387b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:58 +0000
Subject: [PATCH 16/47] fix: ClientIP returns the address of an ipv6 client
 instead of 127.0.0.1

---
 context.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index db199f9..2e3bb6e 100644
--- a/context.go
+++ b/context.go
@@ -535,17 +535,16 @@ func (ctx Context) ClientIP() string {
 		//case "kcp":
 		//	clientAddr = ctx.UDPSession.RemoteAddr().String()
 	}
-	arr := strings.Split(clientAddr, ":")
-	// ipv4
-	if len(arr) == 2 {
-		return arr[0]
+	host, _, e := net.SplitHostPort(clientAddr)
+	if e != nil {
+		// not a host:port address, as of a unix socket
+		return ""
 	}
 	// [::1] localhost
-	if strings.Contains(clientAddr, "[") && strings.Contains(clientAddr, "]") {
+	if host == "::1" {
 		return "127.0.0.1"
 	}
-	// ivp6
-	return strings.Join(arr[:len(arr)-1], ":")
+	return host
 }
 
 // stop middleware chain
-- 
2.43.0


From 92b860092f88c6ee1dad5e6804750835b218b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:02 +0000
Subject: [PATCH 17/47] fix: an old connection going offline no longer removes
 a newer one of the same user

---
 client-pool.go | 15 +++++++++++++++
 context.go     |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..cc5d733 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,21 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// Offline ctx's connection only: a newer connection online as the same username stays.
+func (cp *ClientPool) offlineConn(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	current := cp.Clients[username]
+	if current == nil {
+		return
+	}
+	// udp has no connection, each message has a context of its own
+	if ctx.ConnectionProtocolType() == "tcp" && current.recvEnd != ctx.recvEnd {
+		return
+	}
+	delete(cp.Clients, username)
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index 2e3bb6e..5e849fe 100644
--- a/context.go
+++ b/context.go
@@ -168,7 +168,7 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offlineConn(username, ctx)
 	return nil
 }
 
-- 
2.43.0


From 7401e4d28c6be56413ad5b0ddb4136882d8cd7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:52 +0000
Subject: [PATCH 18/47] fix: a udp message no longer starts watchers which
 close the server's socket

The context of a udp message is gone with the message: its heartbeat watcher
never saw a heartbeat and closed the shared socket after three intervals.
---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 2715d56..13d7171 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -682,9 +682,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx)
-
-			go heartBeatWatch(ctx, tcpx)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From a1f77f0ca11ffa74d58cb5424c854d8243c15373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:56 +0000
Subject: [PATCH 19/47] fix: ListenAndServeUDP returns once its socket is
 closed or its deadline is over

It blocked for ever after Stop, and kept reading a dead socket in a busy loop.
---
 tcpx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 13d7171..14cbbbe 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -651,7 +651,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	conn.SetWriteDeadline(tcpx.writeDeadLine)
 
 	// listen to incoming udp packets
-	go func(conn net.PacketConn, tcpx *TcpX) {
+	func(conn net.PacketConn, tcpx *TcpX) {
 		defer func() {
 			if e := recover(); e != nil {
 				Logger.Println(fmt.Sprintf("recover from panic %v", e))
@@ -672,6 +672,10 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 				if e == io.EOF {
 					break
 				}
+				// closed, or its deadline is over: it will never read again
+				if ne, ok := e.(net.Error); errors.Is(e, net.ErrClosed) || ok && ne.Timeout() {
+					break
+				}
 				Logger.Println(e.Error())
 				continue
 				//conn.Close()
@@ -704,9 +708,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 		}
 	}(conn, tcpx)
 
-	select {}
-
-	//return nil
+	return nil
 }
 
 func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, error) {
-- 
2.43.0


From 3131db91df1f9252212f818bda974d28b9405a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 20/47] fix: SetDeadline takes effect when no read or write
 deadline is set

The unset deadlines were applied after it and cleared it again.
---
 tcpx.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 14cbbbe..4739052 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -167,6 +167,21 @@ func (tcpx *TcpX) SetWriteDeadline(t time.Time) {
 	tcpx.writeDeadLine = t
 }
 
+// apply the configured deadlines, an unset read or write deadline leaves the common one
+func (tcpx *TcpX) setDeadlines(conn interface {
+	SetDeadline(t time.Time) error
+	SetReadDeadline(t time.Time) error
+	SetWriteDeadline(t time.Time) error
+}) {
+	conn.SetDeadline(tcpx.deadLine)
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
+}
+
 // Whether using signal-broadcast.
 // Used for these situations:
 // closeAllSignal - close all connection and remove them from the built-in pool
@@ -443,9 +458,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.setDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -521,9 +534,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.setDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -646,9 +657,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.openState()
 
-	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	tcpx.setDeadlines(conn)
 
 	// listen to incoming udp packets
 	func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From a3a1886dde05d314201fda776c6586079fc1ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:04 +0000
Subject: [PATCH 21/47] fix: Stop closes the listeners of every network, as
 tcp4, unix or udp6

---
 tcpx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 4739052..1727b78 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1165,12 +1165,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for _, v := range tcpx.properties {
+			switch listener := v.Listener.(type) {
+			case net.Listener:
+				listener.Close()
+			case net.PacketConn:
+				listener.Close()
 			}
 		}
 	}()
-- 
2.43.0


From d1d27a04357de98ebeddbb51151ec2b798e2adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:07 +0000
Subject: [PATCH 22/47] fix: Start brings back every listener, not the last one
 several times

---
 tcpx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 1727b78..b723dac 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1209,7 +1209,12 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
-	for _, v := range tcpx.properties {
+	tcpx.pLock.RLock()
+	properties := append([]*PropertyCache{}, tcpx.properties...)
+	tcpx.pLock.RUnlock()
+
+	for i := range properties {
+		v := properties[i]
 		go func() {
 			defer func() {
 				if e := recover(); e != nil {
-- 
2.43.0


From 9ed250bbb2dfdd5ffc523c1ded3edc50bd129486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:11 +0000
Subject: [PATCH 23/47] fix: Start serves each address the way it was served
 before Stop

A raw server came back as a framed one, and a udp server lost its buffer size.
---
 tcpx.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b723dac..3f83179 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -102,6 +102,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// serves the property again as it was served before, used by Start
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -405,7 +408,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -418,6 +421,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -425,6 +429,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -442,7 +447,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -518,7 +523,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServe(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -653,7 +658,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
 
@@ -1222,7 +1227,7 @@ func (tcpx *TcpX) Start() error {
 				}
 			}()
 			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			e := v.serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-- 
2.43.0


From 68e5fbefe41025dabf2cb6b1f3bf534db4ce8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:35 +0000
Subject: [PATCH 24/47] fix: Stop(true) closes every connection of the pool
 instead of deadlocking

CloseConn takes the connection out of the pool itself, and waited for the lock
held around the loop. The pool is emptied in place: replacing it also raced with
new connections and left remaining ones with a pool nobody else used.
---
 client-pool.go |  9 +++++++++
 tcpx.go        | 12 +++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index cc5d733..32bc2ae 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,15 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// Empty the pool and return who was in it.
+func (cp *ClientPool) takeAll() map[string]*Context {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	clients := cp.Clients
+	cp.Clients = make(map[string]*Context)
+	return clients
+}
+
 // Offline ctx's connection only: a newer connection online as the same username stays.
 func (cp *ClientPool) offlineConn(username string, ctx *Context) {
 	cp.m.Lock()
diff --git a/tcpx.go b/tcpx.go
index 3f83179..5261d21 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1192,18 +1192,12 @@ func (tcpx *TcpX) closeAllConnection() {
 		close(tcpx.closeAllSignal)
 	} else {
 		if tcpx.pool != nil {
-			oldPool := tcpx.pool
+			clients := tcpx.pool.takeAll()
 			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
+				for k, _ := range clients {
+					clients[k].CloseConn()
 				}
 			}()
-
-			tcpx.pool = NewClientPool()
 		}
 	}
 }
-- 
2.43.0


From ccfc943a8ee2a060c078c488f87f0f443cc2a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:39 +0000
Subject: [PATCH 25/47] fix: a server started again after Stop(true) keeps its
 new connections

The close-all signal stayed closed, so each new connection was closed at once
and a second Stop(true) panicked.
---
 tcpx.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 5261d21..e8f976f 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -630,6 +630,20 @@ func (tcpx *TcpX) openState() {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
 	tcpx.state = 1
+
+	// nothing is ever sent to it: when it can be received from, a former Stop(true) has closed it
+	select {
+	case <-tcpx.closeAllSignal:
+		tcpx.closeAllSignal = make(chan int, 1)
+	default:
+	}
+}
+
+// the signal that all connections have to close
+func (tcpx *TcpX) closeAllChan() <-chan int {
+	tcpx.pLock.RLock()
+	defer tcpx.pLock.RUnlock()
+	return tcpx.closeAllSignal
 }
 
 // set srv state stopped
@@ -1079,7 +1093,7 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						return
 					}
 					continue L
-				case <-tcpx.closeAllSignal:
+				case <-tcpx.closeAllChan():
 					ctx.CloseConn()
 					return
 				case <-ctx.recvEnd:
@@ -1097,7 +1111,7 @@ func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
 	if tcpx.withSignals == true {
 		for {
 			select {
-			case <-tcpx.closeAllSignal:
+			case <-tcpx.closeAllChan():
 				ctx.CloseConn()
 				return
 			case <-ctx.recvEnd:
@@ -1126,7 +1140,7 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 				ctx.CloseConn()
 				return
 			}
-		case <-tcpx.closeAllSignal:
+		case <-tcpx.closeAllChan():
 			ctx.CloseConn()
 			return
 		case <-ctx.recvEnd:
@@ -1189,7 +1203,9 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 
 func (tcpx *TcpX) closeAllConnection() {
 	if tcpx.withSignals == true {
+		tcpx.pLock.Lock()
 		close(tcpx.closeAllSignal)
+		tcpx.pLock.Unlock()
 	} else {
 		if tcpx.pool != nil {
 			clients := tcpx.pool.takeAll()
-- 
2.43.0


From 0a26cdda7029bdb9606f582afe2c28d0bc94787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:09 +0000
Subject: [PATCH 26/47] fix: Stop(false) leaves connections alone also when
 heartbeats are watched

The heartbeat watcher took any stop as the end of its connection. It is told
about Stop(true) by the close-all signal, which is now there without
WithBroadCastSignal too.
---
 tcpx.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index e8f976f..101a646 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -115,6 +115,8 @@ func NewTcpX(marshaller Marshaller) *TcpX {
 		properties: make([]*PropertyCache, 0, 10),
 		pLock:      &sync.RWMutex{},
 		state:      2,
+
+		closeAllSignal: make(chan int, 1),
 	}
 }
 
@@ -1072,10 +1074,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
@@ -1202,11 +1200,13 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 }
 
 func (tcpx *TcpX) closeAllConnection() {
-	if tcpx.withSignals == true {
-		tcpx.pLock.Lock()
+	tcpx.pLock.Lock()
+	if tcpx.closeAllSignal != nil {
 		close(tcpx.closeAllSignal)
-		tcpx.pLock.Unlock()
-	} else {
+	}
+	tcpx.pLock.Unlock()
+
+	if !tcpx.withSignals {
 		if tcpx.pool != nil {
 			clients := tcpx.pool.takeAll()
 			go func() {
-- 
2.43.0


From 0806c92612fbc1505e8515a5d103687917ee9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 27/47] fix: the context of a connection is no longer written
 while others read it

Each message was stored in the shared context first, in a data race with the
heartbeat watcher copying it and with users of the context from OnConnect.
---
 tcpx.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 101a646..c6035a0 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -468,6 +468,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		tcpx.setDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
+		ctx.InitReaderAndWriter()
 
 		if tcpx.builtInPool {
 			ctx.poolRef = tcpx.pool
@@ -493,8 +494,6 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 				defer tcpx.OnClose(ctx)
 			}
 
-			ctx.InitReaderAndWriter()
-
 			tmpContext := copyContext(*ctx)
 			handleRaw(tmpContext, tcpx)
 		}(ctx, tcpx)
@@ -576,9 +575,8 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			if tcpx.OnClose != nil {
 				defer tcpx.OnClose(ctx)
 			}
-			var e error
 			for {
-				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+				stream, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 				if e != nil {
 					if e == io.EOF {
 						break
@@ -587,6 +585,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					break
 				}
 				tmpContext := copyContext(*ctx)
+				tmpContext.Stream = stream
 
 				isPipe, restN, e := isPipe(tmpContext.Stream)
 				if e != nil {
@@ -599,7 +598,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					// fmt.Println("recv pipe", isPipe, restN)
 					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
-						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+						stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
 							if e == io.EOF {
 								break
@@ -608,6 +607,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							break
 						}
 						tmpContext := copyContext(*ctx)
+						tmpContext.Stream = stream
 						ctxs = append(ctxs, tmpContext)
 					}
 
-- 
2.43.0


From 779e4cd311badf22470e3b584bc62320c3f4548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:53 +0000
Subject: [PATCH 28/47] fix: BeforeExit no longer misses a signal that arrives
 as it returns

---
 tcpx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index c6035a0..570edf8 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1150,14 +1150,15 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 
 // Before exist do ending jobs
 func (tcpx *TcpX) BeforeExit(f ...func()) {
+	// buffered and registered before returning, so that no signal is missed from here on
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 	go func() {
 		defer func() {
 			if e := recover(); e != nil {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
-		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
 		for _, handler := range f {
-- 
2.43.0


From 7b0e21c3843cde348fe92c741af23bcc83e4d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:22 +0000
Subject: [PATCH 29/47] fix: ClientIP, Network and RouterType no longer copy a
 context others are using

---
 context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 5e849fe..6bf2493 100644
--- a/context.go
+++ b/context.go
@@ -520,12 +520,12 @@ func (ctx *Context) replyBuf(buf []byte) (e error) {
 	return nil
 }
 
-func (ctx Context) Network() string {
+func (ctx *Context) Network() string {
 	return ctx.ConnectionProtocolType()
 }
 
 // client ip
-func (ctx Context) ClientIP() string {
+func (ctx *Context) ClientIP() string {
 	var clientAddr string
 	switch ctx.ConnectionProtocolType() {
 	case "tcp":
@@ -682,7 +682,7 @@ func (ctx *Context) sendAuth(signal int) {
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-func (ctx Context) RouterType() string {
+func (ctx *Context) RouterType() string {
 	rt, cached := ctx.routerType()
 	if !cached {
 		ctx.setRouterType(rt)
-- 
2.43.0


From d7b091e0264087f1f0289ccc7f7eacd0d0cae23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:44 +0000
Subject: [PATCH 30/47] fix: Stop called twice at once could close the
 close-all signal twice and crash

---
 tcpx.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 570edf8..35e3dfa 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -650,10 +650,15 @@ func (tcpx *TcpX) closeAllChan() <-chan int {
 
 // set srv state stopped
 // tcp, udp, kcp will stop for circle and close listener/conn
-func (tcpx *TcpX) stopState() {
+// returns false if it is stopped already
+func (tcpx *TcpX) stopState() bool {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
+	if tcpx.state == STATE_STOP {
+		return false
+	}
 	tcpx.state = STATE_STOP
+	return true
 }
 func (tcpx *TcpX) State() int {
 	tcpx.pLock.RLock()
@@ -1173,12 +1178,10 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 // listener, but also kill all connections(stops their net.Conn, stop all sub-routine, clear the pool)
 func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	fmt.Println("graceful stop")
-	if tcpx.State() == STATE_STOP {
+	if !tcpx.stopState() {
 		return errors.New("already stopped")
 	}
 
-	tcpx.stopState()
-
 	// close all listener
 	func() {
 		tcpx.pLock.Lock()
@@ -1203,7 +1206,11 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 func (tcpx *TcpX) closeAllConnection() {
 	tcpx.pLock.Lock()
 	if tcpx.closeAllSignal != nil {
-		close(tcpx.closeAllSignal)
+		select {
+		case <-tcpx.closeAllSignal: // closed already
+		default:
+			close(tcpx.closeAllSignal)
+		}
 	}
 	tcpx.pLock.Unlock()
 
-- 
2.43.0


From ee680322fe826336bdad664cae8d38cb4f216cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:11 +0000
Subject: [PATCH 31/47] fix: ReadAllUDP printed the size of every datagram, in
 release mode too

---
 tcpx.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 35e3dfa..40c4738 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -758,7 +758,6 @@ func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, er
 	}
 
 	n, addr, e := conn.ReadFrom(buffer)
-	fmt.Println(n)
 
 	if e != nil {
 		return nil, nil, e
-- 
2.43.0


From 86e61eb3aef24c15c36735b2876a1b5e505c4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:11 +0000
Subject: [PATCH 32/47] fix: In panicked on the pattern '%'

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 0d52080..bf38478 100644
--- a/utils.go
+++ b/utils.go
@@ -29,7 +29,7 @@ func Debug(src interface{}) string {
 func In(s string, arr []string) bool {
 	for _, v := range arr {
 		if strings.Contains(v, "%") {
-			if strings.HasPrefix(v, "%") && strings.HasSuffix(v, "%") {
+			if len(v) > 1 && strings.HasPrefix(v, "%") && strings.HasSuffix(v, "%") {
 				if strings.Contains(s, string(v[1:len(v)-1])) {
 					return true
 				}
-- 
2.43.0


From 215c3c37618cd03bcd1acd1a9e351ae10e7f5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:15 +0000
Subject: [PATCH 33/47] fix: ListenAndServeUDP panicked on an address it could
 not listen on

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 40c4738..b3781c7 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -675,7 +675,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	conn, err := net.ListenPacket(network, addr)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer conn.Close()
 
-- 
2.43.0


From 16bc12365360882a3c3923c2280a8b5e2536efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:07 +0000
Subject: [PATCH 34/47] fix: a panic in OnConnect ended the whole listener

---
 tcpx.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b3781c7..360804e 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -474,8 +474,8 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
-		if tcpx.OnConnect != nil {
-			tcpx.OnConnect(ctx)
+		if !tcpx.connected(ctx) {
+			continue
 		}
 
 		go broadcastSignalWatch(ctx, tcpx)
@@ -548,8 +548,8 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
-		if tcpx.OnConnect != nil {
-			tcpx.OnConnect(ctx)
+		if !tcpx.connected(ctx) {
+			continue
 		}
 
 		if tcpx.withSignals {
@@ -627,6 +627,20 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	return nil
 }
 
+// call OnConnect, a panic in it costs its connection only. Returns whether to go on with the connection.
+func (tcpx *TcpX) connected(ctx *Context) (ok bool) {
+	defer func() {
+		if e := recover(); e != nil {
+			Logger.Println(fmt.Sprintf("recover from panic %v", e))
+			ctx.CloseConn()
+		}
+	}()
+	if tcpx.OnConnect != nil {
+		tcpx.OnConnect(ctx)
+	}
+	return true
+}
+
 // set srv state running
 func (tcpx *TcpX) openState() {
 	tcpx.pLock.Lock()
-- 
2.43.0


From c293e3fdbe83cd53becc5967b7f7e1108a444a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:07 +0000
Subject: [PATCH 35/47] fix: a panic in OnHeartbeatLoss left the lost
 connection open

---
 tcpx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 360804e..4d1a4ad 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1099,13 +1099,14 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 				case <-time.After(tcpx.HeatBeatInterval):
 					times++
 					if times == 3 {
+						// close also when the handler panics
+						defer ctx.CloseConn()
+
 						// heartbeat loss handler
 
 						if tcpx.OnHeartbeatLoss != nil {
 							tcpx.OnHeartbeatLoss(copyContext(*ctx))
 						}
-
-						_ = ctx.CloseConn()
 						return
 					}
 					continue L
-- 
2.43.0


From 9f2845ab94ea1f0abfa16ed90412131e72425df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:48 +0000
Subject: [PATCH 36/47] fix: a connection that has ended can no longer go
 online in the pool

---
 client-pool.go | 11 +++++++++++
 context.go     | 13 ++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 32bc2ae..13e3477 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -57,6 +57,17 @@ func (cp *ClientPool) takeAll() map[string]*Context {
 	return clients
 }
 
+// Online a connection that has not ended, and tell whether it was put into the pool.
+func (cp *ClientPool) onlineConn(username string, ctx *Context) bool {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if ctx.IsOffline() {
+		return false
+	}
+	cp.Clients[username] = ctx
+	return true
+}
+
 // Offline ctx's connection only: a newer connection online as the same username stays.
 func (cp *ClientPool) offlineConn(username string, ctx *Context) {
 	cp.m.Lock()
diff --git a/context.go b/context.go
index 6bf2493..0e4f835 100644
--- a/context.go
+++ b/context.go
@@ -136,7 +136,9 @@ func (ctx *Context) Online(username string) error {
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
-	ctx.poolRef.Online(username, ctx)
+	if !ctx.poolRef.onlineConn(username, ctx) {
+		return errors.New(fmt.Sprintf("can't online as '%s', the connection is closed", username))
+	}
 	return nil
 }
 
@@ -281,13 +283,14 @@ func (ctx *Context) CloseConn() error {
 				close(ctx.recvEnd)
 			})
 		}
+		ctx.L.Lock()
+		*(ctx.userState) = CONTEXT_OFFLINE
+		ctx.L.Unlock()
+
+		// after userState is set, no Online can put the connection into the pool again
 		if ctx.poolRef != nil {
 			ctx.Offline()
 		}
-
-		ctx.L.Lock()
-		defer ctx.L.Unlock()
-		*(ctx.userState) = CONTEXT_OFFLINE
 	}()
 
 	switch ctx.ConnectionProtocolType() {
-- 
2.43.0


From da9d80e2217b38c6ee928d71768e41d480e8815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:16 +0000
Subject: [PATCH 37/47] fix: a connection online under several names leaves
 none of them in the pool

---
 context.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/context.go b/context.go
index 0e4f835..6cd9963 100644
--- a/context.go
+++ b/context.go
@@ -136,12 +136,16 @@ func (ctx *Context) Online(username string) error {
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
+	ctx.setCtxPerConn(onlineName(username), true)
 	if !ctx.poolRef.onlineConn(username, ctx) {
 		return errors.New(fmt.Sprintf("can't online as '%s', the connection is closed", username))
 	}
 	return nil
 }
 
+// key of a name, in the connection scope, which the connection went online under
+type onlineName string
+
 // Only used when tcpX instance's builtInPool is true,
 // otherwise you should design your own client pool(github.com/fwhezfwhez/tcpx/clientPool/client-pool.go), and manage it
 // yourself, like:
@@ -171,6 +175,15 @@ func (ctx *Context) Offline() error {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
 	ctx.poolRef.offlineConn(username, ctx)
+	if ctx.ConnectionProtocolType() == "tcp" {
+		// the other names it went online under
+		ctx.PerConnectionContext.Range(func(k, v interface{}) bool {
+			if name, ok := k.(onlineName); ok {
+				ctx.poolRef.offlineConn(string(name), ctx)
+			}
+			return true
+		})
+	}
 	return nil
 }
 
-- 
2.43.0


From 5704557abd9843108355c7c6ae52da785e291311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 38/47] fix: a temporary accept failure no longer ends the
 server

---
 tcpx.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index 4d1a4ad..7c12e78 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -25,6 +25,9 @@ const (
 	DEFAULT_HEARTBEAT_MESSAGEID = 1392
 	DEFAULT_AUTH_MESSAGEID      = 1393
 
+	// how long to wait until accepting again after a temporary failure
+	acceptRetryDelay = 10 * time.Millisecond
+
 	STATE_RUNNING = 1
 	STATE_STOP    = 2
 
@@ -460,6 +463,12 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 		conn, err := listener.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// out of file descriptors, for example: those who are connected leave some day
+				Logger.Println(err.Error())
+				time.Sleep(acceptRetryDelay)
+				continue
+			}
 			log.Println(fmt.Sprintf(err.Error()))
 			break
 		}
@@ -535,6 +544,12 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 		conn, err := listener.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// out of file descriptors, for example: those who are connected leave some day
+				Logger.Println(err.Error())
+				time.Sleep(acceptRetryDelay)
+				continue
+			}
 			log.Println(fmt.Sprintf(err.Error()))
 			break
 		}
-- 
2.43.0


From 6e5dfb02de1bb492a63e8fb06dc8527869f2a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:44 +0000
Subject: [PATCH 39/47] fix: a slow OnConnect no longer keeps other connections
 from being accepted

---
 tcpx.go | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 7c12e78..ae69185 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -483,13 +483,6 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
-		if !tcpx.connected(ctx) {
-			continue
-		}
-
-		go broadcastSignalWatch(ctx, tcpx)
-		go heartBeatWatch(ctx, tcpx)
-
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
 				if e := recover(); e != nil {
@@ -497,6 +490,15 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 					// Logger.Println(string(debug.Stack()))
 				}
 			}()
+
+			// here and not before, OnConnect of one connection must not keep the others waiting
+			if !tcpx.connected(ctx) {
+				return
+			}
+
+			go broadcastSignalWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx)
+
 			//defer ctx.Conn.Close()
 			defer ctx.CloseConn()
 			if tcpx.OnClose != nil {
@@ -563,21 +565,6 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
-		if !tcpx.connected(ctx) {
-			continue
-		}
-
-		if tcpx.withSignals {
-			go broadcastSignalWatch(ctx, tcpx)
-		}
-
-		if tcpx.HeartBeatOn {
-			go heartBeatWatch(ctx, tcpx)
-		}
-		if tcpx.auth {
-			go authWatch(ctx, tcpx)
-		}
-
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
 				if e := recover(); e != nil {
@@ -585,6 +572,23 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					// Logger.Println(string(debug.Stack()))
 				}
 			}()
+
+			// here and not before, OnConnect of one connection must not keep the others waiting
+			if !tcpx.connected(ctx) {
+				return
+			}
+
+			if tcpx.withSignals {
+				go broadcastSignalWatch(ctx, tcpx)
+			}
+
+			if tcpx.HeartBeatOn {
+				go heartBeatWatch(ctx, tcpx)
+			}
+			if tcpx.auth {
+				go authWatch(ctx, tcpx)
+			}
+
 			//defer ctx.Conn.Close()
 			defer ctx.CloseConn()
 			if tcpx.OnClose != nil {
-- 
2.43.0


From dcafa898c62f00bdb068c0e49b17042a7592da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:51 +0000
Subject: [PATCH 40/47] fix: a declared length alone no longer makes the reader
 allocate it

---
 packx.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/packx.go b/packx.go
index 007021c..7526122 100644
--- a/packx.go
+++ b/packx.go
@@ -467,15 +467,7 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if length < 0 {
 		return nil, errorx.NewFromStringf("invalid message length %d", length)
 	}
-	var content = make([]byte, length, length)
-	if e := readUntil(reader, content); e != nil {
-		if e == io.EOF {
-			return nil, e
-		}
-		return nil, errorx.Wrap(e)
-	}
-
-	return append(info, content ...), nil
+	return readContent(reader, info, int(length))
 }
 
 func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int) ([]byte, error) {
@@ -502,15 +494,29 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
 	}
 
-	var content = make([]byte, length, length)
-	if e := readUntil(reader, content); e != nil {
-		if e == io.EOF {
-			return nil, e
+	return readContent(reader, info, int(length))
+}
+
+// read the content of a block and append it to info.
+// The length is only what the other side claims, so memory is allocated as the content arrives.
+func readContent(reader io.Reader, info []byte, length int) ([]byte, error) {
+	const step = 64 * 1024
+	var block = info
+	for rest := length; rest > 0; {
+		n := rest
+		if n > len(block)+step {
+			n = len(block) + step
 		}
-		return nil, errorx.Wrap(e)
+		block = append(block, make([]byte, n)...)
+		if e := readUntil(reader, block[len(block)-n:]); e != nil {
+			if e == io.EOF {
+				return nil, e
+			}
+			return nil, errorx.Wrap(e)
+		}
+		rest -= n
 	}
-
-	return append(info, content ...), nil
+	return block, nil
 }
 
 func readUntil(reader io.Reader, buf []byte) error {
-- 
2.43.0


From c45fd544d5b18bc169c0ded2f34b8815a6a86a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:14 +0000
Subject: [PATCH 41/47] fix: a context kept after its handler raced with the
 reset of its request scope

Each request has a context of its own, nothing uses it again after the chain. Resetting it
there wrote PerRequestContext while a goroutine started by a handler could still use it, by
JSONURLPattern or GetCtxPerRequest for example.
---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index ae69185..c73c94d 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -957,7 +957,6 @@ func handleOnMessage(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 // messageID router will be handled here
@@ -1015,7 +1014,6 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 // messageID router will be handled here
@@ -1062,7 +1060,6 @@ func handleURLPatternHandlers(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 func handlePipe(ctxs []*Context, tcpx *TcpX) {
@@ -1084,7 +1081,6 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 // Start a goroutine to watch heartbeat for a connection
-- 
2.43.0


From b41124c37ff3d77135e145aabefa2576d5e6eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:19 +0000
Subject: [PATCH 42/47] fix: a refused AddHandler left its middlewares with the
 route it conflicted with

---
 tcpx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index c73c94d..848e06c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -353,15 +353,15 @@ func (tcpx *TcpX) AddHandler(messageID int32, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
-	}
-
 	f := handlers[len(handlers)-1]
 	if tcpx.Mux == nil {
 		tcpx.Mux = NewMux()
 	}
+	// first, it panics if messageID has a handler: nothing of the refused one must stay
 	tcpx.Mux.AddHandleFunc(messageID, f)
+	if len(handlers) > 1 {
+		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
+	}
 	var messageIDAnchor = NewMessageIDAnchor(messageID, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddMessageIDAnchor(messageIDAnchor)
 }
-- 
2.43.0


From c64c01b49d21163731281c0226d8fda25d2ca0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:54 +0000
Subject: [PATCH 43/47] fix: a connection still in OnConnect could miss a
 Stop(true) followed by a Start

---
 tcpx.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 848e06c..d5f2b07 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -456,6 +456,8 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 
 	defer listener.Close()
 	tcpx.openState()
+	// of this run, a Stop(true) and Start may come before a connection gets to watch it
+	closeAll := tcpx.closeAllChan()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -496,7 +498,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 				return
 			}
 
-			go broadcastSignalWatch(ctx, tcpx)
+			go broadcastSignalWatch(ctx, tcpx, closeAll)
 			go heartBeatWatch(ctx, tcpx)
 
 			//defer ctx.Conn.Close()
@@ -539,6 +541,8 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 	defer listener.Close()
 	tcpx.openState()
+	// of this run, a Stop(true) and Start may come before a connection gets to watch it
+	closeAll := tcpx.closeAllChan()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -579,7 +583,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			}
 
 			if tcpx.withSignals {
-				go broadcastSignalWatch(ctx, tcpx)
+				go broadcastSignalWatch(ctx, tcpx, closeAll)
 			}
 
 			if tcpx.HeartBeatOn {
@@ -1139,11 +1143,11 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 // Each connection will have this goroutine, it bind relation with tcpx server.
 // tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
-func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
+func broadcastSignalWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 	if tcpx.withSignals == true {
 		for {
 			select {
-			case <-tcpx.closeAllChan():
+			case <-closeAll:
 				ctx.CloseConn()
 				return
 			case <-ctx.recvEnd:
-- 
2.43.0


From a1475298f09906e794bd4f0d5fd8b81229c1fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:59 +0000
Subject: [PATCH 44/47] fix: the functions of one BeforeExit call were cut
 short by those of another

---
 tcpx.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index d5f2b07..934f429 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1186,8 +1186,23 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 	}
 }
 
+// ending jobs of all BeforeExit calls: the first to be done must not end the process under the others
+var exitJobs struct {
+	m       sync.Mutex
+	f       []func()
+	watched bool
+}
+
 // Before exist do ending jobs
 func (tcpx *TcpX) BeforeExit(f ...func()) {
+	exitJobs.m.Lock()
+	defer exitJobs.m.Unlock()
+	exitJobs.f = append(exitJobs.f, f...)
+	if exitJobs.watched {
+		return
+	}
+	exitJobs.watched = true
+
 	// buffered and registered before returning, so that no signal is missed from here on
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
@@ -1199,7 +1214,10 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 		}()
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
-		for _, handler := range f {
+		exitJobs.m.Lock()
+		jobs := exitJobs.f
+		exitJobs.m.Unlock()
+		for _, handler := range jobs {
 			handler()
 		}
 		os.Exit(0)
-- 
2.43.0


From 513cdf9791d2cbe14755b9337e215d6f1550f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:18 +0000
Subject: [PATCH 45/47] fix: PipeJSON and TCPCallOnceJSON sent an id beyond
 int32 to another id's handler

---
 utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils.go b/utils.go
index bf38478..716f967 100644
--- a/utils.go
+++ b/utils.go
@@ -162,6 +162,9 @@ func PipeJSON(conn net.Conn, args ...interface{}) error {
 		if !ok {
 			return errorx.NewFromStringf("wrong type, args[%d] should be a int type messageID but got %s", i, reflect.TypeOf(args[i]).Name())
 		}
+		if int(int32(messageID)) != messageID {
+			return errorx.NewFromStringf("args[%d], messageID %d is out of the range of int32", i, messageID)
+		}
 		message := args[i+1]
 
 		var msg Message
@@ -199,6 +202,9 @@ func PipeJSON(conn net.Conn, args ...interface{}) error {
 }
 
 func TCPCallOnceJSON(network string, url string, messageID int, data interface{}) error {
+	if int(int32(messageID)) != messageID {
+		return errorx.NewFromStringf("messageID %d is out of the range of int32", messageID)
+	}
 	conn, e := TCPConnect(network, url)
 	if e != nil {
 		return errorx.Wrap(e)
-- 
2.43.0


From 6c252e8f8e6a3d636a660eb4d7ac56f79a20ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:32 +0000
Subject: [PATCH 46/47] fix: Stop(true) empties the pool also with broadcast
 signals on

---
 tcpx.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 934f429..b79af53 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1265,15 +1265,14 @@ func (tcpx *TcpX) closeAllConnection() {
 	}
 	tcpx.pLock.Unlock()
 
-	if !tcpx.withSignals {
-		if tcpx.pool != nil {
-			clients := tcpx.pool.takeAll()
-			go func() {
-				for k, _ := range clients {
-					clients[k].CloseConn()
-				}
-			}()
-		}
+	// also with signals, udp peers in the pool have no connection which watches them
+	if tcpx.pool != nil {
+		clients := tcpx.pool.takeAll()
+		go func() {
+			for k, _ := range clients {
+				clients[k].CloseConn()
+			}
+		}()
 	}
 }
 
-- 
2.43.0


From b1aa979e1fc7e562aa786127e0468a6896ea80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:55 +0000
Subject: [PATCH 47/47] fix: a key used again with another middleware ran the
 old one

---
 anchor.go | 14 ++++++++++++++
 tcpx.go   |  5 +++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/anchor.go b/anchor.go
index e57e1f4..1ddbd70 100644
--- a/anchor.go
+++ b/anchor.go
@@ -39,6 +39,9 @@ type MiddlewareAnchor struct {
 	AnchorStartIndexRange []int
 	AnchorEndIndexRange   []int
 
+	// the middleware of each Use, a key can be used again with another one
+	middlewares []func(c *Context)
+
 	info AnchorMiddlewareInfo
 }
 
@@ -53,6 +56,7 @@ func (ma *MiddlewareAnchor) callUse(index int) {
 
 	ma.mergeUse(fmt.Sprintf("%s:%d", file, line))
 	ma.AnchorStartIndexRange = append(ma.AnchorStartIndexRange, index)
+	ma.middlewares = append(ma.middlewares, ma.Middleware)
 }
 
 func (ma *MiddlewareAnchor) callUnUse(index int) {
@@ -119,6 +123,16 @@ func (ma *MiddlewareAnchor) Contains(handlerIndex int) bool {
 	return false
 }
 
+// the middleware in use at handlerIndex, only if Contains(handlerIndex)
+func (ma *MiddlewareAnchor) middlewareOf(handlerIndex int) func(c *Context) {
+	for i := len(ma.AnchorStartIndexRange) - 1; i >= 0; i-- {
+		if ma.AnchorStartIndexRange[i] <= handlerIndex && i < len(ma.middlewares) {
+			return ma.middlewares[i]
+		}
+	}
+	return ma.Middleware
+}
+
 func (ma *MiddlewareAnchor) checkValidBeforeRun() {
 	if len(ma.AnchorStartIndexRange) == len(ma.AnchorEndIndexRange) || len(ma.AnchorStartIndexRange) == len(ma.AnchorEndIndexRange)+1 {
 		return
diff --git a/tcpx.go b/tcpx.go
index b79af53..dc836b3 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -303,6 +303,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
+			middlewareAnchor.Middleware = middleware
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
 			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
@@ -1006,7 +1007,7 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 	for i, _ := range tcpx.Mux.MiddlewareAnchors {
 		v := tcpx.Mux.MiddlewareAnchors[i]
 		if v.Contains(messageIDAnchorIndex) {
-			ctx.handlers = append(ctx.handlers, v.Middleware)
+			ctx.handlers = append(ctx.handlers, v.middlewareOf(messageIDAnchorIndex))
 		}
 	}
 
@@ -1055,7 +1056,7 @@ func handleURLPatternHandlers(ctx *Context, tcpx *TcpX) {
 	for i, _ := range tcpx.Mux.MiddlewareAnchors {
 		v := tcpx.Mux.MiddlewareAnchors[i]
 		if v.Contains(urlPatternHandlerAnchorIndex) {
-			ctx.handlers = append(ctx.handlers, v.Middleware)
+			ctx.handlers = append(ctx.handlers, v.middlewareOf(urlPatternHandlerAnchorIndex))
 		}
 	}
 
-- 
2.43.0

