#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from anywhere; the output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier, why tests cannot, files, mechanisms, technique, note
P = []


def p(id, title, statement, over, qtext, why, files, mech, tech, note):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note))


p("C01", "Packing and unpacking round-trip, in the documented block layout",
  "Every packing function, for every message id, header and body it accepts, returns exactly one block of the documented layout (big-endian length, id, header length, body length, header, body, the length counting everything after itself), and changes nothing the caller passed in. "
  "Every unpacking function and accessor gives back from it the same id, header (also through Message.Get and Set) and body, for each of the JSON, XML, YAML, TOML and protobuf marshallers and for one of the user's own. "
  "What a marshaller cannot encode is an error, not a block.",
  ["inputs"], "all ids, headers, bodies, marshallers and packing entry points",
  "packx_test.go and message_test.go pack a handful of fixed messages; ids at the 32-bit edges, empty and large parts and odd header values are not sampled.",
  ["packx.go", "message.go", "marshaller.go"], [("Packx.Pack / PackWithMarshaller / PackWithMarshallerAndBody", "packx.go"), ("length accessors", "packx.go")],
  "property-based round-trip and differential test against a reference codec",
  "Random messages through every packing entry point, compared with an independent codec and decoded back.")

p("C02", "A stream yields exactly the blocks written to it, however it is cut",
  "Reading blocks from a byte stream yields exactly the blocks that were written, in order and byte for byte, whatever the sizes of the reads that deliver them, including empty reads and bytes returned together with an error. "
  "A stream that ends between blocks gives io.EOF, one that ends or fails inside a block gives an error and no block, and no byte of a later block is consumed or lost.",
  ["inputs", "fault_sequences"], "all block sequences, all ways to cut them into reads, all truncation points and link errors",
  "The tests read single blocks from a bytes.Reader, which never delivers a short read, an empty read or data with an error.",
  ["packx.go"], [("UnpackToBlockFromReader and its limited variant", "packx.go"), ("FirstBlockOf", "packx.go")],
  "model-based property test over generated read schedules with injected link faults",
  "Random block sequences under random read plans, checked against the sequence that was written.")

p("C03", "No bytes make decoding panic, run away or return more than was there",
  "For every byte sequence, each decoding function and accessor returns an error or a result that lies within those bytes and agrees with the block's own length words; none panics. "
  "A declared length beyond the bytes given, beyond 31 bits or beyond a limit given with the call is an error, before anything of that size is allocated.",
  ["inputs"], "all byte sequences",
  "The tests decode well-formed blocks only.",
  ["packx.go", "message.go"], [("bounds checks of LengthOf, HeaderBytesOf, BodyBytesOf, UnpackWithMarshaller, FirstBlockOfBytes", "packx.go")],
  "generation-based fuzzing of the decoders against a reference parser",
  "Arbitrary bytes and perturbed blocks through every decoder; panics, allocations and out-of-range results are violations.")

p("C04", "No client can take the server down or disturb another connection",
  "Whatever bytes, truncated or malformed messages and pipes, oversized declarations, vanishing or non-reading peers a client produces over TCP or UDP, and whatever panics it provokes in handlers, middlewares, OnConnect or OnClose, the process stays alive, and other connections and new connections go on being served. "
  "A connection whose bytes are no well-formed messages (an impossible length, an undecodable header, bad pipe arguments) is closed, and the server does not spin on it.",
  ["inputs", "fault_sequences", "histories"], "all client behaviours, in every order, with bystanders",
  "The tests only have well-behaved clients on the real loopback, and no second client.",
  ["tcpx.go", "packx.go"], [("recover in the handling goroutines", "tcpx.go"), ("isPipe argument checks", "tcpx.go"), ("error exits of the read loop", "tcpx.go")],
  "stateful attack generation with a bystander oracle on a virtual network",
  "Random attack sequences on the real server; a bystander's requests are the oracle, as is the process itself.")

p("C05", "Each well-formed message reaches exactly its own handler, once, unchanged",
  "Every complete message received on a connection is handed exactly once to the handler registered for its message id, or for its url when its header asks for url routing, and to OnMessage instead when that is set; a message whose id or url has no handler reaches none and does not end the connection. "
  "The handler sees exactly that message's bytes, id, header and body, and its own connection, for as long as it (or a goroutine it gave its context to) uses them, however many messages, also identical ones, and connections are handled at the same time and however the bytes were cut on the way.",
  ["inputs", "schedules", "histories"], "all message sequences, route tables, connection counts, cuts and handler overlaps",
  "The tests send a few messages to one handler and look at the log.",
  ["tcpx.go", "context.go", "mux.go", "url-mux.go"], [("handleMiddleware / handleMessageIDHandlers / handleURLPatternHandlers", "tcpx.go"), ("copyContext", "context.go"), ("routerType", "context.go")],
  "stateful property test of the server against a routing model",
  "Random requests over several connections with parked handlers; every invocation is compared with the model.")

p("C06", "A route's chain is its global, used and own middleware, in that order",
  "For every sequence of UseGlobal, Use, UnUse, AddHandler and Any calls, a message to a route runs the global middlewares, then those that were in use when its handler was added (in the order of their first use, each with the function its key was last given by then), then the route's own, then its handler, each exactly once. "
  "A heartbeat or authentication message skips all middlewares unless it was configured to go through them, and only if that feature is switched on. "
  "With OnMessage set, and on a raw server, the global middlewares and the used ones run, then that function.",
  ["programs", "configurations"], "all registration histories and feature settings",
  "mux and anchor tests check a few fixed histories, none with re-use after un-use and none through the server.",
  ["mux.go", "anchor.go", "tcpx.go"], [("MiddlewareAnchor.Contains", "anchor.go"), ("chain assembly in handleMessageIDHandlers and handleURLPatternHandlers", "tcpx.go")],
  "model-based test over generated registration histories",
  "Random registration histories; the functions that run for every route are compared with a model of the documented order.")

p("C07", "Next and Abort control the chain: each function runs at most once, in order",
  "A chain runs its functions in order, each at most once: a function that returns without calling Next or Abort is followed by the next one, Next runs the rest before it returns, and after Abort no function that has not started runs. "
  "This holds for url and message-id routes alike and for every request on its own, also when several requests are in the chain at the same time.",
  ["programs", "schedules"], "all chains, all programs of Next and Abort, all overlaps",
  "The tests call Abort once in one fixed chain.",
  ["context.go", "tcpx.go"], [("Context.Next / Abort / Reset", "context.go")],
  "model-based test over generated middleware programs and overlaps",
  "Random programs per function; the trace of every request is compared with an interpreter of Next and Abort.")

p("C08", "The messages of a pipe are handled one after another, in the order sent",
  "Messages sent as one pipe are handled strictly one after another in the order they were sent, each exactly once, by the same routes as outside a pipe, also when one of them has no handler or its handler panics. "
  "Pipes and single messages of the same or another connection do not wait for a running pipe's handlers, nothing that follows the announced number of messages belongs to the pipe, and of a pipe cut short by the end of its connection the messages that arrived are still handled in order. "
  "Packing a pipe writes the announced number of blocks in one write.",
  ["inputs", "schedules", "fault_sequences"], "all pipes, handler durations, neighbours and truncations",
  "The tests send one pipe to a server and sleep.",
  ["tcpx.go", "context.go", "packx.go", "utils.go"], [("isPipe and the collection loop", "tcpx.go"), ("handlePipe", "tcpx.go"), ("PipeJSON", "utils.go")],
  "stateful property test with gated handlers against an ordering model",
  "Random pipes with gated handlers and truncations; begin and end of every handler are compared with the required order.")

p("C09", "The message size limit admits what fits and refuses what does not",
  "With a limit of n bytes per message set, a message whose declared length is at most n is handled as without a limit, alone or in a pipe, and a longer one is never handled and ends its connection without its bytes being waited for. "
  "Other connections do not notice, and without a limit messages of any size are served.",
  ["inputs", "configurations"], "all limits and message sizes around them",
  "No test sets a limit and sends a message at or over it through a server.",
  ["tcpx.go", "packx.go"], [("FirstBlockOfLimitMaxByte", "packx.go"), ("maxByte use in the read loop", "tcpx.go")],
  "boundary-value generation through the server against a size model",
  "Random limits and messages at, below and above them, in and out of pipes.")

p("C10", "Connection values last and stay with the connection, request values do not leak",
  "A value set in connection scope is seen by every later message of the same connection and by its own event handlers, and by no other connection. "
  "A value set in request scope is seen by the rest of the same request only, also where its context is kept beyond the handler: no other request, of the same or another connection, ever sees it, however they overlap.",
  ["histories", "schedules"], "all set and get histories over overlapping requests and connections",
  "The tests set and get one key on one context.",
  ["context.go", "tcpx.go"], [("copyContext", "context.go"), ("SetCtxPerConn / SetCtxPerRequest", "context.go")],
  "stateful model-based test of two-level scoping under overlap",
  "Random set and get programs in overlapping requests, compared with a two-level map model.")

p("C11", "Every connection has one life: OnConnect, its messages, its end, OnClose",
  "For every accepted connection, framed or raw, OnConnect runs exactly once and before any of its messages is handled, OnClose runs exactly once, when the connection has ended, and in the end its socket is closed, its context reports being offline and no pool entry of it is left. "
  "This holds whatever ends the connection: either side closing it, a cut or malformed message, the size limit, a lost heartbeat, failed authentication, a deadline, Stop(true) or a panicking handler, alone or at the same time. "
  "Until then the context reports being online.",
  ["fault_sequences", "schedules", "histories"], "all causes of an end, alone and at the same time",
  "The tests let the client close, and count nothing.",
  ["tcpx.go", "context.go", "client-pool.go"], [("deferred OnClose and CloseConn of the read loop", "tcpx.go"), ("Context.CloseConn", "context.go")],
  "stateful fault injection over generated connection lives",
  "Random connections ended by random causes; the order and number of events are compared with the life cycle.")

p("C12", "The pool finds exactly the connection last online under a name",
  "With the built-in pool, a name leads to the context of the connection that last went online under it and has not gone offline or ended since, and to nothing otherwise; an old connection that goes offline or ends does not take down a newer one of the same name. "
  "A message sent to a name is delivered exactly once to that connection and to nobody else, and sending to a name that is not online is an error. A connection may be online under several names, one that has ended can no longer go online, and UDP peers are found in the same way.",
  ["histories", "schedules"], "all histories of online, offline, send and close over connections and names",
  "The tests put two contexts into a pool by hand.",
  ["client-pool.go", "context.go"], [("ClientPool.Online / offlineConn / GetClientPool", "client-pool.go"), ("Context.SendToUsername", "context.go")],
  "stateful model-based test of the pool through the server",
  "Random histories over five connections and five names, compared with a map model after each step.")

p("C13", "Each successful reply arrives once, whole, in order, at the right peer",
  "Every reply call that returns no error delivers exactly one block to the peer it was meant for, with the given id, header and body in the marshaller the method names, and the replies of one handler arrive in the order it made them. "
  "Replies made at the same time, also to one connection and to a slow reader, do not mix or damage each other. "
  "A reply that cannot be marshalled, or whose connection is closed, returns an error and sends nothing.",
  ["inputs", "schedules"], "all reply methods, bodies, headers, overlaps and reader speeds",
  "The tests never read what a server replied.",
  ["context.go", "packx.go"], [("commonReply / replyBuf", "context.go"), ("JSONURLPattern / ProtobufURLPattern", "context.go")],
  "property-based test of concurrent replies against what the clients receive",
  "Random concurrent replies; the blocks each client receives are matched one to one with the calls that succeeded.")

p("C14", "Heartbeats keep a connection alive, and three missed intervals end it",
  "With heartbeats on, a connection that sends a heartbeat at least once per interval is never closed for it, and one that sends none for three whole intervals in a row is closed then, after the loss event has run exactly once with that connection's context. "
  "Messages other than the configured heartbeat do not count as one, each connection counts for itself, rewriting the heartbeat handler moves it to the new id and keeps the rest, and with heartbeats off no connection is closed for want of them.",
  ["schedules", "histories", "configurations"], "all timings of heartbeats and other messages, all heartbeat settings",
  "Real-time tests cannot sample timings at all: an interval is seconds.",
  ["tcpx.go", "context.go"], [("heartBeatWatch", "tcpx.go"), ("RecvHeartBeat / HeartBeatChan", "context.go"), ("HeartBeatModeDetail / RewriteHeartBeatHandler", "tcpx.go")],
  "timed stateful test in virtual time against a timer model",
  "Random timed histories in virtual time; the moment of each closing and loss event is compared with a timer model.")

p("C15", "A connection that is not authenticated in time is closed, others are left alone",
  "With authentication on, a connection whose handler has not passed it by the deadline, or which is denied before it is passed, is closed then and not before; one passed in time stays open, whatever is signalled later and however often. "
  "Each connection is judged by its own messages, and with authentication off none is closed for it.",
  ["schedules", "histories", "configurations"], "all timings and orders of pass and deny signals over several connections",
  "No test drives the deadline.",
  ["tcpx.go", "context.go"], [("authWatch", "tcpx.go"), ("RecvAuthPass / RecvAuthDeny", "context.go")],
  "timed stateful test in virtual time against a timer model",
  "Random timed histories in virtual time, compared with a model of the deadline.")

p("C16", "Stop and Start do what they say to listeners, connections and state",
  "Stop closes every listener of the server, of every network, and makes the serving calls return without error; Stop(false) leaves living connections and their pool entries working, Stop(true) closes them (all of them with broadcast signals on, also one whose OnConnect is still running, else those in the pool) and empties the pool. "
  "Start serves again on every former address in the same way as before, new connections are served as before and are not hit by an earlier Stop(true), and Restart runs its functions in between, in order. "
  "State tells which it is, and stopping a stopped or starting a running server is an error without effect; of several Stop calls at once exactly one succeeds.",
  ["histories", "configurations"], "all sequences of stop, start and restart over several listeners and connections",
  "One test stops a server once and starts it once.",
  ["tcpx.go", "client-pool.go"], [("Stop / closeAllConnection / Start / Restart / fillProperty", "tcpx.go"), ("broadcastSignalWatch", "tcpx.go")],
  "stateful model-based test over generated stop and start histories",
  "Random histories over up to three listeners of eight kinds; everything observable is checked after each step.")

p("C17", "A UDP server answers each whole datagram on its own, and keeps serving",
  "Every datagram that carries a whole message no larger than the buffer is handled exactly once through the same middlewares and routes as over TCP, however long other datagrams' handlers take, sees its own bytes only, and each reply is one datagram to its sender. "
  "Cut, empty, oversized or malformed datagrams, handler panics, transient read errors, heartbeat messages and any passing of time neither reach a handler nor stop the server, and datagrams share no state.",
  ["inputs", "histories", "fault_sequences"], "all datagram sequences from several peers, with faults and overlap",
  "The tests send one datagram on the loopback.",
  ["tcpx.go", "context.go"], [("ListenAndServeUDP / ReadAllUDP", "tcpx.go"), ("NewUDPContext", "context.go")],
  "stateful property test with injected socket faults against a datagram model",
  "Random datagrams from four peers with transient read errors and parked handlers, compared with a model.")

p("C18", "A raw server gives each connection's bytes to its own handler untouched",
  "A raw server runs the global middlewares, then the used ones, then the raw handler, once per connection, and stops there if one aborts; the handler reads exactly the bytes the client sent, in order, and the client receives exactly the bytes it wrote, whatever they are and whether it uses ConnReader and ConnWriter or Conn itself. "
  "The connection is closed when the chain ends, is aborted or panics, and not before; connections do not affect each other.",
  ["inputs", "schedules"], "all byte streams, cuts, middleware chains and endings over several connections",
  "One test opens a raw server and reads one line.",
  ["tcpx.go", "context.go"], [("ListenAndServeRaw / handleRaw", "tcpx.go"), ("InitReaderAndWriter", "context.go")],
  "property-based test of byte transparency and chain traces",
  "Random byte chunks over several raw connections, compared byte for byte in both directions.")

p("C19", "Conflicting registrations are refused at once, legal ones never",
  "A second handler for a message id (through AddHandler, heartbeat or authentication set-up), a handler list that is empty, a Use with an odd number of arguments or a wrong type, a Use of a key already in use and an UnUse of a key not in use each panic at the call; a refused AddHandler leaves the route it conflicts with as it was. "
  "A mux that is locked takes no more routes, and a url mux told to panic on a pattern it has does so. "
  "No sequence of calls without such a conflict panics, then or when the server starts.",
  ["programs"], "all sequences of registration calls",
  "A few fixed duplicates are tested.",
  ["tcpx.go", "mux.go", "anchor.go"], [("AddHandleFunc", "mux.go"), ("callUse / callUnUse", "anchor.go"), ("Use argument checks", "tcpx.go")],
  "stateful test of generated registration sequences against a conflict model",
  "Random registration calls up to the first illegal one; panics are compared with a model of what conflicts.")

p("C20", "A server speaks its own marshaller: Bind and Reply agree with the client",
  "A server created with any of the built-in marshallers, one of the user's own, or none (JSON), binds a body a client encoded with it to an equal value and replies in the same encoding, over TCP and UDP, by message id and by url. "
  "Binding with another marshaller given by the caller uses that one, a body it cannot decode gives an error and not a value, and every built-in marshaller is found under its own name and no other.",
  ["inputs", "configurations"], "all bodies and marshallers, valid and invalid",
  "marshaller_test.go encodes one struct with each marshaller, without a server.",
  ["marshaller.go", "context.go", "packx.go", "tcpx.go"], [("GetMarshallerByMarshalName", "marshaller.go"), ("Context.Bind / BindWithMarshaller", "context.go")],
  "property-based end-to-end round-trip per marshaller",
  "Random bodies through servers with each marshaller, compared with the value sent.")

p("C21", "The Python client and the Go library understand each other's blocks",
  "What the repository's Python client packs, for every id from 0 to 2^31-1, JSON header and JSON or protobuf body, is one block which the Go library and the documented layout read back as the same id, header and body. "
  "What the Go library packs, with a body, the Python client unpacks to the same id, header bytes and body, also when more bytes follow the block.",
  ["inputs"], "all non-negative ids, headers and bodies, in both directions",
  "test.py needs a server at a fixed address and is not run.",
  ["all-language-clients/python/protocol.py", "packx.go"], [("TCPXProtocol.pack / unpack", "all-language-clients/python/protocol.py")],
  "differential property test between the two implementations and a reference codec",
  "Random messages packed by one side and unpacked by the other; the protobuf message is a stand-in with the two methods the client uses.")

p("C22", "Deadlines close a connection or fail a write when due, and not otherwise",
  "A read deadline, set on the server or on a connection's context, ends an idle connection (over UDP, the serving call) at that moment and not before; a write deadline makes later replies fail with an error and send nothing, and leaves earlier ones alone. "
  "Setting the common deadline sets both, on the server a read or write deadline of its own takes precedence over it, on a connection the last call for each direction counts, also for clearing it.",
  ["histories", "configurations"], "all orders and times of setting and clearing deadlines",
  "No test sets a deadline and waits for it.",
  ["tcpx.go", "context.go"], [("setDeadlines", "tcpx.go"), ("Context.SetDeadline / SetReadDeadline / SetWriteDeadline", "context.go")],
  "timed stateful test in virtual time against a deadline model",
  "Random deadline settings and requests in virtual time, compared with a model of both deadlines.")

p("C23", "Ended connections and stopped servers leave no goroutines or sockets behind",
  "As soon as every connection has ended and its handlers have returned, for whatever reason it ended, the library runs no more goroutines than before they connected and holds none of their sockets open. "
  "Once a server has been stopped as well, it runs none at all, also after several rounds and after a restart.",
  ["histories", "fault_sequences", "schedules"], "all lives of connections under all settings",
  "No test looks at goroutines.",
  ["tcpx.go", "context.go"], [("recvEnd closing the watchers", "tcpx.go"), ("CloseConn", "context.go"), ("non-blocking signals", "context.go")],
  "stateful fault injection with a goroutine and socket census",
  "Random connection lives; the goroutines with frames of the library are counted before, after and at the stop.")

p("C24", "With TLS configured everything is served as before, and only inside TLS",
  "With TLS set up, from files or by configuration, clients of ListenAndServe and ListenAndServeTCP that complete the handshake get the same message handling, replies and life of their connection as over plain TCP, for every way their messages are cut into TLS records, and no message content appears on the wire in the clear. "
  "A client that speaks plain TCP is never served and does not disturb the others, also after a restart, and certificate files that cannot be loaded are an error and leave the settings in force.",
  ["inputs", "configurations", "histories"], "all requests, record cuts, intruders and restarts",
  "The TLS test needs certificate files and checks one exchange.",
  ["tcpx.go", "tls.go"], [("newListener", "tls.go"), ("LoadTLSFile", "tcpx.go")],
  "property-based end-to-end test over TLS with wire inspection",
  "Random requests from real TLS clients on the virtual network; handling, replies and the wire bytes are checked.")

p("C25", "No data races in the library, whatever is used at the same time",
  "Messages, replies, connection values, online and offline, the pool, heartbeats, authentication, closing, contexts kept and used after their handler, further listeners, Stop, Start and State can be used at the same time, by handlers and by other goroutines of the application, without a data race in the library.",
  ["schedules", "programs"], "all concurrent uses of the documented calls",
  "The tests are not run under the race detector and do nothing concurrently.",
  ["tcpx.go", "context.go", "client-pool.go", "mux.go"], [("ClientPool.m", "client-pool.go"), ("Context.L and copyContext", "context.go"), ("TcpX.pLock", "tcpx.go")],
  "concurrent program generation under the Go race detector",
  "Random concurrent programs over the public calls, and other properties' cases, with the race detector as the oracle.")

p("C26", "A context names its own peer: address and network",
  "In OnConnect and in every handler, ClientIP is the address of the client that sent the message, IPv4 or IPv6 (the IPv6 loopback being reported as 127.0.0.1), and the network is tcp or udp as it was served, for every client of many.",
  ["inputs"], "all client addresses, over TCP and UDP",
  "Loopback tests only ever see 127.0.0.1.",
  ["context.go"], [("ClientIP / Network / ConnectionProtocolType", "context.go")],
  "property-based test over generated peer addresses",
  "Random IPv4 and IPv6 peers on the virtual network.")

p("C27", "The client helpers deliver what they are given, once, and read replies whole",
  "A message sent with WriteJSON, with TCPCallOnceJSON (on a connection of its own, closed afterwards) or in a PipeJSON pipe reaches the server's handler exactly once with its id and body, a pipe's in order and handed to the connection in a single write, and Recv returns exactly the next block the server replied. "
  "PipeJSON called with arguments that are not pairs of an int id, within 32 bits, and an encodable value returns an error and sends nothing, as does TCPCallOnceJSON, and connecting to nobody is an error.",
  ["inputs", "histories"], "all sequences of helper calls and message contents",
  "The tests call each helper once against a real server, if one is running.",
  ["utils.go"], [("WriteJSON / PipeJSON / TCPCallOnceJSON / Recv / TCPConnect", "utils.go")],
  "stateful end-to-end test of generated helper calls",
  "Random helper calls against the real server on the virtual network.")

p("C28", "WriteConn writes the whole buffer exactly once, however short the writes",
  "WriteConn returns nil only after every byte of the buffer has been written exactly once and in order, however many bytes each write of the connection accepts. "
  "If a write fails it stops, returns an error (io.EOF as it is), and what was written is a beginning of the buffer.",
  ["inputs", "fault_sequences"], "all buffers, short-write sequences and failing writes",
  "No test has a connection that writes short.",
  ["utils.go"], [("WriteConn", "utils.go")],
  "property-based test with injected short writes and errors",
  "Random buffers, short-write plans and failing writes on a scripted connection.")

p("C29", "BeforeExit runs its functions once, in order, before the process ends",
  "After BeforeExit has returned, the first interrupt, terminate or quit signal, at whatever moment it comes, makes the process run the given functions exactly once, in order and to their end, and then exit with status 0. Functions of several calls, also of several servers, all run. "
  "Further signals while they run change nothing.",
  ["schedules", "inputs"], "all signals and moments, all numbers of functions",
  "A signal would end the test process.",
  ["tcpx.go"], [("BeforeExit", "tcpx.go")],
  "generated signal schedules against child processes",
  "Random signals and function lists in child processes that signal themselves.")

p("C30", "What cannot be served is reported as an error and leaves the rest working",
  "Serving on an address that is in use, on a network that is not supported or with an unusable TLS configuration returns an error, without a panic and without listening there. "
  "What the server already serves goes on being served as before, can be stopped and started again, and new addresses can be served afterwards; one address that is taken when the server is started again keeps only that one from being served. A listener on which accepting fails for good ends its own call only, and its address can be served again.",
  ["histories", "fault_sequences"], "all sequences of serving, failing to serve, stopping and starting, for every kind of listener",
  "No test serves on an address that is taken.",
  ["tcpx.go"], [("ListenAndServe / ListenAndServeTCP / ListenAndServeUDP / ListenAndServeRaw", "tcpx.go"), ("fillProperty / Start", "tcpx.go")],
  "stateful test with injected listen failures",
  "Random histories of serving on free and taken addresses on the virtual network; every working listener is asked after each step.")

p("C31", "The small helpers do what their names say: In, Defer, CloseChanel, MD5, Debug",
  "In reports whether any of the patterns equals the string, a % at the beginning or end of a pattern standing for any text, for every string and list and without changing the list. "
  "Defer and CloseChanel run their function once and let no panic out, Defer handing what was thrown to each of its handlers in order and calling none otherwise; MD5 is the upper-case hexadecimal digest, Debug is JSON that decodes to the value, BindJSON decodes as encoding/json does, and NewRequest keeps its url, body and the header entries set on it.",
  ["inputs"], "all strings, pattern lists, panics and values",
  "utils_test.go prints a few results.",
  ["utils.go", "request.go"], [("In", "utils.go"), ("Defer / CloseChanel", "utils.go")],
  "property-based test against reference definitions",
  "Random arguments compared with independent definitions.")

p("C32", "The log is printed in debug mode and silent in release mode",
  "A line logged through tcpx.Logger, or through a Log of one's own, is printed once in debug mode and not at all in release mode, whatever the order of mode changes, each logger by its own mode. "
  "While it serves in release mode, a server prints nothing, whatever its clients send and however their connections end.",
  ["histories", "configurations"], "all sequences of mode changes and prints, all client behaviours",
  "The tests do not look at what is printed.",
  ["log.go", "tcpx.go"], [("Log.Println / SetLogMode", "log.go"), ("log calls of the serving loops", "tcpx.go")],
  "stateful property test with captured output",
  "Random mode changes and prints, and servers under drawn client behaviours, with everything printed captured.")

p("C33", "A pool of one's own and contexts made by hand work as the built-in ones do",
  "A ClientPool finds under each name exactly the context last put there (Online, SetClientPool) and not removed since (Offline, DeleteFromClientPool), or nothing, of which IsOnline is false, independently of every other pool, and a message sent to that context, with SendToConn or by itself, reaches that connection and no other. "
  "SetUsername, Username and the connection values of a context hold what was last set; keys that begin with tcpx- are refused; and Online, Offline and SendToUsername return an error where there is no built-in pool. "
  "A context made with NewContext, NewTCPContext or NewUDPContext for a connection of one's own sends, reports its state, keeps a heartbeat or authentication signal for whoever waits for it without blocking, forgets its request values with Reset, and closes the connection once.",
  ["histories"], "all histories of logins, logouts, sends, closes and hand-made contexts over several connections",
  "The tests have one client and never look a context up.",
  ["client-pool.go", "context.go"], [("ClientPool.Online / Offline / GetClientPool", "client-pool.go"), ("SendToConn / Username / SetCtxPerConn", "context.go")],
  "model-based test over generated histories",
  "Random histories over several connections and names, the pool and every delivery compared with a model.")

EXTRA = os.path.join(V, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        "hook_needed": None},
        }) + "\n")

NOTE = " Exploration, not proof: it shows the property on the cases of this run. Trusted: the in-memory network and clock (harness/vnet, testing/synctest), the oracle, and the Go runtime's scheduling as the source of interleavings."
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup quick",
    "hooks": {"guard": "none: /repo carries no hooks; the harness overlays net/dial.go of the standard library at build time (go build -overlay)",
              "enable": "check.py builds harness/props with -overlay", "source_commits": []},
    "checks": [{
        "property": x["id"],
        "quick_cmd": "python3 check.py %s quick" % x["id"],
        "thorough_cmd": "python3 check.py %s thorough" % x["id"],
        "evidence_file": "evidence/%s.json" % x["id"],
        "technique": x["tech"], "level": "exploration", "level_note": x["note"] + NOTE,
    } for x in P],
    "not_applicable": [],
    "notes": "check.py <ID> replay FILE re-runs a replay file. VERIF_SEED seeds every random choice.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
