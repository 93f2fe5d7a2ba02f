package props

import (
	"encoding/xml"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- C13 replies

type replyOp struct {
	Method string         `json:"method"`
	M      string         `json:"m"` // marshaller of ReplyWithMarshaller
	ID     int32          `json:"id"`
	Body   Payload        `json:"body"`
	Header map[string]any `json:"header"`
	Bad    bool           `json:"bad"` // a value the marshaller cannot take
	H2     map[string]any `json:"h2"`  // a second header
	Pad    int            `json:"pad,omitempty"`
}

type replyCase struct {
	Marsh   string      `json:"marsh"`
	UDP     bool        `json:"udp"`
	Cap     int         `json:"cap"`
	DelayUS int         `json:"delay_us"`
	Tasks   [][]replyOp `json:"tasks"` // each runs in its own handler
	Conn    []int       `json:"conn"`  // the connection each task's request comes from
	URL     []bool      `json:"url"`
	Chunk   int         `json:"chunk"` // how the client reads when the connection is slow
	Unix    bool        `json:"unix,omitempty"`
	Stall   int         `json:"stall,omitempty"`  // seconds until a slow client begins to read
	Pause   int         `json:"pause,omitempty"`  // seconds a handler takes before each reply
	Detach  bool        `json:"detach,omitempty"` // replies are made by a goroutine of a handler that has returned
	After   bool        `json:"after"`            // one more reply after the connection was closed
}

var replyMethods = []string{"Reply", "Reply", "JSON", "JSON", "XML", "TOML", "YAML", "ProtoBuf", "ReplyWithMarshaller", "JSONURLPattern", "ProtobufURLPattern", "SendToConn"}

func genReplyCase(t *rapid.T) replyCase {
	c := replyCase{
		Marsh:   rapid.SampledFrom([]string{"json", "json", "xml", "toml", "yaml", "protobuf", "mirror", ""}).Draw(t, "marsh"),
		UDP:     rapid.IntRange(0, 3).Draw(t, "udp") == 0,
		Cap:     rapid.SampledFrom([]int{0, 0, 0, 1, 7, 50, 300}).Draw(t, "cap"),
		DelayUS: rapid.SampledFrom([]int{0, 1, 20}).Draw(t, "delay"),
		Chunk:   rapid.SampledFrom([]int{1, 5, 64, 1000}).Draw(t, "chunk"),
		After:   rapid.Bool().Draw(t, "after"),
		Unix:    genUnix(t),
	}
	big := rapid.IntRange(0, 3).Draw(t, "large") == 0
	if big && c.Cap > 0 {
		c.Cap, c.Chunk = rapid.SampledFrom([]int{1000, 4096, 70000}).Draw(t, "cap"), 4096
	}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		var ops []replyOp
		k := rapid.IntRange(1, 5).Draw(t, "k")
		for j := 0; j < k; j++ {
			max := 20
			if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
				max = 2000
			}
			o := replyOp{
				Method: rapid.SampledFrom(replyMethods).Draw(t, "method"),
				M:      rapid.SampledFrom(append([]string{"mirror", "liar"}, marshNames...)).Draw(t, "m"),
				ID:     genID(t, "id"),
				Body:   genPayload(t, max),
				Bad:    rapid.IntRange(0, 6).Draw(t, "bad") == 0,
			}
			if rapid.Bool().Draw(t, "hashead") {
				o.Header = genHeader(t)
				if rapid.IntRange(0, 2).Draw(t, "two") == 0 {
					o.H2 = genHeader(t)
				}
				if rapid.IntRange(0, 39).Draw(t, "manykeys") == 0 {
					for x := rapid.IntRange(5, 70).Draw(t, "keys"); x > 0; x-- {
						o.Header[fmt.Sprintf("key-%d", x)] = x
					}
				}
			}
			if big && rapid.Bool().Draw(t, "padded") {
				o.Pad = genSize(t)
				if c.UDP && o.Pad > 20000 {
					o.Pad = 20000
				}
				if slow := o.Method + o.M + c.Marsh; o.Pad > 200000 && strings.Contains(strings.ToLower(slow), "ml") {
					o.Pad = 200000
				}
			}
			ops = append(ops, o)
		}
		c.Tasks = append(c.Tasks, ops)
		c.Conn = append(c.Conn, rapid.IntRange(0, 1).Draw(t, "conn"))
		c.URL = append(c.URL, rapid.Bool().Draw(t, "url"))
	}
	c.Pause = genPace(t)
	c.Detach = rapid.IntRange(0, 3).Draw(t, "detach") == 2
	if rapid.IntRange(0, 14).Draw(t, "stalled") == 7 && !c.UDP {
		// one writer only: another might wait for it at a lock, which is not idle time
		c.Stall = rapid.SampledFrom([]int{1, 20, 100, 1000, 10000, 100000}).Draw(t, "stall")
		c.Cap = rapid.SampledFrom([]int{1, 7, 50, 300}).Draw(t, "cap")
		c.Tasks, c.Conn, c.URL = c.Tasks[:1], c.Conn[:1], c.URL[:1]
		for i := range c.Tasks[0] {
			if c.Tasks[0][i].Method == "SendToConn" {
				c.Tasks[0][i].Method = "Reply"
			}
			if c.Tasks[0][i].Pad > 5000 {
				c.Tasks[0][i].Pad = 5000
			}
		}
	}
	return c
}

// wantReply is one message a client must receive.
type wantReply struct {
	id     int32
	header map[string]any
	m      string
	body   Payload
	task   int
	seq    int
}

func (w wantReply) matches(f wire.Frame) error {
	if f.ID != w.id {
		return fmt.Errorf("id %d, want %d", f.ID, w.id)
	}
	if err := headerIs(f.Header, w.header); err != nil {
		return err
	}
	return bodyCarries(w.m, f.Body, w.body)
}

func runReplyCase(e *Env, c replyCase) {
	e.Bubble(func(h *H) {
		h.unix = c.Unix
		var srv *tcpx.TcpX
		smarsh := c.Marsh
		if c.Marsh == "" {
			srv = tcpx.NewTcpX(nil)
			smarsh = "json"
		} else {
			srv = tcpx.NewTcpX(marshOf(c.Marsh))
		}
		// every body carries a distinct mark, so that a reply cannot stand in for another
		mark := func(ti, oi int, p Payload) Payload {
			p.S = fmt.Sprintf("%d.%d:%s", ti, oi, p.S)
			if n := c.Tasks[ti][oi].Pad; n > 0 {
				p.S += string(padding(n + ti*5 + oi)[ti*5+oi:])
			}
			return p
		}
		want := [2][]wantReply{}
		var mu sync.Mutex
		base := map[int]*tcpx.Context{}
		done := make([]bool, len(c.Tasks))
		bads, goods := 0, 0
		srv.OnConnect = func(ctx *tcpx.Context) { mu.Lock(); base[connIndex(ctx)] = ctx; mu.Unlock() }
		task := func(ctx *tcpx.Context, ti int, url bool) {
			for oi, o := range c.Tasks[ti] {
				time.Sleep(time.Duration(c.Pause) * time.Second)
				p := mark(ti, oi, o.Body)
				m := smarsh
				to := c.Conn[ti]
				id := o.ID
				header := o.Header
				// the value and the marshaller this method will use
				switch o.Method {
				case "JSON", "JSONURLPattern":
					m = "json"
				case "XML":
					m = "xml"
				case "TOML":
					m = "toml"
				case "YAML":
					m = "yaml"
				case "ProtoBuf", "ProtobufURLPattern":
					m = "protobuf"
				case "ReplyWithMarshaller":
					m = o.M
				}
				v := value(m, p)
				bad := o.Bad && m != "yaml" // yaml panics on what it cannot take
				if bad {
					switch m {
					case "json", "xml":
						v = make(chan int)
					case "toml":
						v = "not a table"
					default:
						v = struct{ X int }{1}
					}
				}
				var err error
				var hs []map[string]any
				if o.Header != nil {
					hs = []map[string]any{clone(o.Header)}
					if o.H2 != nil {
						hs = append(hs, clone(o.H2))
						header = clone(o.Header)
						for k, v := range o.H2 {
							header[k] = v
						}
					}
				}
				switch o.Method {
				case "Reply":
					err = ctx.Reply(id, v, hs...)
				case "JSON":
					err = ctx.JSON(id, v, hs...)
				case "XML":
					err = ctx.XML(id, v, hs...)
				case "TOML":
					err = ctx.TOML(id, v, hs...)
				case "YAML":
					err = ctx.YAML(id, v, hs...)
				case "ProtoBuf":
					err = ctx.ProtoBuf(id, v, hs...)
				case "ReplyWithMarshaller":
					err = ctx.ReplyWithMarshaller(marshOf(o.M), id, v, hs...)
				case "SendToConn":
					if c.UDP {
						continue
					}
					to = 1 - to
					mu.Lock()
					other := base[to]
					mu.Unlock()
					if other == nil {
						continue
					}
					err = ctx.SendToConn(other, id, v, hs...)
				case "JSONURLPattern", "ProtobufURLPattern":
					if o.Method == "JSONURLPattern" {
						err = ctx.JSONURLPattern(v)
					} else {
						err = ctx.ProtobufURLPattern(v)
					}
					if !url {
						// a message that was not routed by url has no pattern to answer with
						if err == nil {
							id, header = 0, nil
							mu.Lock()
							want[to] = append(want[to], wantReply{id: -12345, task: ti, seq: oi})
							mu.Unlock()
						}
						continue
					}
					id = 0
					header = map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/r/"}
				}
				mu.Lock()
				if bad {
					bads++
					if err == nil {
						h.Fail("silent", "task %d.%d: %s of a value %s cannot marshal returned no error", ti, oi, o.Method, m)
					}
				} else if err != nil {
					h.Fail("refused", "task %d.%d: %s on an open connection returned %v", ti, oi, o.Method, err)
				} else {
					goods++
					want[to] = append(want[to], wantReply{id, header, m, p, ti, oi})
				}
				mu.Unlock()
			}
			mu.Lock()
			done[ti] = true
			mu.Unlock()
		}
		run := func(ctx *tcpx.Context, ti int, url bool) {
			if c.Detach {
				go task(ctx, ti, url)
				return
			}
			task(ctx, ti, url)
		}
		const probe = 1000
		probed := 0
		// every way of replying, on a connection that was closed meanwhile
		late := func(ctx *tcpx.Context, url bool) {
			h.Gate("probe")
			p := Payload{S: "late"}
			errs := map[string]error{
				"Reply":               ctx.Reply(5, value(smarsh, p)),
				"JSON":                ctx.JSON(5, value("json", p)),
				"XML":                 ctx.XML(5, value("xml", p)),
				"TOML":                ctx.TOML(5, value("toml", p)),
				"YAML":                ctx.YAML(5, value("yaml", p)),
				"ProtoBuf":            ctx.ProtoBuf(5, value("protobuf", p)),
				"ReplyWithMarshaller": ctx.ReplyWithMarshaller(tcpx.YamlMarshaller{}, 5, value("yaml", p)),
				"SendToConn":          ctx.SendToConn(ctx, 5, value(smarsh, p)),
			}
			if url {
				errs["JSONURLPattern"] = ctx.JSONURLPattern(value("json", p))
				errs["ProtobufURLPattern"] = ctx.ProtobufURLPattern(value("protobuf", p))
			}
			mu.Lock()
			defer mu.Unlock()
			probed++
			for m, err := range errs {
				if err == nil {
					h.Fail("silent", "%s on a closed connection returned no error", m)
				}
			}
		}
		srv.AddHandler(1, func(ctx *tcpx.Context) {
			b, _ := ctx.RawStream()
			var ti int
			fmt.Sscan(string(b), &ti)
			if ti == probe {
				late(ctx, false)
				return
			}
			run(ctx, ti, false)
		})
		srv.Any("/r/", func(ctx *tcpx.Context) {
			b, _ := ctx.RawStream()
			var ti int
			fmt.Sscan(string(b), &ti)
			if ti == probe {
				late(ctx, true)
				return
			}
			run(ctx, ti, true)
		})
		network := "tcp"
		if c.UDP {
			network = "udp"
		}
		h.Serve(srv, network, addr)
		var cls [2]*Client
		var readMu sync.Mutex
		var read [2][]byte
		send := func(i int, b []byte) {
			if c.UDP {
				h.Net.Send("udp", addr, vnet.Datagram{Data: b, Addr: udpAddr(i)})
			} else {
				cls[i].Send(b)
			}
		}
		if !c.UDP {
			for i := range cls {
				cls[i] = h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(i), Capacity: c.Cap, WriteDelay: time.Duration(c.DelayUS) * time.Microsecond})
				if cls[i] == nil {
					h.Fail("refused", "connection refused")
					return
				}
			}
			if c.Cap > 0 { // a slow client reads a little at a time
				for i := range cls {
					go func() {
						buf := make([]byte, c.Chunk)
						time.Sleep(time.Duration(c.Stall) * time.Second)
						for {
							n, err := cls[i].Conn.Read(buf)
							readMu.Lock()
							read[i] = append(read[i], buf[:n]...)
							readMu.Unlock()
							if err != nil {
								return
							}
							for k := 0; k < c.Chunk%7; k++ {
								runtime.Gosched()
							}
						}
					}()
				}
			}
			h.Settle()
		}
		for ti := range c.Tasks {
			b := []byte(fmt.Sprint(ti))
			if c.URL[ti] {
				send(c.Conn[ti], urlFrame("/r/", b))
			} else {
				send(c.Conn[ti], msgFrame(1, b))
			}
		}
		h.Settle()
		time.Sleep(time.Duration(c.Stall+6*c.Pause) * time.Second)
		var frames [2][]wire.Frame
		if c.UDP {
			h.Settle()
			for _, d := range h.Net.Packet("udp", addr).Sent() {
				f, err := wire.Parse(d.Data)
				if err != nil {
					h.Fail("garbled", "a datagram is not one block: %v (%s)", err, hexs(d.Data))
					return
				}
				i := addrIndex(d.Addr.String())
				if i < 0 || i > 1 {
					h.Fail("misdelivered", "a reply went to %v", d.Addr)
					return
				}
				frames[i] = append(frames[i], f)
			}
		} else {
			h.Settle()
			for i := range cls {
				readMu.Lock()
				cls[i].got = append(read[i], cls[i].got...)
				readMu.Unlock()
				fs, err := cls[i].Frames()
				if err != nil {
					h.Fail("garbled", "client %d received bytes that are not whole blocks: %v (%d blocks, %s)", i, err, len(fs), hexs(cls[i].got))
					return
				}
				frames[i] = fs
				if cls[i].Closed() {
					h.Fail("closed", "the server closed connection %d", i)
				}
			}
		}
		mu.Lock()
		for ti, d := range done {
			if !d {
				h.Fail("stuck", "task %d never finished", ti)
			}
		}
		for i := range frames {
			w := append([]wantReply(nil), want[i]...)
			lastSeq := map[int]int{}
			loose := 0
			for _, x := range w {
				if x.id == -12345 {
					loose++
				}
			}
			if loose > 0 {
				continue // answering by url to a message without one is not specified
			}
			if len(frames[i]) != len(w) {
				h.Fail("count", "client %d received %d messages for %d successful replies", i, len(frames[i]), len(w))
			}
			for _, f := range frames[i] {
				hit := -1
				var why error
				for k, x := range w {
					if err := x.matches(f); err == nil {
						hit = k
						break
					} else {
						why = err
					}
				}
				if hit < 0 {
					h.Fail("wrong", "client %d received a message nobody replied: id %d header %s body %s (last mismatch: %v)", i, f.ID, f.Header, hexs(f.Body), why)
					break
				}
				if l, ok := lastSeq[w[hit].task]; ok && l > w[hit].seq {
					h.Fail("order", "client %d: replies of one handler arrived out of order", i)
				}
				lastSeq[w[hit].task] = w[hit].seq
				w = append(w[:hit], w[hit+1:]...)
			}
		}
		mu.Unlock()
		if c.After && !h.Failed() {
			send(0, msgFrame(1, []byte(fmt.Sprint(probe))))
			send(0, urlFrame("/r/", []byte(fmt.Sprint(probe))))
			h.Settle()
			if c.UDP {
				srv.Stop(false)
			} else {
				mu.Lock()
				b := base[0]
				mu.Unlock()
				b.CloseConn()
			}
			h.Settle()
			h.Open("probe")
			h.Settle()
			mu.Lock()
			if probed != 2 {
				h.Fail("lost", "of 2 handlers that reply on a closed connection %d ran to their end", probed)
			}
			mu.Unlock()
			e.Label("closed")
		}
		if goods >= 2 {
			e.NonTrivial()
		}
		if bads > 0 {
			e.Label("unmarshalable")
		}
	})
}

// ---------------------------------------------------------------- C20 marshallers end to end

type marshCase struct {
	Server string    `json:"server"` // "" is nil
	Bind   string    `json:"bind"`   // plain, with, raw
	With   string    `json:"with"`
	Bodies []Payload `json:"bodies"`
	Wrong  int       `json:"wrong"` // index of a body that is not valid for the marshaller
	UDP    bool      `json:"udp"`
	Name   string    `json:"name"`
	More   bool      `json:"more"` // clients send a field the server's type does not have
	URL    bool      `json:"url"`
	Pad    int       `json:"pad,omitempty"`
	Pipe   bool      `json:"pipe,omitempty"` // sent as one pipe
}

// payloadMore is a Payload of a newer version of the client.
type payloadMore struct {
	XMLName xml.Name `json:"-" toml:"-" yaml:"-" xml:"payload"`
	S       string   `json:"s" xml:"s" toml:"s" yaml:"s"`
	N       int64    `json:"n" xml:"n" toml:"n" yaml:"n"`
	B       bool     `json:"b" xml:"b" toml:"b" yaml:"b"`
	Zz      string   `json:"zz" xml:"zz" toml:"zz" yaml:"zz"`
	L       []string `json:"l" xml:"l" toml:"l" yaml:"l"`
}

var lookupNames = []string{"json", "xml", "toml", "tml", "yaml", "yml", "protobuf", "proto", "JSON", "", "msgpack", "json ", "bson"}

func genMarshCase(t *rapid.T) marshCase {
	c := marshCase{
		Server: rapid.SampledFrom([]string{"", "json", "xml", "toml", "yaml", "protobuf", "mirror", "liar"}).Draw(t, "server"),
		Bind:   rapid.SampledFrom([]string{"plain", "plain", "with", "raw", "packtype"}).Draw(t, "bind"),
		With:   rapid.SampledFrom(append([]string{"mirror", "liar"}, marshNames...)).Draw(t, "with"),
		Wrong:  rapid.IntRange(-2, 3).Draw(t, "wrong"),
		UDP:    rapid.IntRange(0, 3).Draw(t, "udp") == 0,
		Name:   rapid.SampledFrom(lookupNames).Draw(t, "name"),
		More:   rapid.IntRange(0, 3).Draw(t, "more") == 0,
		URL:    rapid.IntRange(0, 2).Draw(t, "url") == 0,
	}
	c.Pipe = rapid.IntRange(0, 4).Draw(t, "pipe") == 0
	if rapid.IntRange(0, 5).Draw(t, "padded") == 0 {
		if c.Pad = genSize(t); c.UDP {
			c.Pad %= 3000
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Bodies = append(c.Bodies, genPayload(t, 30))
	}
	return c
}

func runMarshCase(e *Env, c marshCase) {
	// the names
	wantName := map[string]string{"json": "json", "xml": "xml", "toml": "toml", "tml": "toml", "yaml": "yaml", "yml": "yaml", "protobuf": "protobuf", "proto": "protobuf"}
	m, err := tcpx.GetMarshallerByMarshalName(c.Name)
	if w, ok := wantName[c.Name]; ok {
		if err != nil || m == nil || m.MarshalName() != w {
			e.Fail("name", "marshaller %q: %v %v", c.Name, m, err)
		} else {
			p := c.Bodies[0]
			b, err := m.Marshal(value(w, p))
			if err != nil {
				e.Fail("marshal", "marshaller %q: %v", c.Name, err)
			} else if err := bodyCarries(w, b, p); err != nil {
				e.Fail("marshal", "marshaller %q: %v", c.Name, err)
			} else {
				d := newDest(w)
				if err := m.Unmarshal(b, d); err != nil {
					e.Fail("unmarshal", "marshaller %q: %v", c.Name, err)
				} else if err := destCarries(w, d, p); err != nil {
					e.Fail("unmarshal", "marshaller %q: %v", c.Name, err)
				}
			}
		}
	} else if err == nil {
		e.Fail("name", "an unknown marshaller name %q gave %v and no error", c.Name, m)
	}
	if e.Failed() {
		return
	}
	e.Bubble(func(h *H) {
		var srv *tcpx.TcpX
		name := c.Server
		if c.Server == "" {
			srv = tcpx.NewTcpX(nil)
			name = "json"
		} else {
			srv = tcpx.NewTcpX(marshOf(c.Server))
		}
		useM := name
		switch c.Bind {
		case "with":
			useM = c.With
		case "packtype":
			if name == "mirror" || name == "liar" {
				useM = "json"
			}
		}
		type got struct {
			dest any
			raw  []byte
			err  error
			id   int32
			hdr  map[string]any
		}
		var mu sync.Mutex
		res := map[int32]got{}
		for i := range c.Bodies {
			if c.Pad > 0 && i == 0 {
				c.Bodies[0].S += strings.Repeat("z", c.Pad)
			}
			id := int32(i + 1)
			handle := func(ctx *tcpx.Context) {
				g := got{dest: newDest(useM)}
				var msg tcpx.Message
				switch c.Bind {
				case "plain":
					msg, g.err = ctx.Bind(g.dest)
					g.id, g.hdr = msg.MessageID, msg.Header
				case "with":
					msg, g.err = ctx.BindWithMarshaller(g.dest, marshOf(c.With))
					g.id, g.hdr = msg.MessageID, msg.Header
				case "raw":
					g.raw, g.err = ctx.RawStream()
					g.id = id
				case "packtype":
					pt := tcpx.PackType(ctx.Stream)
					switch useM {
					case "json":
						g.err = pt.BindJSON(g.dest)
					case "xml":
						g.err = pt.BindXML(g.dest)
					case "toml":
						g.err = pt.BindTOML(g.dest)
					case "yaml":
						g.err = pt.BindYAML(g.dest)
					case "protobuf":
						g.err = pt.BindProtobuf(g.dest.(*wrapperspb.StringValue))
					}
					g.id, _ = pt.MessageID()
				}
				if m := ctx.Packx.Marshaller; m == nil || m.MarshalName() != marshOf(name).MarshalName() {
					h.Fail("server", "the context's marshaller is %v, want %s", m, name)
				}
				mu.Lock()
				res[id] = g
				mu.Unlock()
				if err := ctx.Reply(id+100, value(name, c.Bodies[i])); err != nil {
					h.Fail("reply", "Reply: %v", err)
				}
			}
			srv.AddHandler(id, handle)
			srv.Any(fmt.Sprintf("/%d/", id), handle)
		}
		network := "tcp"
		if c.UDP {
			network = "udp"
		}
		h.Serve(srv, network, addr)
		var cl *Client
		if !c.UDP {
			if cl = h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(0)}); cl == nil {
				h.Fail("refused", "connection refused")
				return
			}
		}
		bodies := make([][]byte, len(c.Bodies))
		for i, p := range c.Bodies {
			// the oracle marshals with the format's own library
			val := value(useM, p)
			if q, ok := val.(*Payload); ok && c.More {
				val = &payloadMore{S: q.S, N: q.N, B: q.B, L: q.L, Zz: "new"}
			}
			b, err := marshOf(useM).Marshal(val)
			if err != nil {
				h.Fail("marshal", "%s: %v", useM, err)
				return
			}
			if i == c.Wrong {
				b = append([]byte{0xff, '<', '{', '='}, 0xfe)
			}
			bodies[i] = b
			hd := `{"h":"v"}`
			if c.URL {
				hd = fmt.Sprintf(`{"h":"v","Router-Type":"URL_PATTERN","Router-Pattern-Value":"/%d/"}`, i+1)
			}
			if c.Pipe && i == 0 {
				hd = fmt.Sprintf(`{"[tcpx-buffer-in-serial]":"enable;%d",`, len(c.Bodies)) + hd[1:]
			}
			f := wire.Build(int32(i+1), []byte(hd), b)
			if c.UDP {
				h.Net.Send("udp", addr, vnet.Datagram{Data: f, Addr: udpAddr(0)})
			} else {
				cl.Send(f)
			}
		}
		h.Settle()
		mu.Lock()
		defer mu.Unlock()
		for i, p := range c.Bodies {
			id := int32(i + 1)
			g, ok := res[id]
			if !ok {
				h.Fail("lost", "message %d was not handled", id)
				return
			}
			if c.Bind == "raw" {
				if g.err != nil || string(g.raw) != string(bodies[i]) {
					h.Fail("raw", "RawStream gave %s (%v), want %s", hexs(g.raw), g.err, hexs(bodies[i]))
				}
				continue
			}
			if i == c.Wrong {
				if g.err == nil {
					h.Fail("accepted", "%s bound a body that is not %s", c.Bind, useM)
				}
				e.Label("wrong body")
				continue
			}
			if g.err != nil {
				h.Fail("bind", "%s with %s: %v", c.Bind, useM, g.err)
				continue
			}
			if err := destCarries(useM, g.dest, p); err != nil {
				h.Fail("bind", "%s with %s: %v", c.Bind, useM, err)
			}
			if g.id != id {
				h.Fail("bind", "%s: message id %d, want %d", c.Bind, g.id, id)
			}
			if (c.Bind == "plain" || c.Bind == "with") && g.hdr["h"] != any("v") {
				h.Fail("bind", "%s: header %v", c.Bind, g.hdr)
			}
		}
		// the replies are in the server's own format
		var fs []wire.Frame
		if c.UDP {
			for _, d := range h.Net.Packet("udp", addr).Sent() {
				f, err := wire.Parse(d.Data)
				if err != nil {
					h.Fail("garbled", "%v", err)
					return
				}
				fs = append(fs, f)
			}
		} else if fs, err = cl.Frames(); err != nil {
			h.Fail("garbled", "%v", err)
			return
		}
		if len(fs) != len(c.Bodies) {
			h.Fail("reply", "%d replies, want %d", len(fs), len(c.Bodies))
		}
		for _, f := range fs {
			i := int(f.ID) - 101
			if i < 0 || i >= len(c.Bodies) {
				h.Fail("reply", "reply id %d", f.ID)
				continue
			}
			if err := bodyCarries(name, f.Body, c.Bodies[i]); err != nil {
				h.Fail("reply", "%v", err)
			}
		}
		e.NonTrivial()
		e.Label(name + "/" + c.Bind)
	})
}

func init() {
	reg("C13", "reply", 24000, 240000, "1-4 concurrent handlers on two TCP connections (of drawn capacity, with a slow reader) or UDP peers, each making 1-4 replies through one of 11 methods with drawn ids, headers and bodies, some unmarshalable, and a reply after the close; one case in eight on a unix socket, whose clients all have the same address; non-trivial: at least two replies succeed", genReplyCase, runReplyCase)
	reg("C20", "marsh", 64000, 640000, "a server with one of 7 marshallers, 1-4 bodies bound in 5 ways over TCP (also as a pipe) or UDP, some of them invalid, and a marshaller looked up by name; non-trivial: the server was driven", genMarshCase, runMarshCase)
}
