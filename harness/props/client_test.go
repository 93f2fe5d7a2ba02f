package props

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- C19 registration conflicts

type confOp struct {
	Op   string   `json:"op"`
	ID   int32    `json:"id"`
	N    int      `json:"n"`
	URL  string   `json:"url"`
	Keys []string `json:"keys"`
	At   int      `json:"at"`
}

type confCase struct {
	Ops []confOp `json:"ops"`
}

var confKinds = []string{"add", "add", "add", "add-none", "any", "any-none", "use", "use", "use", "use-odd", "use-key", "use-func", "unuse", "unuse", "unuse", "global", "auth", "beat", "rewrite"}

func genConfCase(t *rapid.T) confCase {
	var c confCase
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, confOp{
			Op:   rapid.SampledFrom(confKinds).Draw(t, "op"),
			ID:   rapid.SampledFrom([]int32{0, 1, 2, 3, -1, 1 << 30, tcpx.DEFAULT_HEARTBEAT_MESSAGEID, tcpx.DEFAULT_AUTH_MESSAGEID}).Draw(t, "id"),
			N:    rapid.IntRange(1, 3).Draw(t, "hn"),
			URL:  rapid.SampledFrom([]string{"/a/", "/b/", "", "/a"}).Draw(t, "url"),
			Keys: rapid.SliceOfN(rapid.SampledFrom([]string{"k", "l", "m", ""}), 1, 3).Draw(t, "keys"),
			At:   rapid.IntRange(0, 2).Draw(t, "at"),
		})
	}
	return c
}

func runConfCase(e *Env, c confCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		f := func(*tcpx.Context) {}
		var mu sync.Mutex
		var ran []int // ops whose functions ran
		at := 0
		fs := func(n int) (l []func(*tcpx.Context)) {
			op := at
			for i := 0; i < n; i++ {
				l = append(l, func(*tcpx.Context) {
					mu.Lock()
					ran = append(ran, op)
					mu.Unlock()
				})
			}
			return
		}
		owner, length := map[int32]int{}, map[int32]int{}
		ids := map[int32]bool{}
		urls := map[string]bool{}
		inUse, known := map[string]bool{}, map[string]bool{}
		auth, beat, rewritten := false, false, false
		beatID := int32(0)
		for i, o := range c.Ops {
			illegal := false
			var do func()
			at = i
			switch o.Op {
			case "add":
				illegal = ids[o.ID]
				do = func() { srv.AddHandler(o.ID, fs(o.N)...) }
				ids[o.ID] = true
				if !illegal {
					owner[o.ID], length[o.ID] = i, o.N
				}
			case "add-none":
				illegal = true
				do = func() { srv.AddHandler(o.ID + 77) }
			case "any":
				if urls[o.URL] {
					continue // what a second Any on one pattern means is not specified
				}
				urls[o.URL] = true
				do = func() { srv.Any(o.URL, fs(o.N)...) }
			case "any-none":
				illegal = true
				do = func() { srv.Any(o.URL + "/none") }
			case "use":
				var args []any
				for _, k := range o.Keys {
					illegal = illegal || inUse[k]
					inUse[k], known[k] = true, true
					args = append(args, k, f)
				}
				do = func() { srv.Use(args...) }
			case "use-odd":
				illegal = true
				args := []any{"fresh", f, "fresh2"}
				if o.At == 0 {
					args = args[:1]
				}
				do = func() { srv.Use(args...) }
			case "use-key":
				illegal = true
				args := []any{"fresh", f, "fresh2", f}
				args[o.At/2*2] = []any{5, nil, f, []byte("k")}[o.N]
				do = func() { srv.Use(args...) }
			case "use-func":
				illegal = true
				args := []any{"fresh", f, "fresh2", f}
				args[o.At/2*2+1] = []any{"f", 5, func() {}, func(tcpx.Context) {}}[o.N]
				do = func() { srv.Use(args...) }
			case "unuse":
				for _, k := range o.Keys {
					illegal = illegal || !inUse[k]
					delete(inUse, k)
				}
				do = func() { srv.UnUse(o.Keys...) }
			case "global":
				do = func() { srv.UseGlobal(fs(o.N)...) }
			case "auth":
				if auth {
					continue
				}
				auth = true
				illegal = ids[o.ID]
				ids[o.ID] = true
				do = func() { srv.WithAuthDetail(true, time.Second, false, o.ID, f) }
			case "beat":
				if beat {
					continue
				}
				beat = true
				beatID = o.ID
				if o.N == 1 {
					beatID = tcpx.DEFAULT_HEARTBEAT_MESSAGEID
				}
				illegal = ids[beatID]
				ids[beatID] = true
				do = func() {
					if o.N == 1 {
						srv.HeartBeatMode(true, time.Minute)
					} else {
						srv.HeartBeatModeDetail(true, time.Minute, o.At == 0, o.ID)
					}
				}
			case "rewrite":
				if !beat || rewritten {
					continue
				}
				rewritten = true
				delete(ids, beatID)
				illegal = ids[o.ID]
				ids[o.ID] = true
				do = func() { srv.RewriteHeartBeatHandler(o.ID, f) }
			}
			p, _ := safely(do)
			if (p != nil) != illegal {
				if illegal {
					h.Fail("accepted", "op %d, %s %+v, conflicts with what was registered but did not panic", i, o.Op, o)
				} else {
					h.Fail("rejected", "op %d, %s %+v, is legal but panicked: %v", i, o.Op, o, p)
				}
				return
			}
			if illegal {
				h.NonTrivial()
				h.Label("illegal " + o.Op)
				// the route it conflicts with is as it was
				own, ok := owner[o.ID]
				if o.Op != "add" || !ok {
					return
				}
				h.Label("still served")
				h.Serve(srv, "tcp", addr)
				cl := h.Dial("tcp", addr, vnet.Opt{})
				if cl == nil {
					return
				}
				cl.Send(msgFrame(o.ID, js("x")))
				h.Settle()
				mu.Lock()
				defer mu.Unlock()
				n := 0
				for _, op := range ran {
					if op == i {
						h.Fail("trace", "op %d, AddHandler(%d), was refused, but its functions run", i, o.ID)
					}
					if op == own {
						n++
					}
				}
				if n != length[o.ID] {
					h.Fail("trace", "after the refused op %d, AddHandler(%d), the former handler and its middlewares ran %d times, want %d", i, o.ID, n, length[o.ID])
				}
				return
			}
		}
		// a legal configuration serves
		h.Serve(srv, "tcp", addr)
		if len(c.Ops) > 3 {
			h.NonTrivial()
			h.Label("legal")
		}
	})
}

// ---------------------------------------------------------------- C21 the python client

const pyDriver = `
import sys, json, importlib.util
spec = importlib.util.spec_from_file_location("protocol", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
class Stub(object):
    def __init__(self, b=None): self.b = b
    def SerializeToString(self): return self.b
    def ParseFromString(self, b): self.b = bytes(b)
for line in sys.stdin:
    r = json.loads(line)
    try:
        p = m.TCPXProtocol(r["serializer"])
        if r["op"] == "pack":
            g = m.TCPXMessage(); g.id = r["id"]; g.header = r["header"]
            g.body = r["body"] if r["serializer"] == "json" else Stub(bytes.fromhex(r["body"]))
            out = {"data": p.pack(g).hex()}
        else:
            s = Stub()
            g = p.unpack(bytes.fromhex(r["data"]), s)
            out = {"id": g.id, "header": bytes(g.header).hex(), "body": g.body if r["serializer"] == "json" else g.body.b.hex()}
    except Exception as e:
        out = {"error": repr(e)}
    sys.stdout.write(json.dumps(out) + "\n"); sys.stdout.flush()
`

type pyProc struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var py *pyProc

func pyCall(req any) (map[string]json.RawMessage, error) {
	if py == nil {
		cmd := exec.Command("python3", "-B", "-c", pyDriver, filepath.Join(os.Getenv("VERIF_REPO"), "all-language-clients/python/protocol.py"))
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		py = &pyProc{in, bufio.NewReaderSize(out, 1<<20)}
	}
	if _, err := py.in.Write(append(js(req), '\n')); err != nil {
		return nil, err
	}
	line, err := py.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var m map[string]json.RawMessage
	return m, json.Unmarshal(line, &m)
}

type pyCase struct {
	Op     string         `json:"op"`
	Proto  bool           `json:"proto"`
	ID     int32          `json:"id"`
	Header map[string]any `json:"header"`
	Body   any            `json:"body"`
	Bytes  []byte         `json:"bytes"`
	Tail   []byte         `json:"tail"`
}

func genPyCase(t *rapid.T) pyCase {
	c := pyCase{
		Op:     rapid.SampledFrom([]string{"pack", "unpack"}).Draw(t, "op"),
		Proto:  rapid.IntRange(0, 3).Draw(t, "proto") == 0,
		ID:     rapid.OneOf(rapid.Int32Range(0, 1<<31-1), rapid.SampledFrom([]int32{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1})).Draw(t, "id"),
		Header: genHeader(t),
		Body:   jsonRound(genJSONValue(t, 2)),
	}
	if c.Proto {
		c.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "bytes")
	}
	if n := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 250, 4000, 33000, 66000, 140000}).Draw(t, "big"); n > 0 {
		if c.Proto {
			c.Bytes = bytes.Repeat(append(c.Bytes, 'x'), n/(len(c.Bytes)+1)+1)
		} else {
			s := genText(30).Draw(t, "unit") + "é"
			c.Body = map[string]any{"b": c.Body, "long": strings.ToValidUTF8(strings.Repeat(s, n/len(s)+1), "?")}
			c.Body = jsonRound(c.Body)
		}
	}
	if n := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 300, 70000}).Draw(t, "bigheader"); n > 0 {
		h := map[string]any{"long": strings.Repeat("h", n)}
		for k, v := range c.Header {
			h[k] = v
		}
		c.Header = h
	}
	if c.Body == nil { // tcpx packs no body as an empty one, which is no JSON
		c.Body = "x"
	}
	if c.Op == "unpack" && rapid.Bool().Draw(t, "tailed") {
		c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "tail")
	}
	return c
}

func runPyCase(e *Env, c pyCase) {
	ser := "json"
	var body any = c.Body
	raw := js(c.Body)
	if c.Proto {
		ser = "protobuf"
		body = hex.EncodeToString(c.Bytes)
		raw = c.Bytes
	}
	harness := func(err error) { panic(fmt.Sprintf("harness: python child: %v", err)) }
	if c.Op == "pack" {
		m, err := pyCall(map[string]any{"op": "pack", "serializer": ser, "id": c.ID, "header": c.Header, "body": body})
		if err != nil {
			harness(err)
		}
		if m["error"] != nil {
			e.Fail("raised", "pack raised %s", m["error"])
			return
		}
		var s string
		json.Unmarshal(m["data"], &s)
		data, _ := hex.DecodeString(s)
		f, err := wire.Parse(data)
		if err != nil {
			e.Fail("block", "python packed %s: %v", hexs(data), err)
			return
		}
		if f.ID != c.ID {
			e.Fail("id", "python packed id %d as %d", c.ID, f.ID)
		}
		want := c.Header
		if err := headerIs(f.Header, want); err != nil && !(len(want) == 0 && canonHeader(f.Header) == canonHeader(js(want))) {
			e.Fail("header", "python packed header %s: %v", f.Header, err)
		}
		if c.Proto {
			if !bytes.Equal(f.Body, c.Bytes) {
				e.Fail("body", "python packed body %s, want %s", hexs(f.Body), hexs(c.Bytes))
			}
		} else {
			var got any
			if err := json.Unmarshal(f.Body, &got); err != nil || !reflect.DeepEqual(got, jsonRound(c.Body)) {
				e.Fail("body", "python packed body %s, want %s (%v)", trunc(string(f.Body), 200), trunc(string(raw), 200), err)
			}
		}
		// and the server side reads it
		blk, err := tcpx.FirstBlockOf(bytes.NewReader(append(append([]byte(nil), data...), 1, 2, 3)))
		if err != nil || !bytes.Equal(blk, data) {
			e.Fail("server", "the server reads %s out of %s: %v", hexs(blk), hexs(data), err)
			return
		}
		if id, err := tcpx.MessageIDOf(blk); err != nil || id != c.ID {
			e.Fail("server", "the server sees id %d, want %d (%v)", id, c.ID, err)
		}
		if b, err := tcpx.BodyBytesOf(blk); err != nil || !bytes.Equal(b, f.Body) {
			e.Fail("server", "the server sees body %s (%v)", hexs(b), err)
		}
	} else {
		var data []byte
		var err error
		var hdr map[string]any = c.Header
		if c.Proto {
			data, err = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: c.ID, Header: hdr}, c.Bytes)
		} else {
			data, err = tcpx.PackWithMarshaller(tcpx.Message{MessageID: c.ID, Header: hdr, Body: c.Body}, tcpx.JsonMarshaller{})
		}
		if err != nil {
			e.Fail("pack", "tcpx: %v", err)
			return
		}
		m, err := pyCall(map[string]any{"op": "unpack", "serializer": ser, "data": hex.EncodeToString(append(data, c.Tail...))})
		if err != nil {
			harness(err)
		}
		if m["error"] != nil {
			e.Fail("raised", "unpack of %s raised %s", hexs(data), m["error"])
			return
		}
		var id int64
		json.Unmarshal(m["id"], &id)
		if id != int64(c.ID) {
			e.Fail("id", "python sees id %d, want %d", id, c.ID)
		}
		var s string
		json.Unmarshal(m["header"], &s)
		hb, _ := hex.DecodeString(s)
		if err := headerIs(hb, hdr); err != nil && !(len(hdr) == 0 && canonHeader(hb) == canonHeader(js(hdr))) {
			e.Fail("header", "python sees header %q: %v", hb, err)
		}
		if c.Proto {
			json.Unmarshal(m["body"], &s)
			if s != body {
				e.Fail("body", "python sees body %s, want %s", s, body)
			}
		} else {
			var got any
			if err := json.Unmarshal(m["body"], &got); err != nil || !reflect.DeepEqual(got, jsonRound(c.Body)) {
				e.Fail("body", "python sees body %s, want %s", trunc(string(m["body"]), 200), trunc(string(raw), 200))
			}
		}
	}
	if len(c.Header) > 0 || len(raw) > 4 {
		e.NonTrivial()
	}
	e.Label(c.Op + " " + ser)
}

// ---------------------------------------------------------------- C27 client helpers

type helpOp struct {
	Op    string   `json:"op"` // write, pipe, once, pipe-bad, refused, recv
	Conn  int      `json:"conn"`
	IDs   []int32  `json:"ids"`
	Texts []string `json:"texts"`
	Bad   int      `json:"bad"`
}

type helpCase struct {
	Spec  connSpec `json:"spec"`
	Conns int      `json:"conns"`
	Ops   []helpOp `json:"ops"`
}

func genHelpCase(t *rapid.T) helpCase {
	c := helpCase{Spec: genOpt(t), Conns: rapid.IntRange(1, 2).Draw(t, "conns")}
	c.Spec.DelayUS = 0
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := helpOp{
			Op:   rapid.SampledFrom([]string{"write", "write", "pipe", "pipe", "once", "once", "pipe-bad", "refused"}).Draw(t, "op"),
			Conn: rapid.IntRange(0, c.Conns-1).Draw(t, "conn"),
			Bad:  rapid.IntRange(0, 7).Draw(t, "bad"),
		}
		k := rapid.IntRange(1, 5).Draw(t, "k")
		if rapid.IntRange(0, 59).Draw(t, "many") == 0 {
			k = rapid.IntRange(6, 200).Draw(t, "k")
		}
		for j := 0; j < k; j++ {
			o.IDs = append(o.IDs, rapid.SampledFrom([]int32{1, 2, 0, -7, 1<<31 - 1, -1 << 31}).Draw(t, "id"))
			tx := genText(30).Draw(t, "text")
			if n := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 300, 300, 2000, 2000, 9000, 9000}).Draw(t, "long"); n > 0 {
				if rapid.IntRange(0, 39).Draw(t, "longer") == 39 {
					n = rapid.SampledFrom([]int{70000, 70000, 300000}).Draw(t, "longest")
				}
				if rapid.IntRange(0, 1999).Draw(t, "huge") == 1000 {
					n = rapid.SampledFrom([]int{1100000, 2200000, 4400000}).Draw(t, "hugest")
				}
				tx += string(padding(n))
			}
			o.Texts = append(o.Texts, tx)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// countConn counts the writes of a helper
type countConn struct {
	net.Conn
	n int
}

func (c *countConn) Write(p []byte) (int, error) { c.n++; return c.Conn.Write(p) }

type helpBody struct {
	Tag  string `json:"tag"`
	Text string `json:"text"`
}

func runHelpCase(e *Env, c helpCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		type seen struct {
			id   int32
			body helpBody
			addr net.Addr
			err  error
		}
		var mu sync.Mutex
		var log []seen
		running := 0
		srv.OnConnect = func(*tcpx.Context) {}
		for _, id := range []int32{1, 2, 0, -7, 1<<31 - 1, -1 << 31} {
			srv.AddHandler(id, func(ctx *tcpx.Context) {
				var b helpBody
				m, err := ctx.Bind(&b)
				mu.Lock()
				log = append(log, seen{m.MessageID, b, ctx.Conn.RemoteAddr(), err})
				running++
				mu.Unlock()
				ctx.JSON(id, b)
			})
		}
		h.Serve(srv, "tcp", addr)
		h.Net.DialOpt = c.Spec.opt(0)
		var conns []net.Conn
		for i := 0; i < c.Conns; i++ {
			cn, err := tcpx.TCPConnect("tcp", addr)
			if err != nil {
				h.Fail("connect", "TCPConnect: %v", err)
				return
			}
			conns = append(conns, cn)
		}
		h.Settle()
		delivered := 0
		for i, o := range c.Ops {
			mu.Lock()
			log = nil
			mu.Unlock()
			var want []seen
			for j := range o.IDs {
				want = append(want, seen{id: o.IDs[j], body: helpBody{fmt.Sprintf("m%d.%d", i, j), o.Texts[j]}})
			}
			cn := conns[o.Conn]
			replies := 0
			switch o.Op {
			case "write":
				want = want[:1]
				w := &countConn{Conn: cn}
				if err := tcpx.WriteJSON(w, want[0].id, want[0].body); err != nil {
					h.Fail("error", "WriteJSON: %v", err)
				}
				if w.n != 1 {
					h.Fail("writes", "WriteJSON of one message made %d writes", w.n)
				}
				replies = 1
			case "pipe":
				var args []any
				for _, w := range want {
					args = append(args, int(w.id), w.body)
				}
				w := &countConn{Conn: cn}
				if err := tcpx.PipeJSON(w, args...); err != nil {
					h.Fail("error", "PipeJSON: %v", err)
				}
				if w.n != 1 {
					h.Fail("writes", "PipeJSON of %d messages made %d writes: other senders can come in between", len(want), w.n)
				}
				replies = len(want)
			case "pipe-bad":
				var args []any
				for _, w := range want {
					args = append(args, int(w.id), w.body)
				}
				wantErr := true
				switch o.Bad {
				case 0:
					args = args[:len(args)-1]
				case 1:
					args[len(args)-2] = "1"
				case 2:
					args[len(args)-2] = int64(1)
				case 3:
					args[len(args)-1] = func() {} // no JSON
				case 4:
					args, wantErr = nil, false
				case 5:
					args = append(args, 5)
				case 6, 7: // no id of a message, though its lower half is
					args[(o.Bad-6)*(len(args)-2)] = int(want[0].id) + 1<<32
				}
				err := tcpx.PipeJSON(cn, args...)
				if (err != nil) != wantErr {
					h.Fail("error", "PipeJSON with bad arguments (%d) returned %v", o.Bad, err)
				}
				want = nil
			case "once":
				want = want[:1]
				before := len(h.Net.Conns())
				if err := tcpx.TCPCallOnceJSON("tcp", addr, int(want[0].id), want[0].body); err != nil {
					h.Fail("error", "TCPCallOnceJSON: %v", err)
				}
				h.Settle()
				if cs := h.Net.Conns(); len(cs) != before+1 {
					h.Fail("connect", "TCPCallOnceJSON made %d connections", len(cs)-before)
				} else if cl, _ := cs[before].Closed(); !cl {
					h.Fail("connect", "the connection of TCPCallOnceJSON stays open")
				}
			case "refused":
				want = nil
				if _, err := tcpx.TCPConnect("tcp", ":9"); err == nil {
					h.Fail("error", "TCPConnect to nobody returned no error")
				}
				if err := tcpx.TCPCallOnceJSON("tcp", ":9", 1, "x"); err == nil {
					h.Fail("error", "TCPCallOnceJSON to nobody returned no error")
				}
				if err := tcpx.TCPCallOnceJSON("tcp", addr, int(o.IDs[0])-1<<32, "x"); err == nil {
					h.Fail("error", "TCPCallOnceJSON with an id beyond int32 returned no error")
				}
			}
			h.Settle()
			mu.Lock()
			got := append([]seen(nil), log...)
			mu.Unlock()
			if len(got) != len(want) {
				h.Fail("lost", "op %d (%s): %d messages were handled, want %d", i, o.Op, len(got), len(want))
				return
			}
			for j := range want {
				if got[j].err != nil || got[j].id != want[j].id || got[j].body.Tag != want[j].body.Tag || got[j].body.Text != strings.ToValidUTF8(want[j].body.Text, "\ufffd") {
					h.Fail("content", "op %d (%s): message %d was handled as %+v, want %+v", i, o.Op, j, got[j], want[j])
				}
				delivered++
			}
			for j := 0; j < replies; j++ {
				var p tcpx.PackType
				s := h.Go(func() (err error) { p, err = tcpx.Recv(cn); return })
				h.Settle()
				if d, err, _ := s.Returned(); !d || err != nil {
					h.Fail("recv", "op %d (%s): Recv of reply %d: returned %v, %v", i, o.Op, j, d, err)
					return
				}
				f, err := wire.Parse(p)
				var b helpBody
				if err == nil {
					err = p.BindJSON(&b)
				}
				if err != nil || f.ID != want[j].id || b != got[j].body {
					h.Fail("recv", "op %d (%s): Recv of reply %d gave %s (%v)", i, o.Op, j, hexs(p), err)
				}
			}
			if h.Failed() {
				return
			}
		}
		for _, cn := range conns {
			if b, eof := cn.(*vnet.Conn).TakeAll(); len(b) > 0 || eof {
				h.Fail("recv", "left over on the connection: %s, closed %v", hexs(b), eof)
			}
		}
		if delivered > 0 {
			h.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C28 WriteConn

type wcCase struct {
	Data []byte `json:"data"`
	Plan []int  `json:"plan"`
	Err  int    `json:"err"` // the write that fails, -1 for none
	Kind int    `json:"kind"`
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// the errors a write fails with
var wcErrs = []error{
	errBroken, io.EOF, timeoutErr{}, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}, os.ErrDeadlineExceeded,
	io.ErrShortWrite, io.ErrUnexpectedEOF, net.ErrClosed, fmt.Errorf("wrapped: %w", io.EOF), syscall.EAGAIN, syscall.EINTR,
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}, io.ErrNoProgress, errors.New("EOF"),
}

func genWcCase(t *rapid.T) wcCase {
	c := wcCase{
		Data: rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "data"),
		Plan: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 2, 3, 7, 16, 50, 300, 5000}), 0, 30).Draw(t, "plan"),
		Err:  rapid.IntRange(-6, 8).Draw(t, "err"),
		Kind: rapid.IntRange(0, len(wcErrs)-1).Draw(t, "kind"),
	}
	if rapid.IntRange(0, 20).Draw(t, "big") == 0 {
		c.Data = bytes.Repeat(append(c.Data, 'x'), 70000/(len(c.Data)+1)+1)
		for i := range c.Data {
			c.Data[i] += byte(i >> 8)
		}
	}
	return c
}

type shortConn struct {
	readerConn
	c     wcCase
	calls int
	got   []byte
	fail  error
	done  bool
	after int
}

func (s *shortConn) Write(p []byte) (int, error) {
	i := s.calls
	s.calls++
	if s.done {
		s.after++
	}
	if s.calls > 100000 {
		panic("WriteConn does not end")
	}
	n := len(p)
	if i < len(s.c.Plan) && s.c.Plan[i] < n {
		n = s.c.Plan[i]
	}
	s.got = append(s.got, p[:n]...)
	if i == s.c.Err {
		s.done = true
		s.fail = wcErrs[s.c.Kind%len(wcErrs)]
		return n, s.fail
	}
	return n, nil
}

func runWcCase(e *Env, c wcCase) {
	s := &shortConn{c: c}
	data := append([]byte(nil), c.Data...)
	err := tcpx.WriteConn(data, s)
	if !bytes.Equal(data, c.Data) {
		e.Fail("mutated", "WriteConn changed the caller's buffer")
	}
	if s.after > 0 {
		e.Fail("after-error", "WriteConn went on writing after an error")
	}
	if (err != nil) != (s.fail != nil) {
		e.Fail("error", "WriteConn returned %v, the connection failed with %v", err, s.fail)
	}
	if s.fail == io.EOF && err != io.EOF {
		e.Fail("error", "WriteConn returned %v for io.EOF", err)
	}
	if err == nil && !bytes.Equal(s.got, c.Data) {
		e.Fail("bytes", "the connection got %s, want %s", hexs(s.got), hexs(c.Data))
	}
	if !bytes.HasPrefix(c.Data, s.got) {
		e.Fail("bytes", "the connection got %s, no prefix of %s", hexs(s.got), hexs(c.Data))
	}
	if s.calls > 1 {
		e.NonTrivial()
	}
}

// A mux of one's own: locked it takes no more routes, and told so it panics on a pattern it has.

type muxOp struct {
	Op  string `json:"op"` // url, lock-url, panic, any, id, lock
	URL string `json:"url"`
	ID  int32  `json:"id"`
	N   int    `json:"n"`
}

type muxCase struct {
	Ops []muxOp `json:"ops"`
}

func genMuxCase(t *rapid.T) (c muxCase) {
	for i, n := 0, rapid.IntRange(1, 14).Draw(t, "n"); i < n; i++ {
		c.Ops = append(c.Ops, muxOp{
			Op:  rapid.SampledFrom([]string{"url", "url", "url", "any", "any", "id", "id", "panic", "lock-url", "lock"}).Draw(t, "op"),
			URL: rapid.SampledFrom([]string{"/a/", "/b/", "", "/a"}).Draw(t, "url"),
			ID:  rapid.SampledFrom([]int32{0, 1, 2, -1}).Draw(t, "id"),
			N:   rapid.IntRange(1, 3).Draw(t, "hn"),
		})
	}
	return
}

func runMuxCase(e *Env, c muxCase) {
	um, m := tcpx.NewURLMux(), tcpx.NewMux()
	ulocked, locked, strict := false, false, false
	urls, ids := map[string]bool{}, map[int32]bool{}
	try := func(f func() error) (err error, panicked any) {
		defer func() { panicked = recover() }()
		return f(), nil
	}
	for i, o := range c.Ops {
		fs := make([]func(*tcpx.Context), o.N)
		for j := range fs {
			fs[j] = func(*tcpx.Context) {}
		}
		want := "ok"
		var do func() error
		switch o.Op {
		case "url":
			switch {
			case ulocked:
				want = "error"
			case strict && urls[o.URL]:
				want = "panic"
			default:
				urls[o.URL] = true
			}
			do = func() error { return um.AddURLPatternHandler(o.URL, fs...) }
		case "panic":
			if ulocked {
				want = "error"
			} else {
				strict = true
			}
			do = um.PanicOnExistRouter
		case "lock-url":
			ulocked = true
			do = func() error { um.LockWrite(); return nil }
		case "any":
			if locked {
				want = "error"
			}
			do = func() error { return m.Any(o.URL, fs...) }
		case "id":
			if locked || ids[o.ID] {
				want = "panic"
			} else {
				ids[o.ID] = true
			}
			do = func() error { m.AddHandleFunc(o.ID, fs[0]); return nil }
		case "lock":
			locked = true
			do = func() error { m.AllowAdd = false; return nil }
		}
		got := "ok"
		err, p := try(do)
		switch {
		case p != nil:
			got = "panic"
		case err != nil:
			got = "error"
		}
		if got != want {
			e.Fail("mux", "op %d %+v: %s (%v %v), want %s", i, o, got, err, p, want)
			return
		}
		if want != "ok" {
			e.NonTrivial()
			e.Label(want)
		}
	}
	if len(c.Ops) > 3 {
		e.NonTrivial()
	}
}

func init() {
	reg("C19", "conflict", 120000, 1200000, "1-14 registration calls (AddHandler, Any, Use, UnUse, UseGlobal, heartbeat and auth set-up, 9 kinds of illegal ones) against a model of what conflicts, up to the first illegal one; non-trivial: an illegal call was reached, or more than 3 legal ones", genConfCase, runConfCase)
	reg("C19", "mux", 60000, 600000, "1-14 calls on a mux and a url mux of one's own (routes, locking them, asking for a panic on a pattern it has); non-trivial: a call was refused, or more than 3 calls", genMuxCase, runMuxCase)
	reg("C21", "python", 16000, 192000, "messages with drawn ids in [0, 2^31), headers and JSON or opaque bodies, packed by the Python client and read by tcpx and the reference codec, or packed by tcpx and unpacked by the Python client, optionally with following bytes; non-trivial: a header or a body of more than 4 bytes", genPyCase, runPyCase)
	reg("C27", "helpers", 40000, 400000, "1-8 calls of TCPConnect, WriteJSON, PipeJSON (legal and illegal), TCPCallOnceJSON and Recv against a tcpx server under drawn read plans; non-trivial: some message was delivered", genHelpCase, runHelpCase)
	reg("C28", "writeconn", 300000, 3000000, "a buffer written through a connection with a drawn plan of short writes and an optional failing write; non-trivial: more than one Write", genWcCase, runWcCase)
}
