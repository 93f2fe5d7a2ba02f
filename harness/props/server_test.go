package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"pgregory.net/rapid"
	"verif/harness/vnet"
	"verif/harness/wire"
)

const addr = ":7171"

func genPlan(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 7, 9, 16, 17, 30, 1000}), 0, 5).Draw(t, "plan")
}

// genUnix is whether a case that says tcp is about a unix socket.
func genUnix(t *rapid.T) bool { return rapid.IntRange(0, 7).Draw(t, "unix") == 5 }

func genOpt(t *rapid.T) connSpec {
	return connSpec{Plan: genPlan(t), DataEOF: rapid.Bool().Draw(t, "dataeof"), DelayUS: rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "wdelay")}
}

// connSpec is how a client connection behaves.
type connSpec struct {
	Plan    []int `json:"plan"`
	DataEOF bool  `json:"data_eof"`
	DelayUS int   `json:"delay_us"`
}

func (c connSpec) opt(i int) vnet.Opt {
	return vnet.Opt{ReadPlan: c.Plan, DataEOF: c.DataEOF, WriteDelay: time.Duration(c.DelayUS) * time.Microsecond, ClientAddr: tcpAddr(i)}
}

// inv is one invocation of a handler.
type inv struct {
	route      string
	stream     []byte // ctx.Stream at the start
	ctx        *tcpx.Context
	streamEnd  []byte
	body       string
	bind       string
	addr       string
	begin, end int
	at, endAt  time.Time

	bindMsg    tcpx.Message
	bindErr    string
	routerType string
	url        string
}

// recorder collects invocations in order.
type recorder struct {
	mu   sync.Mutex
	invs []*inv
	seq  int
}

func (r *recorder) begin(route string, c *tcpx.Context) *inv {
	v := &inv{route: route, stream: append([]byte(nil), c.Stream...), ctx: c, at: time.Now()}
	if c.Conn != nil {
		v.addr = addrName(c.Conn.RemoteAddr())
	} else if c.Addr != nil {
		v.addr = c.Addr.String()
	}
	if b, err := c.RawStream(); err == nil {
		v.body = string(b)
	}
	var s string
	if m, err := c.BindWithMarshaller(&s, tcpx.JsonMarshaller{}); err == nil {
		v.bind, v.bindMsg = s, m
	} else {
		v.bindErr = err.Error()
	}
	v.routerType = c.RouterType()
	v.url, _ = c.GetURLPattern()
	r.mu.Lock()
	r.seq++
	v.begin = r.seq
	r.invs = append(r.invs, v)
	r.mu.Unlock()
	return v
}

func (r *recorder) finish(v *inv) {
	r.mu.Lock()
	r.seq++
	v.end = r.seq
	v.endAt = time.Now()
	v.streamEnd = append([]byte(nil), v.ctx.Stream...)
	r.mu.Unlock()
}

func (r *recorder) all() []*inv {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*inv(nil), r.invs...)
}

func (r *recorder) byTag() map[string][]*inv {
	m := map[string][]*inv{}
	for _, v := range r.all() {
		k := strings.TrimSpace(v.bind)
		m[k] = append(m[k], v)
	}
	return m
}

// ---------------------------------------------------------------- C05 dispatch

type dispReq struct {
	Client int    `json:"client"`
	Header string `json:"header"` // shape of the header
	ID     int32  `json:"id"`
	URL    string `json:"url"`
	Pad    int    `json:"pad"`
	Gate   bool   `json:"gate"`
	Cut    int    `json:"cut"` // the frame is sent in two pieces, cut here (0: in one)
	Wait   bool   `json:"wait"`
	Rep    int    `json:"rep,omitempty"` // sent this many times more
}

type dispCase struct {
	IDs       []int32    `json:"ids"`
	URLs      []string   `json:"urls"`
	OnMessage bool       `json:"on_message"`
	Conns     []connSpec `json:"conns"`
	Reqs      []dispReq  `json:"reqs"`
	Pace      int        `json:"pace,omitempty"`
	Unix      bool       `json:"unix,omitempty"`
}

var (
	someIDs  = []int32{0, 1, 2, 3, -1, 1392, 1393, 7, 2147483647, -2147483648, 256}
	someURLs = []string{"/a/", "/a/b/", "/", "x", "/用户/", "", "1", "/A/", "/a"}
	hdrKinds = []string{"obj", "obj", "null", "none", "msgid", "extra", "url", "url", "url", "url+extra", "weird", "num", "url-nonstring", "url-missing"}
)

func uniq[T comparable](l []T) []T {
	var out []T
	seen := map[T]bool{}
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// genNearID gives any id, often an edge or one near another.
func genNearID(t *rapid.T, near []int32) int32 {
	if len(near) > 0 && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
		x := rapid.SampledFrom(near).Draw(t, "of")
		switch rapid.IntRange(0, 8).Draw(t, "how") {
		case 8:
			return x & (1<<rapid.IntRange(1, 31).Draw(t, "bits") - 1)
		case 0:
			return -x
		case 1:
			return x + 1
		case 2:
			return x - 1
		case 3:
			return x ^ 1<<rapid.IntRange(0, 31).Draw(t, "bit")
		case 4:
			return x + 65536
		case 5:
			return int32(bits.ReverseBytes32(uint32(x)))
		case 6:
			return int32(int16(x))
		default:
			return int32(int8(x))
		}
	}
	return rapid.OneOf(rapid.SampledFrom(someIDs), rapid.SampledFrom(someIDs), rapid.Int32()).Draw(t, "id")
}

// genURL gives any url pattern, often one that resembles another.
func genURL(t *rapid.T, near []string) string {
	if len(near) > 0 && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
		u := rapid.SampledFrom(near).Draw(t, "of")
		switch rapid.IntRange(0, 8).Draw(t, "how") {
		case 8:
			r := []rune(u)
			return string(r[:rapid.IntRange(0, len(r)).Draw(t, "head")])
		case 0:
			return strings.ToUpper(u)
		case 1:
			return strings.TrimSuffix(u, "/")
		case 2:
			return u + "/"
		case 3:
			return strings.TrimPrefix(u, "/")
		case 4:
			return "/" + u
		case 5:
			return u + " "
		case 6:
			return u + "x"
		default:
			return u + "?q=1"
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "longurl") == 0 {
		u := "/" + string(padding(rapid.SampledFrom([]int{30, 62, 63, 64, 100, 127, 128, 254, 255, 256, 300, 1100, 5000}).Draw(t, "urllen")))
		return u + rapid.SampledFrom([]string{"", "/", "a", "b"}).Draw(t, "urlend")
	}
	return rapid.OneOf(rapid.SampledFrom(someURLs), rapid.SampledFrom(someURLs), rapid.StringN(0, 12, 40)).Draw(t, "url")
}

// genSize gives a size, often at an edge of the usual buffers.
func genSize(t *rapid.T) int {
	switch rapid.IntRange(0, 9).Draw(t, "sizekind") {
	case 0, 1, 2:
		return rapid.IntRange(0, 100).Draw(t, "size")
	case 3, 4, 5:
		return rapid.SampledFrom([]int{512, 1024, 1460, 2048, 4096, 8192}).Draw(t, "around") + rapid.IntRange(-40, 40).Draw(t, "off")
	case 6, 7:
		return rapid.SampledFrom([]int{16384, 32768, 65536}).Draw(t, "around") + rapid.IntRange(-40, 40).Draw(t, "off")
	case 8:
		return rapid.IntRange(0, 10000).Draw(t, "size")
	default:
		if rapid.IntRange(0, 9).Draw(t, "huge") == 0 {
			return rapid.SampledFrom([]int{270000, 530000, 1050000, 1100000, 2200000}).Draw(t, "size")
		}
		return rapid.SampledFrom([]int{70000, 131072, 200000}).Draw(t, "size")
	}
}

func genDispCase(t *rapid.T) dispCase {
	c := dispCase{
		OnMessage: rapid.IntRange(0, 6).Draw(t, "onmsg") == 0,
		Unix:      genUnix(t),
		Pace:      genPace(t),
	}
	for i := rapid.IntRange(1, 6).Draw(t, "nids"); i > 0; i-- {
		c.IDs = append(c.IDs, genNearID(t, c.IDs))
	}
	for i := rapid.IntRange(1, 5).Draw(t, "nurls"); i > 0; i-- {
		c.URLs = append(c.URLs, genURL(t, c.URLs))
	}
	switch rapid.IntRange(0, 119).Draw(t, "routes") {
	case 60:
		for i, n := 0, rapid.SampledFrom([]int{20, 40, 70, 140, 270, 520}).Draw(t, "manyids"); i < n; i++ {
			c.IDs = append(c.IDs, int32(i*i-n))
		}
	case 61:
		for i, n := 0, rapid.SampledFrom([]int{20, 40, 70, 140, 270, 520}).Draw(t, "manyurls"); i < n; i++ {
			c.URLs = append(c.URLs, fmt.Sprintf("/many/%d", i*i))
		}
	}
	c.IDs, c.URLs = uniq(c.IDs), uniq(c.URLs)
	nc := rapid.IntRange(1, 4).Draw(t, "nc")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		nc = rapid.IntRange(5, 40).Draw(t, "nc")
		if rapid.IntRange(0, 9).Draw(t, "crowd") == 0 {
			nc = rapid.SampledFrom([]int{66, 130, 260}).Draw(t, "crowdn")
		}
	}
	for i := 0; i < nc; i++ {
		if i >= 40 {
			c.Conns = append(c.Conns, c.Conns[i%40])
			continue
		}
		c.Conns = append(c.Conns, genOpt(t))
	}
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		r := dispReq{
			Client: rapid.IntRange(0, nc-1).Draw(t, "cl"),
			Header: rapid.SampledFrom(hdrKinds).Draw(t, "hk"),
			Gate:   rapid.IntRange(0, 3).Draw(t, "gate") == 0,
			Cut:    rapid.SampledFrom([]int{0, 0, 1, 3, 4, 5, 12, 16, 17, 25}).Draw(t, "cut"),
			Wait:   rapid.Bool().Draw(t, "wait"),
		}
		r.ID, r.URL = rapid.SampledFrom(c.IDs).Draw(t, "id"), rapid.SampledFrom(c.URLs).Draw(t, "url")
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
			r.ID, r.URL = genNearID(t, c.IDs), genURL(t, c.URLs)
		}
		if rapid.IntRange(0, 5).Draw(t, "padded") == 0 {
			r.Pad = genSize(t)
		}
		if r.Pad < 10000 && rapid.IntRange(0, 15).Draw(t, "repeated") == 0 {
			r.Rep = rapid.IntRange(1, 80).Draw(t, "rep")
		}
		c.Reqs = append(c.Reqs, r)
	}
	if rapid.IntRange(0, 399).Draw(t, "busy") == 200 { // a connection that has sent thousands of messages
		c.Reqs[0].Gate, c.Reqs[0].Wait, c.Reqs[0].Pad = false, false, 0
		c.Reqs[0].Rep = rapid.SampledFrom([]int{300, 550, 1100, 2100, 4200}).Draw(t, "manyreqs")
	}
	if rapid.IntRange(0, 299).Draw(t, "parked") == 150 { // a great many handlers busy at the same time
		c.Reqs[0].Gate, c.Reqs[0].Pad = true, 0
		c.Reqs[0].Rep = rapid.SampledFrom([]int{140, 270, 550, 1100, 2200}).Draw(t, "manyparked")
	}
	return c
}

// frame builds the request's block; route is where it must go ("" for nowhere).
func (r dispReq) frame(tag string, ids []int32, urls []string) (b []byte, route string) {
	var h []byte
	url := false
	byID := func() string {
		for _, v := range ids {
			if v == r.ID {
				return fmt.Sprintf("id:%d", v)
			}
		}
		return ""
	}
	switch r.Header {
	case "obj":
		h = []byte("{}")
	case "null":
		h = []byte("null")
	case "none":
		h = nil
	case "msgid":
		h = js(map[string]any{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": r.ID})
	case "extra":
		h = js(map[string]any{"a": 1, "Router-Pattern-Value": r.URL})
	case "url":
		h, url = urlHeader(r.URL), true
	case "url+extra":
		h, url = js(map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": r.URL, "k": []int{1}}), true
	case "weird":
		return wire.Build(r.ID, js(map[string]any{"Router-Type": "SOMETHING", "Router-Pattern-Value": r.URL}), r.body(tag)), ""
	case "num":
		h = js(map[string]any{"Router-Type": 5})
	case "url-nonstring":
		return wire.Build(r.ID, js(map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": 5}), r.body(tag)), ""
	case "url-missing":
		return wire.Build(r.ID, js(map[string]any{"Router-Type": "URL_PATTERN"}), r.body(tag)), "?"
	}
	if url {
		route = ""
		for _, u := range urls {
			if u == r.URL {
				route = "url:" + u
			}
		}
	} else {
		route = byID()
	}
	return wire.Build(r.ID, h, r.body(tag)), route
}

func (r dispReq) body(tag string) []byte {
	b := js(tag)
	if r.Pad > 0 {
		b = append(b, blanks(r.Pad)...)
	}
	return b
}

// blanks is white space whose bytes differ from their neighbours.
func blanks(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = " \t\n\r \n\t"[(i+i>>5+i>>13)%7]
	}
	return b
}

func runDispCase(e *Env, c dispCase) {
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		h.unix, h.pace = c.Unix, c.Pace
		dispatchOn(h, c, srv, "tcp", func(i int) (*Client, sender) {
			cl := h.Dial("tcp", addr, c.Conns[i].opt(i))
			if cl == nil {
				return nil, nil
			}
			return cl, cl
		}, func() { h.Serve(srv, "tcp", addr) })
	})
}

type sender interface{ Send([]byte) error }

// sameHeader is whether a decoded header is what its bytes say.
func sameHeader(got map[string]interface{}, raw []byte) bool {
	var want map[string]interface{}
	if len(raw) > 0 {
		json.Unmarshal(raw, &want)
	}
	return len(got) == 0 && len(want) == 0 || reflect.DeepEqual(got, want)
}

// dispatchOn runs a dispatch case against a server reached through dial.
func dispatchOn(h *H, c dispCase, srv *tcpx.TcpX, network string, dial func(i int) (*Client, sender), serve func()) {
	rec := &recorder{}
	gated := map[string]bool{}
	reqs := []dispReq{}
	for _, r := range c.Reqs {
		for k := 0; k <= r.Rep; k++ {
			if r.Gate {
				gated[fmt.Sprintf("r%d", len(reqs))] = true
			}
			reqs = append(reqs, r)
		}
	}
	mk := func(route string) func(*tcpx.Context) {
		return func(ctx *tcpx.Context) {
			v := rec.begin(route, ctx)
			if gated[v.bind] {
				h.Gate(v.bind)
			}
			rec.finish(v)
		}
	}
	for _, id := range c.IDs {
		srv.AddHandler(id, mk(fmt.Sprintf("id:%d", id)))
	}
	for _, u := range c.URLs {
		srv.Any(u, mk("url:"+u))
	}
	if c.OnMessage {
		srv.OnMessage = mk("onmessage")
	}
	serve()
	clients := make([]*Client, len(c.Conns))
	senders := make([]sender, len(c.Conns))
	for i := range c.Conns {
		if clients[i], senders[i] = dial(i); senders[i] == nil {
			h.Fail("refused", "client %d could not connect", i)
			return
		}
	}
	type sent struct {
		frame []byte
		route string
		cl    int
	}
	want := map[string]sent{}
	pending := make([][]byte, len(c.Conns))
	flush := func(i int) {
		if pending[i] != nil {
			senders[i].Send(pending[i])
			pending[i] = nil
		}
	}
	for i, r := range reqs {
		tag := fmt.Sprintf("r%d", i)
		b, route := r.frame(tag, c.IDs, c.URLs)
		if c.OnMessage {
			route = "onmessage"
		}
		want[tag] = sent{b, route, r.Client}
		flush(r.Client)
		if r.Cut > 0 && r.Cut < len(b) {
			senders[r.Client].Send(b[:r.Cut])
			pending[r.Client] = b[r.Cut:]
		} else {
			senders[r.Client].Send(b)
		}
		if r.Wait {
			h.Settle()
		}
	}
	for i := range pending {
		flush(i)
	}
	h.Settle()
	h.Settle()
	routed := 0
	check := func(final bool) {
		got := rec.byTag()
		for tag := range got {
			if _, ok := want[tag]; !ok {
				h.Fail("fabricated", "a handler got the message %q, which nobody sent", tag)
				return
			}
		}
		for i := range reqs {
			tag := fmt.Sprintf("r%d", i)
			w, vs := want[tag], got[tag]
			if w.route == "?" { // which route a missing pattern means is not specified
				continue
			}
			if w.route == "" {
				if len(vs) != 0 {
					h.Fail("misrouted", "%s (header %s, id %d, url %q) has no handler but went to %s", tag, reqs[i].Header, reqs[i].ID, reqs[i].URL, vs[0].route)
				}
				continue
			}
			if len(vs) == 0 {
				h.Fail("lost", "%s (client %d, route %s) was never handled", tag, w.cl, w.route)
				continue
			}
			if len(vs) > 1 {
				h.Fail("duplicated", "%s (route %s) was handled %d times", tag, w.route, len(vs))
				continue
			}
			v := vs[0]
			routed++
			if v.route != w.route {
				h.Fail("misrouted", "%s went to %s, want %s", tag, v.route, w.route)
			}
			if !bytes.Equal(v.stream, w.frame) {
				h.Fail("bytes", "%s: handler saw block %s, want %s", tag, hexs(v.stream), hexs(w.frame))
			}
			if f, _ := wire.Parse(w.frame); v.body != string(f.Body) {
				h.Fail("bytes", "%s: handler saw body %q, want %q", tag, trunc(v.body, 80), trunc(string(f.Body), 80))
			}
			if f, _ := wire.Parse(w.frame); v.bindErr != "" || v.bindMsg.MessageID != f.ID || !sameHeader(v.bindMsg.Header, f.Header) {
				h.Fail("message", "%s: Bind gave id %d and header %v (%s), want id %d and header %s", tag, v.bindMsg.MessageID, v.bindMsg.Header, v.bindErr, f.ID, f.Header)
			}
			if strings.HasPrefix(w.route, "url:") && (v.url != w.route[4:] || v.routerType != "URL_PATTERN") || strings.HasPrefix(w.route, "id:") && v.routerType != "MESSAGE_ID" {
				h.Fail("message", "%s, routed to %s, reports route type %q and pattern %q", tag, w.route, v.routerType, v.url)
			}
			if v.addr != tcpAddr(w.cl).String() {
				h.Fail("connection", "%s: handled on the connection of %s, want %s", tag, v.addr, tcpAddr(w.cl))
			}
			if final {
				if v.end == 0 {
					h.Fail("unfinished", "%s: handler did not finish", tag)
				} else if !bytes.Equal(v.streamEnd, w.frame) {
					h.Fail("bytes", "%s: the handler's block changed under it to %s", tag, hexs(v.streamEnd))
				}
			}
		}
	}
	check(false)
	for i := len(reqs) - 1; i >= 0; i-- {
		if tag := fmt.Sprintf("r%d", i); gated[tag] {
			h.Open(tag)
			if i < 50 {
				h.Settle()
			}
		}
	}
	h.Settle()
	check(true)
	// a handler may hand its context to a goroutine that goes on with it
	for _, v := range rec.all() {
		var s string
		b, err := v.ctx.RawStream()
		m, err2 := v.ctx.BindWithMarshaller(&s, tcpx.JsonMarshaller{})
		if err != nil || string(b) != v.body || !bytes.Equal(v.ctx.Stream, v.stream) || fmt.Sprint(s, m.MessageID, m.Header) != fmt.Sprint(v.bind, v.bindMsg.MessageID, v.bindMsg.Header) || (err2 == nil) != (v.bindErr == "") || v.ctx.RouterType() != v.routerType {
			h.Fail("kept", "after its handler has returned, the context of %s has the block %s (%v, %v), it had %s", v.bind, hexs(v.ctx.Stream), err, err2, hexs(v.stream))
			break
		}
	}
	if clients[0] != nil {
		for i, cl := range clients {
			if cl.Closed() {
				h.Fail("closed", "the server closed connection %d, which sent only well-formed messages", i)
			}
			if b, _ := cl.Conn.TakeAll(); len(b) > 0 || len(cl.got) > 0 {
				h.Fail("unasked", "client %d received %s from handlers that send nothing", i, hexs(append(cl.got, b...)))
			}
		}
	}
	if routed >= 2 {
		h.NonTrivial()
	}
	if len(c.Conns) > 1 {
		h.Label("multi-conn")
	}
	if len(gated) > 0 {
		h.Label("gated")
	}
	h.Label(network)
}

// ---------------------------------------------------------------- C05, C17 messages that are alike

// alikeMsg is a message that nothing tells from another of its kind.
type alikeMsg struct {
	Client int    `json:"client"`
	Header string `json:"header,omitempty"`
	ID     int32  `json:"id"`
	Body   string `json:"body,omitempty"`
	Times  int    `json:"times"`
	Wait   bool   `json:"wait,omitempty"`
	Pipe   bool   `json:"pipe,omitempty"` // all times in one pipe
}

type alikeCase struct {
	UDP   bool       `json:"udp,omitempty"`
	Unix  bool       `json:"unix,omitempty"`
	Pool  bool       `json:"pool,omitempty"`
	Beat  bool       `json:"beat,omitempty"`
	Reply bool       `json:"reply,omitempty"`
	Pace  int        `json:"pace,omitempty"`
	Conns []connSpec `json:"conns"`
	Msgs  []alikeMsg `json:"msgs"`
}

func genAlikeCase(udp bool) func(t *rapid.T) alikeCase {
	return func(t *rapid.T) alikeCase {
		c := alikeCase{UDP: udp, Unix: !udp && genUnix(t), Pool: rapid.Bool().Draw(t, "pool"), Reply: rapid.Bool().Draw(t, "reply")}
		if c.Beat = rapid.IntRange(0, 3).Draw(t, "beat") == 2; !c.Beat {
			c.Pace = genPace(t)
		}
		for i := rapid.IntRange(1, 3).Draw(t, "nc"); i > 0; i-- {
			c.Conns = append(c.Conns, genOpt(t))
		}
		for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
			m := alikeMsg{
				Client: rapid.IntRange(0, len(c.Conns)-1).Draw(t, "cl"),
				Header: rapid.SampledFrom([]string{"", "{}", "null", `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/s/"}`, `{"a":1}`, `{"Router-Type":"MESSAGE_ID"}`}).Draw(t, "header"),
				ID:     int32(rapid.IntRange(0, 2).Draw(t, "id")),
				Body:   rapid.SampledFrom([]string{"", "1", `"x"`, "\x00", "\n", "{}", "null"}).Draw(t, "body"),
				Times:  rapid.IntRange(1, 4).Draw(t, "times"),
				Wait:   rapid.Bool().Draw(t, "wait"),
				Pipe:   !udp && rapid.IntRange(0, 4).Draw(t, "pipe") == 2,
			}
			if rapid.IntRange(0, 29).Draw(t, "often") == 15 {
				m.Times = rapid.IntRange(5, 300).Draw(t, "times")
			}
			c.Msgs = append(c.Msgs, m)
		}
		return c
	}
}

func runAlikeCase(e *Env, c alikeCase) {
	e.Bubble(func(h *H) {
		h.unix, h.pace = c.Unix, c.Pace
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, time.Hour)
		}
		var mu sync.Mutex
		got, want, back := map[string]int{}, map[string]int{}, map[string]int{}
		key := func(who, route string, b []byte) string {
			return fmt.Sprintf("%s from %s for %s", hexs(b), who, route)
		}
		mk := func(route string) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				who := ""
				if ctx.Conn != nil {
					who = addrName(ctx.Conn.RemoteAddr())
				} else {
					who = ctx.Addr.String()
				}
				mu.Lock()
				got[key(who, route, ctx.Stream)]++
				mu.Unlock()
				if c.Reply {
					ctx.JSON(9, route)
				}
			}
		}
		for id := int32(0); id < 3; id++ {
			srv.AddHandler(id, mk(fmt.Sprint(id)))
		}
		srv.Any("/s/", mk("/s/"))
		var clients []*Client
		if c.UDP {
			h.Serve(srv, "udp", addr)
		} else {
			h.Serve(srv, "tcp", addr)
			for i := range c.Conns {
				cl := h.Dial("tcp", addr, c.Conns[i].opt(i))
				if cl == nil {
					h.Fail("refused", "client %d could not connect", i)
					return
				}
				clients = append(clients, cl)
			}
		}
		total := 0
		for _, m := range c.Msgs {
			who := tcpAddr(m.Client).String()
			if c.UDP {
				who = udpAddr(m.Client).String()
			}
			route := fmt.Sprint(m.ID)
			if strings.Contains(m.Header, "/s/") {
				route = "/s/"
			}
			for k := 0; k < m.Times; k++ {
				b := wire.Build(m.ID, []byte(m.Header), []byte(m.Body))
				r := route
				if m.Pipe && k == 0 {
					r = fmt.Sprint(m.ID)
					b = pipeFrame(m.ID, fmt.Sprintf(`"enable;%d"`, m.Times), []byte(m.Body))
				}
				want[key(who, r, b)]++
				back[who+" "+r]++
				total++
				if c.UDP {
					h.Net.Send("udp", addr, vnet.Datagram{Data: b, Addr: udpAddr(m.Client)})
				} else {
					clients[m.Client].Send(b)
				}
				if m.Wait && k < 5 {
					h.Settle()
				}
			}
		}
		h.Settle()
		h.Settle()
		mu.Lock()
		defer mu.Unlock()
		for k, n := range want {
			if got[k] != n {
				h.Fail("alike", "the message %s was sent %d times and handled %d times", k, n, got[k])
				return
			}
		}
		for k, n := range got {
			if want[k] == 0 {
				h.Fail("fabricated", "the message %s was handled %d times, but not sent", k, n)
				return
			}
		}
		replies := map[string]int{}
		if c.UDP {
			if p := h.Net.Packet("udp", addr); p != nil {
				for _, d := range p.Sent() {
					f, _ := wire.Parse(d.Data)
					replies[d.Addr.String()+" "+strings.Trim(string(f.Body), `"`)]++
				}
			}
		} else {
			for i, cl := range clients {
				if cl.Closed() {
					h.Fail("closed", "the server closed connection %d, which sent only well-formed messages", i)
				}
				fs, _ := cl.Frames()
				for _, f := range fs {
					replies[tcpAddr(i).String()+" "+strings.Trim(string(f.Body), `"`)]++
				}
			}
		}
		if !c.Reply {
			back = map[string]int{}
		}
		if !reflect.DeepEqual(replies, back) {
			h.Fail("alike", "the answers that came back are %v, want %v", replies, back)
		}
		if total > len(want) {
			h.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C04 hostile input

type hostile struct {
	Kind  string `json:"kind"`
	Data  []byte `json:"data"`
	Arg   string `json:"arg"`
	N     int    `json:"n"`
	Conn  int    `json:"conn"` // which hostile connection
	Close bool   `json:"close"`
}

type hostileCase struct {
	Max     int32      `json:"max"`
	URLs    bool       `json:"urls"`
	Pool    bool       `json:"pool"`
	Beat    bool       `json:"beat"`
	OnMsg   bool       `json:"on_msg"`
	Spec    []connSpec `json:"spec"`
	Attacks []hostile  `json:"attacks"`
	Pace    int        `json:"pace,omitempty"`
	UDP     bool       `json:"udp"`
}

var hostileKinds = []string{"bytes", "bytes", "frame", "frame", "pipeargs", "pipeargs", "pipecut", "panic", "slow", "hangup", "idle", "half", "goroutine-panic-nil", "pipepanic", "connectpanic", "crowd", "greet", "rawbytes", "rawpanic"}

var pipeArgs = []string{`"enable;-5"`, `"enable;0"`, `"enable;1"`, `"enable;2"`, `"enable;3"`, `"enable;x"`, `"enable;2;3"`, `"enable;2147483647"`, `"enable;9223372036854775807"`, `"enable;-9223372036854775808"`, `"enable"`, `""`, `";"`, `"disable;3"`, `5`, `null`, `["enable;2"]`, `"enable; 2"`, `"enable;1e3"`, `"enable;4000000000"`}

func genHostileCase(t *rapid.T) hostileCase {
	c := hostileCase{
		Max:   rapid.SampledFrom([]int32{0, 0, 128, 4096}).Draw(t, "max"),
		Pool:  rapid.Bool().Draw(t, "pool"),
		Beat:  rapid.Bool().Draw(t, "beat"),
		OnMsg: rapid.IntRange(0, 5).Draw(t, "onmsg") == 0,
		UDP:   rapid.IntRange(0, 3).Draw(t, "udp") == 0,
	}
	if !c.Beat {
		c.Pace = genPace(t)
	}
	for i := 0; i < 3; i++ {
		c.Spec = append(c.Spec, genOpt(t))
	}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		a := hostile{Kind: rapid.SampledFrom(hostileKinds).Draw(t, "kind"), Conn: rapid.IntRange(0, 2).Draw(t, "conn"), Close: rapid.Bool().Draw(t, "close")}
		switch a.Kind {
		case "bytes":
			a.Data = rapid.SliceOfN(rapid.Byte(), 0, 48).Draw(t, "data")
		case "frame":
			a.Data = genBytesCase(t).Data
		case "pipeargs":
			a.Arg = rapid.SampledFrom(pipeArgs).Draw(t, "arg")
			a.N = rapid.IntRange(0, 3).Draw(t, "n")
		case "pipecut", "pipepanic":
			a.N = rapid.IntRange(2, 5).Draw(t, "n")
			a.Arg = fmt.Sprint(rapid.IntRange(0, 60).Draw(t, "at"))
		case "slow":
			a.N = rapid.IntRange(1, 4).Draw(t, "n")
		case "crowd", "greet":
			a.N = rapid.IntRange(1, 40).Draw(t, "n")
			if rapid.IntRange(0, 9).Draw(t, "long") == 5 {
				a.N = rapid.IntRange(41, 400).Draw(t, "n")
			}
			a.Arg = rapid.SampledFrom([]string{"tcp", "raw"}).Draw(t, "arg")
		case "rawbytes":
			a.Data = rapid.SliceOfN(rapid.Byte(), 1, 48).Draw(t, "data")
		}
		c.Attacks = append(c.Attacks, a)
	}
	if rapid.IntRange(0, 19).Draw(t, "mass") == 0 {
		a := hostile{Kind: rapid.SampledFrom([]string{"many", "churn"}).Draw(t, "masskind"), N: rapid.SampledFrom([]int{10, 20, 40, 70, 140, 280}).Draw(t, "massn")}
		a.Arg = rapid.SampledFrom([]string{"idle", "bytes", "half", "panic", "pipecut", "hangup", "raw"}).Draw(t, "massarg")
		c.Attacks = append(c.Attacks, a)
	}
	if rapid.IntRange(0, 49).Draw(t, "park") == 25 {
		c.Attacks = append(c.Attacks, hostile{Kind: "park", N: rapid.SampledFrom([]int{1, 10, 40, 140, 270, 550, 1100, 2200}).Draw(t, "parkn"), Conn: rapid.IntRange(0, 2).Draw(t, "conn")})
	}
	return c
}

func pipeFrame(id int32, arg string, body []byte) []byte {
	return wire.Build(id, []byte(`{"[tcpx-buffer-in-serial]":`+arg+`}`), body)
}

// tally remembers what was sent on a connection.
type tally struct {
	*Client
	sent *[]byte
}

func (s *tally) Send(b []byte) error {
	*s.sent = append(*s.sent, b...)
	return s.Client.Send(b)
}

// malformed is whether a stream of bytes holds something that cannot be a message, at a place
// where the server has to have seen it: an impossible length, a header that cannot be read, or
// bad pipe arguments. Where it is unclear the answer is no.
func malformed(b []byte, max int32) bool {
	inPipe := 0
	for len(b) >= 4 {
		l := int(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
		if l >= 1<<31 || max > 0 && l > int(max) {
			return true
		}
		if len(b) < 4+l {
			return false
		}
		blk := b[4 : 4+l]
		b = b[4+l:]
		if inPipe > 0 {
			inPipe--
			continue
		}
		if l < 12 {
			return true
		}
		hl := int(uint32(blk[4])<<24 | uint32(blk[5])<<16 | uint32(blk[6])<<8 | uint32(blk[7]))
		if 12+hl > l {
			return true
		}
		if hl == 0 {
			continue
		}
		var hd map[string]any
		if json.Unmarshal(blk[12:12+hl], &hd) != nil {
			return true
		}
		a, ok := hd["[tcpx-buffer-in-serial]"]
		if !ok {
			continue
		}
		s, ok := a.(string)
		if !ok {
			return true
		}
		parts := strings.Split(s, ";")
		if len(parts) != 2 {
			return true
		}
		n, err := strconv.Atoi(parts[1])
		if err != nil {
			return true
		}
		if parts[0] != "enable" || n < 1 {
			return false // not specified
		}
		inPipe = n - 1
	}
	return false
}

func runHostileCase(e *Env, c hostileCase) {
	if c.UDP {
		e.Label("udp")
		runHostileUDP(e, c)
		return
	}
	e.Label("tcp")
	e.Bubble(func(h *H) {
		h.pace = c.Pace
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Max > 0 {
			srv.SetMaxBytePerMessage(c.Max)
		}
		if c.Pool {
			srv.WithBuiltInPool(true)
		}
		if c.Beat {
			srv.HeartBeatMode(true, time.Hour)
		}
		echo := func(ctx *tcpx.Context) {
			var s string
			if _, err := ctx.Bind(&s); err == nil {
				ctx.JSON(100, s)
			}
		}
		boom := func(ctx *tcpx.Context) { panic("boom") }
		srv.AddHandler(1, echo)
		srv.AddHandler(2, boom)
		srv.AddHandler(3, func(ctx *tcpx.Context) { // a long answer
			ctx.JSON(101, strings.Repeat("x", 5000))
		})
		srv.AddHandler(4, func(ctx *tcpx.Context) { var p *Payload; p.S = "x" })
		srv.Any("/e/", echo)
		srv.Any("/boom/", boom)
		if c.OnMsg {
			srv.OnMessage = func(ctx *tcpx.Context) {
				id, _ := ctx.Packx.MessageIDOf(ctx.Stream)
				if id == 2 || id == 4 {
					panic("boom")
				}
				if id == 6 {
					h.Gate("park")
				}
				echo(ctx)
			}
		}
		srv.AddHandler(5, boom, echo)
		srv.AddHandler(6, func(ctx *tcpx.Context) { h.Gate("park") }, echo)
		srv.OnClose = func(ctx *tcpx.Context) {
			if connIndex(ctx)%2 == 0 {
				panic("boom")
			}
		}
		srv.OnConnect = func(ctx *tcpx.Context) {
			if c.Pool {
				ctx.Online(fmt.Sprintf("u%d", connIndex(ctx)))
			}
			switch connIndex(ctx) {
			case 66:
				panic("boom")
			case 67: // a long greeting
				ctx.JSON(102, strings.Repeat("x", 5000))
			}
		}
		h.Serve(srv, "tcp", addr)
		const rawAddr = ":7373"
		srv.HandleRaw = func(ctx *tcpx.Context) {
			b := make([]byte, 64)
			for {
				n, err := ctx.ConnReader.Read(b)
				if err != nil {
					return
				}
				if b[0] == '!' {
					panic("boom")
				}
				ctx.ConnWriter.Write(b[:n])
			}
		}
		h.Go(func() error { return srv.ListenAndServeRaw("tcp", rawAddr) })
		h.Settle()
		goodRaw := h.Dial("tcp", rawAddr, vnet.Opt{ClientAddr: tcpAddr(3)})

		good := h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(1)})
		n := 0
		ask := func(cl *Client, who string) {
			if cl == nil {
				h.Fail("refused", "%s: a new connection was refused", who)
				return
			}
			n++
			tag := fmt.Sprintf("g%d", n)
			before, _ := cl.Frames()
			if n%2 == 0 && !c.OnMsg {
				cl.Send(urlFrame("/e/", js(tag)))
			} else {
				cl.Send(msgFrame(1, js(tag)))
			}
			h.Settle()
			fs, err := cl.Frames()
			if err != nil || len(fs) != len(before)+1 || fs[len(fs)-1].ID != 100 || string(fs[len(fs)-1].Body) != string(js(tag)) {
				h.Fail("disturbed", "%s: the request %s was not answered properly (%d answers, %v, closed %v)", who, tag, len(fs)-len(before), err, cl.eof)
			}
		}
		askRaw := func(cl *Client, who string) {
			if cl == nil {
				h.Fail("refused", "%s: a new connection to the raw server was refused", who)
				return
			}
			n++
			tag := fmt.Sprintf("g%d", n)
			cl.Poll()
			before := len(cl.got)
			cl.Send([]byte(tag))
			h.Settle()
			cl.Poll()
			if string(cl.got[before:]) != tag {
				h.Fail("disturbed", "%s: the raw handler answered %q to %q (closed %v)", who, cl.got[before:], tag, cl.eof)
			}
		}
		ask(good, "before")
		askRaw(goodRaw, "before")
		fresh := func(who string, i int) {
			ask(h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(i)}), who)
			askRaw(h.Dial("tcp", rawAddr, vnet.Opt{ClientAddr: tcpAddr(i + 1000)}), who)
		}
		bad := make([]*Client, 3)
		var sent [3][]byte
		for k, a := range c.Attacks {
			e.Label(a.Kind)
			i := a.Conn
			if bad[i] == nil || bad[i].Closed() || a.Kind == "slow" {
				o := c.Spec[i].opt(10 + i)
				if a.Kind == "slow" {
					o.Capacity = 1000
				}
				bad[i] = h.Dial("tcp", addr, o)
				if bad[i] == nil {
					h.Fail("refused", "after attack %d: a new connection was refused", k)
					return
				}
				sent[i] = nil
			}
			b := &tally{bad[i], &sent[i]}
			switch a.Kind {
			case "connectpanic":
				if x := h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(66)}); x != nil {
					x.Send(msgFrame(1, js("x")))
					h.Settle()
					if !x.Closed() {
						h.Fail("served-on", "attack %d: a connection is open although OnConnect panicked", k)
					}
				}
			case "crowd": // so many clients that the server runs out of file descriptors for a while
				at := addr
				if a.Arg == "raw" {
					at = rawAddr
				}
				if !h.Net.InjectAcceptErrors("tcp", at, a.N, []syscall.Errno{syscall.EMFILE, syscall.ENFILE}[a.N%2]) {
					h.Fail("refused", "attack %d: nothing listens on %s", k, at)
				}
				time.Sleep(5*time.Minute + time.Duration(a.N)*time.Second)
				h.Settle()
				fresh(fmt.Sprintf("a fresh client after attack %d (crowd)", k), 100+k)
			case "greet": // a client that does not read what it is greeted with
				at := addr
				if a.Arg == "raw" {
					at = rawAddr
				}
				h.Dial("tcp", at, vnet.Opt{ClientAddr: tcpAddr(67), Capacity: 1000})
				h.Settle()
				fresh(fmt.Sprintf("a fresh client after attack %d (greet)", k), 100+k)
			case "rawbytes", "rawpanic":
				d := a.Data
				if a.Kind == "rawpanic" {
					d = []byte("!")
				}
				if x := h.Dial("tcp", rawAddr, vnet.Opt{ClientAddr: tcpAddr(68)}); x != nil {
					x.Send(d)
					h.Settle()
					if a.Close {
						x.Conn.Close()
					}
				}
				h.Settle()
				askRaw(goodRaw, fmt.Sprintf("after attack %d (%s)", k, a.Kind))
			case "many", "churn": // a great many clients, all at once or one after the other
				var all []*Client
				for j := 0; j < a.N; j++ {
					at := addr
					if a.Arg == "raw" {
						at = rawAddr
					}
					x := h.Dial("tcp", at, vnet.Opt{ClientAddr: tcpAddr(2000 + 300*k + j)})
					if x == nil {
						h.Fail("refused", "attack %d: connection %d of %d was refused", k, j, a.N)
						return
					}
					switch a.Arg {
					case "bytes":
						x.Send([]byte{0, 0, 0, 3, 1, 1, 1, 1, 1, 1, 1, 1})
					case "half":
						x.Send(msgFrame(1, js("zzzzzzzz"))[:9])
					case "panic":
						x.Send(msgFrame(2, js("x")))
					case "pipecut":
						x.Send(pipeFrame(1, `"enable;3"`, js("p")))
					case "hangup":
						x.Conn.Close()
					case "raw":
						x.Send([]byte("!"))
					}
					if a.Kind == "churn" {
						h.Settle()
						x.Conn.Close()
					}
					all = append(all, x)
				}
				h.Settle()
				ask(good, fmt.Sprintf("during attack %d (%s %s)", k, a.Kind, a.Arg))
				fresh(fmt.Sprintf("a fresh client during attack %d (%s %s)", k, a.Kind, a.Arg), 100+k)
				for _, x := range all {
					x.Conn.Close()
				}
			case "park": // keeps the server's handlers busy, one for each message
				for j := 0; j < a.N; j++ {
					b.Send(msgFrame(6, js("x")))
				}
			case "bytes", "frame":
				b.Send(a.Data)
			case "pipeargs":
				b.Send(pipeFrame(1, a.Arg, js("p")))
				for j := 0; j < a.N; j++ {
					b.Send(msgFrame(1, js("q")))
				}
			case "pipecut", "pipepanic":
				var s []byte
				s = append(s, pipeFrame(1, fmt.Sprintf(`"enable;%d"`, a.N), js("p"))...)
				id := int32(1)
				if a.Kind == "pipepanic" {
					id = 2
				}
				for j := 1; j < a.N; j++ {
					s = append(s, msgFrame(id, js("q"))...)
				}
				var cut int
				fmt.Sscan(a.Arg, &cut)
				if a.Kind == "pipecut" && cut < len(s) {
					s = s[:len(s)-cut]
				}
				b.Send(s)
				if a.Kind == "pipecut" {
					h.Settle()
					b.Conn.CloseWrite()
				}
			case "panic":
				b.Send(msgFrame(2, js("x")))
				b.Send(urlFrame("/boom/", js("x")))
				b.Send(msgFrame(5, js("x")))
				b.Send(msgFrame(1, js("y")))
			case "goroutine-panic-nil":
				b.Send(msgFrame(4, js("x")))
			case "slow":
				// one answer only: a library may well write under a lock of the connection
				b.Send(msgFrame(3, js("x")))
				h.Settle()
				bad[i] = nil
			case "hangup":
				b.Conn.Close()
			case "half":
				b.Send(msgFrame(1, js("zzzzzzzz"))[:9])
				b.Conn.CloseWrite()
			}
			if a.Close {
				h.Settle()
				b.Conn.Close()
				bad[i] = nil
			}
			h.Settle()
			if bad[i] != nil && malformed(sent[i], c.Max) {
				e.Label("malformed")
				if !bad[i].Closed() {
					h.Fail("served-on", "after attack %d (%s) the connection is still open, though it sent %s", k, a.Kind, hexs(sent[i]))
				}
			}
			ask(good, fmt.Sprintf("after attack %d (%s)", k, a.Kind))
			if h.Failed() {
				return
			}
		}
		askRaw(goodRaw, "at the end")
		fresh("a fresh client at the end", 99)
		e.NonTrivial()
	})
}

func runHostileUDP(e *Env, c hostileCase) {
	e.Bubble(func(h *H) {
		h.pace = c.Pace
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		srv.AddHandler(1, func(ctx *tcpx.Context) {
			var s string
			if _, err := ctx.Bind(&s); err == nil {
				ctx.JSON(100, s)
			}
		})
		srv.AddHandler(2, func(ctx *tcpx.Context) { panic("boom") })
		srv.AddHandler(6, func(ctx *tcpx.Context) { h.Gate("park") })
		h.Serve(srv, "udp", addr)
		n := 0
		ask := func(who string) {
			n++
			tag := fmt.Sprintf("g%d", n)
			p := h.Net.Packet("udp", addr)
			if p == nil {
				h.Fail("disturbed", "%s: the socket is gone", who)
				return
			}
			before := len(p.Sent())
			h.Net.Send("udp", addr, vnet.Datagram{Data: msgFrame(1, js(tag)), Addr: udpAddr(1)})
			h.Settle()
			out := p.Sent()
			if len(out) != before+1 || out[before].Addr.String() != udpAddr(1).String() {
				h.Fail("disturbed", "%s: request %s got %d answers", who, tag, len(out)-before)
				return
			}
			f, err := wire.Parse(out[before].Data)
			if err != nil || string(f.Body) != string(js(tag)) {
				h.Fail("disturbed", "%s: request %s got %s", who, tag, hexs(out[before].Data))
			}
		}
		ask("before")
		for k, a := range c.Attacks {
			var d []byte
			switch a.Kind {
			case "bytes", "frame":
				d = a.Data
			case "pipeargs":
				d = pipeFrame(2, a.Arg, js("p"))
			case "panic", "pipepanic":
				d = msgFrame(2, js("x"))
			case "idle":
				d = []byte{}
			default:
				d = msgFrame(1, js("zzzzzzzz"))[:9]
			}
			if a.Kind == "park" {
				d = msgFrame(6, js("x"))
				for j := 1; j < a.N; j++ {
					h.Net.Send("udp", addr, vnet.Datagram{Data: d, Addr: udpAddr(2000 + j%7)})
				}
			}
			if a.Kind == "many" || a.Kind == "churn" {
				for j := 0; j < a.N; j++ {
					switch a.Arg {
					case "panic":
						d = msgFrame(2, js("x"))
					case "hangup":
						d = nil
					case "bytes":
						d = []byte{0, 0, 0, 3, 1, 1, 1, 1}
					}
					h.Net.Send("udp", addr, vnet.Datagram{Data: d, Addr: udpAddr(2000 + j)})
					if a.Kind == "churn" {
						h.Settle()
					}
				}
			}
			// an attack may itself be a valid request: let its answer pass first
			h.Net.Send("udp", addr, vnet.Datagram{Data: d, Addr: udpAddr(2)})
			h.Settle()
			ask(fmt.Sprintf("after attack %d (%s %s)", k, a.Kind, hexs(d)))
			if h.Failed() {
				return
			}
		}
		e.NonTrivial()
	})
}

// ---------------------------------------------------------------- C06 composition

type regOp struct {
	Op  string `json:"op"` // global, use, unuse, id, url, bulk
	K   int    `json:"k"`
	Sub int    `json:"sub"` // number of extra functions, for use: another function than before
	ID  int32  `json:"id"`
	URL string `json:"url"`
}

type compCase struct {
	Ops   []regOp `json:"ops"`
	Mode  string  `json:"mode"` // mux, onmessage, raw, udp
	Beat  string  `json:"beat"` // "", off, plain, through, rewrite
	Auth  string  `json:"auth"` // "", off, plain, through
	At    int     `json:"at"`   // position in Ops where heartbeat and auth are set up
	Twice bool    `json:"twice"`
	Pause bool    `json:"pause"` // every function takes a while, so that the requests overlap
	Order []int   `json:"order"`
	Pipe  bool    `json:"pipe,omitempty"` // the requests come as one pipe
}

func genCompCase(t *rapid.T) compCase {
	c := compCase{
		Mode:  rapid.SampledFrom([]string{"mux", "mux", "mux", "mux", "onmessage", "raw", "udp"}).Draw(t, "mode"),
		Beat:  rapid.SampledFrom([]string{"", "", "off", "plain", "through", "rewrite"}).Draw(t, "beat"),
		Auth:  rapid.SampledFrom([]string{"", "", "off", "plain", "through"}).Draw(t, "auth"),
		Twice: rapid.Bool().Draw(t, "twice"),
		Pause: rapid.Bool().Draw(t, "pause"),
	}
	if rapid.IntRange(0, 5).Draw(t, "pipe") == 0 {
		c.Pipe, c.Pause = true, false
	}
	keys := rapid.SampledFrom([]int{0, 1, 4, 4, 12}).Draw(t, "keys")
	inUse := map[int]bool{}
	ids := map[int32]bool{1392: c.Beat != "" && c.Beat != "off", 1393: c.Auth != "" && c.Auth != "off", 1300: true}
	urls := map[string]bool{}
	n := rapid.IntRange(1, 16).Draw(t, "n")
	if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
		n = rapid.IntRange(17, 60).Draw(t, "n")
	}
	g := 0
	var idl []int32
	var urll []string
	bulk := -1
	if rapid.IntRange(0, 149).Draw(t, "bulk") == 149 { // a server with thousands of routes
		bulk = rapid.IntRange(0, n-1).Draw(t, "bulkat")
	}
	uses := -1
	if rapid.IntRange(0, 99).Draw(t, "uses") == 99 { // a server with many middlewares in use
		uses = rapid.IntRange(0, n-1).Draw(t, "usesat")
	}
	for i := 0; i < n; i++ {
		if i == bulk {
			c.Ops = append(c.Ops, regOp{Op: rapid.SampledFrom([]string{"bulk", "bulk-url"}).Draw(t, "bulkkind"), K: rapid.SampledFrom([]int{40, 80, 300, 1000, 2100, 5000}).Draw(t, "routes")})
		}
		if i == uses {
			for k := rapid.IntRange(20, 150).Draw(t, "manyuses"); k > 0; k-- {
				c.Ops = append(c.Ops, regOp{Op: "use", K: 1000 + k})
			}
		}
		switch rapid.IntRange(0, 9).Draw(t, "op") {
		case 0:
			c.Ops = append(c.Ops, regOp{Op: "global", K: g, Sub: rapid.IntRange(0, 2).Draw(t, "sub")})
			g += 3
		case 1, 2:
			k := rapid.IntRange(0, keys).Draw(t, "k")
			if !inUse[k] {
				inUse[k] = true
				c.Ops = append(c.Ops, regOp{Op: "use", K: k, Sub: rapid.IntRange(0, 1).Draw(t, "other")})
			}
		case 3, 4:
			k := rapid.IntRange(0, keys).Draw(t, "k")
			if inUse[k] {
				inUse[k] = false
				c.Ops = append(c.Ops, regOp{Op: "unuse", K: k})
			}
		case 5, 6, 7:
			id := genNearID(t, idl)
			if !ids[id] {
				ids[id] = true
				idl = append(idl, id)
				c.Ops = append(c.Ops, regOp{Op: "id", ID: id, Sub: rapid.IntRange(0, 3).Draw(t, "sub")})
			}
		default:
			u := genURL(t, urll)
			if !urls[u] && (c.Mode != "udp" || len(u) < 200) {
				urls[u] = true
				urll = append(urll, u)
				c.Ops = append(c.Ops, regOp{Op: "url", URL: u, Sub: rapid.IntRange(0, 3).Draw(t, "sub")})
			}
		}
	}
	c.At = rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 31), 0, 8).Draw(t, "order")
	return c
}

// anchor is a middleware key and the function it stands for
type anchor struct {
	key, gen int
	on       bool
}

func (a *anchor) name() string {
	if a.gen == 0 {
		return fmt.Sprintf("anchor%d", a.key)
	}
	return fmt.Sprintf("anchor%d, %d.", a.key, a.gen+1)
}

func runCompCase(e *Env, c compCase) {
	e.Label(c.Mode)
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		var mu sync.Mutex
		logs := map[string][]string{}
		tagOf := func(ctx *tcpx.Context) string {
			if c.Mode == "raw" {
				return "raw"
			}
			var s string
			ctx.BindWithMarshaller(&s, tcpx.JsonMarshaller{})
			return s
		}
		fn := func(name string) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				t := tagOf(ctx)
				mu.Lock()
				logs[t] = append(logs[t], name)
				mu.Unlock()
				if c.Pause {
					time.Sleep(10 * time.Microsecond)
				}
			}
		}
		// the model: what each route must run
		var globals []string
		var anchors []*anchor // in order of first use
		inForce := func() []string {
			var l []string
			for _, a := range anchors {
				if a.on {
					l = append(l, a.name())
				}
			}
			return l
		}
		type route struct {
			frame  func(tag string) []byte
			anch   []string
			own    []string
			bypass bool
		}
		var routes []route
		setup := func() {
			switch c.Beat {
			case "off":
				srv.HeartBeatMode(false, time.Hour)
			case "plain", "through", "rewrite":
				srv.HeartBeatModeDetail(true, time.Hour, c.Beat == "through", 1392)
				bid := int32(1392)
				if c.Beat == "rewrite" {
					bid = 1300
				}
				srv.RewriteHeartBeatHandler(bid, fn("beat"))
				routes = append(routes, route{func(t string) []byte { return msgFrame(bid, js(t)) }, inForce(), []string{"beat"}, c.Beat != "through"})
			}
			switch c.Auth {
			case "off":
				srv.WithAuthDetail(false, time.Hour, false, 1393, nil)
			case "plain", "through":
				srv.WithAuthDetail(true, time.Hour, c.Auth == "through", 1393, fn("auth"))
				routes = append(routes, route{func(t string) []byte { return msgFrame(1393, js(t)) }, inForce(), []string{"auth"}, c.Auth != "through"})
			}
		}
		for i, op := range c.Ops {
			if i == c.At {
				setup()
			}
			switch op.Op {
			case "global":
				var fs []func(*tcpx.Context)
				for j := 0; j <= op.Sub; j++ {
					n := fmt.Sprintf("global%d", op.K+j)
					globals = append(globals, n)
					fs = append(fs, fn(n))
				}
				srv.UseGlobal(fs...)
			case "use":
				var a *anchor
				for _, x := range anchors {
					if x.key == op.K {
						a = x
						e.Label("re-use")
					}
				}
				if a == nil {
					a = &anchor{key: op.K}
					anchors = append(anchors, a)
				} else if op.Sub > 0 { // with another function
					a.gen++
					e.Label("another function for a key")
				}
				srv.Use(fmt.Sprintf("key%d", op.K), fn(a.name()))
				a.on = true
			case "unuse":
				srv.UnUse(fmt.Sprintf("key%d", op.K))
				for _, x := range anchors {
					if x.key == op.K {
						x.on = false
					}
				}
			case "bulk-url":
				for j := 0; j < op.K; j++ {
					srv.Any(fmt.Sprintf("/bulk/%d/", j), fn("bulk"))
				}
				e.Label("thousands of routes")
			case "bulk":
				taken := map[int32]bool{1392: true, 1393: true, 1300: true}
				for _, o := range c.Ops {
					taken[o.ID] = true
				}
				for j, id := 0, int32(-50000000); j < op.K; j, id = j+1, id-1 {
					if !taken[id] {
						srv.AddHandler(id, fn("bulk"))
					}
				}
				e.Label("thousands of routes")
			case "id", "url":
				var fs []func(*tcpx.Context)
				var own []string
				for j := 0; j <= op.Sub; j++ {
					n := fmt.Sprintf("%s%d%s.%d", op.Op, op.ID, op.URL, j)
					own = append(own, n)
					fs = append(fs, fn(n))
				}
				if op.Op == "id" {
					srv.AddHandler(op.ID, fs...)
					routes = append(routes, route{func(t string) []byte { return msgFrame(op.ID, js(t)) }, inForce(), own, false})
				} else {
					srv.Any(op.URL, fs...)
					routes = append(routes, route{func(t string) []byte { return urlFrame(op.URL, js(t)) }, inForce(), own, false})
				}
			}
		}
		if c.At >= len(c.Ops) {
			setup()
		}
		var allAnchors []string
		for _, a := range anchors {
			allAnchors = append(allAnchors, a.name())
		}
		expect := func(r route) []string {
			if c.Mode == "onmessage" {
				return append(append(append([]string{}, globals...), allAnchors...), "onmessage")
			}
			if r.bypass {
				return r.own
			}
			return append(append(append([]string{}, globals...), r.anch...), r.own...)
		}
		if c.Mode == "onmessage" {
			srv.OnMessage = fn("onmessage")
		}
		cmp := func(tag string, want []string) {
			mu.Lock()
			got := logs[tag]
			mu.Unlock()
			if !eqStrings(got, want) {
				h.Fail("chain", "%s mode, request %s ran %v, want %v", c.Mode, tag, got, want)
			}
		}
		if c.Mode == "raw" {
			srv.HandleRaw = fn("raw")
			h.Go(func() error { return srv.ListenAndServeRaw("tcp", addr) })
			h.Settle()
			if h.Dial("tcp", addr, vnet.Opt{}) == nil {
				h.Fail("refused", "raw server does not accept")
				return
			}
			h.Settle()
			cmp("raw", append(append(append([]string{}, globals...), allAnchors...), "raw"))
			if len(globals)+len(allAnchors) > 0 {
				e.NonTrivial()
			}
			return
		}
		network := "tcp"
		if c.Mode == "udp" {
			network = "udp"
		}
		h.Serve(srv, network, addr)
		var cl *Client
		var piped [][]byte
		send := func(b []byte) {
			if network == "udp" {
				h.Net.Send("udp", addr, vnet.Datagram{Data: b, Addr: udpAddr(1)})
				return
			}
			if c.Pipe {
				piped = append(piped, b)
				return
			}
			cl.Send(b)
		}
		if network == "tcp" {
			if cl = h.Dial("tcp", addr, vnet.Opt{}); cl == nil {
				h.Fail("refused", "server does not accept")
				return
			}
		}
		type ask struct {
			tag  string
			want []string
		}
		var asks []ask
		do := func(i int) {
			r := routes[i]
			tag := fmt.Sprintf("t%d", len(asks))
			asks = append(asks, ask{tag, expect(r)})
			send(r.frame(tag))
		}
		for i := range routes {
			do(i)
			if c.Twice {
				do(i)
			}
		}
		if len(routes) > 0 {
			for _, i := range c.Order {
				do(i % len(routes))
			}
		}
		if len(piped) > 0 {
			cl.Send(append(pipeFrame(31337, fmt.Sprintf(`"enable;%d"`, len(piped)+1), js("x")), bytes.Join(piped, nil)...))
		}
		h.Settle()
		for _, a := range asks {
			cmp(a.tag, a.want)
			if len(a.want) > 1 {
				e.NonTrivial()
			}
		}
	})
}

// ---------------------------------------------------------------- C07 next and abort

type chainReq struct {
	Progs []string `json:"progs"` // per function of the chain, a string of actions
	URL   bool     `json:"url"`
	Route int      `json:"route"`
	Conn  int      `json:"conn"`
	Pipe  bool     `json:"pipe"`
}

type chainCase struct {
	Global int        `json:"global"`
	Anchor int        `json:"anchor"`
	Self   []int      `json:"self"` // per route, its own middlewares
	Mode   string     `json:"mode"`
	Reqs   []chainReq `json:"reqs"`
}

// actions: n Next, a Abort, g gate (other requests run meanwhile), l log
func genChainCase(t *rapid.T) chainCase {
	c := chainCase{
		Global: rapid.IntRange(0, 3).Draw(t, "g"), Anchor: rapid.IntRange(0, 3).Draw(t, "a"), Self: rapid.SliceOfN(rapid.IntRange(0, 4), 1, 4).Draw(t, "s"),
		Mode: rapid.SampledFrom([]string{"mux", "mux", "mux", "onmessage", "udp"}).Draw(t, "mode"),
	}
	if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
		c.Global, c.Anchor = rapid.IntRange(4, 14).Draw(t, "g"), rapid.IntRange(4, 14).Draw(t, "a")
	}
	huge := rapid.IntRange(0, 79).Draw(t, "huge") == 0
	if huge {
		c.Global, c.Anchor = rapid.IntRange(15, 140).Draw(t, "g"), rapid.IntRange(15, 140).Draw(t, "a")
	}
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		r := chainReq{Route: rapid.IntRange(0, len(c.Self)-1).Draw(t, "route"), URL: rapid.Bool().Draw(t, "url"), Conn: rapid.IntRange(0, 1).Draw(t, "conn"), Pipe: rapid.IntRange(0, 4).Draw(t, "pipe") == 0}
		m := c.Global + c.Anchor + c.Self[r.Route] + 1
		for j := 0; j < m; j++ {
			if huge && rapid.IntRange(0, 39).Draw(t, "plain") != 0 {
				r.Progs = append(r.Progs, []string{"l", "lnl", "ln", "lg"}[(i+j*j)%4])
				continue
			}
			r.Progs = append(r.Progs, rapid.SampledFrom([]string{"l", "l", "l", "ln", "lnl", "lnl", "la", "lal", "lan", "lanl", "lnal", "lg", "lgn", "lngl", "lga", "lnn", "lagl", "lgag", "lglnl", "lgnga", "lnanl", "lanal"}).Draw(t, "p"))
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

// chainModel is the reference meaning of a chain.
func chainModel(progs []string) []string {
	var out []string
	i, aborted := -1, false
	var next func()
	run := func(k int) {
		for j, a := range progs[k] {
			switch a {
			case 'l':
				out = append(out, fmt.Sprintf("%d.%d", k, j))
			case 'n':
				next()
			case 'a':
				aborted = true
			}
		}
	}
	next = func() {
		for i++; i < len(progs); i++ {
			if aborted {
				return
			}
			run(i)
		}
	}
	next()
	return out
}

func runChainCase(e *Env, c chainCase) {
	e.Label(c.Mode)
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		var mu sync.Mutex
		logs := map[string][]string{}
		fn := func(route, k int) func(*tcpx.Context) { // route -1: any
			return func(ctx *tcpx.Context) {
				var tag string
				ctx.Bind(&tag)
				var q int
				if _, err := fmt.Sscanf(tag, "q%d", &q); err == nil && q < len(c.Reqs) && route >= 0 && c.Reqs[q].Route != route {
					h.Fail("chain", "request %d, for route %d, ran a function of route %d", q, c.Reqs[q].Route, route)
					return
				} else if err != nil || q >= len(c.Reqs) || k >= len(c.Reqs[q].Progs) {
					h.Fail("fabricated", "function %d ran for %q", k, tag)
					return
				}
				for j, a := range c.Reqs[q].Progs[k] {
					switch a {
					case 'l':
						mu.Lock()
						logs[tag] = append(logs[tag], fmt.Sprintf("%d.%d", k, j))
						mu.Unlock()
					case 'n':
						ctx.Next()
					case 'a':
						ctx.Abort()
					case 'g':
						time.Sleep(time.Duration(100+q*37%11*10+k) * time.Microsecond)
					}
				}
			}
		}
		k := 0
		for i := 0; i < c.Global; i++ {
			srv.UseGlobal(fn(-1, k))
			k++
		}
		for i := 0; i < c.Anchor; i++ {
			srv.Use(fmt.Sprintf("k%d", i), fn(-1, k))
			k++
		}
		base := k
		total := func(r chainReq) int {
			if c.Mode == "onmessage" {
				return base + 1
			}
			return base + c.Self[r.Route] + 1
		}
		if c.Mode == "onmessage" {
			srv.OnMessage = fn(-1, base)
		}
		for r, self := range c.Self {
			var own []func(*tcpx.Context)
			for i := base; i < base+self+1; i++ {
				own = append(own, fn(r, i))
			}
			srv.AddHandler(5+int32(r), own...)
			srv.Any(fmt.Sprintf("/c%d/", r), own...)
		}
		network := "tcp"
		if c.Mode == "udp" {
			network = "udp"
		}
		h.Serve(srv, network, addr)
		var cls [2]*Client
		if network == "tcp" {
			for i := range cls {
				if cls[i] = h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(i)}); cls[i] == nil {
					h.Fail("refused", "server does not accept")
					return
				}
			}
		}
		for q, r := range c.Reqs {
			tag := fmt.Sprintf("q%d", q)
			b := msgFrame(5+int32(r.Route), js(tag))
			if r.URL {
				b = urlFrame(fmt.Sprintf("/c%d/", r.Route), js(tag))
			} else if r.Pipe && network == "tcp" {
				b = pipeFrame(5+int32(r.Route), `"enable;1"`, js(tag))
			}
			if network == "udp" {
				h.Net.Send("udp", addr, vnet.Datagram{Data: b, Addr: udpAddr(r.Conn)})
			} else {
				cls[r.Conn].Send(b)
			}
		}
		time.Sleep(100 * time.Millisecond)
		h.Settle()
		for q, r := range c.Reqs {
			total := total(r)
			want := chainModel(r.Progs[:total])
			mu.Lock()
			got := logs[fmt.Sprintf("q%d", q)]
			mu.Unlock()
			if !eqStrings(got, want) {
				h.Fail("chain", "%s mode, %d functions, request %d with programs %v ran %v, want %v", c.Mode, total, q, r.Progs[:total], got, want)
			}
		}
		if total(c.Reqs[0]) >= 2 {
			e.NonTrivial()
		}
		if len(c.Reqs) > 1 {
			e.Label("concurrent")
		}
	})
}

// ---------------------------------------------------------------- C08 pipes

type pipeItem struct {
	Conn  int    `json:"conn"`
	Pipe  int    `json:"pipe"` // 0: a single message; n: a pipe of n messages
	Bad   []int  `json:"bad"`  // positions with an unknown route
	URLs  []int  `json:"urls"` // positions routed by url pattern
	Via   string `json:"via"`  // raw, PipeJSON
	Cut   int    `json:"cut"`
	Arg   string `json:"arg"`
	Sleep []int  `json:"sleep"` // how long (ms) the handler of each position takes
	Abort []int  `json:"abort"`
	Panic []int  `json:"panic"`
	Inner bool   `json:"inner"` // later messages carry a pipe header too
	Pad   int    `json:"pad,omitempty"`
	Pause int    `json:"pause,omitempty"` // ms before it is sent
}

type pipeCase struct {
	Conns []connSpec `json:"conns"`
	Items []pipeItem `json:"items"`
	OnMsg bool       `json:"on_msg"`
	Scale int        `json:"scale,omitempty"` // how many milliseconds each stands for
	Trunc []int      `json:"trunc"`           // per connection: bytes missing from its end
	Unix  bool       `json:"unix,omitempty"`
	Close []string   `json:"close"` // per connection: "" stays open, or how the client ends it at once: write, full
}

func genPipeCase(t *rapid.T) pipeCase {
	c := pipeCase{OnMsg: rapid.IntRange(0, 6).Draw(t, "onmsg") == 0, Unix: genUnix(t)}
	c.Scale = rapid.SampledFrom([]int{1, 1, 1, 1, 100, 5000, 60000, 3600000}).Draw(t, "scale")
	nc := rapid.IntRange(1, 3).Draw(t, "nc")
	for i := 0; i < nc; i++ {
		c.Conns = append(c.Conns, genOpt(t))
		k := 0
		if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
			k = rapid.IntRange(1, 90).Draw(t, "trunc")
		}
		c.Trunc = append(c.Trunc, k)
		c.Close = append(c.Close, rapid.SampledFrom([]string{"", "", "write", "full"}).Draw(t, "close"))
	}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	pos := func(m int, name string) []int {
		return rapid.SliceOfN(rapid.IntRange(0, m), 0, 2).Draw(t, name)
	}
	for i := 0; i < n; i++ {
		it := pipeItem{Conn: rapid.IntRange(0, nc-1).Draw(t, "conn"), Pipe: rapid.IntRange(0, 7).Draw(t, "pipe"), Via: rapid.SampledFrom([]string{"raw", "PipeJSON"}).Draw(t, "via")}
		if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
			it.Pipe = rapid.IntRange(8, 120).Draw(t, "pipe")
			if rapid.IntRange(0, 14).Draw(t, "longest") == 0 {
				it.Pipe = rapid.IntRange(250, 700).Draw(t, "pipe")
				if rapid.IntRange(0, 9).Draw(t, "endless") == 5 {
					it.Pipe = rapid.SampledFrom([]int{1030, 2060, 4100, 8200}).Draw(t, "pipe")
				}
			}
		}
		it.Pause = rapid.SampledFrom([]int{0, 0, 2, 15}).Draw(t, "pause")
		if rapid.IntRange(0, 5).Draw(t, "padded") == 0 && it.Pipe < 30 {
			it.Pad = genSize(t)
		}
		if it.Pipe > 0 {
			it.Bad, it.Abort, it.Panic = pos(it.Pipe-1, "bad"), pos(it.Pipe-1, "abort"), pos(it.Pipe-1, "panic")
			if it.Via == "raw" {
				it.URLs = pos(it.Pipe-1, "urls")
				it.Inner = rapid.IntRange(0, 9).Draw(t, "inner") == 0
			}
			it.Cut = rapid.SampledFrom([]int{0, 0, 1, 4, 20, 33, 50}).Draw(t, "cutat")
		}
		it.Sleep = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 3, 9, 20}), 1, 4).Draw(t, "sleep")
		c.Items = append(c.Items, it)
	}
	return c
}

func has(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// sink collects what a client helper writes.
type sink struct {
	readerConn
	b bytes.Buffer
	n int
}

func (s *sink) Write(p []byte) (int, error) { s.n++; return s.b.Write(p) }

func runPipeCase(e *Env, c pipeCase) {
	e.Bubble(func(h *H) {
		h.unix = c.Unix
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		rec := &recorder{}
		ms := time.Duration(max(c.Scale, 1)) * time.Millisecond
		for _, it := range c.Items {
			if it.Pipe > 1000 {
				ms = min(ms, time.Minute) // the virtual clock ends in 2262
			}
		}
		work := func(route string) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				v := rec.begin(route, ctx)
				var i, p int
				if _, err := fmt.Sscanf(v.bind, "i%d.%d", &i, &p); err == nil && i < len(c.Items) {
					s := c.Items[i].Sleep
					if d := s[p%len(s)]; d > 0 {
						time.Sleep(time.Duration(d) * ms)
					}
					if has(c.Items[i].Abort, p) {
						ctx.Abort()
					}
					if has(c.Items[i].Panic, p) {
						rec.finish(v)
						panic("a handler's own panic")
					}
				}
				rec.finish(v)
			}
		}
		srv.AddHandler(1, work("id"))
		srv.Any("/p/", work("url"))
		if c.OnMsg {
			srv.OnMessage = work("onmessage")
		}
		h.Serve(srv, "tcp", addr)
		clients := make([]*Client, len(c.Conns))
		streams := make([][]byte, len(c.Conns))
		type msg struct {
			tag   string
			known bool
			end   int // offset of its end in the stream
			item  int
			raw   []byte
		}
		order := make([][]msg, len(c.Conns))
		for i := range c.Conns {
			if clients[i] = h.Dial("tcp", addr, c.Conns[i].opt(i)); clients[i] == nil {
				h.Fail("refused", "server does not accept")
				return
			}
		}
		type piece struct {
			conn int
			b    []byte
			wait int
			item int // it completes this item
		}
		var pieces []piece
		for i, it := range c.Items {
			n := it.Pipe
			if n == 0 {
				n = 1
			}
			var b []byte
			var ends []int
			base := len(streams[it.Conn])
			if it.Pipe > 0 && it.Via == "PipeJSON" {
				var args []any
				for p := 0; p < n; p++ {
					id := 1
					if has(it.Bad, p) {
						id = 99
					}
					args = append(args, id, fmt.Sprintf("i%d.%d", i, p)+string(blanks(it.Pad)))
				}
				var s sink
				if err := tcpx.PipeJSON(&s, args...); err != nil {
					h.Fail("pipejson", "PipeJSON: %v", err)
					return
				}
				b = s.b.Bytes()
				if s.n != 1 {
					h.Fail("pipejson", "PipeJSON made %d writes of a pipe of %d messages (%d bytes)", s.n, n, len(b))
				}
				fs, err := wire.Split(b)
				if err != nil || len(fs) != n {
					h.Fail("pipejson", "PipeJSON wrote %d blocks (%v), want %d", len(fs), err, n)
					return
				}
				off := 0
				for _, f := range fs {
					off += len(f.Raw)
					ends = append(ends, base+off)
				}
			} else {
				for p := 0; p < n; p++ {
					tag := js(fmt.Sprintf("i%d.%d", i, p))
					hd := map[string]any{}
					if it.Pipe > 0 && p == 0 {
						hd["[tcpx-buffer-in-serial]"] = fmt.Sprintf("enable;%d", n)
					} else if it.Inner {
						hd["[tcpx-buffer-in-serial]"] = "enable;2"
					}
					id := int32(1)
					if has(it.Bad, p) {
						id = 99
					}
					if has(it.URLs, p) {
						hd["Router-Type"], hd["Router-Pattern-Value"] = "URL_PATTERN", "/p/"
					}
					tag = append(tag, blanks(it.Pad)...)
					b = append(b, wire.Build(id, js(hd), tag)...)
					ends = append(ends, base+len(b))
				}
			}
			for p := 0; p < n; p++ {
				known := c.OnMsg || !has(it.Bad, p) || has(it.URLs, p)
				from := 0
				if p > 0 {
					from = ends[p-1] - base
				}
				order[it.Conn] = append(order[it.Conn], msg{fmt.Sprintf("i%d.%d", i, p), known, ends[p], i, b[from : ends[p]-base]})
			}
			streams[it.Conn] = append(streams[it.Conn], b...)
			if it.Cut > 0 && it.Cut < len(b) {
				pieces = append(pieces, piece{it.Conn, b[:it.Cut], it.Pause, -1}, piece{it.Conn, b[it.Cut:], 5, i})
			} else {
				pieces = append(pieces, piece{it.Conn, b, it.Pause, i})
			}
		}
		limit := make([]int, len(c.Conns))
		for i := range c.Conns {
			limit[i] = len(streams[i]) - c.Trunc[i]
			if limit[i] < 0 {
				limit[i] = 0
			}
		}
		sentN := make([]int, len(c.Conns))
		arrived := make([]time.Time, len(c.Items)) // when the last byte of it had been sent
		lastOf := map[int]int{}
		for k, p := range pieces {
			lastOf[p.conn] = k
		}
		ended := make([]time.Time, len(c.Conns))
		end := func(ci int) {
			ended[ci] = time.Now()
			switch c.Close[ci] {
			case "write":
				clients[ci].Conn.CloseWrite()
			case "full":
				clients[ci].Close()
			}
		}
		for k, p := range pieces {
			time.Sleep(time.Duration(p.wait) * ms)
			b := p.b
			if sentN[p.conn]+len(b) > limit[p.conn] {
				b = b[:limit[p.conn]-sentN[p.conn]]
			}
			sentN[p.conn] += len(b)
			if len(b) > 0 {
				clients[p.conn].Send(b)
			}
			if p.item >= 0 {
				arrived[p.item] = time.Now()
			}
			if lastOf[p.conn] == k {
				end(p.conn)
			}
		}
		time.Sleep(600000 * ms)
		h.Settle()
		for i := range c.Conns {
			if c.Close[i] != "" {
				e.Label("closed-while-handling")
			} else if c.Trunc[i] > 0 {
				clients[i].Conn.CloseWrite()
				ended[i] = time.Now()
			}
			if c.Trunc[i] > 0 {
				e.Label("truncated")
			}
		}
		time.Sleep(600000 * ms)
		h.Settle()
		got := rec.byTag()
		known := map[string]bool{}
		for ci := range c.Conns {
			itemEnd := map[int]int{}
			for _, m := range order[ci] {
				itemEnd[m.item] = m.end
			}
			prevEnd := map[int]int{} // per item: when the previous message finished
			due := map[int]time.Time{}
			for _, m := range order[ci] {
				known[m.tag] = true
				vs := got[m.tag]
				if !m.known {
					if len(vs) > 0 {
						h.Fail("misrouted", "%s has no handler but was handled", m.tag)
					}
					continue
				}
				if len(vs) == 0 {
					if m.end <= limit[ci] {
						h.Fail("lost", "%s arrived but was never handled", m.tag)
						return
					}
					continue
				}
				if len(vs) > 1 {
					h.Fail("duplicated", "%s was handled %d times", m.tag, len(vs))
					return
				}
				v := vs[0]
				if m.end > limit[ci] {
					h.Fail("fabricated", "%s was handled but never arrived completely", m.tag)
				}
				if !bytes.Equal(v.stream, m.raw) || !bytes.Equal(v.streamEnd, m.raw) {
					h.Fail("altered", "%s: the handler saw %s, sent was %s", m.tag, hexs(v.stream), hexs(m.raw))
				}
				// nothing but its own pipe holds a message up
				if _, ok := due[m.item]; !ok {
					due[m.item] = arrived[m.item]
					if itemEnd[m.item] > limit[ci] {
						due[m.item] = ended[ci]
					}
				}
				if late := v.at.Sub(due[m.item]); late > time.Millisecond {
					h.Fail("waited", "%s was handled %v after it could have been", m.tag, late)
				}
				if c.Items[m.item].Pipe > 0 && v.endAt.After(due[m.item]) {
					due[m.item] = v.endAt
				}
				if v.end == 0 {
					h.Fail("unfinished", "%s: handler did not finish", m.tag)
				}
				if c.Items[m.item].Pipe > 0 {
					if v.begin < prevEnd[m.item] {
						h.Fail("order", "%s began before the message ahead of it in its pipe had been handled", m.tag)
					}
					prevEnd[m.item] = v.end
				}
			}
			if c.Trunc[ci] == 0 && c.Close[ci] == "" && clients[ci].Closed() {
				h.Fail("closed", "the server closed connection %d", ci)
			}
		}
		for tag := range got {
			if !known[tag] {
				h.Fail("fabricated", "%q was handled but never sent", tag)
			}
		}
		for _, it := range c.Items {
			if it.Pipe >= 2 {
				e.NonTrivial()
			}
		}
	})
}

// ---------------------------------------------------------------- C09 size limit

type limitReq struct {
	Conn int    `json:"conn"`
	Size int    `json:"size"` // declared length minus the limit
	Pipe int    `json:"pipe"` // messages in the pipe it starts (0: none)
	Decl string `json:"decl"` // "", or a declared length (hex, or relative to the limit) sent without content, after = without anything
	ID   int32  `json:"id"`   // 2 has no handler
}

type limitCase struct {
	Max  int32      `json:"max"`
	Spec []connSpec `json:"spec"`
	Reqs []limitReq `json:"reqs"`

	Pace  int   `json:"pace,omitempty"`
	Other int32 `json:"other"` // the limit of a second server in the same process (0: none)
}

func genLimitCase(t *rapid.T) limitCase {
	c := limitCase{Max: rapid.OneOf(rapid.SampledFrom([]int32{40, 64, 100, 1000, 0}), rapid.Int32Range(40, 300), rapid.SampledFrom([]int32{255, 256, 1024, 4096, 32767, 32768, 65535, 65536, 70000, 200000, 2147483647})).Draw(t, "max")}
	switch rapid.IntRange(0, 59).Draw(t, "oddmax") {
	case 0:
		c.Max = rapid.SampledFrom([]int32{300000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20}).Draw(t, "max")
	case 1:
		c.Max = rapid.SampledFrom([]int32{-1, -100, -2147483648}).Draw(t, "max")
	case 2, 3: // the smallest there are
		c.Max = rapid.Int32Range(17, 40).Draw(t, "max")
	case 4: // nothing at all fits
		c.Max = rapid.Int32Range(1, 17).Draw(t, "max")
	}
	for i := 0; i < 2; i++ {
		c.Spec = append(c.Spec, genOpt(t))
	}
	c.Other = rapid.Int32Range(40, 400).Draw(t, "other")
	c.Pace = genPace(t)
	n := rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, limitReq{
			Conn: rapid.IntRange(0, 1).Draw(t, "conn"),
			Size: rapid.OneOf(rapid.IntRange(-20, 0), rapid.IntRange(-3, 3), rapid.IntRange(-5, 5), rapid.IntRange(1, 2000), rapid.SampledFrom([]int{-1000000, 65536, 100000})).Draw(t, "size"),
			Pipe: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 5}).Draw(t, "pipe"),
			Decl: rapid.SampledFrom([]string{"", "", "", "", "7fffffff", "80000000", "80000010", "ffffffff", "fffffffc", "00100000", "+1", "+2", "=7fffffff", "=+1", "=80000010"}).Draw(t, "decl"),
			ID:   rapid.SampledFrom([]int32{1, 1, 1, 2}).Draw(t, "id"),
		})
	}
	if rapid.IntRange(0, 11).Draw(t, "long") == 5 && c.Max > 0 && c.Max <= 4096 {
		// a long pipe of messages each within the limit
		k := rapid.IntRange(8, 64).Draw(t, "longpipe")
		conn := rapid.IntRange(0, 1).Draw(t, "conn")
		var long []limitReq
		for i := 0; i < k; i++ {
			q := limitReq{Conn: conn, Size: rapid.SampledFrom([]int{0, 0, 0, -1, -5}).Draw(t, "size"), ID: 1}
			if i == 0 {
				q.Pipe = k
			}
			long = append(long, q)
		}
		c.Reqs = append(long, c.Reqs...)
	}
	return c
}

func runLimitCase(e *Env, c limitCase) {
	e.Bubble(func(h *H) {
		h.pace = c.Pace
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		if c.Max != 0 {
			srv.SetMaxBytePerMessage(c.Max)
		}
		rec := &recorder{}
		srv.AddHandler(1, func(ctx *tcpx.Context) { rec.finish(rec.begin("1", ctx)) })
		h.Serve(srv, "tcp", addr)
		if c.Other > 0 {
			o := tcpx.NewTcpX(tcpx.JsonMarshaller{})
			o.SetMaxBytePerMessage(c.Other)
			o.AddHandler(1, func(ctx *tcpx.Context) { h.Log("other") })
			h.Serve(o, "tcp", ":7272")
		}
		cls := make([]*Client, 2)
		for i := range cls {
			if cls[i] = h.Dial("tcp", addr, c.Spec[i].opt(i)); cls[i] == nil {
				h.Fail("refused", "server does not accept")
				return
			}
		}
		dead := make([]bool, 2)
		inPipe := make([]int, 2) // messages still owed to an open pipe
		pipeStart := make([]int, 2)
		var must, maybe, never []string
		var held [2][]string // messages of a pipe that is not complete yet
		over := false
		for i, r := range c.Reqs {
			tag := fmt.Sprintf("m%d", i)
			max := int(c.Max)
			if max <= 0 || max > 1<<24 {
				max = 100
				if r.Size > 2000 {
					max = 100000
				}
			}
			b := js(tag)
			hd := []byte(`{}`)
			isPipe := r.Pipe > 0 && inPipe[r.Conn] == 0
			if isPipe {
				hd = []byte(fmt.Sprintf(`{"[tcpx-buffer-in-serial]":"enable;%d"}`, r.Pipe))
			}
			target := max + r.Size
			if n := target - 12 - len(hd) - len(b); n > 0 {
				b = append(b, blanks(n)...)
			}
			f := wire.Build(r.ID, hd, b)
			decl := len(f) - 4
			big := c.Max > 0 && decl > int(c.Max)
			if d := strings.TrimPrefix(r.Decl, "="); d != "" && c.Max > 0 && (c.Max < 1<<20 || d[0] > '7') {
				var w uint32
				if d[0] == '+' {
					fmt.Sscanf(d, "+%d", &w)
					w += uint32(c.Max)
				} else {
					fmt.Sscanf(d, "%x", &w)
				}
				decl = int(w)
				f = append([]byte{byte(w >> 24), byte(w >> 16), byte(w >> 8), byte(w)}, []byte{0, 0, 0, 1, 0, 0}...)
				if d != r.Decl { // the length alone
					f = f[:4]
				}
				big = true
			}
			cls[r.Conn].Send(f)
			if dead[r.Conn] {
				never = append(never, tag)
				continue
			}
			if big {
				over = true
				dead[r.Conn] = true
				never = append(never, tag)
				// what the open pipe had already received may be handled, or not
				maybe = append(maybe, held[r.Conn]...)
				held[r.Conn] = nil
				h.settleNow()
				if !cls[r.Conn].Closed() {
					h.Fail("open", "max %d: the connection is still open after a message of declared length %d (%s)", c.Max, decl, r.Decl)
				}
				continue
			}
			switch {
			case isPipe && r.Pipe > 1:
				inPipe[r.Conn] = r.Pipe - 1
				pipeStart[r.Conn] = i
				held[r.Conn] = nil
				if r.ID == 1 {
					held[r.Conn] = []string{tag}
				}
			case inPipe[r.Conn] > 0:
				inPipe[r.Conn]--
				if r.ID == 1 {
					held[r.Conn] = append(held[r.Conn], tag)
				} else {
					never = append(never, tag)
				}
				if inPipe[r.Conn] == 0 {
					must = append(must, held[r.Conn]...)
					held[r.Conn] = nil
				}
			case r.ID != 1:
				never = append(never, tag)
			default:
				must = append(must, tag)
			}
		}
		h.Settle()
		got := rec.byTag()
		for _, t := range must {
			if len(got[t]) != 1 {
				h.Fail("lost", "max %d: %s, within the limit and ahead of any oversize message, was handled %d times", c.Max, t, len(got[t]))
			}
		}
		for _, t := range never {
			if len(got[t]) != 0 {
				h.Fail("handled", "max %d: %s, oversize, behind an oversize message or without a handler, was handled", c.Max, t)
			}
		}
		for i := range cls {
			if !dead[i] && cls[i].Closed() {
				h.Fail("closed", "max %d: connection %d, which sent nothing oversize, was closed", c.Max, i)
			}
		}
		fresh := h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(9)})
		if fresh == nil {
			h.Fail("refused", "a new connection is refused")
			return
		}
		ff := msgFrame(1, js("f"))
		fresh.Send(ff)
		h.Settle()
		want := 1
		if c.Max > 0 && len(ff)-4 > int(c.Max) {
			want = 0
		}
		if n := len(rec.byTag()["f"]); n != want || fresh.Closed() != (want == 0) {
			h.Fail("lost", "max %d: a fresh connection's message of %d bytes was handled %d times (closed: %v)", c.Max, len(ff)-4, n, fresh.Closed())
		}
		_ = maybe
		// every whole message keeps its bytes
		for _, v := range rec.all() {
			if f, err := wire.Parse(v.stream); err != nil || len(f.Raw) != len(v.stream) {
				h.Fail("altered", "a handler saw %s", hexs(v.stream))
			}
		}
		if c.Other > 0 {
			o := h.Dial("tcp", ":7272", vnet.Opt{ClientAddr: tcpAddr(11)})
			if o == nil {
				h.Fail("refused", "the other server refuses a connection")
				return
			}
			o.Send(wire.Build(1, []byte(`{}`), bytes.Repeat([]byte("1"), int(c.Other)-14)))
			h.Settle()
			if n := len(h.TakeEvents()); n != 1 || o.Closed() {
				h.Fail("lost", "another server with limit %d handled a message of that length %d times", c.Other, n)
			}
			o.Send(wire.Build(1, []byte(`{}`), bytes.Repeat([]byte("1"), int(c.Other)-13)))
			h.Settle()
			if n := len(h.TakeEvents()); n != 0 || !o.Closed() {
				h.Fail("handled", "another server with limit %d handled a longer message %d times", c.Other, n)
			}
		}
		if over {
			e.NonTrivial()
			e.Label("oversize")
		}
	})
}

// ---------------------------------------------------------------- C10 scopes

type scopeOp struct {
	Set  bool   `json:"set"`
	Conn bool   `json:"conn"` // connection scope (else request scope)
	Key  string `json:"key"`
	Val  int    `json:"val"`
}

type scopeReq struct {
	Conn int          `json:"conn"`
	URL  bool         `json:"url"`
	Gate bool         `json:"gate"`
	Pipe bool         `json:"pipe"` // sent with the next one as a pipe
	Ops  [4][]scopeOp `json:"ops"`  // global middleware, own middleware, handler, global middleware after Next
}

type scopeCase struct {
	Conns   int        `json:"conns"`
	Connect []scopeOp  `json:"connect"`
	Reqs    []scopeReq `json:"reqs"`
	Names   bool       `json:"names"`
	HB      bool       `json:"hb"`
	Loss    []scopeOp  `json:"loss"`
	OnMsg   bool       `json:"onmsg"`
	Bulk    int        `json:"bulk,omitempty"` // how many keys more there are
	Unix    bool       `json:"unix,omitempty"`
	Pace    int        `json:"pace,omitempty"`
}

type scopeKey struct{ K string }

var scopeKeys = []string{"a", "b", "router_type", "url_pattern", "username", "c", "A", "i5", "n5", "5", "t5", ""}

// key is the key a name stands for: keys of any type can be used.
func (scopeOp) key(k string) any {
	switch k {
	case "i5":
		return 5
	case "n5":
		return int32(5)
	case "t5":
		return scopeKey{"5"}
	}
	return k
}

func genScopeOps(t *rapid.T, max int) []scopeOp {
	n := rapid.IntRange(0, max).Draw(t, "nops")
	var l []scopeOp
	for i := 0; i < n; i++ {
		l = append(l, scopeOp{Set: rapid.Bool().Draw(t, "set"), Conn: rapid.Bool().Draw(t, "conn"), Key: rapid.SampledFrom(scopeKeys).Draw(t, "key"), Val: rapid.IntRange(0, 99).Draw(t, "val")})
	}
	return l
}

func genScopeCase(t *rapid.T) scopeCase {
	c := scopeCase{Conns: rapid.IntRange(1, 4).Draw(t, "conns"), Connect: genScopeOps(t, 3), Names: rapid.Bool().Draw(t, "names"),
		HB: rapid.Bool().Draw(t, "hb"), Loss: genScopeOps(t, 3), OnMsg: rapid.IntRange(0, 5).Draw(t, "onmsg") == 0, Unix: genUnix(t)}
	if !c.HB {
		c.Pace = genPace(t)
	}
	for i := range c.Connect {
		c.Connect[i].Conn = true
	}
	for i := range c.Loss {
		c.Loss[i].Conn = true
	}
	n := rapid.IntRange(1, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		r := scopeReq{Conn: rapid.IntRange(0, c.Conns-1).Draw(t, "conn"), URL: rapid.Bool().Draw(t, "url"), Gate: rapid.IntRange(0, 2).Draw(t, "gate") == 0, Pipe: rapid.IntRange(0, 3).Draw(t, "pipe") == 0}
		for j := range r.Ops {
			r.Ops[j] = genScopeOps(t, 3)
		}
		c.Reqs = append(c.Reqs, r)
	}
	if rapid.IntRange(0, 39).Draw(t, "bulk") == 0 {
		c.Bulk = rapid.IntRange(10, 150).Draw(t, "bulkn")
		for k := rapid.IntRange(1, 2).Draw(t, "times"); k > 0; k-- {
			r := rapid.IntRange(0, n-1).Draw(t, "bulkreq")
			j := rapid.IntRange(0, 3).Draw(t, "bulkat")
			conn := rapid.Bool().Draw(t, "bulkconn")
			for i := 0; i < c.Bulk; i++ {
				c.Reqs[r].Ops[j] = append(c.Reqs[r].Ops[j], scopeOp{Set: true, Conn: conn, Key: fmt.Sprintf("k%d", i), Val: i + k})
			}
		}
	}
	return c
}

func runScopeCase(e *Env, c scopeCase) {
	scopeKeys := append([]string(nil), scopeKeys...)
	for i := 0; i < c.Bulk; i++ {
		scopeKeys = append(scopeKeys, fmt.Sprintf("k%d", i))
	}
	e.Bubble(func(h *H) {
		srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
		h.unix, h.pace = c.Unix, c.Pace
		connModel := make([]map[string]any, c.Conns)
		for i := range connModel {
			connModel[i] = map[string]any{}
		}
		reqModel := make([]map[string]any, len(c.Reqs))
		kept := make([]*tcpx.Context, len(c.Reqs))
		for i := range reqModel {
			reqModel[i] = map[string]any{}
		}
		which := func(ctx *tcpx.Context) int {
			for i := range connModel {
				if addrName(ctx.Conn.RemoteAddr()) == tcpAddr(i).String() {
					return i
				}
			}
			h.Fail("scope", "a context of an unknown connection")
			return 0
		}
		// requests run one after the other except for gated ones, which are parked between
		// their middlewares and their handler: the model sees operations in the real order
		var mu sync.Mutex
		check := func(ctx *tcpx.Context, m map[string]any, conn bool, where string) {
			for _, key := range scopeKeys {
				var got any
				var ok bool
				if conn {
					got, ok = ctx.GetCtxPerConn(scopeOp{}.key(key))
				} else {
					got, ok = ctx.GetCtxPerRequest(scopeOp{}.key(key))
					if (key == "router_type" || key == "url_pattern") && !ok {
						continue
					}
				}
				want, wok := m[key]
				if (key == "router_type" || key == "url_pattern") && !wok {
					continue // the library may keep the route under these keys
				}
				if ok != wok || (ok && got != want) {
					h.Fail("scope", "%s: key %q in %s scope is %v (%v), want %v (%v)", where, key, map[bool]string{true: "connection", false: "request"}[conn], got, ok, want, wok)
				}
			}
		}
		do := func(ctx *tcpx.Context, conn, req int, ops []scopeOp, where string) {
			mu.Lock()
			defer mu.Unlock()
			for k, o := range ops {
				m := connModel[conn]
				if !o.Conn {
					m = reqModel[req]
				}
				var val any = fmt.Sprintf("%s.%d.%d", where, k, o.Val)
				switch o.Val % 9 {
				case 0:
					val = nil
				case 1:
					val = o.Val
				case 2:
					val = o.Val > 50
				case 3:
					val = ""
				}
				if o.Set {
					if o.Conn {
						ctx.SetCtxPerConn(o.key(o.Key), val)
					} else {
						ctx.SetCtxPerRequest(o.key(o.Key), val)
					}
					m[o.Key] = val
				}
				check(ctx, m, o.Conn, where)
			}
		}
		name := func(ctx *tcpx.Context, where string) {
			if c.Names {
				w := fmt.Sprintf("user%d", which(ctx))
				if n, ok := ctx.Username(); !ok || n != w || ctx.GetUsername() != w {
					h.Fail("scope", "%s: username is %q (%v), want %q", where, n, ok, w)
				}
			} else if n, ok := ctx.Username(); ok {
				h.Fail("scope", "%s: username is %q on a connection that never set one", where, n)
			}
		}
		srv.OnConnect = func(ctx *tcpx.Context) {
			do(ctx, which(ctx), 0, c.Connect, "connect")
			if c.Names {
				ctx.SetUsername(fmt.Sprintf("user%d", which(ctx)))
			}
		}
		srv.OnClose = func(ctx *tcpx.Context) {
			mu.Lock()
			check(ctx, connModel[which(ctx)], true, "OnClose")
			mu.Unlock()
			name(ctx, "OnClose")
			h.Log("closed %d", which(ctx))
		}
		if c.HB {
			srv.HeartBeatMode(true, time.Second)
			srv.OnHeartbeatLoss = func(ctx *tcpx.Context) {
				mu.Lock()
				check(ctx, connModel[which(ctx)], true, "OnHeartbeatLoss")
				mu.Unlock()
				name(ctx, "OnHeartbeatLoss")
				do(ctx, which(ctx), 0, c.Loss, "loss")
				h.Log("loss %d", which(ctx))
			}
		}
		stage := func(k int) func(*tcpx.Context) {
			return func(ctx *tcpx.Context) {
				var tag string
				ctx.Bind(&tag)
				var q int
				if _, err := fmt.Sscanf(tag, "q%d", &q); err != nil || q >= len(c.Reqs) {
					return
				}
				if k == 2 && c.Reqs[q].Gate {
					h.Gate(tag)
				}
				where := fmt.Sprintf("%s.%d", tag, k)
				name(ctx, where)
				if k == 0 {
					mu.Lock()
					check(ctx, reqModel[q], false, where+" (at the start)")
					check(ctx, connModel[which(ctx)], true, where+" (at the start)")
					kept[q] = ctx
					mu.Unlock()
				}
				do(ctx, which(ctx), q, c.Reqs[q].Ops[k], where)
				if k == 2 {
					if p, _ := safely(func() { ctx.SetCtxPerConn("tcpx-secret", 1) }); p == nil {
						h.Fail("reserved", "SetCtxPerConn accepted a key reserved for the library")
					}
					h.Log("done %s", tag)
				}
				if k == 0 && len(c.Reqs[q].Ops[3]) > 0 {
					ctx.Next()
					do(ctx, which(ctx), q, c.Reqs[q].Ops[3], where+" (after Next)")
				}
			}
		}
		srv.UseGlobal(stage(0))
		if c.OnMsg {
			srv.Use("own", stage(1))
			srv.OnMessage = stage(2)
		}
		srv.AddHandler(1, stage(1), stage(2))
		srv.Any("/s/", stage(1), stage(2))
		h.Serve(srv, "tcp", addr)
		cls := make([]*Client, c.Conns)
		for i := range cls {
			if cls[i] = h.Dial("tcp", addr, vnet.Opt{ClientAddr: tcpAddr(i)}); cls[i] == nil {
				h.Fail("refused", "server does not accept")
				return
			}
		}
		h.Settle()
		skip := false
		for q, r := range c.Reqs {
			tag := fmt.Sprintf("q%d", q)
			hd := map[string]any{}
			if r.URL {
				hd["Router-Type"], hd["Router-Pattern-Value"] = "URL_PATTERN", "/s/"
			}
			conn := r.Conn
			if skip {
				conn = c.Reqs[q-1].Conn
			}
			if r.Pipe && !skip && q+1 < len(c.Reqs) && !r.Gate {
				hd["[tcpx-buffer-in-serial]"] = "enable;2"
				skip = true
			} else {
				skip = false
			}
			cls[conn].Send(wire.Build(1, js(hd), js(tag)))
			h.Settle()
		}
		for q := range c.Reqs {
			h.Open(fmt.Sprintf("q%d", q))
			h.Settle()
		}
		if ev := h.TakeEvents(); len(ev) != len(c.Reqs) {
			sort.Strings(ev)
			h.Fail("lost", "%d requests, handlers finished: %v", len(c.Reqs), ev)
			return
		}
		// a context kept after its request still does not see another request's values
		mu.Lock()
		for q, ctx := range kept {
			for _, key := range scopeKeys {
				if key == "router_type" || key == "url_pattern" {
					continue
				}
				v, ok := ctx.GetCtxPerRequest(scopeOp{}.key(key))
				if want, wok := reqModel[q][key]; wok != ok || v != want {
					h.Fail("scope", "the kept context of q%d has %v under %q in request scope, want %q (%v)", q, v, key, want, wok)
				}
				v, ok = ctx.GetCtxPerConn(scopeOp{}.key(key))
				if want, wok := connModel[which(ctx)][key]; wok != ok || v != want {
					h.Fail("scope", "the kept context of q%d has %v under %q in connection scope, want %q (%v)", q, v, key, want, wok)
				}
			}
		}
		mu.Unlock()
		if c.HB {
			time.Sleep(4 * time.Second)
		} else {
			for _, cl := range cls {
				cl.Close()
			}
		}
		h.Settle()
		want := c.Conns
		if c.HB {
			want *= 2
		}
		if ev := h.TakeEvents(); len(ev) != want {
			h.Fail("events", "%d connections ended, events: %v", c.Conns, ev)
		}
		sets := 0
		for _, r := range c.Reqs {
			for _, ops := range r.Ops {
				for _, o := range ops {
					if o.Set {
						sets++
					}
				}
			}
		}
		if sets > 0 && len(c.Reqs) > 1 {
			e.NonTrivial()
		}
	})
}

var _ = json.Marshal

func init() {
	reg("C05", "dispatch", 32000, 320000, "1-14 requests over 1-4 connections (at times up to 260 connections, or bodies of up to 2.2 MB) with message-id and url routes, known and unknown, drawn header shapes, read plans, split writes, handlers parked at gates (at times 2200 of them), contexts used after the handler has returned and up to a day between the steps; one case in eight on a unix socket, whose clients all have the same address; non-trivial: at least two requests reach a handler", genDispCase, runDispCase)
	reg("C05", "alike", 8000, 80000, "1-8 messages of a few kinds, without body or header or with the same ones, each sent 1-4 (at times 300) times in a row, alone or as one pipe, answered or not; non-trivial: some message was sent more than once", genAlikeCase(false), runAlikeCase)
	reg("C17", "alike", 8000, 80000, "1-8 datagrams of a few kinds from 1-3 peers, without body or header or with the same ones, each sent 1-4 (at times 300) times in a row, answered or not; non-trivial: some datagram was sent more than once", genAlikeCase(true), runAlikeCase)
	reg("C04", "hostile", 24000, 240000, "1-8 attacks (arbitrary bytes, perturbed blocks, pipe arguments, cut pipes, panicking handlers, non-reading and vanishing clients, so many that accepting fails for a while, and at times hundreds of connections, datagrams or busy handlers in one attack) over TCP, raw or UDP, a bystander's request after each; non-trivial: every attack was carried out", genHostileCase, runHostileCase)
	reg("C06", "compose", 48000, 480000, "a registration history of up to 16 steps (global, use, un-use, re-use, message-id and url handlers with own middleware, heartbeat and auth set-up) and requests to every route, single or as one pipe; non-trivial: some route's chain has more than one function", genCompCase, runCompCase)
	reg("C07", "chain", 96000, 960000, "1-6 overlapping requests through a chain of up to 10 functions (at times some hundreds), each with a drawn program over Next, Abort, log and pause; non-trivial: the chain has at least two functions", genChainCase, runChainCase)
	reg("C08", "pipe", 24000, 240000, "1-5 pipes (at times of 250-8200 messages) or single messages over 1-3 connections, handlers of drawn duration (up to hours), unknown routes and url routes inside pipes, truncated connections; one case in eight on a unix socket, whose clients all have the same address; non-trivial: a pipe of at least two messages", genPipeCase, runPipeCase)
	reg("C09", "limit", 32000, 320000, "messages around a drawn size limit (from 1 byte up, large or negative) on two connections, inside and outside pipes (some of up to 64 messages), and bare length words; non-trivial: at least one message is over the limit", genLimitCase, runLimitCase)
	reg("C10", "scope", 32000, 320000, "set and get operations in connection and request scope in OnConnect, middleware and handlers of up to 12 overlapping requests on up to 4 connections, alone or in pipes, and in OnClose and OnHeartbeatLoss; keys of several types, at times hundreds of them; contexts kept after the handler; up to a day between the steps; one case in eight on a unix socket, whose clients all have the same address; non-trivial: at least two requests and one set", genScopeCase, runScopeCase)
}
