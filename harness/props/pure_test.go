package props

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"runtime/metrics"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/fwhezfwhez/tcpx"
	pbp "github.com/golang/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- values

// Payload is a message body that every text marshaller can carry without loss.
type Payload struct {
	XMLName xml.Name `json:"-" toml:"-" yaml:"-" xml:"payload"`
	S       string   `json:"s" xml:"s" toml:"s" yaml:"s"`
	N       int64    `json:"n" xml:"n" toml:"n" yaml:"n"`
	B       bool     `json:"b" xml:"b" toml:"b" yaml:"b"`
	L       []string `json:"l" xml:"l" toml:"l" yaml:"l"`
}

func (p Payload) norm() Payload {
	p.XMLName = xml.Name{}
	if len(p.L) == 0 {
		p.L = nil
	}
	return p
}

var textRunes = []rune("abcxyzABZ0189 _-./:;,!?@#$%^&*()[]{}<>|~'\"\\=+é漢字😀ß")

func genText(max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, max).Draw(t, "len")
		if max > 64 && rapid.IntRange(0, 9).Draw(t, "long") != 0 {
			n = n % 24
		}
		r := make([]rune, n)
		if n > 64 { // long text: one drawn rune repeated, with a drawn period
			a := rapid.SampledFrom(textRunes).Draw(t, "a")
			k := rapid.IntRange(2, 17).Draw(t, "k")
			for i := range r {
				r[i] = a
				if i%k == 0 {
					r[i] = rune('a' + i%26)
				}
			}
			return string(r)
		}
		for i := range r {
			r[i] = rapid.SampledFrom(textRunes).Draw(t, "r")
		}
		return string(r)
	})
}

func genPayload(t *rapid.T, max int) Payload {
	return Payload{
		S: genText(max).Draw(t, "s"),
		N: rapid.OneOf(rapid.Int64Range(-9, 9), rapid.Int64Range(math.MinInt64, math.MaxInt64)).Draw(t, "n"),
		B: rapid.Bool().Draw(t, "b"),
		L: rapid.SliceOfN(genText(8), 0, 4).Draw(t, "l"),
	}
}

func genID(t *rapid.T, name string) int32 {
	return rapid.OneOf(rapid.Int32Range(-3, 300), rapid.Int32Range(math.MinInt32, math.MaxInt32),
		rapid.SampledFrom([]int32{0, 1, -1, math.MaxInt32, math.MinInt32, 1392, 1393, 1 << 16, 1 << 24, 255, 256})).Draw(t, name)
}

func genJSONValue(t *rapid.T, depth int) any {
	k := rapid.IntRange(0, 7).Draw(t, "jk")
	if depth <= 0 && k >= 6 {
		k = 0
	}
	switch k {
	case 0, 1:
		return genText(12).Draw(t, "js")
	case 2:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "ji"))
	case 3:
		return rapid.Float64Range(-1e9, 1e9).Draw(t, "jf")
	case 4:
		return rapid.Bool().Draw(t, "jb")
	case 5:
		return nil
	case 6:
		n := rapid.IntRange(0, 3).Draw(t, "jn")
		l := make([]any, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, genJSONValue(t, depth-1))
		}
		return l
	default:
		n := rapid.IntRange(0, 3).Draw(t, "jn")
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[genText(6).Draw(t, "jm")] = genJSONValue(t, depth-1)
		}
		return m
	}
}

var headerKeys = []string{"a", "b", "c", "token", "Router-Type", "Router-Pattern-Value", "Pack-Content-Type", "x-é", "", "[tcpx-buffer-in-serial]"}

func genHeader(t *rapid.T) map[string]any {
	n := rapid.IntRange(0, 4).Draw(t, "hn")
	m := map[string]any{}
	for i := 0; i < n; i++ {
		m[rapid.SampledFrom(headerKeys).Draw(t, "hk")] = genJSONValue(t, 2)
	}
	return m
}

var marshNames = []string{"json", "xml", "toml", "yaml", "protobuf"}

func marshOf(name string) tcpx.Marshaller {
	switch name {
	case "json":
		return tcpx.JsonMarshaller{}
	case "xml":
		return tcpx.XmlMarshaller{}
	case "toml":
		return tcpx.TomlMarshaller{}
	case "yaml":
		return tcpx.YamlMarshaller{}
	case "protobuf":
		return tcpx.ProtobufMarshaller{}
	case "mirror":
		return mirrorMarshaller{}
	case "liar":
		return liarMarshaller{odd: []int{1}}
	}
	return nil
}

// mirrorMarshaller is a user-defined marshaller: strings, byte-reversed with a tag.
type mirrorMarshaller struct{}

func (mirrorMarshaller) Marshal(v any) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		return nil, errors.New("mirror: not a string")
	}
	return rev([]byte("m:" + s)), nil
}
func (mirrorMarshaller) Unmarshal(b []byte, dest any) error {
	p, ok := dest.(*string)
	if !ok {
		return errors.New("mirror: not a *string")
	}
	r := rev(b)
	if !bytes.HasPrefix(r, []byte("m:")) {
		return errors.New("mirror: bad tag")
	}
	*p = string(r[2:])
	return nil
}
func (mirrorMarshaller) MarshalName() string { return "mirror" }

// liarMarshaller is another one, which takes the name of a built-in marshaller (and values
// of which cannot be compared).
type liarMarshaller struct{ odd []int }

func (liarMarshaller) Marshal(v any) ([]byte, error) {
	b, err := mirrorMarshaller{}.Marshal(v)
	return append([]byte{'!'}, b...), err
}

func (liarMarshaller) Unmarshal(b []byte, dest any) error {
	if len(b) == 0 || b[0] != '!' {
		return errors.New("liar: bad tag")
	}
	return mirrorMarshaller{}.Unmarshal(b[1:], dest)
}
func (liarMarshaller) MarshalName() string { return "json" }

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// value builds the body a marshaller takes; decodeBody decodes marshalled bytes with the
// format's own library and says whether they carry the payload.
func value(m string, p Payload) any {
	switch m {
	case "protobuf":
		return &wrapperspb.StringValue{Value: p.S}
	case "mirror", "liar":
		return p.S
	}
	q := p
	return &q
}

func newDest(m string) any {
	switch m {
	case "protobuf":
		return &wrapperspb.StringValue{}
	case "mirror", "liar":
		return new(string)
	}
	return &Payload{}
}

func destCarries(m string, dest any, p Payload) error {
	switch d := dest.(type) {
	case *wrapperspb.StringValue:
		if d.Value != p.S {
			return fmt.Errorf("protobuf value %q, want %q", trunc(d.Value, 80), trunc(p.S, 80))
		}
	case *string:
		if *d != p.S {
			return fmt.Errorf("string %q, want %q", trunc(*d, 80), trunc(p.S, 80))
		}
	case *Payload:
		if !reflect.DeepEqual(d.norm(), p.norm()) {
			return fmt.Errorf("%s value %s, want %s", m, trunc(fmt.Sprintf("%+v", d.norm()), 300), trunc(fmt.Sprintf("%+v", p.norm()), 300))
		}
	default:
		return fmt.Errorf("unexpected dest %T", dest)
	}
	return nil
}

func bodyCarries(m string, body []byte, p Payload) error {
	d := newDest(m)
	var err error
	switch m {
	case "json":
		err = json.Unmarshal(body, d)
	case "xml":
		err = xml.Unmarshal(body, d)
	case "toml":
		err = toml.Unmarshal(body, d)
	case "yaml":
		err = yaml.Unmarshal(body, d)
		if err == nil && json.Valid(body) { // YAML can read JSON, but this marshaller does not write it
			err = fmt.Errorf("it is JSON")
		}
	case "protobuf":
		err = pbp.Unmarshal(body, d.(pbp.Message))
	case "mirror":
		err = mirrorMarshaller{}.Unmarshal(body, d)
	case "liar":
		err = liarMarshaller{}.Unmarshal(body, d)
	}
	if err != nil {
		return fmt.Errorf("%s body does not decode: %v (%s)", m, err, hexs(body))
	}
	return destCarries(m, d, p)
}

func jsonRound(v any) any {
	var out any
	if err := json.Unmarshal(js(v), &out); err != nil {
		panic(err)
	}
	return out
}

// headerIs says whether header bytes are JSON for the given map (an empty map may be written {} or null).
func headerIs(b []byte, want map[string]any) error {
	var got map[string]any
	if err := json.Unmarshal(b, &got); err != nil {
		return fmt.Errorf("header bytes are not a JSON object: %v (%s)", err, hexs(b))
	}
	if len(got) == 0 && len(want) == 0 {
		return nil
	}
	if !reflect.DeepEqual(jsonRound(got), jsonRound(want)) {
		return fmt.Errorf("header %s, want %s", js(got), js(want))
	}
	return nil
}

func headerEq(got, want map[string]any) bool {
	if len(got) == 0 && len(want) == 0 {
		return true
	}
	return reflect.DeepEqual(jsonRound(got), jsonRound(want))
}

func clone(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	r := jsonRound(m).(map[string]any)
	return r
}

// ---------------------------------------------------------------- C01 wire layout and round trip

type packCase struct {
	ID      int32            `json:"id"`
	Marsh   string           `json:"marsh"`
	Entry   string           `json:"entry"`
	Headers []map[string]any `json:"headers"`
	IntVals bool             `json:"int_vals"`
	Body    Payload          `json:"body"`
	NilBody bool             `json:"nil_body"`
	Raw     []byte           `json:"raw"`
	URL     string           `json:"url"`
	Again   Payload          `json:"again"`
	Alt     string           `json:"alt"`     // another kind of body value ("": the payload)
	AltJSON any              `json:"alt_v"`   // what it is made of
	Name    string           `json:"name"`    // marshaller name, for the entry points that take one
	Bad     string           `json:"bad"`     // what cannot be encoded ("": everything can)
	BigHead int              `json:"bighead"` // length of one long header value
	Keys    int              `json:"keys"`    // how many more header entries
	Pad     int              `json:"pad"`     // how much longer the body is
}

// padding is text whose bytes differ from their neighbours.
func padding(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDE"[(i+i>>7+i>>15)%41]
	}
	return b
}

var packEntries = []string{"packx", "withMarshaller", "withName", "pack", "message", "withBody", "marshallerAndBody", "newMessage", "newURLMessage", "stuff", "heartbeat", "nilMarshaller"}

func genPackCase(t *rapid.T) packCase {
	c := packCase{
		ID:      genID(t, "id"),
		Marsh:   rapid.SampledFrom(append([]string{"mirror", "liar"}, marshNames...)).Draw(t, "marsh"),
		Entry:   rapid.SampledFrom(packEntries).Draw(t, "entry"),
		IntVals: rapid.Bool().Draw(t, "ints"),
		NilBody: rapid.IntRange(0, 5).Draw(t, "nilbody") == 0,
	}
	max := 40
	if rapid.IntRange(0, 7).Draw(t, "big") == 0 {
		max = rapid.SampledFrom([]int{1008, 1100, 5000, 70000}).Draw(t, "max")
	}
	c.Body = genPayload(t, max)
	c.Again = genPayload(t, 40)
	nh := rapid.IntRange(0, 3).Draw(t, "nh")
	for i := 0; i < nh; i++ {
		c.Headers = append(c.Headers, genHeader(t))
	}
	c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	if max > 40 {
		c.Raw = bytes.Repeat(append(c.Raw, 7), 30)
	}
	c.URL = rapid.SampledFrom([]string{"/", "/a/b/", "", "/用户/", "x?y=1&z=\"q\"", "MESSAGE_ID"}).Draw(t, "url")
	c.Name = c.Marsh
	if rapid.IntRange(0, 2).Draw(t, "alias") == 0 {
		c.Name = rapid.SampledFrom([]string{"tml", "yml", "proto", "JSON", "", "msgpack", "jso"}).Draw(t, "name")
	}
	if c.Marsh == "json" && rapid.IntRange(0, 2).Draw(t, "alt") == 0 {
		c.Alt = rapid.SampledFrom([]string{"bytes", "generic", "generic", "value", "string", "rawjson", "number"}).Draw(t, "altkind")
		if c.Alt == "generic" {
			c.AltJSON = genJSONValue(t, 3)
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "isbad") == 0 {
		c.Bad = rapid.SampledFrom([]string{"body", "body", "body-deep", "header", "header-deep"}).Draw(t, "bad")
	}
	if rapid.IntRange(0, 19).Draw(t, "ishead") == 0 {
		c.BigHead = rapid.SampledFrom([]int{900, 1020, 4000, 70000}).Draw(t, "bighead")
	}
	if rapid.IntRange(0, 29).Draw(t, "iskeys") == 0 {
		c.Keys = rapid.SampledFrom([]int{6, 9, 17, 33, 65, 130, 300}).Draw(t, "keys")
	}
	if rapid.IntRange(0, 1999).Draw(t, "ispad") == 0 {
		c.Pad = rapid.SampledFrom([]int{140000, 300000, 1100000, 2200000}).Draw(t, "pad")
		if c.Marsh == "toml" || c.Marsh == "yaml" || c.Name == "tml" || c.Name == "yml" {
			c.Pad = 70000 // these are slow
		}
	}
	return c
}

// canonName is the marshaller a name stands for.
func canonName(n string) string {
	switch n {
	case "json", "xml", "toml", "yaml", "protobuf":
		return n
	case "tml":
		return "toml"
	case "yml":
		return "yaml"
	case "proto":
		return "protobuf"
	}
	return ""
}

// alt is a JSON body that is not the payload.
func (c packCase) alt() any {
	switch c.Alt {
	case "bytes":
		return append([]byte{}, c.Raw...)
	case "generic":
		return c.AltJSON
	case "value":
		return c.Body
	case "string":
		return c.Body.S
	case "rawjson":
		return json.RawMessage(js(c.Body))
	case "number":
		return c.Body.N
	}
	return nil
}

// unencodable is a value the marshaller cannot encode.
func unencodable(m string, deep bool) any {
	switch m {
	case "json":
		if deep {
			return map[string]any{"a": []any{1, math.NaN()}}
		}
		return make(chan int)
	case "xml":
		if deep {
			return struct{ A any }{map[string]int{"a": 1}}
		}
		return map[string]int{"a": 1}
	case "toml":
		if deep {
			return struct{ A []any }{[]any{1, "a"}}
		}
		return 7
	case "yaml":
		return nil
	case "protobuf":
		if deep {
			return &Payload{S: "x"}
		}
		return "x"
	}
	if deep {
		return []string{"x"}
	}
	return 5
}

// ints turns integral floats into int values, which is what callers usually write.
func ints(m map[string]any) map[string]any {
	for k, v := range m {
		if f, ok := v.(float64); ok && f == math.Trunc(f) && math.Abs(f) < 1e15 {
			m[k] = int(f)
		}
	}
	return m
}

func runPackCase(e *Env, c packCase) {
	if c.Pad > 0 {
		e.Label("large")
		c.Body.S += string(padding(c.Pad))
		c.Raw = append(c.Raw, padding(c.Pad)...)
	}
	headers := make([]map[string]any, 0, len(c.Headers))
	orig := make([]map[string]any, 0, len(c.Headers))
	merged := map[string]any{}
	for _, h := range c.Headers {
		if c.IntVals {
			h = ints(h)
		}
		headers = append(headers, h)
		orig = append(orig, clone(h))
		for k, v := range h {
			merged[k] = v
		}
	}
	if c.BigHead > 0 {
		m := map[string]any{"long": string(bytes.Repeat([]byte("h"), c.BigHead))}
		headers, orig, merged["long"] = append(headers, m), append(orig, clone(m)), m["long"]
	}
	if c.Keys > 0 {
		m := map[string]any{}
		for i := 0; i < c.Keys; i++ {
			m[fmt.Sprintf("key-%d", i)] = fmt.Sprint("v", i*i)
			merged[fmt.Sprintf("key-%d", i)] = fmt.Sprint("v", i*i)
		}
		if len(headers) > 0 && c.ID%2 == 0 {
			for k, v := range m {
				headers[0][k], orig[0][k] = v, v
			}
			for _, h := range headers {
				for k, v := range h {
					merged[k] = v
				}
			}
		} else {
			headers, orig = append(headers, m), append(orig, clone(m))
		}
	}
	if c.Entry == "withName" {
		c.Marsh = canonName(c.Name)
		if c.Marsh == "" {
			buf, err := tcpx.PackWithMarshallerName(tcpx.Message{MessageID: c.ID, Body: "x"}, c.Name)
			if err == nil {
				e.Fail("unknown-name", "packing with the unknown marshaller name %q succeeded: %s", c.Name, hexs(buf))
			}
			if _, err := tcpx.UnpackWithMarshallerName(wire.Build(c.ID, []byte("{}"), []byte("{}")), &Payload{}, c.Name); err == nil {
				e.Fail("unknown-name", "unpacking with the unknown marshaller name %q succeeded", c.Name)
			}
			return
		}
	}
	if c.Marsh != "json" {
		c.Alt = ""
	}
	marsh := marshOf(c.Marsh)
	mname := c.Marsh
	var src any
	if !c.NilBody {
		src = value(c.Marsh, c.Body)
		if c.Alt != "" {
			src = c.alt()
		}
	}
	var one map[string]any
	if len(headers) > 0 {
		one = headers[0]
	}

	id, wantHeader := c.ID, merged
	raw := false // body given as bytes
	var wantRaw []byte
	px := tcpx.NewPackx(marsh)

	do := func(src any) ([]byte, error) {
		switch c.Entry {
		case "withMarshaller":
			return tcpx.PackWithMarshaller(tcpx.Message{MessageID: c.ID, Header: one, Body: src}, marsh)
		case "withName":
			return tcpx.PackWithMarshallerName(tcpx.Message{MessageID: c.ID, Header: one, Body: src}, c.Name)
		case "pack":
			return tcpx.Pack(c.ID, one, src, marsh)
		case "message":
			return tcpx.Message{MessageID: c.ID, Header: one, Body: src}.Pack(marsh)
		case "withBody":
			return px.PackWithBody(c.ID, c.Raw, headers...)
		case "marshallerAndBody":
			return tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: c.ID, Header: one}, c.Raw)
		case "newMessage":
			return tcpx.NewMessage(c.ID, src).Pack(marsh)
		case "newURLMessage":
			return tcpx.NewURLPatternMessage(c.URL, src).Pack(marsh)
		case "stuff":
			return tcpx.PackStuff(c.ID), nil
		case "heartbeat":
			return tcpx.PackHeartbeat(), nil
		case "nilMarshaller":
			return tcpx.PackWithMarshaller(tcpx.Message{MessageID: c.ID, Header: one, Body: src}, nil)
		}
		return px.Pack(c.ID, src, headers...)
	}

	entry := c.Entry
	switch entry {
	case "withMarshaller", "withName", "pack", "message":
		wantHeader = one
	case "withBody":
		raw, wantRaw = true, c.Raw
	case "marshallerAndBody":
		raw, wantRaw, wantHeader = true, c.Raw, one
	case "newMessage":
		wantHeader = map[string]any{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": c.ID}
	case "newURLMessage":
		id = 0
		wantHeader = map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": c.URL}
	case "stuff":
		raw, wantHeader = true, nil
	case "heartbeat":
		raw, wantHeader, id = true, nil, 1392
	case "nilMarshaller":
		wantHeader = one
		mname = "json"
		if c.Marsh == "mirror" || c.Marsh == "liar" || c.Marsh == "protobuf" {
			src = nil
			if !c.NilBody {
				q := c.Body
				src = &q
			}
		}
	}
	e.Label(entry)
	e.Label("m=" + mname)

	if c.Bad != "" {
		var what any
		switch {
		case c.Bad == "header" || c.Bad == "header-deep":
			if wantHeader == nil || entry == "newMessage" || entry == "newURLMessage" || len(headers) == 0 {
				break
			}
			what = map[string]any{"k": []any{make(chan int)}}
			if c.Bad == "header" {
				what = math.Inf(1)
			}
			at := 0
			if entry == "packx" || entry == "withBody" {
				at = len(headers) - 1
			}
			headers[at]["zz"] = what
		case raw:
		default:
			what = unencodable(mname, c.Bad == "body-deep")
			src = what
		}
		if what == nil {
			return
		}
		e.Label("unencodable " + c.Bad)
		e.NonTrivial()
		buf, err := do(src)
		if err == nil {
			e.Fail("accepted", "%s with %s: packing a %s that cannot be encoded succeeded: %s", entry, mname, c.Bad, hexs(buf))
		} else if len(buf) != 0 {
			e.Fail("accepted", "%s with %s: packing failed (%v) and yet returned the block %s", entry, mname, err, hexs(buf))
		}
		return
	}

	rawKeep := append([]byte(nil), c.Raw...)
	buf, err := do(src)
	if err != nil {
		e.Fail("pack-error", "%s: packing a marshallable value failed: %v", entry, err)
		return
	}
	keep := append([]byte(nil), buf...)
	for i := range headers {
		if !headerEq(headers[i], orig[i]) {
			e.Fail("header-mutated", "packing changed the caller's header map %s into %s", js(orig[i]), js(headers[i]))
			return
		}
	}

	if q, ok := src.(*Payload); ok && !reflect.DeepEqual(*q, c.Body) {
		e.Fail("body-mutated", "packing changed the caller's body %+v into %+v", c.Body, *q)
	}
	if q, ok := src.([]byte); ok && !bytes.Equal(q, c.Raw) {
		e.Fail("body-mutated", "packing changed the caller's body %x into %x", c.Raw, q)
	}
	if !bytes.Equal(rawKeep, c.Raw) {
		e.Fail("body-mutated", "packing changed the caller's body %x into %x", rawKeep, c.Raw)
	}
	fr, err := wire.Parse(buf)
	if err != nil {
		e.Fail("layout", "%s: packed block does not follow the layout: %v (%s)", entry, err, hexs(buf))
		return
	}
	if fr.ID != id {
		e.Fail("layout", "%s: message id %d on the wire, want %d", entry, fr.ID, id)
	}
	if err := headerIs(fr.Header, wantHeader); err != nil {
		e.Fail("header", "%s: %v", entry, err)
	}
	switch {
	case raw:
		if !bytes.Equal(fr.Body, wantRaw) {
			e.Fail("body", "%s: body %s, want %s", entry, hexs(fr.Body), hexs(wantRaw))
		}
	case c.NilBody:
		if len(fr.Body) != 0 {
			e.Fail("body", "%s: nil body packed as %s", entry, hexs(fr.Body))
		}
	case c.Alt != "" && src != nil:
		want := js(src)
		var a, b any
		if err := json.Unmarshal(fr.Body, &a); err != nil {
			e.Fail("body", "%s: %s body does not decode: %v (%s)", entry, c.Alt, err, hexs(fr.Body))
		} else if json.Unmarshal(want, &b); !reflect.DeepEqual(a, b) {
			e.Fail("body", "%s: %s body %s, want %s", entry, c.Alt, hexs(fr.Body), hexs(want))
		}
	case c.Alt != "":
		if len(fr.Body) != 0 {
			e.Fail("body", "%s: nil body packed as %s", entry, hexs(fr.Body))
		}
	default:
		if err := bodyCarries(mname, fr.Body, c.Body); err != nil {
			e.Fail("body", "%s: %v", entry, err)
		}
	}
	if e.Failed() {
		return
	}

	// accessors, on the block alone and with more bytes behind it
	for _, s := range [][]byte{buf, append(append([]byte(nil), buf...), 0xde, 0xad, 0xbe)} {
		checkAccessors(e, s, fr, wantHeader)
		b1, err := tcpx.FirstBlockOfBytes(s)
		b2, err2 := px.FirstBlockOfBytes(s)
		if err != nil || err2 != nil || !bytes.Equal(b1, buf) || !bytes.Equal(b2, buf) {
			e.Fail("first-block", "FirstBlockOfBytes gives %s (%v), want %s", hexs(b1), err, hexs(buf))
		}
	}
	pt := tcpx.PackType(buf)
	if got, err := pt.MessageID(); err != nil || got != id {
		e.Fail("accessor", "PackType.MessageID gives %d (%v), want %d", got, err, id)
	}
	if entry == "newURLMessage" {
		u, err := tcpx.URLPatternOf(buf)
		u2, err2 := pt.URLPattern()
		rt, err3 := tcpx.RouteTypeOf(buf)
		if err != nil || err2 != nil || err3 != nil || u != c.URL || u2 != c.URL || rt != "URL_PATTERN" {
			e.Fail("accessor", "url pattern reads back as %q/%q type %q (%v %v %v), want %q", u, u2, rt, err, err2, err3, c.URL)
		}
	}
	if !raw {
		// round trip through every matching decoder
		um := marshOf(mname)
		type dec struct {
			name string
			f    func(dest any) (tcpx.Message, error)
		}
		decs := []dec{
			{"Unpack", func(d any) (tcpx.Message, error) { return tcpx.NewPackx(um).Unpack(buf, d) }},
			{"UnpackWithMarshaller", func(d any) (tcpx.Message, error) { return tcpx.UnpackWithMarshaller(buf, d, um) }},
		}
		if mname != "mirror" && mname != "liar" {
			decs = append(decs, dec{"UnpackWithMarshallerName", func(d any) (tcpx.Message, error) { return tcpx.UnpackWithMarshallerName(buf, d, mname) }})
			for _, alias := range []string{"tml", "yml", "proto"} {
				if canonName(alias) == mname {
					decs = append(decs, dec{"UnpackWithMarshallerName(" + alias + ")", func(d any) (tcpx.Message, error) { return tcpx.UnpackWithMarshallerName(buf, d, alias) }})
				}
			}
		}
		if mname == "json" {
			decs = append(decs, dec{"UnpackWithMarshaller(nil)", func(d any) (tcpx.Message, error) { return tcpx.UnpackWithMarshaller(buf, d, nil) }})
		}
		for _, d := range decs {
			dest := newDest(mname)
			if c.Alt != "" {
				if src == nil {
					var v any
					dest = &v
				} else {
					dest = reflect.New(reflect.TypeOf(src)).Interface()
				}
			}
			msg, err := d.f(dest)
			if err != nil {
				e.Fail("roundtrip", "%s after %s: %v", d.name, entry, err)
				return
			}
			if msg.MessageID != id {
				e.Fail("roundtrip", "%s: message id %d, want %d", d.name, msg.MessageID, id)
			}
			if !headerEq(msg.Header, wantHeader) {
				e.Fail("roundtrip", "%s: header %s, want %s", d.name, js(msg.Header), js(wantHeader))
			}
			for n := 0; n < 2; n++ {
				for k, v := range wantHeader {
					if !reflect.DeepEqual(jsonRound(msg.Get(k)), jsonRound(v)) {
						e.Fail("roundtrip", "%s: Get(%q) gives %v, want %v", d.name, k, msg.Get(k), v)
					}
				}
			}
			if v := msg.Get("tcpx-verif"); v != nil {
				e.Fail("roundtrip", "%s: Get of a key that is not there gives %v", d.name, v)
			}
			if c.Alt != "" {
				if src != nil && !reflect.DeepEqual(jsonRound(reflect.ValueOf(dest).Elem().Interface()), jsonRound(src)) {
					e.Fail("roundtrip", "%s: a %s body comes back as %s, want %s", d.name, c.Alt, trunc(string(js(reflect.ValueOf(dest).Elem().Interface())), 300), trunc(string(js(src)), 300))
				}
			} else if !c.NilBody {
				if err := destCarries(mname, dest, c.Body); err != nil {
					e.Fail("roundtrip", "%s: %v", d.name, err)
				}
				if got := reflect.ValueOf(msg.Body); mname != "protobuf" && !reflect.DeepEqual(got.Interface(), reflect.ValueOf(dest).Elem().Interface()) {
					e.Fail("roundtrip", "%s: Message.Body %v is not what dest got", d.name, msg.Body)
				}
			} else if !reflect.DeepEqual(dest, newDest(mname)) {
				e.Fail("roundtrip", "%s: an empty body changed dest to %+v", d.name, dest)
			}
			// the message can be edited and packed again
			msg.Set("tcpx-verif", "v")
			if msg.Get("tcpx-verif") != "v" {
				e.Fail("roundtrip", "%s: Set then Get gives %v", d.name, msg.Get("tcpx-verif"))
			}
			msg.Set("tcpx-verif-nil", nil)
			msg.Set("", false)
			msg.Set("tcpx-verif-over", 1)
			msg.Set("tcpx-verif-over", "")
			edited := map[string]any{"tcpx-verif": "v", "tcpx-verif-nil": nil, "tcpx-verif-over": ""}
			for k, v := range wantHeader {
				edited[k] = v
			}
			edited[""] = false
			if !headerEq(msg.Header, edited) {
				e.Fail("roundtrip", "%s: after Set the header is %s, want %s", d.name, js(msg.Header), js(edited))
			}
		}
	}
	// a later pack leaves the earlier block alone
	var again any
	if !c.NilBody && src != nil {
		again = value(c.Marsh, c.Again)
		if c.Alt == "bytes" {
			again = []byte("another body")
		}
		if entry == "nilMarshaller" {
			q := c.Again
			again = &q
		}
	}
	do(again)
	if !bytes.Equal(buf, keep) {
		e.Fail("aliasing", "packing another message changed an already packed block")
	}
	if len(buf) > 18 {
		e.NonTrivial()
	}
}

func checkAccessors(e *Env, s []byte, fr wire.Frame, wantHeader map[string]any) {
	px := tcpx.NewPackx(nil)
	num := func(name string, want int32, fs ...func([]byte) (int32, error)) {
		for _, f := range fs {
			got, err := f(s)
			if err != nil || got != want {
				e.Fail("accessor", "%s gives %d (%v), want %d", name, got, err, want)
			}
		}
	}
	num("MessageIDOf", fr.ID, tcpx.MessageIDOf, px.MessageIDOf)
	num("LengthOf", int32(len(fr.Raw)-4), tcpx.LengthOf, px.LengthOf)
	num("HeaderLengthOf", int32(len(fr.Header)), tcpx.HeaderLengthOf, px.HeaderLengthOf)
	num("BodyLengthOf", int32(len(fr.Body)), tcpx.BodyLengthOf, px.BodyLengthOf)
	byt := func(name string, want []byte, fs ...func([]byte) ([]byte, error)) {
		for _, f := range fs {
			got, err := f(s)
			if err != nil || !bytes.Equal(got, want) {
				e.Fail("accessor", "%s gives %s (%v), want %s", name, hexs(got), err, hexs(want))
			}
		}
	}
	byt("HeaderBytesOf", fr.Header, tcpx.HeaderBytesOf, px.HeaderBytesOf)
	byt("BodyBytesOf", fr.Body, tcpx.BodyBytesOf, px.BodyBytesOf)
	for _, f := range []func([]byte) (map[string]any, error){tcpx.HeaderOf, px.HeaderOf} {
		h, err := f(s)
		if err != nil || !headerEq(h, wantHeader) {
			e.Fail("accessor", "HeaderOf gives %v (%v), want %s", h, err, js(wantHeader))
		}
	}
}

// ---------------------------------------------------------------- C02 framing

type frameSpec struct {
	ID     int32  `json:"id"`
	Header []byte `json:"header"`
	Body   []byte `json:"body"`
}

type streamCase struct {
	Frames []frameSpec `json:"frames"`
	Tail   int         `json:"tail"` // bytes of one more block that arrive before the end (0: none)
	Plan   []int       `json:"plan"` // sizes of successive reads (0: an empty read)
	EOF    int         `json:"eof"`  // 0: separate EOF, 1: EOF with the last bytes, 2: another error
	Fn     string      `json:"fn"`
	Max    int32       `json:"max"`
	Pad    int         `json:"pad"` // how much longer the body of block PadAt is
	PadAt  int         `json:"pad_at"`
}

var streamFns = []string{"FirstBlockOf", "Packx.FirstBlockOf", "UnpackToBlockFromReader", "Recv", "UnPackFromReader", "FirstBlockOfLimitMaxByte", "Packx.FirstBlockOfLimitMaxByte", "UnpackToBlockFromReaderLimit"}

func genFrameSpec(t *rapid.T, big bool) frameSpec {
	f := frameSpec{ID: genID(t, "id")}
	switch rapid.IntRange(0, 5).Draw(t, "hk") {
	case 0:
		f.Header = []byte{}
	case 1:
		f.Header = []byte("null")
	default:
		f.Header = js(genHeader(t))
	}
	f.Body = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "body")
	if big && rapid.IntRange(0, 5).Draw(t, "big") == 0 {
		f.Body = bytes.Repeat(append(f.Body, 1), rapid.IntRange(1, 4000).Draw(t, "rep"))
	}
	return f
}

func genStreamCase(t *rapid.T) streamCase {
	c := streamCase{Fn: rapid.SampledFrom(streamFns).Draw(t, "fn")}
	n := rapid.IntRange(0, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Frames = append(c.Frames, genFrameSpec(t, true))
	}
	if rapid.Bool().Draw(t, "tailed") {
		c.Tail = rapid.IntRange(1, 40).Draw(t, "tail")
	}
	c.Plan = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 17, 64, 1000, 100000}), 0, 6).Draw(t, "plan")
	c.EOF = rapid.IntRange(0, 2).Draw(t, "eof")
	c.Max = rapid.SampledFrom([]int32{0, -1, 12, 13, 14, 20, 30, 45, 60, 100, 1 << 20, 5 << 20, math.MaxInt32}).Draw(t, "max")
	if n > 0 && rapid.IntRange(0, 399).Draw(t, "ispad") == 0 {
		c.Pad = rapid.SampledFrom([]int{66000, 140000, 300000, 1100000, 2200000, 4400000}).Draw(t, "pad")
		if rapid.IntRange(0, 399).Draw(t, "huge") == 200 {
			c.Pad = rapid.SampledFrom([]int{9 << 20, 17 << 20, 34 << 20}).Draw(t, "hugepad")
		}
		c.PadAt = rapid.IntRange(0, n-1).Draw(t, "padat")
		c.Plan = rapid.SliceOfN(rapid.SampledFrom([]int{0, 700, 1000, 4096, 65536, 100000}), 0, 6).Draw(t, "bigplan")
		if len(c.Plan) > 0 {
			c.Plan = append(c.Plan, 5000)
		}
	}
	return c
}

var errBroken = errors.New("broken link")

type planReader struct {
	b     []byte
	plan  []int
	i     int
	eof   int
	reads int
	most  int
}

func (r *planReader) Read(p []byte) (int, error) {
	r.reads++
	if r.reads == 1 {
		r.most = 1000000 + 4*len(r.b)
	}
	if r.reads > r.most {
		panic("the reader is read without end")
	}
	end := error(io.EOF)
	if r.eof == 2 {
		end = errBroken
	}
	if len(r.b) == 0 {
		return 0, end
	}
	m := len(p)
	if len(r.plan) > 0 {
		k := r.plan[r.i%len(r.plan)]
		r.i++
		if k == 0 && r.i%2 == 0 { // an empty read, never twice in a row
			return 0, nil
		}
		if k == 0 {
			k = 1
		}
		if k < m {
			m = k
		}
	}
	n := copy(p[:m], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eof == 1 {
		return n, io.EOF
	}
	return n, nil
}

// readerConn lets a reader be used where a net.Conn is asked for.
type readerConn struct{ io.Reader }

func (readerConn) Write(p []byte) (int, error)        { return len(p), nil }
func (readerConn) Close() error                       { return nil }
func (readerConn) LocalAddr() net.Addr                { return tcpAddr(1) }
func (readerConn) RemoteAddr() net.Addr               { return tcpAddr(2) }
func (readerConn) SetDeadline(t time.Time) error      { return nil }
func (readerConn) SetReadDeadline(t time.Time) error  { return nil }
func (readerConn) SetWriteDeadline(t time.Time) error { return nil }

func runStreamCase(e *Env, c streamCase) {
	var all []byte
	var blocks [][]byte
	for i, f := range c.Frames {
		if c.Pad > 0 && i == c.PadAt {
			e.Label("large")
			f.Body = append(f.Body, padding(c.Pad)...)
		}
		b := wire.Build(f.ID, f.Header, f.Body)
		blocks = append(blocks, b)
		all = append(all, b...)
	}
	extra := wire.Build(7, []byte(`{"k":"v"}`), []byte("0123456789abcdef"))
	if c.Tail > 0 {
		if c.Tail >= len(extra) {
			c.Tail = len(extra) - 1
		}
		all = append(all, extra[:c.Tail]...)
	}
	r := &planReader{b: all, plan: c.Plan, eof: c.EOF}
	total := len(all)
	limited := false
	next := func() ([]byte, error) {
		switch c.Fn {
		case "Packx.FirstBlockOf":
			return tcpx.NewPackx(nil).FirstBlockOf(r)
		case "UnpackToBlockFromReader":
			return tcpx.UnpackToBlockFromReader(r)
		case "Recv":
			pt, err := tcpx.Recv(readerConn{r})
			return []byte(pt), err
		case "FirstBlockOfLimitMaxByte":
			return tcpx.FirstBlockOfLimitMaxByte(r, c.Max)
		case "Packx.FirstBlockOfLimitMaxByte":
			return tcpx.NewPackx(nil).FirstBlockOfLimitMaxByte(r, c.Max)
		case "UnpackToBlockFromReaderLimit":
			m := c.Max
			if m <= 0 {
				m = 1 << 30
			}
			return tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(r, int(m))
		case "UnPackFromReader":
			id, h, b, err := tcpx.UnPackFromReader(r)
			if err != nil {
				return nil, err
			}
			hb := js(h)
			return wire.Build(id, hb, b), nil
		}
		return tcpx.FirstBlockOf(r)
	}
	switch c.Fn {
	case "FirstBlockOfLimitMaxByte", "Packx.FirstBlockOfLimitMaxByte":
		limited = c.Max > 0
	case "UnpackToBlockFromReaderLimit":
		limited = c.Max > 0
	}
	e.Label(c.Fn)
	if len(c.Frames) >= 1 && len(c.Plan) >= 1 {
		e.NonTrivial()
	}
	var got [][]byte
	consumed := 0
	for i, want := range blocks {
		b, err := next()
		if limited && int64(len(want)-4) > int64(c.Max) {
			e.Label("over-limit")
			if err == nil {
				e.Fail("limit", "%s: block %d declares %d bytes, over the maximum %d, and was delivered", c.Fn, i, len(want)-4, c.Max)
			}
			return
		}
		if err != nil {
			e.Fail("lost", "%s: block %d of %d, complete in the stream, was not delivered: %v", c.Fn, i, len(blocks), err)
			return
		}
		consumed += len(want)
		if used := total - len(r.b); used != consumed {
			e.Fail("overread", "%s: %d bytes consumed after block %d, want %d", c.Fn, used, i, consumed)
			return
		}
		if c.Fn == "UnPackFromReader" {
			wf, _ := wire.Parse(want)
			gf, err := wire.Parse(b)
			var wh map[string]any
			json.Unmarshal(wf.Header, &wh)
			if err != nil || gf.ID != wf.ID || !bytes.Equal(gf.Body, wf.Body) || headerIs(gf.Header, wh) != nil {
				e.Fail("content", "%s: block %d read as %s, want %s", c.Fn, i, hexs(b), hexs(want))
				return
			}
			continue
		}
		got = append(got, b)
	}
	for k := 0; k < 2; k++ {
		if k > 0 && limited {
			break // the rest of a refused block is not a block
		}
		b, err := next()
		if err == nil {
			e.Fail("fabricated", "%s: a block was delivered from %d leftover bytes: %s", c.Fn, c.Tail, hexs(b))
			return
		}
		if c.Tail == 0 && c.EOF != 2 && err != io.EOF {
			e.Fail("eof", "%s: the clean end of the stream is reported as %v, not io.EOF", c.Fn, err)
			return
		}
	}
	if c.Tail > 0 {
		e.Label("truncated")
	}
	for i, b := range got {
		if !bytes.Equal(b, blocks[i]) {
			e.Fail("content", "%s: block %d is %s, want %s", c.Fn, i, hexs(b), hexs(blocks[i]))
			return
		}
	}
}

// ---------------------------------------------------------------- C03 decoding arbitrary bytes

type bytesCase struct {
	Data []byte `json:"data"`
}

func genWord(t *rapid.T, near int, name string) uint32 {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) uint32 { return uint32(near + rapid.IntRange(-6, 6).Draw(t, "d")) }),
		rapid.SampledFrom([]uint32{0, 1, 4, 8, 11, 12, 13, 15, 16, 17, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0xffffffef, 0xfffffffc, 0x10000, 0x1000000, 0x7ffffff0}),
		rapid.Uint32(),
	).Draw(t, name)
}

var headerShapes = []string{`{}`, `null`, ``, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/x/"}`, `{"Router-Type":5,"Router-Pattern-Value":[1]}`,
	`{"Router-Type":null,"Router-Pattern-Value":{}}`, `[1,2]`, `"s"`, `{`, `12`, `{"a":1}x`, "\xff\xfe", `{"a":"b","a":2}`}

func genBytesCase(t *rapid.T) bytesCase {
	if rapid.IntRange(0, 4).Draw(t, "wild") == 0 {
		return bytesCase{rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data")}
	}
	h := []byte(rapid.SampledFrom(headerShapes).Draw(t, "h"))
	b := []byte(rapid.SampledFrom([]string{"", `{}`, `{"s":"x","n":3}`, `null`, `x`, `{"s":`, "0123456789"}).Draw(t, "b"))
	l, id, hl, bl := uint32(12+len(h)+len(b)), uint32(genID(t, "id")), uint32(len(h)), uint32(len(b))
	k := rapid.IntRange(0, 15).Draw(t, "mut")
	if k&1 != 0 {
		l = genWord(t, int(l), "l")
	}
	if k&2 != 0 {
		hl = genWord(t, int(hl), "hl")
	}
	if k&4 != 0 {
		bl = genWord(t, int(bl), "bl")
	}
	data := wire.BuildRaw(l, id, hl, bl, append(append([]byte{}, h...), b...))
	if k&8 != 0 {
		cut := rapid.IntRange(-8, len(data)).Draw(t, "cut")
		if cut < 0 {
			data = append(data, make([]byte, -cut)...)
		} else {
			data = data[:cut]
		}
	}
	return bytesCase{data}
}

// captureMarshaller records the bytes it is asked to decode.
type captureMarshaller struct{ got *[][]byte }

func (c captureMarshaller) Marshal(v any) ([]byte, error) { return nil, nil }
func (c captureMarshaller) Unmarshal(b []byte, dest any) error {
	*c.got = append(*c.got, append([]byte(nil), b...))
	return nil
}
func (c captureMarshaller) MarshalName() string { return "capture" }

// allocated is how many bytes have been allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func runBytesCase(e *Env, c bytesCase) {
	d := c.Data
	orig := append([]byte(nil), d...)
	// the reference reading of the words, as far as they are there
	w := func(i int) (uint64, bool) {
		if len(d) < i+4 {
			return 0, false
		}
		return uint64(d[i])<<24 | uint64(d[i+1])<<16 | uint64(d[i+2])<<8 | uint64(d[i+3]), true
	}
	length, okL := w(0)
	id, okID := w(4)
	hl, okH := w(8)
	bl, okB := w(12)
	_, perr := wire.Parse(d)
	consistent := perr == nil
	if consistent {
		e.Label("consistent")
	} else {
		e.Label("malformed")
		if len(d) >= 16 {
			e.Label("malformed>=16")
		}
	}
	if len(d) >= 4 {
		e.NonTrivial()
	}
	guard := func(name string, f func()) {
		if p, st := safely(f); p != nil {
			e.Fail("panic", "%s panics on %s: %v\n%s", name, hexs(d), p, trunc(st, 1500))
		}
	}
	for name, f := range map[string]func() error{
		"UnpackToBlockFromReader(nil)": func() error { _, err := tcpx.UnpackToBlockFromReader(nil); return err },
		"UnpackToBlockFromReaderLimitMaxLengthOfByte(nil)": func() error {
			_, err := tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(nil, 1+len(d))
			return err
		},
		"FirstBlockOf(nil)":             func() error { _, err := tcpx.FirstBlockOf(nil); return err },
		"FirstBlockOfLimitMaxByte(nil)": func() error { _, err := tcpx.FirstBlockOfLimitMaxByte(nil, int32(len(d))); return err },
		"UnPackFromReader(nil)":         func() error { _, _, _, err := tcpx.UnPackFromReader(nil); return err },
	} {
		guard(name, func() {
			if f() == nil {
				e.Fail("fabricated", "%s gives no error", name)
			}
		})
	}
	num := func(name string, f func([]byte) (int32, error), want uint64, ok bool) {
		guard(name, func() {
			v, err := f(d)
			if err == nil && (!ok || v != int32(uint32(want))) {
				e.Fail("fabricated", "%s gives %d on %s", name, v, hexs(d))
			}
			if err != nil && consistent {
				e.Fail("refused", "%s fails on a well-formed block: %v", name, err)
			}
		})
	}
	num("MessageIDOf", tcpx.MessageIDOf, id, okID)
	num("LengthOf", tcpx.LengthOf, length, okL)
	num("HeaderLengthOf", tcpx.HeaderLengthOf, hl, okH)
	num("BodyLengthOf", tcpx.BodyLengthOf, bl, okB)

	slice := func(from, n uint64, ok bool) ([]byte, bool) {
		if !ok || from > uint64(len(d)) || n > uint64(len(d))-from {
			return nil, false
		}
		return d[from : from+n], true
	}
	wantH, fitH := slice(16, hl, okH)
	wantB, fitB := slice(16+hl, bl, okH && okB && fitH)
	byt := func(name string, f func([]byte) ([]byte, error), want []byte, fit bool) {
		guard(name, func() {
			v, err := f(d)
			if err == nil && (!fit || !bytes.Equal(v, want)) {
				e.Fail("fabricated", "%s gives %s on %s", name, hexs(v), hexs(d))
			}
			if err != nil && consistent {
				e.Fail("refused", "%s fails on a well-formed block: %v", name, err)
			}
		})
	}
	byt("HeaderBytesOf", tcpx.HeaderBytesOf, wantH, fitH)
	byt("BodyBytesOf", tcpx.BodyBytesOf, wantB, fitB)
	px := tcpx.NewPackx(nil)
	byt("Packx.BodyBytesOf", px.BodyBytesOf, wantB, fitB)
	byt("Packx.HeaderBytesOf", px.HeaderBytesOf, wantH, fitH)
	byt("Context.RawStream", func(b []byte) ([]byte, error) {
		ctx := tcpx.NewContext(readerConn{}, nil)
		ctx.Stream = b
		return ctx.RawStream()
	}, wantB, fitB)

	var refHeader map[string]any
	refOK := fitH && (len(wantH) == 0 || json.Unmarshal(wantH, &refHeader) == nil)
	guard("HeaderOf", func() {
		h, err := tcpx.HeaderOf(d)
		if err == nil && (!refOK || !headerEq(h, refHeader)) {
			e.Fail("fabricated", "HeaderOf gives %v on %s", h, hexs(d))
		}
		if err != nil && consistent && refOK {
			e.Fail("refused", "HeaderOf fails on a well-formed block with header %q: %v", wantH, err)
		}
	})
	str := func(key string) (string, bool) { s, ok := refHeader[key].(string); return s, ok }
	sf := func(name string, f func([]byte) (string, error), key string) {
		guard(name, func() {
			s, err := f(d)
			want, ok := str(key)
			if err == nil && s != "" && (!refOK || !ok || s != want) {
				e.Fail("fabricated", "%s gives %q on %s", name, s, hexs(d))
			}
			if consistent && refOK && ok && (err != nil || s != want) {
				e.Fail("refused", "%s gives %q (%v), want %q", name, s, err, want)
			}
		})
	}
	sf("URLPatternOf", tcpx.URLPatternOf, "Router-Pattern-Value")
	sf("RouteTypeOf", tcpx.RouteTypeOf, "Router-Type")
	pt := tcpx.PackType(d)
	sf("PackType.URLPattern", func([]byte) (string, error) { return pt.URLPattern() }, "Router-Pattern-Value")
	guard("PackType.MessageID", func() { pt.MessageID() })
	guard("PackType.BindJSON", func() {
		var v any
		err := pt.BindJSON(&v)
		if err == nil && (!fitB || !json.Valid(wantB)) {
			e.Fail("fabricated", "PackType.BindJSON decodes %v from %s", v, hexs(d))
		}
	})
	guard("PackType.BindXML", func() { var v Payload; pt.BindXML(&v) })
	guard("PackType.BindProtobuf", func() { pt.BindProtobuf(&wrapperspb.StringValue{}) })

	blockEnd := length + 4
	unp := func(name string, f func([]byte, any, tcpx.Marshaller) (tcpx.Message, error)) {
		guard(name, func() {
			var seen [][]byte
			var dest string
			m, err := f(d, &dest, captureMarshaller{&seen})
			inBlock := okL && okB && blockEnd <= uint64(len(d)) && 16+hl+bl <= blockEnd
			if err == nil {
				if !inBlock || m.MessageID != int32(uint32(id)) || !refOK || !headerEq(m.Header, refHeader) {
					e.Fail("fabricated", "%s accepts %s as id %d header %v", name, hexs(d), m.MessageID, m.Header)
				}
			} else if consistent && refOK {
				e.Fail("refused", "%s fails on a well-formed block: %v", name, err)
			}
			for _, s := range seen {
				if !inBlock || !bytes.Equal(s, wantB) {
					e.Fail("fabricated", "%s decodes body %s from %s", name, hexs(s), hexs(d))
				}
			}
			if err == nil && inBlock && bl > 0 && len(seen) != 1 {
				e.Fail("refused", "%s did not decode the body", name)
			}
		})
	}
	unp("UnpackWithMarshaller", tcpx.UnpackWithMarshaller)
	unp("Packx.Unpack", func(b []byte, dest any, m tcpx.Marshaller) (tcpx.Message, error) {
		return tcpx.NewPackx(m).Unpack(b, dest)
	})
	unp("Context.Bind", func(b []byte, dest any, m tcpx.Marshaller) (tcpx.Message, error) {
		ctx := tcpx.NewContext(readerConn{}, m)
		ctx.Stream = b
		return ctx.Bind(dest)
	})
	unp("Context.BindWithMarshaller", func(b []byte, dest any, m tcpx.Marshaller) (tcpx.Message, error) {
		ctx := tcpx.NewContext(readerConn{}, nil)
		ctx.Stream = b
		return ctx.BindWithMarshaller(dest, m)
	})
	guard("Context.RouterType", func() {
		ctx := tcpx.NewContext(readerConn{}, nil)
		ctx.Stream = d
		rt := ctx.RouterType()
		if want, ok := str("Router-Type"); rt == "URL_PATTERN" && (!refOK || !ok || want != rt) {
			e.Fail("fabricated", "RouterType gives %q on %s", rt, hexs(d))
		}
	})
	guard("FirstBlockOfBytes", func() {
		b, err := tcpx.FirstBlockOfBytes(d)
		if err == nil && (!okL || blockEnd > uint64(len(d)) || !bytes.Equal(b, d[:blockEnd])) {
			e.Fail("fabricated", "FirstBlockOfBytes gives %s on %s", hexs(b), hexs(d))
		}
		if err != nil && okB && blockEnd <= uint64(len(d)) && blockEnd >= 16 {
			e.Fail("refused", "FirstBlockOfBytes fails on a complete block: %v", err)
		}
	})
	// readers: a length word alone must not make them allocate that much
	{
		bound := func(string) {}
		if okL && length >= 1<<24 {
			before := allocated()
			bound = func(name string) {
				now := allocated()
				if now-before > 16<<20 {
					e.Fail("allocated", "%s allocates %d bytes for the %d bytes %s", name, now-before, len(d), hexs(d))
				}
				before = now
			}
			e.Label("huge length")
		}
		readers := map[string]func(io.Reader) ([]byte, error){
			"UnpackToBlockFromReader": tcpx.UnpackToBlockFromReader,
			"UnpackToBlockFromReaderLimitMaxLengthOfByte": func(r io.Reader) ([]byte, error) {
				return tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(r, 1<<20)
			},
			"FirstBlockOfLimitMaxByte": func(r io.Reader) ([]byte, error) { return tcpx.FirstBlockOfLimitMaxByte(r, 1<<20) },
		}
		for name, f := range readers {
			guard(name, func() {
				b, err := f(bytes.NewReader(d))
				if err == nil && (!okL || blockEnd > uint64(len(d)) || !bytes.Equal(b, d[:blockEnd])) {
					e.Fail("fabricated", "%s gives %s on %s", name, hexs(b), hexs(d))
				}
				if err != nil && consistent {
					e.Fail("refused", "%s fails on a well-formed block: %v", name, err)
				}
			})
			bound(name)
		}
		guard("UnPackFromReader", func() {
			gid, h, b, err := tcpx.UnPackFromReader(bytes.NewReader(d))
			if err == nil && (!okB || !fitB || !refOK || gid != int32(uint32(id)) || !headerEq(h, refHeader) || !bytes.Equal(b, wantB)) {
				e.Fail("fabricated", "UnPackFromReader gives %d %v %s on %s", gid, h, hexs(b), hexs(d))
			}
			if err != nil && consistent && refOK {
				e.Fail("refused", "UnPackFromReader fails on a well-formed block: %v", err)
			}
		})
		bound("UnPackFromReader")
	}
	if !bytes.Equal(orig, d) {
		e.Fail("mutated", "decoding changed the input %s", hexs(orig))
	}
}

func init() {
	reg("C01", "pack", 80000, 960000, "a message id, 0-3 header maps (at times with hundreds of keys), a body (at times of up to 2.2 MB) and one of 12 packing entry points, drawn at random; non-trivial: the block has a header entry or a body", genPackCase, runPackCase)
	reg("C02", "stream", 400000, 4000000, "0-6 blocks (at times large) and an optional truncated one, cut into reads by a drawn plan (empty reads, data with EOF, a failing link), read back by one of 8 functions; non-trivial: at least one block and a read plan", genStreamCase, runStreamCase)
	reg("C03", "bytes", 300000, 3600000, "arbitrary bytes, or a block whose length words, header shape and end are perturbed; non-trivial: at least 4 bytes", genBytesCase, runBytesCase)
}
