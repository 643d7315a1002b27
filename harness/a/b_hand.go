//go:build cmd

package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"

	"verif/harness/ref"
	"verif/sim"
)

// Kinds of handlers.
const (
	hConn = iota
	hStream
	hData
)

var kinds = []string{"connection", "stream", "data"}

// commands lists the fields of each command: n number, s string, b boolean,
// z null, o object, O object that is empty if missing, A array likewise.
var commands = [][]struct{ name, fields string }{
	hConn: {
		{"connect", "nO"}, {"createStream", "nO"}, {"releaseStream", "nzs"},
		{"FCPublish", "nzs"}, {"getStreamLength", "nzs"},
	},
	hStream: {
		{"play", "sn"}, {"play2", "o"}, {"deleteStream", "n"}, {"receiveAudio", "b"},
		{"receiveVideo", "b"}, {"publish", "ss"}, {"seek", "n"}, {"pause", "bn"},
	},
}

// fields reads a sequence of fields and writes it out.
func fields(spec string, b []byte) (string, []byte, bool) {
	out := ""
	for _, f := range spec {
		v, rest, err := ref.UnAMF(b)
		if err != nil {
			return "", nil, false
		}
		b = rest
		switch f {
		case 'n':
			if v == nil {
				v = 0.0
			} else if _, ok := v.(float64); !ok {
				return "", nil, false
			}
		case 's':
			if v == nil {
				v = ""
			} else if _, ok := v.(string); !ok {
				return "", nil, false
			}
		case 'b':
			if v == nil {
				v = false
			} else if _, ok := v.(bool); !ok {
				return "", nil, false
			}
		case 'z':
			if v != nil {
				return "", nil, false
			}
			continue
		case 'o', 'O', 'A':
			if v == nil && f == 'o' {
				break
			}
			if v == nil {
				v = &ref.Obj{Array: f == 'A'}
			}
			if o, ok := v.(*ref.Obj); !ok || o.Array != (f == 'A') {
				return "", nil, false
			}
		}
		out += " " + ref.Show(v)
	}
	return out, b, true
}

// meaning is what a handler must make of a message, or empty for an error.
func meaning(kind int, typ byte, b []byte) string {
	switch kind {
	case hConn:
		v, b, err := ref.UnAMF(b)
		name, ok := v.(string)
		if err != nil || !ok {
			return ""
		}
		for _, c := range commands[hConn] {
			if c.name == name {
				if s, _, ok := fields(c.fields, b); ok {
					return name + s
				}
			}
		}
	case hStream:
		v, _, _ := ref.UnAMF(b)
		_, b, ok := fields("sno", b)
		if !ok {
			return ""
		}
		name, _ := v.(string)
		for _, c := range commands[hStream] {
			if c.name == name {
				if s, _, ok := fields(c.fields, b); ok {
					return name + s
				}
			}
		}
	case hData:
		switch {
		case (typ == 8 || typ == 9) && len(b) > 0:
			return media(typ, b)
		case typ == 0x12:
			if s, _, ok := fields("ssA", b); ok {
				return "metadata" + s
			}
		}
	}
	return ""
}

func fromAMF(v amf0.AmfType) any {
	pairs := func(p *amf0.Paired, array bool) any {
		o := &ref.Obj{Array: array}
		for i := 0; i < p.Size(); i++ {
			k, v := p.Pair(i)
			o.Set(k, fromAMF(v))
		}
		return o
	}
	switch v := v.(type) {
	case *amf0.Number:
		return float64(*v)
	case *amf0.Bool:
		return bool(*v)
	case *amf0.String:
		return string(*v)
	case *amf0.LongString:
		return ref.Long(*v)
	case *amf0.Undefined:
		return ref.Undefined{}
	case *amf0.Null:
		return nil
	case *amf0.Object:
		if v == nil {
			return nil
		}
		return pairs(v.Paired, false)
	case *amf0.Array:
		if v == nil {
			return nil
		}
		return pairs(v.Paired, true)
	}
	return fmt.Sprintf("%T", v)
}

func toAMF(v any) amf0.AmfType {
	switch v := v.(type) {
	case float64:
		return amf0.NewNumber(v)
	case bool:
		return amf0.NewBool(v)
	case string:
		return amf0.NewString(v)
	case *ref.Obj:
		if v.Array {
			a := amf0.NewArray()
			for i, k := range v.Keys {
				a.Add(k, toAMF(v.Vals[i]))
			}
			return a
		}
		a := amf0.NewObject()
		for i, k := range v.Keys {
			a.Add(k, toAMF(v.Vals[i]))
		}
		return a
	}
	return amf0.NewNull()
}

func show(vs ...any) string {
	s := ""
	for _, v := range vs {
		s += " " + ref.Show(v)
	}
	return s
}

func media(typ byte, b []byte) string {
	if len(b) > 1000 {
		return fmt.Sprintf("media %d %x... (%d bytes, hash %x)", typ, b[:20], len(b), sha256.Sum256(b))
	}
	return fmt.Sprintf("media %d %x", typ, b)
}

// canon writes out a value that a handler delivered.
func canon(v any) string {
	switch v := v.(type) {
	case *conn.ConnectCommand:
		return "connect" + show(v.TransactionId, fromAMF(v.Metadata))
	case *conn.CreateStreamCommand:
		return "createStream" + show(v.TransactionId, fromAMF(v.Metadata))
	case *conn.ReleaseCommand:
		return "releaseStream" + show(v.TransactionId, v.StreamKey)
	case *conn.FCPublishCommand:
		return "FCPublish" + show(v.TransactionId, v.StreamKey)
	case *conn.GetStreamLength:
		return "getStreamLength" + show(v.StreamId, v.PlayPath)
	case *stream.CommandPlay:
		return "play" + show(v.PlayPath, v.Live)
	case *stream.CommandPlay2:
		return "play2" + show(fromAMF(v.Parameters))
	case *stream.CommandDeleteStream:
		return "deleteStream" + show(v.StreamId)
	case *stream.CommandReceiveAudio:
		return "receiveAudio" + show(v.Successful)
	case *stream.CommandReceiveVideo:
		return "receiveVideo" + show(v.Successful)
	case *stream.CommandPublish:
		return "publish" + show(v.Name, v.Type)
	case *stream.CommandSeek:
		return "seek" + show(v.OffsetMillis)
	case *stream.CommandPause:
		return "pause" + show(v.Paused, v.CutoffMillis)
	case *data.Audio:
		return media(v.Id(), append([]byte{v.Control()}, v.Payload()...))
	case *data.Video:
		return media(v.Id(), append([]byte{v.Control()}, v.Payload()...))
	case *data.DataFrame:
		return "metadata" + show(v.Header, v.Type, fromAMF(v.Arguments))
	}
	return fmt.Sprintf("%#v", v)
}

// genObj makes an object or array that is unlike all others of the run.
func genObj(t *T, n int, array bool, depth int) *ref.Obj {
	o := &ref.Obj{Array: array}
	for i, k := 0, t.Src.Intn(pick(t, 1, 4)+1); i < k; i++ {
		o.Set(fmt.Sprintf("k%d.%d", n, i), genVal(t, n, depth+1))
	}
	if longMedia && depth == 0 && long(t, 60) {
		for i, k := 0, t.Src.Range(1, 4); i < k; i++ {
			o.Set(fmt.Sprintf("long%d.%d", n, i), string(content(n+i, pick(t, 500, 5000, 40000)+t.Src.Intn(20000))))
		}
	}
	return o
}

func genStr(t *T, n int) string {
	s := fmt.Sprintf("s%d", n)
	if t.Src.Chance(0.2) {
		l := pick(t, 20, 300)
		if longMedia && long(t, 50) {
			l = 65000
		}
		s += string(content(n, t.Src.Intn(l)))
	}
	return s
}

func genNum(t *T, n int) float64 {
	return pick(t, float64(n), float64(n), float64(n)+0.5, -float64(n), float64(n)*1e12, 0, 1<<32, 1e300, math.Inf(1))
}

func genVal(t *T, n int, depth int) any {
	switch t.Src.Intn(5) {
	case 0:
		return genNum(t, n)
	case 1:
		return t.Src.Chance(0.5)
	case 2:
		if depth < 3 {
			return genObj(t, n, t.Src.Chance(0.3), depth)
		}
	case 3:
		return nil
	}
	return genStr(t, n)
}

func bodies(t *T) int {
	if longMedia {
		return longBody(t)
	}
	return pick(t, 4, 400)
}

// genCommand makes the body of message n of a kind.
func genCommand(t *T, kind, n int) (typ byte, b []byte) {
	typ = 0x14
	put := func(spec string) {
		for _, f := range spec {
			switch f {
			case 'n':
				b = ref.AMF(b, genNum(t, n))
			case 's':
				b = ref.AMF(b, genStr(t, n))
			case 'b':
				b = ref.AMF(b, t.Src.Chance(0.5))
			case 'z':
				b = ref.AMF(b, nil)
			case 'o', 'O':
				if t.Src.Chance(0.3) {
					b = ref.AMF(b, nil)
				} else {
					b = ref.AMF(b, genObj(t, n, false, 0))
				}
			case 'A':
				if t.Src.Chance(0.1) {
					b = ref.AMF(b, nil)
				} else {
					b = ref.AMF(b, genObj(t, n, true, 0))
				}
			}
		}
	}
	switch kind {
	case hConn:
		c := pick(t, commands[hConn]...)
		b = ref.AMF(b, c.name)
		put(c.fields)
	case hStream:
		c := pick(t, commands[hStream]...)
		b = ref.AMF(b, c.name, pick(t, 0.0, float64(n)))
		put("o")
		put(c.fields)
	case hData:
		typ = pick[byte](t, 8, 9, 0x12)
		if typ == 0x12 {
			b = ref.AMF(b, "@setDataFrame")
			put("sA")
		} else {
			b = append([]byte{byte(t.Src.Intn(256)), byte(n), byte(n >> 8)}, content(n, t.Src.Intn(bodies(t)))...)
		}
	}
	return typ, b
}

// spoil makes a body malformed, mostly.
func spoil(t *T, kind int, typ byte, b []byte) (byte, []byte) {
	switch t.Src.Intn(6) {
	case 0: // cut short
		b = b[:t.Src.Intn(len(b)+1)]
	case 1:
		b = nil
	case 2: // unknown
		if kind == hData {
			typ = pick[byte](t, 0x0f, 0x11, 7, 0x13, 0)
		} else {
			b = ref.AMF(nil, pick(t, "noSuchCommand", "", "Connect", "close"), 1.0, nil)
		}
	case 3: // one value of another type
		b = ref.AMF(nil, pick[any](t, nil, 4.0, true, "connect", "publish", "@setDataFrame"), pick[any](t, nil, 4.0, true, "x"), pick[any](t, nil, 4.0, true, "x"), pick[any](t, nil, 4.0, true, "x"))
	case 4: // noise
		b = content(t.Src.Intn(1<<20), t.Src.Intn(40))
	default: // a byte changed
		b = append([]byte(nil), b...)
		if len(b) > 0 {
			b[t.Src.Intn(len(b))] ^= 1 << t.Src.Intn(8)
		}
	}
	return typ, b
}

// genMsg makes message n for a handler, as it arrives.
func genMsg(t *T, kind, n int, bad float64) *ref.Msg {
	m := &ref.Msg{}
	switch kind {
	case hConn:
		m.CSID, m.SID = 3, pick[uint32](t, 0, 0, 1)
	case hStream:
		m.CSID, m.SID = 4, pick[uint32](t, 1, 1, 0, 7)
	case hData:
		m.CSID, m.SID = 4, pick[uint32](t, 1, 1, 0, 7)
	}
	m.Type, m.Data = genCommand(t, kind, n)
	if t.Src.Chance(bad) {
		m.Type, m.Data = spoil(t, kind, m.Type, m.Data)
	}
	m.TS, m.Ext = genTS(t, 0.05)
	return m
}

// outVal is a value to be sent and the message it must become.
type outVal struct {
	m    *ref.Msg // nil if the value cannot be encoded
	err  error    // the error it fails with, if known
	send func()
	what string
	ok   bool // it was accepted

	loose bool // its timestamp and message stream do not matter
}

// matches reports whether a message written is v.
func (v *outVal) matches(m *ref.Msg) bool {
	if v.m == nil || v.m.CSID != m.CSID || v.m.Type != m.Type || !bytes.Equal(v.m.Data, m.Data) {
		return false
	}
	if v.loose {
		return true
	}
	if v.m.TS != m.TS {
		return false
	}
	if m.TS == 0xffffff && v.m.Ext != m.Ext {
		return false
	}
	// A timestamp stays what it is: one that counts from the message before, or
	// one that does not.
	if (m.Fmt == 0) != (v.m.Fmt == 0) {
		return false
	}
	return m.Fmt != 0 || v.m.SID == m.SID
}

// hand is a handler at work.
type hand struct {
	t    *T
	kind int
	name string
	feed chan *chunk.Chunk

	nc *conn.NetConn
	ns *stream.NetStream
	ds *data.Stream

	wants   []string // outcomes of what arrived, empty for an error
	arrived []*ref.Msg
	lanes   map[uint32][]string // outcomes per chunk stream, with a dispatcher
	total   int
	outs    []string
	vals    []any
	errs    []error
	outErrs []error
	inOver  bool
	errOver bool

	senders [][]*outVal
	left    int
	encs    map[error]bool
	known   func(error) bool
	onValue func(v any)

	// marks says that the consumer writes to what is handed to it, and now is
	// what it made of it.
	marks bool
	now   []string
}

func (h *hand) init(t *T, kind int) {
	h.t, h.kind, h.name = t, kind, kinds[kind]+" handler"
	h.encs = map[error]bool{}
	h.known = func(error) bool { return false }
	h.marks = t.Src.Chance(0.5)
}

// newHand makes a handler of a kind.
func newHand(t *T, kind int, w chunk.Writer) *hand {
	h := &hand{feed: make(chan *chunk.Chunk, pick(t, 0, 0, 2))}
	h.init(t, kind)
	switch kind {
	case hConn:
		h.nc = conn.NewNetConnection(h.feed, w)
	case hStream:
		h.ns = stream.New(h.feed, w)
	case hData:
		h.ds = data.NewStream(h.feed, w)
	}
	return h
}

func (h *hand) run() {
	switch h.kind {
	case hConn:
		h.nc.Listen()
	case hStream:
		h.ns.Listen()
	case hData:
		h.ds.Recv()
	}
}

func (h *hand) close() {
	switch h.kind {
	case hConn:
		h.nc.Close()
	case hStream:
		h.ns.Close()
	case hData:
		h.ds.Close()
	}
}

func (h *hand) collect(limit int, pa *pauser) {
	switch h.kind {
	case hConn:
		collectFrom(h, h.nc.In(), h.nc.Errs(), limit, pa)
	case hStream:
		collectFrom(h, h.ns.In(), h.ns.Errs(), limit, pa)
	case hData:
		collectFrom(h, h.ds.Out(), h.ds.Errs(), limit, pa)
	}
}

func collectFrom[V any](h *hand, in <-chan V, errs <-chan error, limit int, pa *pauser) {
	t := h.t
	for ; limit > 0 && (in != nil || errs != nil); limit-- {
		ri, re := sim.RecvCase(in), sim.RecvCase(errs)
		switch sim.Select(false, ri, re) {
		case 0:
			if !ri.OK {
				h.inOver, in = true, nil
				continue
			}
			s := canon(ri.V)
			t.Logf("%s delivers %s", h.name, cut(s))
			h.outs = append(h.outs, s)
			h.vals = append(h.vals, ri.V)
			if h.marks {
				h.mark(ri.V)
				s = canon(ri.V)
			}
			h.now = append(h.now, s)
			if h.onValue != nil {
				h.onValue(ri.V)
			}
		case 1:
			if !re.OK {
				h.errOver, errs = true, nil
				continue
			}
			if re.V == nil {
				t.Failf("bogus", "the %s reported a nil error", h.name)
			}
			t.Logf("%s reports %s", h.name, cut(re.V.Error()))
			if h.known(re.V) {
				h.outErrs = append(h.outErrs, re.V)
			} else {
				h.outs = append(h.outs, "")
				h.vals = append(h.vals, nil)
				h.now = append(h.now, "")
				h.errs = append(h.errs, re.V)
			}
		}
		pa.pause()
	}
}

// mark writes to a value, as its owner may.
func (h *hand) mark(v any) {
	add := func(p *amf0.Paired) { p.Add("mark", amf0.NewNumber(float64(len(h.now)))) }
	obj := func(o *amf0.Object) {
		if o != nil && o.Paired != nil {
			add(o.Paired)
		}
	}
	scribble := func(b []byte) {
		if h.onValue == nil {
			for i := range b {
				b[i] ^= 0x55
			}
		}
	}
	switch v := v.(type) {
	case *conn.ConnectCommand:
		obj(v.Metadata)
	case *conn.CreateStreamCommand:
		obj(v.Metadata)
	case *stream.CommandPlay2:
		obj(v.Parameters)
	case *data.DataFrame:
		if v.Arguments != nil && v.Arguments.Paired != nil {
			add(v.Arguments.Paired)
		}
	case *data.Audio:
		scribble(v.Payload())
	case *data.Video:
		scribble(v.Payload())
	}
}

func cut(s string) string {
	if len(s) > 100 {
		return s[:100] + "..."
	}
	return s
}

// checkIn compares the outcomes with what arrived.
func (h *hand) checkIn(whole bool) {
	t := h.t
	for i, o := range h.outs {
		if i >= len(h.wants) {
			t.Failf("extra", "%s: %d outcomes were observed for %d messages; the first extra one is %q", h.name, len(h.outs), len(h.wants), cut(o))
		}
		w := h.wants[i]
		switch {
		case o == "" && w != "":
			t.Failf("refused", "%s: message %d (%s) was answered with an error (%v)", h.name, i, cut(w), h.errs)
		case o != "" && w == "":
			t.Failf("accepted", "%s: message %d (%v) is malformed or unknown, but was delivered as %s", h.name, i, h.arrived[i], cut(o))
		case o != w:
			t.Failf("differs", "%s: message %d is %s, delivered was %s", h.name, i, w, o)
		case o != "" && canon(h.vals[i]) != h.now[i]:
			t.Failf("altered", "%s: message %d (%s) was altered after it was delivered: it is now %s", h.name, i, h.now[i], canon(h.vals[i]))
		}
	}
	if whole && len(h.outs) < len(h.wants) {
		t.Failf("lost", "%s: %d messages arrived, only %d outcomes were observed:%s", h.name, len(h.wants), len(h.outs), t.GoroutineDump())
	}
}

// whole makes a message into what a reader hands out.
func whole(m *ref.Msg) *chunk.Chunk {
	return &chunk.Chunk{
		Header: &chunk.Header{
			BasicHeader:       chunk.BasicHeader{FormatId: m.Fmt, StreamId: m.CSID},
			MessageHeader:     chunk.MessageHeader{FormatId: m.Fmt, Timestamp: m.TS, TimestampDelta: m.Fmt == 1 || m.Fmt == 2, Length: uint32(len(m.Data)), TypeId: m.Type, StreamId: m.SID},
			ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: m.Ext},
		},
		Data: append([]byte(nil), m.Data...),
	}
}

// feedMsgs makes n messages arrive.
func (h *hand) feedMsgs(n int, bad float64, then func()) {
	t := h.t
	var cs []*chunk.Chunk
	again := pick(t, 0, 0, 0.3)
	var m *ref.Msg
	for i := 0; i < n; i++ {
		if m == nil || !t.Src.Chance(again) {
			m = genMsg(t, h.kind, i+1, bad)
		}
		w := meaning(h.kind, m.Type, m.Data)
		t.Logf("arriving for the %s: %v meaning %s", h.name, m, cut(w))
		h.wants = append(h.wants, w)
		h.arrived = append(h.arrived, m)
		cs = append(cs, whole(m))
	}
	pa := newPauser(t)
	t.Go("source of the "+h.name, func() {
		for _, c := range cs {
			pa.pause()
			sim.To(h.feed).Send(c)
		}
		pa.pause()
		then()
	})
}

// unencodable are values that fail to encode.
type badConn struct{ err error }

func (b *badConn) Marshal() ([]byte, error) { return nil, b.err }

type badData struct {
	data.Audio
	err error
}

func (b *badData) Marshal() (*chunk.Chunk, error) { return nil, b.err }

// genOut makes value n to be sent through h.
func (h *hand) genOut(n int, fail float64) *outVal {
	t := h.t
	bad := t.Src.Chance(fail)
	v := &outVal{m: &ref.Msg{Type: 0x14}}
	if bad {
		v.m = nil
		v.err = fmt.Errorf("encoding error %d", n)
		v.what = "value that does not encode"
	}
	switch h.kind {
	case hConn:
		var x conn.Marshallable
		switch {
		case bad:
			x = &badConn{v.err}
		case t.Src.Chance(0.5):
			r := &conn.CreateStreamResponse{TransactionId: float64(n), StreamID: genNum(t, n)}
			if t.Src.Chance(0.2) {
				r.ResponseType = "_error"
			}
			v.m.Data = ref.AMF(nil, "_result", r.TransactionId, nil, r.StreamID)
			x = r
		default:
			p, i := genObj(t, n, false, 0), genObj(t, n+1000, false, 0)
			x = &conn.ConnectResponse{TransactionId: float64(n), Properties: *toAMF(p).(*amf0.Object), Information: *toAMF(i).(*amf0.Object)}
			v.m.Data = ref.AMF(nil, "_result", float64(n), p, i)
		}
		if !bad {
			v.m.CSID = 3
		}
		v.send = func() { sim.To(h.nc.Out()).Send(x) }
	case hStream:
		s := stream.NewStatus()
		a := genObj(t, n, false, 0)
		if bad || t.Src.Chance(0.9) {
			a.Set("code", genStr(t, n))
		}
		if bad {
			a.Set(string(bytes.Repeat([]byte("k"), 70000)), nil)
			v.err = nil
		}
		s.Arguments = *toAMF(a).(*amf0.Object)
		if !bad {
			v.m.CSID, v.m.SID = 5, 1
			v.m.Data = ref.AMF(nil, "onStatus", 0.0, nil, a)
		}
		v.send = func() { sim.To(h.ns.Status()).Send(s) }
	case hData:
		var x data.Data
		switch {
		case bad && t.Src.Chance(0.4):
			a := genObj(t, n, true, 0)
			x = &data.DataFrame{Header: "@setDataFrame", Type: strings.Repeat("k", 70000), Arguments: toAMF(a).(*amf0.Array)}
			v.err = nil
		case bad:
			x = &badData{err: v.err}
		case t.Src.Chance(0.4):
			a, s := genObj(t, n, true, 0), genStr(t, n)
			x = &data.DataFrame{Header: "@setDataFrame", Type: s, Arguments: toAMF(a).(*amf0.Array)}
			*v.m = ref.Msg{CSID: 4, Type: 0x12, SID: 1, Data: ref.AMF(nil, "@setDataFrame", s, a)}
		default:
			// Media on its way from one client to another.
			m := genMsg(t, hData, n, 0)
			for m.Type == 0x12 {
				m.Type, m.Data = genCommand(t, hData, n)
			}
			m.SID = 1
			m.Fmt = byte(pick(t, 0, 0, 1, 2))
			c := whole(m)
			if t.Src.Chance(0.2) {
				// A type 3 header was completed from the one before.
				c.Header.BasicHeader.FormatId = 3
			}
			if m.Type == 8 {
				x = &data.Audio{}
			} else {
				x = &data.Video{}
			}
			x.Read(c)
			v.m = m
		}
		v.send = func() { sim.To(h.ds.In()).Send(x) }
	}
	if v.err != nil {
		h.encs[v.err] = true
	}
	if v.m != nil {
		v.what = v.m.String()
	}
	return v
}

// send has several goroutines send values.
func (h *hand) send(n, each int, fail float64) {
	t := h.t
	h.left = n
	for g := 0; g < n; g++ {
		var mine []*outVal
		for i, k := 0, lots(t, 1, each); i < k; i++ {
			if len(mine) > 0 && t.Src.Chance(0.1) {
				v := *mine[len(mine)-1]
				mine = append(mine, &v)
				continue
			}
			mine = append(mine, h.genOut(200+g*1000+i, fail))
		}
		h.senders = append(h.senders, mine)
		pa := newPauser(t)
		t.Go(fmt.Sprintf("sender %d of the %s", g, h.name), func() {
			for _, v := range mine {
				pa.pause()
				v.send()
				v.ok = true
				t.Logf("%s: accepted %s", h.name, cut(v.what))
			}
			h.left--
		})
	}
}

// place finds how messages written can be values sent, each once and in its
// sender's order. It returns the number of messages that could be placed.
func place(got []*ref.Msg, senders [][]*outVal) int {
	best := 0
	dead := map[string]bool{}
	next := make([]int, len(senders))
	var try func(k int) bool
	try = func(k int) bool {
		best = max(best, k)
		if k == len(got) {
			return true
		}
		key := fmt.Sprint(k, next)
		if dead[key] {
			return false
		}
		for g, vs := range senders {
			was := next[g]
			for i := was; i < len(vs); i++ {
				if vs[i].matches(got[k]) {
					next[g] = i + 1
					if try(k + 1) {
						return true
					}
					break
				}
			}
			next[g] = was
		}
		dead[key] = true
		return false
	}
	try(0)
	return best
}

// unwire decodes everything written to a sink.
func unwire(t *T, name string, out []byte, size int, cutOK bool) []*ref.Msg {
	var got []*ref.Msg
	w := &ref.Wire{}
	for len(out) > 0 {
		m, n, err := w.Decode(out, size)
		var short *ref.ErrShort
		if cutOK && errors.As(err, &short) {
			break
		}
		if err != nil {
			t.Failf("undecodable", "%s: the bytes on the wire do not decode after %d messages: %v", name, len(got), err)
		}
		got = append(got, m)
		out = out[n:]
	}
	return got
}

// checkOut compares what was written with the values sent. failed are the
// errors of the writes that failed; gone means that the transport broke.
func (h *hand) checkOut(got []*ref.Msg, failed []error, gone bool) {
	t := h.t
	if h.left > 0 {
		t.Failf("stuck", "%s: values sent are no longer accepted:%s", h.name, t.GoroutineDump())
	}
	if k := place(got, h.senders); k < len(got) {
		t.Failf("bogus", "%s: %v (header type %d), written as message %d, is not a value sent, or one sent before, or out of its sender's order", h.name, got[k], got[k].Fmt, k)
	}
	all, bad := 0, 0
	for _, vs := range h.senders {
		for _, v := range vs {
			if v.m == nil {
				bad++
			} else {
				all++
			}
		}
	}
	missing := all - len(got)
	if !gone && missing != len(failed) {
		t.Failf("lost", "%s: %d of the values sent were not written, %d writes failed", h.name, missing, len(failed))
	}
	if len(h.outErrs) != missing+bad {
		t.Failf("unreported", "%s: %d of the values sent were not written and %d did not encode, %d errors were reported (%v)", h.name, missing, bad, len(h.outErrs), h.outErrs)
	}
	for _, e := range failed {
		n := 0
		for _, x := range h.outErrs {
			if errors.Is(x, e) {
				n++
			}
		}
		if n != 1 {
			t.Failf("unreported", "%s: %v was reported %d times", h.name, e, n)
		}
	}
}
