package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/harness/ref"
	"verif/sim"
)

// ctl is a control value, independent of the library's types.
type ctl struct {
	typ  byte
	a    uint32
	b    uint16 // event type or limit type
	body []byte
	err  error // cannot be encoded
}

func (c *ctl) String() string {
	if c == nil {
		return "an error"
	}
	if c.err != nil {
		return "value that does not encode: " + c.err.Error()
	}
	return fmt.Sprintf("control{type %d %d %d %x}", c.typ, c.a, c.b, short(c.body))
}

func (c *ctl) equal(o *ctl) bool {
	return c.typ == o.typ && c.a == o.a && c.b == o.b && bytes.Equal(c.body, o.body)
}

// encode is the body of the message that carries c.
func (c *ctl) encode() []byte {
	switch c.typ {
	case 4:
		return append(binary.BigEndian.AppendUint16(nil, c.b), c.body...)
	case 6:
		return append(binary.BigEndian.AppendUint32(nil, c.a), byte(c.b))
	}
	return binary.BigEndian.AppendUint32(nil, c.a)
}

// decode is the value a message carries, nil if it is malformed.
func decode(typ byte, body []byte) *ctl {
	c := &ctl{typ: typ}
	n := 4
	switch typ {
	case 1, 2, 3, 5:
	case 4:
		n = 2
	case 6:
		n = 5
	default:
		return nil
	}
	if len(body) < n {
		return nil
	}
	switch typ {
	case 4:
		c.b = binary.BigEndian.Uint16(body)
		c.body = append([]byte(nil), body[2:]...)
	case 6:
		c.b = uint16(body[4])
		fallthrough
	default:
		c.a = binary.BigEndian.Uint32(body)
	}
	if typ == 1 && c.a > 0xffffff {
		c.a = 0xffffff
	}
	return c
}

// ours translates a value the library handed out.
func ours(v control.Control) *ctl {
	switch v := v.(type) {
	case *control.SetChunkSize:
		return &ctl{typ: 1, a: v.ChunkSize()}
	case *control.AbortMessage:
		return &ctl{typ: 2, a: v.ChunkStreamId}
	case *control.Acknowledgement:
		return &ctl{typ: 3, a: v.SequenceNumber}
	case *control.Event:
		return &ctl{typ: 4, b: uint16(v.Type), body: append([]byte(nil), v.Body...)}
	case *control.WindowAckSize:
		return &ctl{typ: 5, a: v.WindowAckSize}
	case *control.SetPeerBandwidth:
		return &ctl{typ: 6, a: v.AckWindowSize, b: uint16(v.LimitType)}
	}
	return nil
}

// mark writes to a value, as its owner may.
func mark(v control.Control) *ctl {
	switch v := v.(type) {
	case *control.AbortMessage:
		v.ChunkStreamId ^= 0x55
	case *control.Acknowledgement:
		v.SequenceNumber ^= 0x55
	case *control.Event:
		v.Type ^= 0x5500
		for i := range v.Body {
			v.Body[i] ^= 0x55
		}
	case *control.WindowAckSize:
		v.WindowAckSize ^= 0x55
	case *control.SetPeerBandwidth:
		v.AckWindowSize ^= 0x55
	}
	return ours(v)
}

// broken is a control value that cannot be encoded.
type broken struct {
	control.Acknowledgement
	err error
	n   int
}

func (b *broken) Write(w io.Writer) error {
	w.Write(make([]byte, b.n))
	return b.err
}

// theirs translates a value for the library.
func (c *ctl) theirs() control.Control {
	if c.err != nil {
		return &broken{err: c.err, n: int(c.a)}
	}
	switch c.typ {
	case 1:
		return control.NewSetChunkSize(c.a)
	case 2:
		return &control.AbortMessage{ChunkStreamId: c.a}
	case 3:
		return &control.Acknowledgement{SequenceNumber: c.a}
	case 4:
		return &control.Event{Type: control.EventType(c.b), Body: append([]byte(nil), c.body...)}
	case 5:
		return &control.WindowAckSize{WindowAckSize: c.a}
	}
	return &control.SetPeerBandwidth{AckWindowSize: c.a, LimitType: control.LimitType(c.b)}
}

// longBody draws a bound for the length of a body.
func longBody(t *T) int {
	if long(t, 40) {
		return pick(t, 70000, 70000, 140000)
	}
	return pick(t, 9, 300)
}

// genCtl makes a value that is unlike all others of the run.
func genCtl(t *T, n int) *ctl {
	c := &ctl{typ: byte(t.Src.Range(1, 6))}
	c.a = uint32(n)<<20 | uint32(t.Src.Intn(1<<16))<<4 | 5
	if t.Src.Chance(0.2) {
		c.a |= 0xf0000000
	}
	switch c.typ {
	case 1:
		c.a = uint32(1 + n<<8 + t.Src.Intn(256))
		if t.Src.Chance(0.1) {
			c.a = pick[uint32](t, 1, 0xffffff, 128, 65536)
		}
	case 4:
		c.a = 0
		c.b = uint16(pick(t, 0, 3, t.Src.Intn(1<<16)))
		c.body = append([]byte{byte(n), byte(n >> 8)}, content(n, t.Src.Intn(longBody(t)))...)
	case 6:
		c.b = uint16(pick(t, 0, 1, 2, 2, t.Src.Intn(256)))
	}
	if c.typ != 1 && c.typ != 4 && t.Src.Chance(0.1) {
		c.a = pick[uint32](t, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffff, 0x1000000)
	}
	return c
}

// genIncoming makes a message for a control stream and its meaning.
func genIncoming(t *T, n int) (*ref.Msg, *ctl) {
	m := &ref.Msg{CSID: 2, Fmt: 0}
	c := genCtl(t, n)
	m.Type = c.typ
	m.Data = c.encode()
	switch t.Src.Intn(6) {
	case 0: // short
		k := t.Src.Intn(len(m.Data))
		if c.typ == 4 {
			k = t.Src.Intn(2)
		}
		m.Data = m.Data[:k]
	case 1: // trailing bytes
		m.Data = append(m.Data, content(n+500, t.Src.Range(1, 12))...)
	case 2: // unknown type
		m.Type = byte(pick(t, 0, 7, 8, 9, 0x14, 255, t.Src.Range(7, 255)))
	case 3: // bytes of anything
		m.Data = content(n+700, t.Src.Intn(12))
		if m.Type == 1 && len(m.Data) >= 4 {
			m.Data[0] = 0 // an in-range chunk size
			m.Data[3] |= 1
		}
	}
	m.SID = uint32(t.Src.Intn(2)) * uint32(t.Src.Intn(5))
	m.TS = uint32(t.Src.Intn(1000))
	return m, decode(m.Type, m.Data)
}

// fakeWriter records messages and fails some of them.
type fakeWriter struct {
	t      *T
	msgs   []*ref.Msg
	fail   float64
	n      int
	failed []error
	size   int
	pa     *pauser
	mark   map[error]bool
	relays bool // messages may carry timestamp deltas
}

func newFakeWriter(t *T, fail float64) *fakeWriter {
	return &fakeWriter{t: t, fail: fail, size: 128, pa: newPauser(t), mark: map[error]bool{}}
}

func (f *fakeWriter) Write(c *chunk.Chunk) error {
	f.n++
	f.pa.pause()
	s := look(c)
	if s.bad != "" {
		f.t.Failf("bogus", "the writer was given a bad message: %s", s.bad)
	}
	if int(s.len) != len(s.m.Data) {
		f.t.Failf("length", "the writer was given a message that declares %d bytes and has %d", s.len, len(s.m.Data))
	}
	h := c.Header
	if !f.relays && (h.BasicHeader.FormatId != 0 || h.MessageHeader.FormatId != 0 || h.MessageHeader.TimestampDelta) {
		f.t.Failf("header", "the writer was given a message with a compressed header: %+v", *h)
	}
	if f.fail > 0 && f.t.Src.Chance(f.fail) {
		err := ioErr(f.t, "write", f.n)
		f.t.Fault("write-failure")
		f.failed = append(f.failed, err)
		f.mark[err] = true
		return err
	}
	m := s.m
	f.t.Logf("written: %v", &m)
	f.msgs = append(f.msgs, &m)
	f.pa.pause()
	return nil
}

func (f *fakeWriter) WriteSize() int     { return f.size }
func (f *fakeWriter) SetWriteSize(n int) { f.size = n }

// ctlRun is a control stream at work.
type ctlRun struct {
	t      *T
	s      *control.Stream
	src    *source
	wants  []*ctl // outcomes of the incoming messages, nil for an error
	wantCS []*ref.Msg

	outs    []*ctl // outcomes observed, nil for an error
	vals    []control.Control
	errs    []error
	outErrs []error // errors of outgoing values
	known   func(error) bool
	marks   bool   // the consumer writes to what is handed to it
	now     []*ctl // what it made of it
	inOver  bool   // In was closed
	errOver bool
}

func (r *ctlRun) collect(limit int, pa *pauser) {
	in, errs := r.s.In(), r.s.Errs()
	for ; limit > 0 && (in != nil || errs != nil); limit-- {
		ri, re := sim.RecvCase(in), sim.RecvCase(errs)
		switch sim.Select(false, ri, re) {
		case 0:
			if !ri.OK {
				r.inOver, in = true, nil
				continue
			}
			o := ours(ri.V)
			if o == nil {
				r.t.Failf("bogus", "the control stream delivered %#v", ri.V)
			}
			r.t.Logf("control stream delivers %v", o)
			r.outs = append(r.outs, o)
			r.vals = append(r.vals, ri.V)
			if r.marks {
				o = mark(ri.V)
			}
			r.now = append(r.now, o)
		case 1:
			if !re.OK {
				r.errOver, errs = true, nil
				continue
			}
			r.t.Logf("control stream reports %v", re.V)
			if re.V == nil {
				r.t.Failf("bogus", "the control stream reported a nil error")
			}
			if r.known(re.V) {
				r.outErrs = append(r.outErrs, re.V)
			} else {
				r.errs = append(r.errs, re.V)
				r.outs = append(r.outs, nil)
				r.vals = append(r.vals, nil)
				r.now = append(r.now, nil)
			}
		}
		pa.pause()
	}
}

// checkIn compares the outcomes with the messages that arrived.
func (r *ctlRun) checkIn(whole bool) {
	t := r.t
	for i, o := range r.outs {
		if i >= len(r.wants) {
			t.Failf("extra", "%d outcomes were observed for %d messages; the first extra one is %v", len(r.outs), len(r.wants), o)
		}
		w := r.wants[i]
		switch {
		case o == nil && w == nil:
		case o == nil:
			t.Failf("refused", "message %d (%v) was answered with an error (%v)", i, w, r.errs)
		case w == nil:
			t.Failf("accepted", "message %d is malformed or of unknown type, but was delivered as %v", i, o)
		case !o.equal(w):
			t.Failf("differs", "message %d carries %v, delivered was %v", i, w, o)
		case !ours(r.vals[i]).equal(r.now[i]):
			t.Failf("altered", "message %d (%v) was altered after it was delivered: it is now %v", i, r.now[i], ours(r.vals[i]))
		}
	}
	if whole && len(r.outs) < len(r.wants) {
		t.Failf("lost", "%d messages arrived, only %d outcomes were observed:%s", len(r.wants), len(r.outs), t.GoroutineDump())
	}
}

// feedMsgs makes messages arrive on the stream's source.
func (r *ctlRun) feedMsgs(n int, then func()) {
	t := r.t
	var cs []*chunk.Chunk
	var m0 *ref.Msg
	var c0 *ctl
	again := pick(t, 0, 0, 0.3)
	for i := 0; i < n; i++ {
		m, c := genIncoming(t, i)
		if m0 != nil && t.Src.Chance(again) {
			m, c = m0, c0 // the same once more
		}
		m0, c0 = m, c
		t.Logf("arriving: %v meaning %v", m, c)
		r.wants = append(r.wants, c)
		f := pick[byte](t, 0, 0, 1, 2, 3)
		cs = append(cs, &chunk.Chunk{
			Header: &chunk.Header{
				BasicHeader:   chunk.BasicHeader{FormatId: f, StreamId: 2},
				MessageHeader: chunk.MessageHeader{FormatId: f, TimestampDelta: f == 1 || f == 2, Timestamp: m.TS, Length: uint32(len(m.Data)), TypeId: m.Type, StreamId: m.SID},
			},
			Data: append([]byte(nil), m.Data...),
		})
	}
	pa := newPauser(t)
	t.Go("chunk stream", func() {
		for _, c := range cs {
			pa.pause()
			sim.To(r.src.ch).Send(c)
		}
		pa.pause()
		then()
	})
}

func newCtl(t *T, w chunk.Writer) *ctlRun {
	r := &ctlRun{t: t, marks: t.Src.Chance(0.3), src: &source{make(chan *chunk.Chunk, pick(t, 0, 0, 2))}}
	r.s = control.NewStream(r.src, w, control.NewParser(), control.NewChunker())
	r.known = func(error) bool { return false }
	return r
}

// senders send values from several goroutines.
type senders struct {
	vals [][]*ctl // per sender
	sent [][]bool
	left int
	encs map[error]bool
}

func send(t *T, r *ctlRun, n, each int, fail float64) *senders {
	s := &senders{encs: map[error]bool{}, left: n}
	again := pick(t, 0, 0, 0.3, 0.8)
	if history > 1 {
		again = 0
	}
	var last []*ctl
	for g := 0; g < n; g++ {
		var mine []*ctl
		for i, k := 0, lots(t, 1, each); i < k; i++ {
			c := genCtl(t, 200+g*1000+i)
			if t.Src.Chance(again) {
				// The same once more, also of another sender.
				all := append(append([]*ctl{}, mine...), last...)
				if len(all) > 0 {
					d := *all[t.Src.Intn(len(all))]
					if d.err == nil {
						c = &d
					}
				}
			}
			if t.Src.Chance(fail) {
				c.err = fmt.Errorf("encoding error %d.%d", g, i)
				c.a = uint32(t.Src.Intn(7))
				s.encs[c.err] = true
			}
			mine = append(mine, c)
		}
		last = mine
		s.vals = append(s.vals, mine)
		s.sent = append(s.sent, make([]bool, len(mine)))
		pa := newPauser(t)
		t.Go(fmt.Sprintf("sender %d", g), func() {
			for i, c := range mine {
				pa.pause()
				sim.To(r.s.Out()).Send(c.theirs())
				s.sent[g][i] = true
				t.Logf("accepted: %v", c)
			}
			s.left--
		})
	}
	return s
}

// match finds how the messages written can be values sent, each once and in
// its sender's order. It returns the number of messages that could be placed.
func (s *senders) match(got []*ref.Msg) int {
	best := 0
	dead := map[string]bool{}
	next := make([]int, len(s.vals))
	var place func(k int) bool
	place = func(k int) bool {
		best = max(best, k)
		if k == len(got) {
			return true
		}
		key := fmt.Sprint(k, next)
		if dead[key] {
			return false
		}
		for g, vs := range s.vals {
			was := next[g]
			for i := was; i < len(vs); i++ {
				c := vs[i]
				if c.err == nil && c.typ == got[k].Type && bytes.Equal(c.encode(), got[k].Data) {
					next[g] = i + 1
					if place(k + 1) {
						return true
					}
					// A later equal one leaves less to choose from.
					break
				}
			}
			next[g] = was
		}
		dead[key] = true
		return false
	}
	place(0)
	return best
}

// c15 handles incoming messages.
func c15(t *T) {
	if t.Src.Chance(0.25) {
		c15real(t)
		return
	}
	fw := newFakeWriter(t, pick(t, 0, 0, 0.4))
	r := newCtl(t, fw)
	r.known = func(e error) bool { return isOne(e, fw.mark) }
	t.Go("Recv", r.s.Recv)
	pa := newPauser(t)
	t.Go("collector", func() { r.collect(1<<30, pa) })
	closes := t.Src.Chance(0.2)
	r.feedMsgs(lots(t, 1, 12), func() {
		if closes {
			sim.Close(r.src.ch)
		}
	})
	var ss *senders
	if t.Src.Chance(0.6) {
		ss = send(t, r, t.Src.Range(1, 2), 5, 0)
	}
	t.Settle(horizon)
	r.checkIn(true)
	if ss != nil && ss.left > 0 {
		t.Failf("stuck", "values sent are no longer accepted:%s", t.GoroutineDump())
	}
	if r.inOver || r.errOver {
		t.Failf("closed", "the control stream closed its channels without a close request")
	}
}

// c15real has the messages arrive through a reader and a parser.
func c15real(t *T) {
	o := genOpts{msgs: lots(t, 1, 10), only: []uint32{2, 2, 2, uint32(t.Src.Range(3, 6))}, compress: pick(t, 0, 0.5), abort: pick(t, 0, 0.3), scs: pick(t, 0, 0.3), maxLen: 40}
	prog := generate(t, o)
	for _, d := range prog.desc {
		t.Logf("peer %s", d)
	}
	pipe := transport(t, "transport")
	p := chunk.NewParser(chunk.NewReader(pipe, prog.size, chunk.NewNormalizer()))
	st, _ := p.Stream(2)
	fw := newFakeWriter(t, 0)
	r := &ctlRun{t: t, marks: t.Src.Chance(0.3), known: func(error) bool { return false }}
	r.s = control.NewStream(st, fw, control.NewParser(), control.NewChunker())
	msgs, _, _ := prog.upTo(len(prog.bytes))
	for _, m := range msgs {
		if m.CSID == 2 {
			r.wants = append(r.wants, decode(m.Type, m.Data))
		} else if m.CSID != 2 {
			continue
		}
	}
	for id := uint32(3); id <= 6; id++ {
		s, _ := p.Stream(id)
		t.Go("other consumer", func() {
			for range sim.Range(s.In()) {
			}
		})
	}
	t.Go("error collector", func() {
		for e := range sim.Range(p.Errs()) {
			if isEnd(e) {
				return
			}
		}
	})
	t.Go("Parser", p.Recv)
	t.Go("Recv", r.s.Recv)
	pa := newPauser(t)
	t.Go("collector", func() { r.collect(1<<30, pa) })
	feed(t, pipe, prog.bytes, func() { pipe.End(io.EOF) })
	if t.Src.Chance(0.3) {
		send(t, r, 1, 4, 0)
	}
	t.Settle(horizon)
	r.checkIn(true)
}

// c16close sends values to a control stream that is being closed. What it still
// accepts, it writes.
func c16close(t *T) {
	fw, ss := closeCtl(t)
	if k := ss.match(fw.msgs); k < len(fw.msgs) {
		t.Failf("bogus", "%v, written as message %d, is not a value sent, or one sent before, or out of its sender's order", fw.msgs[k], k)
	}
	n := 0
	for g, vs := range ss.vals {
		for i, c := range vs {
			if ss.sent[g][i] && c.err == nil {
				n++
			}
		}
	}
	if n != len(fw.msgs)+len(fw.failed) {
		t.Failf("lost", "%d values were accepted before the control stream was closed, %d were written, %d writes failed", n, len(fw.msgs), len(fw.failed))
	}
}

// c16 sends values.
func c16(t *T) {
	if t.Src.Chance(0.1) {
		c16close(t)
		return
	}
	c16open(t)
}

func c16open(t *T) {
	history = min(history, 60) // judging takes a search
	// A stream per connection; what one does is no concern of the others.
	var checks []func()
	for n := pick(t, 1, 1, 1, 2, 3); n > 0; n-- {
		checks = append(checks, c16one(t))
	}
	t.Settle(horizon)
	for _, check := range checks {
		check()
	}
}

// c16one sets a control stream to work; what it returns judges the outcome.
func c16one(t *T) func() {
	var sink *sim.Sink
	var fw *fakeWriter
	var w chunk.Writer
	var perm *sim.Fault
	size := genSize(t)
	if t.Src.Chance(0.35) {
		sink = &sim.Sink{W: t.World, Name: "wire", Slow: t.Src.Chance(0.5)}
		w = chunk.NewWriter(sink, size)
		if t.Src.Chance(0.3) {
			sink.Faults = append(sink.Faults, &sim.Fault{Kind: sim.FaultWStall, Pos: t.Src.Intn(100), Stall: us(1 + t.Src.Intn(100000))})
		}
		if t.Src.Chance(0.3) {
			perm = &sim.Fault{Kind: sim.FaultWrite, Pos: t.Src.Intn(200), Err: ioErr(t, "write", 0)}
			sink.Faults = append(sink.Faults, perm)
		}
	} else {
		fw = newFakeWriter(t, pick(t, 0, 0.3, 0.8))
		w = fw
	}
	r := newCtl(t, w)
	var ss *senders
	r.known = func(e error) bool {
		for k := range ss.encs {
			if errors.Is(e, k) {
				return true
			}
		}
		return fw != nil && isOne(e, fw.mark) || perm != nil && errors.Is(e, perm.Err)
	}
	t.Go("Recv", r.s.Recv)
	pa := newPauser(t)
	ss = send(t, r, t.Src.Range(1, 4), 6, pick(t, 0, 0.2))
	t.Go("collector", func() { r.collect(1<<30, pa) })
	if t.Src.Chance(0.6) {
		r.feedMsgs(lots(t, 1, 8), func() {
			if len(r.wants)%3 == 0 {
				sim.Close(r.src.ch)
			}
		})
	}
	return func() { c16check(t, r, ss, sink, fw, size, perm != nil && perm.Fired()) }
}

func c16check(t *T, r *ctlRun, ss *senders, sink *sim.Sink, fw *fakeWriter, size int, gone bool) {
	if ss.left > 0 {
		t.Failf("stuck", "values sent are no longer accepted:%s", t.GoroutineDump())
	}
	r.checkIn(true)
	var got []*ref.Msg
	var failed []error
	if sink != nil {
		out := sink.Out
		for len(out) > 0 {
			m, n, err := ref.Decode(out, size)
			var cut *ref.ErrShort
			if gone && errors.As(err, &cut) {
				break
			}
			if err != nil {
				t.Failf("undecodable", "the bytes on the wire do not decode: %v", err)
			}
			got = append(got, m)
			out = out[n:]
		}
	} else {
		got, failed = fw.msgs, fw.failed
	}
	// Every written message is one value sent, in its sender's order.
	for k, m := range got {
		if m.CSID != 2 || m.SID != 0 || m.TS != 0 {
			t.Failf("header", "message %d was written as %v", k, m)
		}
	}
	if k := ss.match(got); k < len(got) {
		t.Failf("bogus", "%v, written as message %d, is not a value sent, or one sent before, or out of its sender's order", got[k], k)
	}
	all, encs := 0, 0
	for _, vs := range ss.vals {
		for _, c := range vs {
			if c.err != nil {
				encs++
			} else {
				all++
			}
		}
	}
	missing := all - len(got)
	if gone {
		// The transport failed: one error for each that is missing.
		if len(r.outErrs) != missing+encs {
			t.Failf("unreported", "%d of the values sent were not written and %d did not encode, %d errors were reported (%v)", missing, encs, len(r.outErrs), r.outErrs)
		}
		return
	}
	if missing != len(failed) {
		t.Failf("lost", "%d of the values sent were not written, %d writes failed", missing, len(failed))
	}
	if len(r.outErrs) != len(failed)+encs {
		t.Failf("unreported", "%d writes failed and %d values did not encode, %d errors were reported (%v)", len(failed), encs, len(r.outErrs), r.outErrs)
	}
	for _, e := range failed {
		n := 0
		for _, x := range r.outErrs {
			if errors.Is(x, e) {
				n++
			}
		}
		if n != 1 {
			t.Failf("unreported", "%v was reported %d times", e, n)
		}
	}
}

// c17 closes a control stream at some instant.
func c17(t *T) { closeCtl(t) }

func closeCtl(t *T) (*fakeWriter, *senders) {
	fw := newFakeWriter(t, pick(t, 0, 0.5))
	r := newCtl(t, fw)
	var ss *senders
	r.known = func(e error) bool {
		for k := range ss.encs {
			if errors.Is(e, k) {
				return true
			}
		}
		return isOne(e, fw.mark)
	}
	late := pick(t, 0, 0, 0, 0, 30, 2000)
	t.Go("Recv", func() {
		if late > 0 {
			sim.Sleep(us(1 + t.Src.Intn(late)))
		}
		r.s.Recv()
	})
	pa := newPauser(t)
	ss = send(t, r, t.Src.Intn(4), 5, 0.1)
	limit := pick(t, 0, 0, 1, 3, 1<<30)
	t.Go("collector", func() { r.collect(limit, pa) })
	closes := t.Src.Chance(0.6)
	if t.Src.Chance(0.2) {
		sim.Close(r.src.ch)
		closes = true
	} else {
		r.feedMsgs(lots(t, 0, 5), func() {
			if closes {
				t.Logf("source closed")
				sim.Close(r.src.ch)
			}
		})
	}
	closed := false
	when := t.Src.Intn(4)
	wait := pick(t, 1, 20, 400, 20000)
	t.Go("closer", func() {
		switch when {
		case 0:
		case 1:
			for k := t.Src.Intn(30); k > 0; k-- {
				t.Yield()
			}
		default:
			sim.Sleep(us(t.Src.Intn(wait) + 1))
		}
		if r.inOver || r.errOver {
			t.Failf("closed", "the control stream closed its channels without a close request")
		}
		t.Logf("close request")
		t.Stats.Faults["close"]++
		r.s.Close()
		closed = true
		t.Logf("close request returned")
	})
	t.Settle(horizon)
	if !closed {
		t.Failf("hang", "the close request has not returned:%s", t.GoroutineDump())
	}
	if l := t.Live(); len(l) > 0 {
		t.Failf("leak", "goroutines remain after the close request: %v", l)
	}
	done := 0
	t.Go("check", func() {
		if v, ok := sim.Recv2(r.s.In()); ok {
			t.Failf("delivered", "%#v was delivered after the close request returned", v)
		}
		done++
	})
	t.Go("check", func() {
		if v, ok := sim.Recv2(r.s.Errs()); ok {
			t.Failf("delivered", "%v was reported after the close request returned", v)
		}
		done++
	})
	t.Settle(horizon)
	if done != 2 {
		t.Failf("open", "a channel of the control stream is still open after the close request returned")
	}
	for _, e := range t.Live() {
		t.Failf("leak", "%s", e)
	}
	r.checkIn(false)
	return fw, ss
}
