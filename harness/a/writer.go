package main

import (
	"bytes"
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/harness/ref"
	"verif/sim"
)

// sizes keeps track of which chunk sizes may be in force when.
type sizes struct {
	clock int
	sets  []sizeSet
}

type sizeSet struct{ call, ret, size int }

func (s *sizes) tick() int { s.clock++; return s.clock }

// set runs f, which puts size into force at some point.
func (s *sizes) set(size int, f func()) {
	i := len(s.sets)
	s.sets = append(s.sets, sizeSet{s.tick(), 1 << 30, size})
	f()
	s.sets[i].ret = s.tick()
}

// during lists the sizes that may have been in force between two instants.
func (s *sizes) during(from, to int) []int {
	var out []int
	for i, a := range s.sets {
		if a.call > to {
			continue
		}
		// Overwritten before the interval by a set that started after it.
		gone := false
		for j, b := range s.sets {
			if j != i && b.call > a.ret && b.ret < from {
				gone = true
			}
		}
		if !gone {
			out = append(out, a.size)
		}
	}
	return out
}

// toChunk makes what a caller hands to the writer.
func toChunk(t *T, m *ref.Msg) *chunk.Chunk {
	e := m.Ext
	if m.TS != 0xffffff && t.Src.Chance(0.2) {
		e = uint32(t.Src.Intn(1 << 30)) // meaningless, must not be sent
	}
	data := append([]byte(nil), m.Data...)
	if t.Src.Chance(0.3) {
		// A part of something longer.
		b := content(77, len(data)+t.Src.Range(1, 40))
		copy(b, data)
		data = b[:len(data)]
	}
	return &chunk.Chunk{
		Header: &chunk.Header{
			BasicHeader:       chunk.BasicHeader{FormatId: m.Fmt, StreamId: m.CSID},
			MessageHeader:     chunk.MessageHeader{FormatId: m.Fmt, Timestamp: m.TS, TimestampDelta: m.Fmt == 1 || m.Fmt == 2, Length: uint32(len(m.Data)), TypeId: m.Type, StreamId: m.SID},
			ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: e},
		},
		Data: data,
	}
}

type outMsg struct {
	m          *ref.Msg
	g          int
	seq        int
	start, end int // instants
	begun      bool
	done       bool
	err        error
	from, to   int // bytes of the sink, for a single writer
	at         int // where it was found in the output, -1 if nowhere
}

func (o *outMsg) String() string { return fmt.Sprintf("message %d of writer %d (%v)", o.seq, o.g, o.m) }

func genOut(t *T, g, n int, size int, maxLen int, ext float64) *outMsg {
	// The message stream id tells all messages of a run apart.
	m := &ref.Msg{CSID: 2, Type: genType(t), SID: uint32(g<<10 | n)}
	if t.Src.Chance(0.9) {
		m.CSID = genID(t)
		if m.CSID == 63 {
			m.CSID = 64
		}
	}
	if t.Src.Chance(0.2) {
		m.SID |= 0xffffc000 - uint32(t.Src.Intn(1<<16))<<14
	}
	m.TS, m.Ext = genTS(t, ext)
	m.Data = content(g*1000+n, genLen(t, size, maxLen))
	return &outMsg{m: m, g: g, seq: n, at: -1}
}

// compress makes o's header leave out what p, the message before it on its
// chunk stream, has already said.
func (o *outMsg) compress(t *T, p *ref.Msg) {
	m := o.m
	m.CSID, m.SID, m.Fmt = p.CSID, p.SID, byte(t.Src.Range(1, 3))
	if m.Fmt >= 2 {
		m.Type, m.Data = p.Type, content(o.g*1000+o.seq, len(p.Data))
	}
	if m.Fmt == 3 {
		m.TS, m.Ext = p.TS, p.Ext
	}
}

// write hands the message to the writer and checks it was left alone. What the
// caller does with it afterwards is its own business: reuse it, most often.
func (o *outMsg) write(t *T, w chunk.Writer, sz *sizes, sink *sim.Sink, old **chunk.Chunk) {
	c := toChunk(t, o.m)
	if p := *old; p != nil && t.Src.Chance(0.5) {
		*p.Header = *c.Header
		if cap(p.Data) >= len(c.Data) {
			p.Data = append(p.Data[:0], c.Data...)
		} else {
			p.Data = c.Data
		}
		c = p
	}
	before := look(c)
	h := *c.Header
	rest := append([]byte(nil), c.Data[len(c.Data):cap(c.Data)]...)
	o.start, o.from, o.begun = sz.tick(), len(sink.Out), true
	o.err = w.Write(c)
	o.end, o.to, o.done = sz.tick(), len(sink.Out), true
	t.Logf("writer %d: wrote %v: %v", o.g, o, o.err)
	if !before.unchanged() || *c.Header != h {
		n := look(c)
		t.Failf("altered", "writing altered the caller's message: %v became %v", &before, &n)
	}
	if !bytes.Equal(rest, c.Data[len(c.Data):cap(c.Data)]) {
		t.Failf("altered", "writing %v altered the bytes behind the caller's payload", o)
	}
	*old = nil
	if t.Src.Chance(0.5) {
		for i := range c.Data {
			c.Data[i] ^= 0x55
		}
		c.Header.MessageHeader.StreamId ^= 0x55
		c.Header.BasicHeader.StreamId ^= 1
		*old = c
	}
}

func same(m, n *ref.Msg) bool {
	return m.CSID == n.CSID && m.TS == n.TS && (m.TS != 0xffffff || m.Ext == n.Ext) && m.Type == n.Type && m.SID == n.SID && bytes.Equal(m.Data, n.Data)
}

// resizer changes the write size now and then.
func resizer(t *T, w chunk.Writer, sz *sizes, n int) {
	t.Go("resizer", func() {
		for ; n > 0; n-- {
			if t.Src.Chance(0.5) {
				t.Yield()
			} else {
				sim.Sleep(us(1 + t.Src.Intn(100)))
			}
			s := genSize(t)
			t.Logf("write size := %d", s)
			sz.set(s, func() { w.SetWriteSize(s) })
		}
	})
}

// writeOne is one writer goroutine, everything of which is decoded.
func writeOne(ext, compress float64) func(t *T) {
	return func(t *T) {
		sink := &sim.Sink{W: t.World, Name: "wire", Slow: t.Src.Chance(0.3)}
		size := genSize(t)
		sz := &sizes{}
		var w chunk.Writer
		sz.set(size, func() { w = chunk.NewWriter(sink, size) })
		t.Logf("write size %d", size)
		maxLen := pick(t, 20, 300, 700, 700, 2000)
		if history > 1 {
			maxLen = 60
		}
		full := false
		if t.Src.Chance(0.02) {
			maxLen = 200000
			full = t.Src.Intn(150) == 0
		}
		if maxLen > 10000 {
			if size < 1000 {
				size = 1000
				sz.set(size, func() { w.SetWriteSize(size) })
			}
		} else if t.Src.Chance(0.4) {
			resizer(t, w, sz, t.Src.Range(1, 6))
		}
		var msgs []*outMsg
		n := lots(t, 1, 8)
		if full {
			maxLen = 1<<24 - 1
			n = t.Src.Range(1, 2)
			size = t.Src.Range(1<<20, 1<<24)
			sz.set(size, func() { w.SetWriteSize(size) })
			t.Probe("as long as messages get")
		}
		cur := size
		t.Go("writer", func() {
			var old *chunk.Chunk
			for i := 0; i < n; i++ {
				o := genOut(t, 0, i, cur, maxLen, ext)
				if i > 0 && t.Src.Chance(compress) {
					o.compress(t, latest(msgs, msgs[t.Src.Intn(i)].m.CSID))
				}
				msgs = append(msgs, o)
				o.write(t, w, sz, sink, &old)
				cur = w.WriteSize()
				if ok := sz.during(o.end, sz.tick()); !has(ok, cur) {
					t.Failf("writesize", "the writer reports write size %d, set were %v", cur, ok)
				}
				if maxLen <= 10000 && t.Src.Chance(0.2) {
					cur = genSize(t)
					sz.set(cur, func() { w.SetWriteSize(cur) })
				}
			}
		})
		t.Settle(horizon)
		wire := &ref.Wire{}
		for _, o := range msgs {
			if !o.done {
				t.Failf("stuck", "writing %v never returned:%s", o, t.GoroutineDump())
			}
			if o.err != nil {
				t.Failf("error", "writing %v failed: %v", o, o.err)
			}
			b := sink.Out[o.from:o.to]
			var why []string
			ok := false
			for _, s := range sz.during(o.start, o.end) {
				m, n, err := wire.Decode(b, s)
				switch {
				case err != nil:
					why = append(why, fmt.Sprintf("with chunk size %d: %v", s, err))
				case n != len(b):
					why = append(why, fmt.Sprintf("with chunk size %d: %d bytes left over", s, len(b)-n))
				case !same(m, o.m) || (m.Fmt == 0) != (o.m.Fmt == 0):
					why = append(why, fmt.Sprintf("with chunk size %d it decodes to %v (header type %d)", s, m, m.Fmt))
				default:
					ok = true
				}
			}
			if !ok {
				t.Failf("undecodable", "the %d bytes written for %v (header type %d, %x) do not decode: %v", len(b), o, o.m.Fmt, short(b), why)
			}
			wire.Know(o.m)
		}
		if len(sink.Out) != msgs[len(msgs)-1].to {
			t.Failf("extra", "%d bytes were written after the last message", len(sink.Out)-msgs[len(msgs)-1].to)
		}
	}
}

// latest is the last of msgs on a chunk stream.
func latest(msgs []*outMsg, id uint32) *ref.Msg {
	for i := len(msgs) - 1; i >= 0; i-- {
		if msgs[i].m.CSID == id {
			return msgs[i].m
		}
	}
	return nil
}

func short(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func has(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// csid63 is the recorded finding about chunk stream 63.
func csid63(t *T) {
	sink := &sim.Sink{W: t.World, Name: "wire"}
	w := chunk.NewWriter(sink, 128)
	m := &ref.Msg{CSID: 63, Type: 9, SID: 1, Data: content(1, 20)}
	if err := w.Write(toChunk(t, m)); err != nil {
		t.Failf("csid63", "writing a message on chunk stream 63 fails: %v", err)
	}
	g, n, err := ref.Decode(sink.Out, 128)
	if err != nil || n != len(sink.Out) || !same(g, m) {
		t.Failf("csid63", "a message written on chunk stream 63 is sent as %x, which is the marker of a 3-byte chunk stream id", sink.Out[:12])
	}
}

// writersScenario has several goroutines write through one writer.
func writersScenario(faults bool) func(t *T) {
	return func(t *T) {
		sink := &sim.Sink{W: t.World, Name: "wire", Slow: t.Src.Chance(0.5)}
		size := genSize(t)
		maxLen := pick(t, 20, 100, 300, 700)
		if history > 1 {
			maxLen = 30
		} else if t.Src.Intn(80) == 0 {
			maxLen = pick(t, 5000, 70000, 140000)
			size = max(size, maxLen/pick(t, 20, 300))
			t.Probe("long messages")
		}
		sz := &sizes{}
		var w chunk.Writer
		sz.set(size, func() { w = chunk.NewWriter(sink, size) })
		t.Logf("write size %d", size)
		gs := t.Src.Range(2, 5)
		if faults {
			gs = t.Src.Range(1, 4)
		}
		var all []*outMsg
		total := 0
		for g := 0; g < gs; g++ {
			n := lots(t, 1, 5)
			var mine []*outMsg
			for i := 0; i < n; i++ {
				o := genOut(t, g, i, size, maxLen, 0.15)
				total += len(ref.Encode(nil, o.m, size))
				mine = append(mine, o)
			}
			all = append(all, mine...)
			pa := newPauser(t)
			t.Go(fmt.Sprintf("writer %d", g), func() {
				var old *chunk.Chunk
				for _, o := range mine {
					o.write(t, w, sz, sink, &old)
					pa.pause()
				}
			})
		}
		if maxLen < 5000 && t.Src.Chance(0.3) {
			resizer(t, w, sz, t.Src.Range(1, 4))
		}
		if t.Src.Chance(0.3) {
			sink.Window = pick(t, 1, 20, 200, 2000)
			t.Go("peer", func() {
				for i := 0; i < 400; i++ {
					sim.Sleep(us(1 + t.Src.Intn(500)))
					sink.Drain()
				}
				sink.Window = 0
				sink.Drain()
			})
		}
		n := 0
		if faults {
			n = t.Src.Range(1, 4)
		} else if t.Src.Chance(0.2) {
			n = 1
		}
		for i := 0; i < n; i++ {
			f := &sim.Fault{Pos: t.Src.Intn(total + 1), Err: ioErr(t, "write", i)}
			f.Kind = sim.FaultWrite
			if faults {
				f.Kind = pick(t, sim.FaultWrite, sim.FaultShort, sim.FaultShort, sim.FaultShortNil, sim.FaultWStall)
			}
			if f.Kind == sim.FaultWStall {
				f.Stall = us(1 + t.Src.Intn(100000))
			}
			t.Logf("fault %s at byte %d", f.Kind, f.Pos)
			sink.Faults = append(sink.Faults, f)
		}
		t.Settle(horizon)
		checkWire(t, sink, sz, all, faults)
	}
}

// checkWire explains everything a sink received as whole messages, apart from
// messages that a fault cut.
func checkWire(t *T, sink *sim.Sink, sz *sizes, all []*outMsg, count bool) {
	for _, o := range all {
		if o.begun && !o.done {
			t.Failf("stuck", "writing %v never returned:%s", o, t.GoroutineDump())
		}
	}
	fired, failed := 0, 0
	perm := false
	var cuts []int
	for _, f := range sink.Faults {
		if f.Fired() && f.Kind != sim.FaultWStall {
			cuts = append(cuts, f.At)
			fired++
			perm = perm || f.Kind == sim.FaultWrite
		}
	}
	next := func(at int) int {
		n := -1
		for _, c := range cuts {
			if c > at && (n < 0 || c < n) {
				n = c
			}
		}
		return n
	}
	out := sink.Out
	last := map[int]int{}
	if explain(out, all, next, sz) {
		goto counts
	}
	for at := 0; at < len(out); {
		var hit *outMsg
		k := 0
		for _, o := range all {
			if !o.begun || o.at >= 0 {
				continue
			}
			for _, s := range sz.during(o.start, o.end) {
				if e := ref.Encode(nil, o.m, s); bytes.HasPrefix(out[at:], e) && len(e) > k {
					hit, k = o, len(e)
				}
			}
		}
		if hit != nil {
			hit.at = at
			if p, ok := last[hit.g]; ok && p > hit.seq {
				t.Failf("order", "%v is on the wire after message %d of the same writer", hit, p)
			}
			last[hit.g] = hit.seq
			at += k
			continue
		}
		c := next(at)
		if c > len(out) {
			c = -1
		}
		ok := false
		for _, o := range all {
			if c < 0 || !o.begun || o.at >= 0 || o.err == nil {
				continue
			}
			for _, s := range sz.during(o.start, o.end) {
				if bytes.HasPrefix(ref.Encode(nil, o.m, s), out[at:c]) {
					ok = true
				}
			}
			if ok {
				break
			}
		}
		if !ok {
			t.Failf("mixed", "the bytes from %d of %d on (%x) are not the encoding of any message written, nor one cut by a fault (faults at %v)", at, len(out), short(out[at:]), cuts)
		}
		at = c
	}
	for _, o := range all {
		if !o.begun {
			continue
		}
		switch {
		case o.err == nil && o.at < 0:
			t.Failf("unreported", "writing %v reported no error, but it is not on the wire", o)
		case o.err != nil && o.at >= 0:
			t.Failf("misreported", "writing %v reported %v, but it is on the wire", o, o.err)
		}
	}
	t.Failf("mixed", "the %d bytes on the wire cannot be explained by the messages written and their outcomes", len(out))
counts:
	for _, o := range all {
		if o.begun && o.err != nil {
			failed++
		}
	}
	if !perm && failed > fired {
		t.Failf("misreported", "%d writes failed, the transport only failed %d times", failed, fired)
	}
}

// explain finds out whether out is made of exactly the messages whose writes
// succeeded, each writer's in order, and of parts of others cut by faults. It
// searches, as the start of one message can look like the end of another.
func explain(out []byte, all []*outMsg, next func(int) int, sz *sizes) bool {
	budget := 20000
	used := make([]bool, len(all))
	last := map[int]int{}
	type enc struct {
		o int
		b []byte
	}
	var whole, cut []enc
	left := 0
	for i, o := range all {
		if !o.begun {
			continue
		}
		if o.err == nil {
			left++
		}
		for _, s := range sz.during(o.start, o.end) {
			e := enc{i, ref.Encode(nil, o.m, s)}
			if o.err == nil {
				whole = append(whole, e)
			} else {
				cut = append(cut, e)
			}
		}
	}
	var rec func(at int) bool
	rec = func(at int) bool {
		if budget--; budget < 0 {
			return false
		}
		if at == len(out) {
			return left == 0
		}
		for _, e := range whole {
			o := all[e.o]
			p, ok := last[o.g]
			if used[e.o] || ok && p > o.seq || !bytes.HasPrefix(out[at:], e.b) {
				continue
			}
			used[e.o] = true
			last[o.g] = o.seq
			left--
			if rec(at + len(e.b)) {
				return true
			}
			left++
			used[e.o] = false
			if ok {
				last[o.g] = p
			} else {
				delete(last, o.g)
			}
		}
		if c := next(at); c > at && c <= len(out) {
			for _, e := range cut {
				if !used[e.o] && len(e.b) > c-at && bytes.HasPrefix(e.b, out[at:c]) {
					used[e.o] = true
					if rec(c) {
						return true
					}
					used[e.o] = false
				}
			}
		}
		return false
	}
	return rec(0)
}

// fanOut has several writers, each of another transport, write the same
// messages at once, as a server does that passes on what it received.
func fanOut(t *T) {
	type out struct {
		sink *sim.Sink
		size int
		n    int // of the messages written
		err  error
	}
	var msgs []*ref.Msg
	var chunks []*chunk.Chunk
	var were []seen
	maxLen := pick(t, 20, 300, 700)
	base := genSize(t)
	for i, n := 0, lots(t, 1, 4); i < n; i++ {
		o := genOut(t, 0, i, base, maxLen, 0.2)
		c := toChunk(t, o.m)
		msgs = append(msgs, o.m)
		chunks = append(chunks, c)
		were = append(were, look(c))
	}
	var outs []*out
	for k := t.Src.Range(2, 4); k > 0; k-- {
		o := &out{sink: &sim.Sink{W: t.World, Name: fmt.Sprintf("wire %d", k), Slow: t.Src.Chance(0.5)}, size: base}
		if t.Src.Chance(0.5) {
			o.size = genSize(t)
		}
		outs = append(outs, o)
		w := chunk.NewWriter(o.sink, o.size)
		t.Go(o.sink.Name, func() {
			for _, c := range chunks {
				if o.err = w.Write(c); o.err != nil {
					return
				}
				o.n++
			}
		})
	}
	t.Settle(horizon)
	t.Probe("messages passed on to several")
	for _, o := range outs {
		if o.err != nil || o.n < len(chunks) {
			t.Failf("stuck", "%s: %d of %d messages were written: %v", o.sink.Name, o.n, len(chunks), o.err)
		}
		var want []byte
		for _, m := range msgs {
			want = ref.Encode(want, m, o.size)
		}
		if !bytes.Equal(o.sink.Out, want) {
			t.Failf("mixed", "%s: the bytes written are not those of the messages, which other transports were given, too", o.sink.Name)
		}
	}
	for i := range were {
		if !were[i].unchanged() {
			n := look(chunks[i])
			t.Failf("altered", "writing altered the caller's message: %v became %v", &were[i], &n)
		}
	}
}

// c07 has several goroutines write.
func c07(t *T) {
	if t.Src.Chance(0.06) {
		fanOut(t)
		return
	}
	writersScenario(false)(t)
}

// c06 has one goroutine write.
func c06(t *T) {
	if t.Src.Chance(0.04) {
		fanOut(t)
		return
	}
	writeOne(0.15, 0)(t)
}
