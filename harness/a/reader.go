package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/harness/ref"
	"verif/sim"
)

// rdRun is one chunk reader at work.
type rdRun struct {
	t    *T
	name string
	p    *program
	pipe *sim.Pipe
	r    chunk.Reader

	got   []seen
	errs  []error
	order []int // 0 message, 1 error
	ended bool  // an end error was collected
	perm  error
}

func transport(t *T, name string) *sim.Pipe {
	p := &sim.Pipe{W: t.World, Name: name}
	p.Frag = t.Src.Intn(4)
	p.Empty = pick(t, 0, 0, 0.1)
	return p
}

// feed makes the peer send b, in pieces and with delays.
func feed(t *T, pipe *sim.Pipe, b []byte, then func()) {
	if t.Src.Chance(0.4) {
		pipe.Feed(b)
		then()
		return
	}
	slow := pick(t, 10, 1000, 100000)
	t.Go("peer of "+pipe.Name, func() {
		for len(b) > 0 {
			n := len(b)
			if t.Src.Chance(0.8) {
				n = 1 + t.Src.Intn(n)
			}
			pipe.Feed(b[:n])
			b = b[n:]
			if t.Src.Chance(0.5) {
				sim.Sleep(us(1 + t.Src.Intn(slow)))
			}
		}
		then()
	})
}

func (rr *rdRun) start() {
	t := rr.t
	rr.r = chunk.NewReader(rr.pipe, rr.p.size, chunk.NewNormalizer())
	t.Go(rr.name+" Recv", rr.r.Recv)
	pa := newPauser(t)
	using := t.Src.Chance(0.3)
	ends := 0
	t.Go(rr.name+" collector", func() {
		chunks, errs := rr.r.Chunks(), rr.r.Errs()
		note := func(c *chunk.Chunk) {
			s := look(c)
			t.Logf("%s delivers %v", rr.name, &s)
			if using && t.Src.Chance(0.7) {
				s.use(t)
			}
			rr.got = append(rr.got, s)
			rr.order = append(rr.order, 0)
		}
		for chunks != nil || errs != nil {
			rc, re := sim.RecvCase(chunks), sim.RecvCase(errs)
			switch sim.Select(false, rc, re) {
			case 0:
				if !rc.OK {
					chunks = nil
					continue
				}
				note(rc.V)
			case 1:
				if !re.OK {
					errs = nil
					continue
				}
				t.Logf("%s reports %v", rr.name, re.V)
				rr.errs = append(rr.errs, re.V)
				rr.order = append(rr.order, 1)
				if isEnd(re.V) || (rr.perm != nil && errors.Is(re.V, rr.perm)) {
					// A message whose last byte came with the error may
					// come after it.
					rr.ended = true
					drain(chunks, note)
					if ends++; ends == 3 {
						return
					}
				}
			}
			pa.pause()
		}
	})
}

// check compares what was delivered with the messages expected.
func (rr *rdRun) check(msgs []*ref.Msg, ts bool) {
	t := rr.t
	for i := range rr.got {
		s := &rr.got[i]
		if s.bad != "" {
			t.Failf("bogus", "%s: %s", rr.name, s.bad)
		}
		if i >= len(msgs) {
			t.Failf("extra", "%s: delivered %d messages, the peer completed only %d; the first extra one is %v", rr.name, len(rr.got), len(msgs), s)
		}
		m := msgs[i]
		d := s.want(m)
		if !ts && d != "" {
			n := *m
			n.TS, n.Ext = s.m.TS, s.m.Ext
			d = s.want(&n)
		}
		if d != "" {
			t.Failf("differs", "%s: message %d: delivered %v, expected %v: %s", rr.name, i, s, m, d)
		}
		if ts && m.Fmt <= 2 && s.own == nil && s.at.Header.MessageHeader.TimestampDelta != (m.Fmt != 0) {
			t.Failf("delta", "%s: message %d (%v, header type %d): TimestampDelta is %v", rr.name, i, m, m.Fmt, s.at.Header.MessageHeader.TimestampDelta)
		}
		if !s.unchanged() {
			n := look(s.at)
			t.Failf("altered", "%s: message %d was altered after it was delivered: %v became %v", rr.name, i, s, &n)
		}
	}
	if len(rr.got) < len(msgs) {
		t.Failf("lost", "%s: delivered %d messages, the peer completed %d; the first missing one is %v", rr.name, len(rr.got), len(msgs), msgs[len(rr.got)])
	}
}

// plainErrs are the errors that are not about the end of the input.
func (rr *rdRun) plainErrs() []error {
	var out []error
	for _, e := range rr.errs {
		if !isEnd(e) && (rr.perm == nil || !errors.Is(e, rr.perm)) {
			out = append(out, e)
		}
	}
	return out
}

func (rr *rdRun) checkEnd() {
	if !rr.ended {
		rr.t.Failf("wedged", "%s: the input has ended (%d of %d bytes read) but no error was reported:%s", rr.name, rr.pipe.Taken, rr.pipe.Put, rr.t.GoroutineDump())
	}
	if rr.pipe.Pending() > 0 {
		rr.t.Failf("unread", "%s: stopped with %d bytes unread", rr.name, rr.pipe.Pending())
	}
}

// readerScenario runs well-formed streams through chunk readers.
func readerScenario(opts func(t *T) genOpts, ts bool, extra func(rr *rdRun)) func(*T) {
	opts = scaled(opts)
	return func(t *T) {
		n := pick(t, 1, 1, 2)
		var runs []*rdRun
		for k := 0; k < n; k++ {
			o := opts(t)
			o.tag = k
			if k > 0 && t.Src.Chance(0.5) {
				o.only = nil
			}
			rr := &rdRun{t: t, name: fmt.Sprintf("reader%d", k), p: generate(t, o)}
			rr.pipe = transport(t, rr.name)
			if len(rr.p.bytes) > 4000 && rr.pipe.Frag == sim.FragByte {
				rr.pipe.Frag = sim.FragRandom
			}
			if t.Src.Chance(0.2) {
				for j := t.Src.Range(1, 3); j > 0; j-- {
					rr.pipe.Faults = append(rr.pipe.Faults, &sim.Fault{Kind: sim.FaultStall, Pos: t.Src.Intn(len(rr.p.bytes) + 1), Stall: us(1 + t.Src.Intn(1000000))})
				}
			}
			for _, d := range rr.p.desc {
				t.Logf("%s: peer %s", rr.name, d)
			}
			t.Logf("%s: chunk size %d at the start, %d at the end", rr.name, rr.p.size, rr.p.last)
			runs = append(runs, rr)
		}
		for _, rr := range runs {
			rr.start()
		}
		// The peer may pause for long. What is complete by then must not
		// wait for what comes next.
		cuts := make([]int, len(runs))
		resize := make([]bool, len(runs))
		if t.Src.Chance(0.3) {
			for k, rr := range runs {
				cuts[k] = t.Src.Intn(len(rr.p.bytes) + 1)
				if t.Src.Chance(0.7) && len(rr.p.events) > 0 {
					cuts[k] = rr.p.events[t.Src.Intn(len(rr.p.events))].end
				}
				if t.Src.Chance(0.3) {
					if at, ok := rr.p.beforeResize(t); ok {
						cuts[k], resize[k] = at, true
					}
				}
				t.Logf("%s: the peer pauses after %d bytes", rr.name, cuts[k])
				feed(t, rr.pipe, rr.p.bytes[:cuts[k]], func() {})
			}
			t.Settle(horizon)
			for k, rr := range runs {
				msgs, bad, size := rr.p.upTo(cuts[k])
				rr.check(msgs, ts)
				if rr.ended {
					t.Failf("ended", "%s: reading ended (%v) while the peer paused", rr.name, rr.errs)
				}
				if len(rr.errs) != bad {
					t.Failf("errors", "%s: %d errors reported (%v) while the peer paused, expected %d", rr.name, len(rr.errs), rr.errs, bad)
				}
				if rr.r.ReadSize() != size {
					t.Failf("readsize", "%s: the reader reports chunk size %d while the peer paused, the peer last set %d", rr.name, rr.r.ReadSize(), size)
				}
				if resize[k] {
					// The peer's Set Chunk Size comes next, and counts.
					n := max(4, genSize(t))
					t.Logf("%s: the local side sets chunk size %d", rr.name, n)
					rr.r.SetReadSize(n)
					t.Probe("chunk size set by both sides")
				}
			}
			t.Probe("the peer paused")
		}
		for k, rr := range runs {
			feed(t, rr.pipe, rr.p.bytes[cuts[k]:], func() { rr.pipe.End(io.EOF) })
		}
		t.Settle(horizon)
		for _, rr := range runs {
			rr.checkEnd()
			msgs, bad, size := rr.p.upTo(len(rr.p.bytes))
			rr.check(msgs, ts)
			if pe := rr.plainErrs(); len(pe) != bad {
				t.Failf("errors", "%s: %d errors reported (%v), expected %d", rr.name, len(pe), pe, bad)
			}
			if bad == 0 && rr.r.ReadSize() != size {
				t.Failf("readsize", "%s: the reader reports chunk size %d, the peer last set %d", rr.name, rr.r.ReadSize(), size)
			}
			if bad > 0 && rr.r.ReadSize() != size {
				t.Failf("readsize", "%s: the reader reports chunk size %d after an invalid Set Chunk Size, expected %d", rr.name, rr.r.ReadSize(), size)
			}
			if extra != nil {
				extra(rr)
			}
		}
	}
}

func c01(t *T) genOpts {
	return genOpts{
		msgs: t.Src.Range(1, 12), ids: t.Src.Range(1, 4),
		compress: pick(t, 0, 0.3, 0.7), ext: pick(t, 0, 0, 0.3),
		scs: pick(t, 0, 0.3), abort: pick(t, 0, 0, 0.2),
		wide: pick(t, 0, 0.3), cut: t.Src.Chance(0.2),
	}
}

func c02(t *T) genOpts {
	return genOpts{
		msgs: t.Src.Range(2, 12), ids: t.Src.Range(1, 4),
		compress: pick(t, 0.5, 0.9), ext: pick(t, 0, 0, 0.2),
		scs: pick(t, 0, 0.2), abort: pick(t, 0, 0.1), wide: pick(t, 0, 0.3),
	}
}

func c03reader(t *T) genOpts {
	return genOpts{
		msgs: t.Src.Range(1, 10), ids: t.Src.Range(1, 3),
		compress: pick(t, 0, 0.5), ext: pick(t, 0.5, 0.9),
		scs: pick(t, 0, 0.2), abort: pick(t, 0, 0.1), wide: pick(t, 0, 0.3),
	}
}

func c04(t *T) genOpts {
	return genOpts{
		msgs: t.Src.Range(2, 12), ids: t.Src.Range(1, 3),
		compress: pick(t, 0, 0.3), ext: pick(t, 0, 0, 0.2),
		scs: pick(t, 0.5, 0.9), badScs: pick(t, 0, 0.4), abort: pick(t, 0, 0.1),
		maxLen: pick(t, 60, 300, 700),
	}
}

func c05(t *T) genOpts {
	return genOpts{
		msgs: t.Src.Range(2, 14), ids: t.Src.Range(1, 4),
		compress: pick(t, 0, 0.4), ext: pick(t, 0, 0, 0.2),
		scs: pick(t, 0, 0.2), abort: pick(t, 0.6, 0.95), maxLen: pick(t, 60, 300, 700),
	}
}

// c09 cuts or interrupts the transport.
func c09(t *T) {
	o := c01(t)
	o.cut = t.Src.Chance(0.3)
	o.msgs = t.Src.Range(1, 8)
	o = scaled(func(*T) genOpts { return o })(t)
	p := generate(t, o)
	rr := &rdRun{t: t, name: "reader", p: p, pipe: transport(t, "reader")}
	if len(p.bytes) > 4000 && rr.pipe.Frag == sim.FragByte {
		rr.pipe.Frag = sim.FragRandom
	}
	for _, d := range p.desc {
		t.Logf("peer %s", d)
	}
	// Faults go where they hurt: inside headers and payloads as well as on
	// their boundaries.
	pos := func() int {
		switch t.Src.Intn(4) {
		case 0:
			return t.Src.Intn(len(p.bytes) + 1)
		case 1:
			return p.bodies[t.Src.Intn(len(p.bodies))]
		case 2:
			i := t.Src.Intn(len(p.starts))
			return p.starts[i] + t.Src.Intn(p.bodies[i]-p.starts[i]+1)
		}
		return p.starts[t.Src.Intn(len(p.starts))]
	}
	end := len(p.bytes)
	endKind := "eof"
	switch t.Src.Intn(4) {
	case 0: // only transient errors, then a clean end
	case 1:
		end = pos()
		rr.perm = ioErr(t, "read", "for good")
		endKind = "error"
		rr.pipe.Faults = append(rr.pipe.Faults, &sim.Fault{Kind: sim.FaultPerm, Pos: end, Err: rr.perm, WithData: t.Src.Chance(0.3)})
	default:
		end = pos()
		rr.pipe.Faults = append(rr.pipe.Faults, &sim.Fault{Kind: sim.FaultEOF, Pos: end, Err: io.EOF, WithData: t.Src.Chance(0.3)})
	}
	trans := 0
	if end == len(p.bytes) || t.Src.Chance(0.4) {
		for j := t.Src.Range(0, 4); j > 0; j-- {
			q := pos()
			if q < end {
				trans++
				rr.pipe.Faults = append(rr.pipe.Faults, &sim.Fault{Kind: sim.FaultTransient, Pos: q, Err: ioErr(t, "read", trans)})
			}
		}
	}
	t.Logf("transport ends at byte %d of %d by %s, %d transient errors", end, len(p.bytes), endKind, trans)
	rr.start()
	feed(t, rr.pipe, p.bytes, func() { rr.pipe.End(io.EOF) })
	t.Settle(horizon)
	if !rr.ended {
		t.Failf("silent", "the transport ended (%s at byte %d) and no error was reported:%s", endKind, end, t.GoroutineDump())
	}
	msgs, bad, _ := p.upTo(end)
	rr.check(msgs, false)
	if pe := rr.plainErrs(); trans > 0 && len(pe) == 0 {
		t.Failf("unreported", "%d reads failed and no error was reported", trans)
	} else if trans == 0 && len(pe) != bad {
		t.Failf("errors", "%d errors reported (%v), expected %d", len(pe), pe, bad)
	}
}

// c10 feeds hostile bytes.
func c10(t *T) {
	var b []byte
	size := genSize(t)
	if t.Src.Chance(0.75) {
		o := c01(t)
		o.badScs = pick(t, 0, 0.3)
		p := generate(t, o)
		b = append(b, p.bytes...)
		size = p.size
		for j := t.Src.Range(1, 6); j > 0 && len(b) > 0; j-- {
			at := t.Src.Intn(len(b))
			if t.Src.Chance(0.6) {
				at = p.starts[t.Src.Intn(len(p.starts))] + t.Src.Intn(12)
				if at >= len(b) {
					at = len(b) - 1
				}
			}
			switch t.Src.Intn(5) {
			case 0:
				b[at] ^= 1 << t.Src.Intn(8)
			case 1:
				b[at] = byte(t.Src.Intn(256))
			case 2:
				b = append(b[:at:at], b[at+1:]...)
			case 3:
				b = append(b[:at:at], append([]byte{byte(t.Src.Intn(256))}, b[at:]...)...)
			case 4:
				k := at + t.Src.Intn(min(len(b)-at, 40))
				b = append(b[:at:at], b[k:]...)
			}
		}
	} else {
		n := t.Src.Intn(200)
		kind := t.Src.Intn(4)
		ids := genIDs(t, 2)
		left := map[uint32]int{}
		size = pick(t, size, t.Src.Range(1, 60))
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				b = append(b, byte(t.Src.Intn(256)))
			case 1:
				b = append(b, []byte{0, 1, 2, 3, 63, 64, 0x42, 0x82, 0xc2, 0xc3, 255, 4}[t.Src.Intn(12)])
			case 2: // compact hostile messages
				id := byte(t.Src.Range(2, 4))
				if t.Src.Chance(0.6) {
					ln := t.Src.Intn(6)
					b = append(b, id, 0, 0, byte(t.Src.Intn(2)*255), 0, 0, byte(ln), byte(t.Src.Range(1, 6)), 0, 0, 0, 0)
					for ; ln > 0; ln-- {
						b = append(b, byte(t.Src.Intn(2)*t.Src.Intn(256)))
					}
				} else {
					b = append(b, byte(t.Src.Range(1, 3))<<6|id)
				}
			}
			if kind == 3 {
				// Headers of any kind at any time, each followed by as much
				// payload as a reader that takes it seriously, or one that
				// does not, would want.
				m := &ref.Msg{CSID: ids[t.Src.Intn(2)], TS: pick[uint32](t, 0, 5, 0xffffff), Type: pick[byte](t, 9, 9, 8, 1, 2, 3), SID: uint32(t.Src.Intn(2))}
				m.Fmt = byte(t.Src.Intn(4))
				m.Ext = uint32(t.Src.Intn(1 << 25))
				m.Data = make([]byte, pick(t, t.Src.Intn(10), t.Src.Intn(300), size, 2*size)%2000)
				b = ref.First(b, m, false)
				if m.Fmt < 2 && (left[m.CSID] == 0 || t.Src.Chance(0.5)) {
					left[m.CSID] = len(m.Data)
				}
				k := min(left[m.CSID], size)
				left[m.CSID] -= k
				b = append(b, content(i, k)...)
			}
			if len(b) > 1500 {
				break
			}
		}
	}
	t.Logf("hostile bytes: %x", b)
	rr := &rdRun{t: t, name: "reader", p: &program{size: size}, pipe: transport(t, "reader")}
	if len(b) > 600 && rr.pipe.Frag == sim.FragByte {
		rr.pipe.Frag = sim.FragRandom
	}
	rr.start()
	feed(t, rr.pipe, b, func() { rr.pipe.End(io.EOF) })
	t.Settle(horizon)
	rr.checkEnd()
	for i := range rr.got {
		s := &rr.got[i]
		if s.bad != "" {
			t.Failf("bogus", "message %d: %s", i, s.bad)
		}
		if int(s.len) != len(s.m.Data) {
			t.Failf("length", "message %d declares %d bytes and carries %d", i, s.len, len(s.m.Data))
		}
	}
	if t.Src.Chance(0.2) {
		hostileParser(t, b, size, rr.got)
	}
}

// hostileParser gives bytes to a parser that a reader made the given messages
// of.
func hostileParser(t *T, b []byte, size int, want []seen) {
	pipe := transport(t, "parser")
	if len(b) > 600 && pipe.Frag == sim.FragByte {
		pipe.Frag = sim.FragRandom
	}
	p := chunk.NewParser(chunk.NewReader(pipe, size, chunk.NewNormalizer()))
	wants := map[uint32]int{}
	gots := map[uint32]int{}
	for i := range want {
		wants[want[i].m.CSID]++
	}
	for i := range want {
		id := want[i].m.CSID
		if _, ok := gots[id]; ok {
			continue
		}
		gots[id] = 0
		s, err := p.Stream(id)
		if err != nil {
			t.Failf("refused", "asking for chunk stream %d: %v", id, err)
		}
		t.Go("consumer", func() {
			for c := range sim.Range(s.In()) {
				m := look(c)
				if m.bad != "" {
					t.Failf("bogus", "chunk stream %d: %s", id, m.bad)
				}
				if int(m.len) != len(m.m.Data) {
					t.Failf("length", "a message of chunk stream %d declares %d bytes and carries %d", id, m.len, len(m.m.Data))
				}
				gots[id]++
			}
		})
	}
	ended := false
	t.Go("error collector", func() {
		for {
			err, ok := sim.Recv2(p.Errs())
			if !ok {
				return
			}
			if isEnd(err) {
				ended = true
				return
			}
		}
	})
	t.Go("Parser", p.Recv)
	feed(t, pipe, b, func() { pipe.End(io.EOF) })
	t.Settle(horizon)
	if !ended {
		t.Failf("wedged", "the input has ended (%d of %d bytes read) but the parser reported no error:%s", pipe.Taken, pipe.Put, t.GoroutineDump())
	}
	for id, n := range wants {
		if gots[id] != n {
			t.Failf("count", "the parser delivered %d messages on chunk stream %d, a reader makes %d of the same bytes", gots[id], id, n)
		}
	}
	t.Probe("hostile bytes through a parser")
}

// csid3 is the recorded finding about 3-byte chunk stream ids: peers that
// follow the specification send them with marker 1, and little-endian.
func csid3(t *T) {
	m := &ref.Msg{CSID: 400, Type: 9, SID: 1, Data: content(1, 20)}
	b := ref.First(nil, m, false)
	b = append([]byte{1, byte((400 - 64) & 0xff), byte((400 - 64) >> 8)}, b[3:]...)
	b = append(b, m.Data...)
	rr := &rdRun{t: t, name: "reader", p: &program{size: 128}, pipe: &sim.Pipe{W: t.World, Name: "reader"}}
	rr.start()
	rr.pipe.Feed(b)
	rr.pipe.End(io.EOF)
	t.Settle(horizon)
	if len(rr.got) != 1 || rr.got[0].want(m) != "" {
		t.Failf("csid-3byte", "a message on chunk stream 400 with the specification's 3-byte header (marker 1, little-endian) is not delivered")
	}
}
