package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/harness/ref"
	"verif/sim"
)

// scripted is a chunk.Reader that produces a given sequence of messages and
// errors, so that their order is known.
type scripted struct {
	t      *T
	items  []item
	chunks chan *chunk.Chunk
	errs   chan error
	closer chan struct{}
	size   int
	sent   int // items handed over
	began  []int
	done   []int
	tick   func() int
	pa     *pauser
}

type item struct {
	c   *chunk.Chunk
	err error
}

var _ chunk.Reader = (*scripted)(nil)

func newScripted(t *T, tick func() int) *scripted {
	return &scripted{t: t, chunks: make(chan *chunk.Chunk), errs: make(chan error), closer: make(chan struct{}), size: 128, tick: tick, pa: newPauser(t)}
}

func (s *scripted) Recv() {
	s.began, s.done = make([]int, len(s.items)), make([]int, len(s.items))
	for i := range s.done {
		s.began[i], s.done[i] = 1<<30, 1<<30
	}
	closing := sim.RecvCase(s.closer)
	for i, it := range s.items {
		s.pa.pause()
		s.began[i] = s.tick()
		n := 0
		if it.c != nil {
			n = sim.Select(false, sim.SC(s.chunks).Val(it.c), closing)
		} else {
			n = sim.Select(false, sim.SC(s.errs).Val(it.err), closing)
		}
		if n == 1 {
			return
		}
		s.sent++
		if i > 0 {
			s.done[i-1] = s.tick()
		}
	}
	sim.Select(false, closing)
}

func (s *scripted) Chunks() <-chan *chunk.Chunk { return s.chunks }
func (s *scripted) Errs() <-chan error          { return s.errs }
func (s *scripted) Close()                      { sim.To(s.closer).Send(struct{}{}) }
func (s *scripted) ReadSize() int               { return s.size }
func (s *scripted) SetReadSize(n int)           { s.size = n }

// small makes a message on chunk stream id that is unlike all others.
func small(t *T, id uint32, n int) *chunk.Chunk {
	m := &ref.Msg{CSID: id, Type: pick(t, 0x14, 0x14, genType(t), byte(t.Src.Range(1, 2))), SID: uint32(n), Data: content(n, t.Src.Intn(20))}
	m.TS, m.Ext = genTS(t, 0.1)
	c := toChunk(t, m)
	if t.Src.Chance(0.5) {
		f := byte(t.Src.Intn(4))
		c.Header.BasicHeader.FormatId, c.Header.MessageHeader.FormatId = f, f
		c.Header.MessageHeader.TimestampDelta = f == 1 || f == 2
	}
	return c
}

// tap is everything received on one stream.
type tap struct {
	name   string
	ids    []uint32
	s      chunk.Stream
	got    []seen
	closed bool
}

func (tp *tap) String() string { return fmt.Sprintf("stream %s of %v", tp.name, tp.ids) }

// consume collects everything from tp.s until it closes.
func (tp *tap) consume(t *T, pa *pauser) {
	ch := tp.s.In()
	for {
		c, ok := sim.Recv2(ch)
		if !ok {
			tp.closed = true
			return
		}
		s := look(c)
		t.Logf("%v delivers %v", tp, &s)
		tp.got = append(tp.got, s)
		pa.pause()
	}
}

// c11 routes messages and errors.
func c11(t *T) {
	real := t.Src.Chance(0.4)
	var ids []uint32
	var reader chunk.Reader
	var sc *scripted
	want := map[uint32][]*ref.Msg{}
	sent := map[*chunk.Chunk]bool{}
	var wantErrs []error
	trans := 0
	start := func() {}
	if real {
		o := c01(t)
		p := generate(t, o)
		pipe := transport(t, "transport")
		for j := t.Src.Intn(3); j > 0; j-- {
			trans++
			pipe.Faults = append(pipe.Faults, &sim.Fault{Kind: sim.FaultTransient, Pos: t.Src.Intn(len(p.bytes)), Err: ioErr(t, "read", trans)})
		}
		msgs, _, _ := p.upTo(len(p.bytes))
		for _, m := range msgs {
			if want[m.CSID] == nil {
				ids = append(ids, m.CSID)
			}
			want[m.CSID] = append(want[m.CSID], m)
		}
		for _, d := range p.desc {
			t.Logf("peer %s", d)
		}
		reader = chunk.NewReader(pipe, p.size, chunk.NewNormalizer())
		start = func() { feed(t, pipe, p.bytes, func() { pipe.End(io.EOF) }) }
	} else {
		sc = newScripted(t, func() int { return 0 })
		ids = genIDs(t, min(lots(t, 1, 4), 300))
		if history > 1 && t.Src.Chance(0.5) {
			ids = ids[:min(len(ids), t.Src.Range(1, 3))]
		}
		n := lots(t, 1, 16)
		if history == 1 && t.Src.Intn(250) == 0 {
			ids = genIDs(t, pick(t, 270, 600, 1100, 1100, 2100))
			n = len(ids) + t.Src.Intn(100)
			t.Probe("a thousand chunk streams")
		}
		ids = append(ids, 2)
		hot := 0.0 // share of one chunk stream; the others are idle for long
		if history > 1 {
			hot = pick(t, 0, 0.99, 0.999, 0.9999)
		}
		for i := 0; i < n; i++ {
			if t.Src.Chance(0.25) {
				err := ioErr(t, "read", i)
				sc.items = append(sc.items, item{err: err})
				wantErrs = append(wantErrs, err)
				t.Logf("reader will report %v", err)
				continue
			}
			id := ids[t.Src.Intn(len(ids))]
			if hot > 0 && t.Src.Chance(hot) {
				id = ids[0]
			}
			c := small(t, id, i)
			s := look(c)
			want[id] = append(want[id], &s.m)
			sent[c] = true
			sc.items = append(sc.items, item{c: c})
			t.Logf("reader will deliver %v", &s)
		}
		reader = sc
	}
	p := chunk.NewParser(reader)
	// Every chunk stream that carries something is consumed by someone; some
	// are asked for together, some late, some twice.
	var taps []*tap
	add := func(name string, ids []uint32, s chunk.Stream) {
		tp := &tap{name: name, ids: ids, s: s}
		taps = append(taps, tp)
		pa := newPauser(t)
		t.Go(tp.String(), func() { tp.consume(t, pa) })
	}
	single := func(id uint32, name string) {
		s, err := p.Stream(id)
		if err != nil || s == nil {
			t.Failf("refused", "asking for chunk stream %d gave %v, %v", id, s, err)
		}
		add(name, []uint32{id}, s)
	}
	twice := map[uint32]bool{}
	all := append([]uint32{}, ids...)
	if t.Src.Chance(0.5) {
		all = append(all, genIDs(t, 2)...)
	}
	uniq := map[uint32]bool{}
	k := 0
	for _, id := range all {
		if !uniq[id] {
			uniq[id] = true
			all[k] = id
			k++
		}
	}
	all = all[:k]
	slow := pick(t, 0, 100, 10000)
	for len(all) > 0 {
		n := 1
		if len(all) > 1 && t.Src.Chance(0.4) {
			n = t.Src.Range(2, min(3, len(all)))
		}
		group := all[:n:n]
		all = all[n:]
		ask := func() {
			if n == 1 {
				single(group[0], "a")
				return
			}
			s, err := p.Stream(group...)
			if err != nil {
				// Someone was faster.
				for _, id := range group {
					single(id, "b")
				}
				return
			}
			t.Probe("merged stream")
			add("m", group, s)
		}
		if slow == 0 || t.Src.Chance(0.3) {
			ask()
		} else {
			d := 1 + t.Src.Intn(slow)
			t.Go("asking", func() { sim.Sleep(us(d)); ask() })
		}
		if n == 1 && t.Src.Chance(0.15) {
			twice[group[0]] = true
			single(group[0], "again")
		}
	}
	t.Go("Recv", p.Recv)
	start()
	var errs []error
	ended := false
	pa := newPauser(t)
	t.Go("error collector", func() {
		for {
			err, ok := sim.Recv2(p.Errs())
			if !ok {
				t.Failf("closed", "the error channel was closed without a close request")
			}
			t.Logf("parser reports %v", err)
			errs = append(errs, err)
			if real && isEnd(err) {
				ended = true
				return
			}
			pa.pause()
		}
	})
	t.Settle(horizon)
	if real && !ended {
		t.Failf("silent", "the transport ended and the parser reported no error:%s", t.GoroutineDump())
	}
	if !real {
		if len(errs) != len(wantErrs) {
			t.Failf("errors", "%d errors were forwarded (%v), the reader reported %d (%v):%s", len(errs), errs, len(wantErrs), wantErrs, t.GoroutineDump())
		}
		for i := range errs {
			if !errors.Is(errs[i], wantErrs[i]) {
				t.Failf("errors", "error %d forwarded is %v, the reader reported %v", i, errs[i], wantErrs[i])
			}
		}
	} else if len(errs) < 2 && trans > 0 {
		t.Failf("errors", "%d reads failed and only %d errors were forwarded", trans, len(errs))
	}
	got := map[uint32][]*seen{}
	starts := map[uint32][]int{} // where each consumer's share of got begins
	for _, tp := range taps {
		begun := map[uint32]bool{}
		if tp.closed {
			t.Failf("closed", "%v was closed without a close request", tp)
		}
		for i := range tp.got {
			s := &tp.got[i]
			if s.bad != "" {
				t.Failf("bogus", "%v: %s", tp, s.bad)
			}
			if !s.unchanged() {
				n := look(s.at)
				t.Failf("altered", "%v: message %d was altered after it was delivered: %v became %v", tp, i, s, &n)
			}
			if !real && !sent[s.at] {
				t.Failf("bogus", "%v delivered %v, which is not what the reader produced", tp, s)
			}
			mine := false
			for _, id := range tp.ids {
				mine = mine || id == s.m.CSID
			}
			if !mine {
				t.Failf("misrouted", "%v delivered %v", tp, s)
			}
			if !begun[s.m.CSID] {
				begun[s.m.CSID] = true
				starts[s.m.CSID] = append(starts[s.m.CSID], len(got[s.m.CSID]))
			}
			got[s.m.CSID] = append(got[s.m.CSID], s)
		}
	}
	for _, id := range ids {
		g, w := got[id], want[id]
		if twice[id] {
			// Two consumers share the stream: the order between them is
			// not observable.
			if len(g) != len(w) {
				t.Failf("count", "chunk stream %d delivered %d messages, %d arrived:%s", id, len(g), len(w), t.GoroutineDump())
			}
			// Each consumer has its share in order: look there first.
			heads := append([]int{}, starts[id]...)
			for _, m := range w {
				ok := false
				for j, i := range heads {
					if i < len(g) && g[i] != nil && g[i].want(m) == "" {
						g[i], ok = nil, true
						heads[j]++
						break
					}
				}
				if ok {
					continue
				}
				for i, s := range g {
					if s != nil && s.want(m) == "" {
						g[i], ok = nil, true
						break
					}
				}
				if !ok {
					t.Failf("lost", "chunk stream %d did not deliver %v", id, m)
				}
			}
			continue
		}
		for i, s := range g {
			if i >= len(w) {
				t.Failf("extra", "chunk stream %d delivered %d messages, only %d arrived; the first extra one is %v", id, len(g), len(w), s)
			}
			n := *w[i]
			if real {
				n.TS, n.Ext = s.m.TS, s.m.Ext
			}
			if d := s.want(&n); d != "" {
				t.Failf("order", "chunk stream %d delivered %v as message %d, %v arrived: %s", id, s, i, w[i], d)
			}
		}
		if len(g) < len(w) {
			t.Failf("lost", "chunk stream %d delivered %d messages, %d arrived:%s", id, len(g), len(w), t.GoroutineDump())
		}
	}
}

// regOp is one operation on the stream registry.
type regOp struct {
	g        string
	ids      []uint32
	call     int
	ret      int
	s        chunk.Stream
	err      error
	arrival  bool
	optional bool
	name     string
}

func (o *regOp) String() string {
	if o.arrival {
		return fmt.Sprintf("message for %d arrives [%d..%d]", o.ids[0], o.call, o.ret)
	}
	res := "stream " + o.name
	if o.err != nil {
		res = "error: " + o.err.Error()
	}
	return fmt.Sprintf("Stream%v [%d..%d] = %s", o.ids, o.call, o.ret, res)
}

// linearizable finds an order of ops that respects their real-time order and
// that a sequential registry would allow.
func linearizable(ops []*regOp) bool {
	type state struct{ done uint32 }
	seen := map[uint32]bool{}
	full := uint32(0)
	for i, o := range ops {
		if !o.optional {
			full |= 1 << i
		}
	}
	exists := func(done uint32) map[uint32]bool {
		m := map[uint32]bool{}
		for i, o := range ops {
			if done>>i&1 == 1 && o.err == nil {
				for _, id := range o.ids {
					m[id] = true
				}
			}
		}
		return m
	}
	var rec func(done uint32) bool
	rec = func(done uint32) bool {
		if done&full == full {
			return true
		}
		if seen[done] {
			return false
		}
		seen[done] = true
		have := exists(done)
		first := 1 << 30
		for i, o := range ops {
			if done>>i&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done>>i&1 == 1 || o.call > first {
				continue
			}
			if !o.arrival && len(o.ids) > 1 {
				any := false
				for _, id := range o.ids {
					any = any || have[id]
				}
				if any == (o.err == nil) {
					continue
				}
			}
			if rec(done | 1<<i) {
				return true
			}
		}
		return false
	}
	return rec(0)
}

// c12 asks for streams concurrently.
func c12(t *T) {
	clock := 0
	tick := func() int { clock++; return clock }
	ids := genIDs(t, min(lots(t, 2, 5), 200))
	sc := newScripted(t, tick)
	sentTo := map[uint32][]*chunk.Chunk{}
	for i, n := 0, lots(t, 0, 4); i < n; i++ {
		if t.Src.Chance(0.1) {
			sc.items = append(sc.items, item{err: ioErr(t, "read", i)})
			continue
		}
		id := ids[t.Src.Intn(len(ids))]
		c := small(t, id, i)
		sentTo[id] = append(sentTo[id], c)
		sc.items = append(sc.items, item{c: c})
	}
	p := chunk.NewParser(sc)
	var ops []*regOp
	var taps []*tap
	consumed := map[chunk.Stream]*tap{}
	delivered := map[*chunk.Chunk]int{} // when its consumer had it
	watch := func(s chunk.Stream, ids []uint32) {
		if consumed[s] != nil {
			return
		}
		tp := &tap{name: fmt.Sprint(len(taps)), ids: ids, s: s}
		consumed[s] = tp
		taps = append(taps, tp)
		t.Go("consumer of "+tp.String(), func() {
			ch := s.In()
			for {
				c, ok := sim.Recv2(ch)
				if !ok {
					tp.closed = true
					return
				}
				if _, again := delivered[c]; !again {
					delivered[c] = tick()
				}
				sn := look(c)
				t.Logf("%v delivers %v", tp, &sn)
				tp.got = append(tp.got, sn)
			}
		})
	}
	call := func(g string, ids []uint32) {
		o := &regOp{g: g, ids: ids, ret: 1 << 30}
		ops = append(ops, o)
		o.call = tick()
		o.s, o.err = p.Stream(ids...)
		o.ret = tick()
		if o.err == nil && o.s == nil {
			t.Failf("nil", "%v", o)
		}
		if o.err == nil {
			watch(o.s, ids)
			o.name = consumed[o.s].name
		}
		t.Logf("%s: %v", g, o)
	}
	choose := func() []uint32 {
		if t.Src.Chance(0.05) {
			return nil
		}
		n := 1
		if t.Src.Chance(0.55) {
			n = t.Src.Range(2, min(len(ids), 12))
		}
		at := t.Src.Intn(len(ids))
		var out []uint32
		for len(out) < n {
			out = append(out, ids[at%len(ids)])
			at += 1
		}
		if n == 2 && len(ids) > 2 && t.Src.Chance(0.5) {
			out[1] = ids[(at)%len(ids)]
		}
		if n > 1 && t.Src.Chance(0.1) {
			out[t.Src.Intn(n)] = out[t.Src.Intn(n)]
		}
		return out
	}
	late := t.Src.Chance(0.3)
	if !late {
		t.Go("Recv", p.Recv)
	}
	for g, n := 0, t.Src.Range(2, 4); g < n; g++ {
		name := fmt.Sprintf("caller %d", g)
		var todo [][]uint32
		for k := lots(t, 1, 3); k > 0; k-- {
			todo = append(todo, choose())
		}
		pa := newPauser(t)
		t.Go(name, func() {
			for _, ids := range todo {
				pa.pause()
				call(name, ids)
			}
		})
	}
	if late {
		t.Go("Recv", p.Recv)
	}
	t.Go("error collector", func() {
		for range sim.Range(p.Errs()) {
		}
	})
	t.Settle(horizon)
	// Whoever is not consumed by now is asked for last.
	for _, id := range ids {
		call("scenario", []uint32{id})
	}
	t.Settle(horizon)
	n := 0
	for i, it := range sc.items {
		if it.c == nil {
			continue
		}
		if sc.began == nil || sc.began[i] == 1<<30 {
			t.Failf("stuck", "the parser stopped taking messages (%d of %d taken):%s", sc.sent, len(sc.items), t.GoroutineDump())
		}
		o := &regOp{g: "reader", ids: []uint32{it.c.StreamId()}, arrival: true, call: sc.began[i], ret: sc.done[i]}
		if d, ok := delivered[it.c]; ok && d < o.ret {
			o.ret = d
		}
		if o.ret == 1<<30 {
			o.optional = true
		}
		ops = append(ops, o)
		n++
	}
	history := func() string {
		var b strings.Builder
		for _, o := range ops {
			fmt.Fprintf(&b, "\n  %s: %v", o.g, o)
		}
		return b.String()
	}
	single := map[uint32]chunk.Stream{}
	owner := map[chunk.Stream]*regOp{}
	for _, o := range ops {
		if o.arrival {
			continue
		}
		if o.ret == 1<<30 {
			t.Failf("stuck", "%v never returned:%s", o, t.GoroutineDump())
		}
		switch len(o.ids) {
		case 0:
			if o.err == nil {
				t.Failf("empty", "an empty request was answered with a stream")
			}
			continue
		case 1:
			if o.err != nil {
				t.Failf("refused", "%v", o)
			}
			id := o.ids[0]
			if s, ok := single[id]; ok && s != o.s {
				t.Failf("two-streams", "chunk stream %d was handed out as two different streams:%s", id, history())
			}
			single[id] = o.s
		}
		if o.err != nil {
			continue
		}
		if q := owner[o.s]; q != nil && (len(q.ids) != 1 || len(o.ids) != 1 || q.ids[0] != o.ids[0]) {
			t.Failf("shared", "one stream was handed out for %v and for %v", q.ids, o.ids)
		}
		owner[o.s] = o
	}
	if len(ops) <= 30 && !linearizable(ops) {
		t.Failf("not-linearizable", "no sequential order explains:%s", history())
	}
	got := map[*chunk.Chunk]int{}
	for _, tp := range taps {
		for i := range tp.got {
			s := &tp.got[i]
			mine := false
			for _, id := range tp.ids {
				mine = mine || id == s.m.CSID
			}
			if !mine {
				t.Failf("misrouted", "%v delivered %v", tp, s)
			}
			got[s.at]++
		}
		if tp.closed {
			t.Failf("closed", "%v was closed", tp)
		}
	}
	for _, id := range ids {
		for _, c := range sentTo[id] {
			if got[c] != 1 {
				s := look(c)
				t.Failf("count", "%v was delivered %d times:%s", &s, got[c], history())
			}
		}
	}
}

// c13 closes a parser at some instant.
func c13(t *T) {
	o := c01(t)
	o.cut = t.Src.Chance(0.3)
	o.msgs = t.Src.Range(1, 8)
	o.badScs = pick(t, 0, 0, 0.5)
	prog := generate(t, o)
	pipe := transport(t, "transport")
	var ids []uint32
	seenID := map[uint32]bool{}
	msgs, _, _ := prog.upTo(len(prog.bytes))
	for _, m := range msgs {
		if !seenID[m.CSID] {
			seenID[m.CSID] = true
			ids = append(ids, m.CSID)
		}
	}
	ids = append(ids, 7777)
	for j := t.Src.Intn(3); j > 0; j-- {
		pipe.Faults = append(pipe.Faults, &sim.Fault{Kind: sim.FaultTransient, Pos: t.Src.Intn(len(prog.bytes)), Err: ioErr(t, "read", j)})
	}
	if t.Src.Chance(0.2) {
		pipe.Faults = append(pipe.Faults, &sim.Fault{Kind: sim.FaultStall, Pos: t.Src.Intn(len(prog.bytes)), Stall: us(1 + t.Src.Intn(20000))})
	}
	end := t.Src.Chance(0.5)
	reader := chunk.NewReader(pipe, prog.size, chunk.NewNormalizer())
	p := chunk.NewParser(reader)

	var taps []*tap
	streams := map[uint32]*tap{}
	closing, closed, closedAt := false, false, 0
	afterClose := func(tp *tap, s *seen) {
		t.Failf("delivered", "%v delivered %v after the close request had returned", tp, s)
	}
	use := func(tp *tap) {
		n := pick(t, 0, 0, 1, 2, 100)
		pa := newPauser(t)
		t.Go("consumer of "+tp.String(), func() {
			ch := tp.s.In()
			for ; n > 0; n-- {
				was := closed
				c, ok := sim.Recv2(ch)
				if !ok {
					tp.closed = true
					if !closing {
						t.Failf("closed", "%v was closed without a close request", tp)
					}
					return
				}
				s := look(c)
				tp.got = append(tp.got, s)
				t.Logf("%v delivers %v", tp, &s)
				if was && len(tp.ids) == 1 {
					afterClose(tp, &s)
				}
				pa.pause()
			}
		})
	}
	ask := func() {
		if t.Src.Chance(0.2) && len(ids) > 1 {
			at := t.Src.Intn(len(ids) - 1)
			g := ids[at : at+2 : at+2]
			if t.Src.Chance(0.1) {
				g = append(g, g[t.Src.Intn(2)]) // the same twice
			}
			if s, err := p.Stream(g...); err == nil {
				tp := &tap{name: "m", ids: g, s: s}
				taps = append(taps, tp)
				for _, id := range g {
					streams[id] = tp
				}
				use(tp)
			}
			return
		}
		id := ids[t.Src.Intn(len(ids))]
		s, err := p.Stream(id)
		if err != nil {
			t.Failf("refused", "asking for chunk stream %d: %v", id, err)
		}
		tp := &tap{name: "s", ids: []uint32{id}, s: s}
		taps = append(taps, tp)
		use(tp)
	}
	for k := t.Src.Intn(4); k > 0; k-- {
		ask()
	}
	asks := t.Src.Intn(4)
	gap := pick(t, 1, 100, 10000)
	t.Go("asker", func() {
		for ; asks > 0; asks-- {
			if t.Src.Chance(0.5) {
				t.Yield()
			} else {
				sim.Sleep(us(1 + t.Src.Intn(gap)))
			}
			ask()
		}
	})
	errsWanted := pick(t, 0, 0, 1, 3, 1000)
	errsClosed := false
	t.Go("error collector", func() {
		for n := errsWanted; n > 0; n-- {
			was := closed
			err, ok := sim.Recv2(p.Errs())
			if !ok {
				errsClosed = true
				if !closing {
					t.Failf("closed", "the error channel was closed without a close request")
				}
				return
			}
			if was {
				t.Failf("delivered", "the error %v was delivered after the close request had returned", err)
			}
			if n%200 == 0 {
				sim.Sleep(us(1))
			}
		}
	})
	late := pick(t, 0, 0, 0, 0, 30, 2000)
	t.Go("Recv", func() {
		if late > 0 {
			sim.Sleep(us(1 + t.Src.Intn(late)))
		}
		p.Recv()
	})
	feed(t, pipe, prog.bytes, func() {
		if end {
			pipe.End(io.EOF)
		}
	})
	when := t.Src.Intn(4)
	wait := pick(t, 1, 20, 400, 20000)
	t.Go("closer", func() {
		switch when {
		case 0:
		case 1:
			for k := t.Src.Intn(30); k > 0; k-- {
				t.Yield()
			}
		default:
			sim.Sleep(us(t.Src.Intn(wait) + 1))
		}
		t.Logf("close request")
		closing = true
		p.Close()
		closed = true
		closedAt = pipe.Reads
		t.Logf("close request returned")
		t.Stats.Faults["close"]++
	})
	t.Settle(horizon)
	unblock := ""
	if !closed {
		// A read that is still in progress may hold it up, until it returns.
		unblock = pick(t, "end", "error", "bytes", "chunk")
		id := uint32(9)
		for prog.parts[id] > 0 {
			id++
		}
		size := reader.ReadSize()
		if pipe.Pending() > 0 || size != prog.last || size > 5000 {
			unblock = "bytes"
		}
		switch unblock {
		case "end":
			pipe.End(io.EOF)
		case "error":
			pipe.End(ioErr(t, "read", "for good"))
		case "bytes":
			pipe.Feed([]byte{3})
		case "chunk":
			// A chunk that completes no message.
			m := &ref.Msg{CSID: id, Type: 9, Data: content(1, size+1)}
			pipe.Feed(append(ref.First(nil, m, false), m.Data[:size]...))
			t.Probe("closing waits for a chunk")
		}
		t.Settle(horizon)
		if !closed && unblock == "chunk" {
			t.Failf("hang", "the close request has not returned, though the chunk being read has arrived:%s", t.GoroutineDump())
		}
		if !closed && unblock == "bytes" {
			// The byte may have been the middle of something: the read in
			// progress is over only once the transport answers again.
			pipe.End(io.EOF)
			t.Settle(horizon)
		}
	}
	if !closed {
		t.Failf("hang", "the close request has not returned (transport: %s):%s", unblock, t.GoroutineDump())
	}
	// Streams asked for now are closed too.
	for k := 0; k < 2; k++ {
		id := ids[t.Src.Intn(len(ids))]
		s, err := p.Stream(id)
		if err != nil {
			t.Failf("refused", "asking for chunk stream %d after closing: %v", id, err)
		}
		taps = append(taps, &tap{name: "late", ids: []uint32{id}, s: s})
	}
	awaited := 0
	multis := 0
	for _, tp := range taps {
		if len(tp.ids) > 1 {
			multis++
			ms, ok := tp.s.(*chunk.MultiStream)
			if !ok {
				continue
			}
			t.Go("drain of "+tp.String(), func() {
				for range sim.Range(tp.s.In()) {
				}
			})
			t.Go("close of "+tp.String(), func() { ms.AwaitClose(); awaited++ })
			continue
		}
		t.Go("check of "+tp.String(), func() {
			c, ok := sim.Recv2(tp.s.In())
			if ok {
				s := look(c)
				afterClose(tp, &s)
			}
			tp.closed = true
		})
	}
	t.Go("check of errors", func() {
		if err, ok := sim.Recv2(p.Errs()); ok {
			t.Failf("delivered", "the error %v was delivered after the close request had returned", err)
		}
		errsClosed = true
	})
	if t.Src.Chance(0.3) {
		pipe.Feed(prog.bytes)
	}
	pipe.End(io.EOF)
	t.Settle(horizon)
	for _, tp := range taps {
		if len(tp.ids) == 1 && !tp.closed {
			t.Failf("open", "the channel of %v is still open after the close request returned", tp)
		}
	}
	if !errsClosed {
		t.Failf("open", "the error channel is still open after the close request returned")
	}
	if awaited != multis {
		t.Failf("open", "a merged stream never became done after its sources were closed:%s", t.GoroutineDump())
	}
	if l := t.Live(); len(l) > 0 {
		t.Failf("leak", "goroutines remain after the close request returned: %v", l)
	}
	if pipe.Reads > closedAt {
		t.Failf("reads", "the transport was read %d times after the close request had returned", pipe.Reads-closedAt)
	}
}

// source is a stream fed by the scenario.
type source struct{ ch chan *chunk.Chunk }

func (s *source) In() <-chan *chunk.Chunk { return s.ch }

// c14 merges streams.
func c14(t *T) {
	m := chunk.NewMultiStream()
	type src struct {
		s      *source
		msgs   []*chunk.Chunk
		closed bool
		pushed int
	}
	var srcs []*src
	never := t.Src.Chance(0.15)
	var hold chan struct{}
	mk := func() *src {
		s := &src{s: &source{make(chan *chunk.Chunk, pick(t, 0, 0, 1, 3))}}
		held := hold
		k := len(srcs)
		srcs = append(srcs, s)
		for i, n := 0, lots(t, 0, 5); i < n; i++ {
			s.msgs = append(s.msgs, small(t, uint32(3+k), k*1000+i))
		}
		forever := never && t.Src.Chance(0.5)
		pa := newPauser(t)
		t.Go(fmt.Sprintf("source %d", k), func() {
			for _, c := range s.msgs {
				pa.pause()
				sim.To(s.s.ch).Send(c)
				s.pushed++
			}
			pa.pause()
			if forever {
				return
			}
			if held != nil {
				sim.Recv(held)
			}
			s.closed = true
			sim.Close(s.s.ch)
		})
		return s
	}
	appended := sim.WaitGroup{}
	groups := t.Src.Range(0, 4)
	if groups > 0 {
		appended.Add(groups)
	}
	innerDone := map[int]bool{}
	for g := 0; g < groups; g++ {
		var ss []chunk.Stream
		for n := min(lots(t, 0, 3), 40); n > 0; n-- {
			ss = append(ss, mk().s)
		}
		if t.Src.Chance(0.2) {
			// A merged stream can be a source too.
			in := chunk.NewMultiStream()
			in.Append(ss...)
			ss = []chunk.Stream{in}
			innerDone[g] = false
			t.Go("inner close", func() { in.AwaitClose(); innerDone[g] = true })
		}
		add := func() {
			if r := m.Append(ss...); r != m {
				t.Failf("append", "Append returned another stream")
			}
			appended.Done()
		}
		if t.Src.Chance(0.5) {
			add()
		} else {
			d := 1 + t.Src.Intn(300)
			t.Go("appender", func() { sim.Sleep(us(d)); add() })
		}
	}
	waiting := false
	if t.Src.Chance(0.15) {
		// One more source comes while the wait is on and another is open.
		hold = make(chan struct{})
		m.Append(mk().s)
		anchor := hold
		hold = nil
		late := mk()
		t.Go("late appender", func() {
			for !waiting {
				sim.Sleep(us(200))
			}
			for k := t.Src.Intn(4); k > 0; k-- {
				t.Yield()
			}
			m.Append(late.s)
			t.Probe("a source appended amid the wait for close")
			sim.Close(anchor)
		})
	}
	var got []seen
	order := map[*chunk.Chunk]int{}
	sawClose := false
	consumers := pick(t, 1, 1, 2)
	ended := 0
	t.Logf("%d sources in %d groups, %d consumers", len(srcs), groups, consumers)
	undelivered := func() int {
		n := 0
		for _, s := range srcs {
			n += len(s.msgs)
		}
		return n - len(got)
	}
	open := func() string {
		for k, s := range srcs {
			if !s.closed {
				return fmt.Sprintf("source %d is not closed", k)
			}
		}
		return ""
	}
	for k := 0; k < consumers; k++ {
		pa := newPauser(t)
		t.Go(fmt.Sprintf("consumer %d", k), func() {
			for {
				c, ok := sim.Recv2(m.In())
				if !ok {
					if o := open(); o != "" {
						t.Failf("early", "the merged stream was closed while %s", o)
					}
					if n := undelivered(); n > consumers-1 {
						t.Failf("early", "the merged stream was closed with %d messages undelivered", n)
					}
					sawClose = true
					ended++
					return
				}
				s := look(c)
				t.Logf("merged stream delivers %v", &s)
				order[c] = len(got)
				got = append(got, s)
				pa.pause()
			}
		})
	}
	returned := false
	t.Go("AwaitClose", func() {
		appended.Wait()
		t.Logf("waiting for close")
		waiting = true
		m.AwaitClose()
		returned = true
		if o := open(); o != "" {
			t.Failf("early", "waiting for close returned while %s", o)
		}
		if n := undelivered(); n > consumers {
			t.Failf("early", "waiting for close returned with %d messages undelivered", n)
		}
	})
	t.Settle(horizon)
	count := map[*chunk.Chunk]int{}
	for i := range got {
		if got[i].bad != "" {
			t.Failf("bogus", "%s", got[i].bad)
		}
		if !got[i].unchanged() {
			t.Failf("altered", "message %v was altered", &got[i])
		}
		count[got[i].at]++
	}
	total := 0
	for k, s := range srcs {
		last := -1
		for i, c := range s.msgs {
			if count[c] != 1 {
				t.Failf("count", "message %d of source %d was delivered %d times:%s", i, k, count[c], t.GoroutineDump())
			}
			if consumers == 1 && order[c] < last {
				t.Failf("order", "message %d of source %d was delivered before its predecessor", i, k)
			}
			last = order[c]
			total++
		}
	}
	if len(got) != total {
		t.Failf("extra", "%d messages were delivered, the sources have %d", len(got), total)
	}
	if open() == "" {
		if !returned || !sawClose || ended != consumers {
			t.Failf("never", "all sources are closed and drained, but the merged stream is not done (waiting returned: %v, consumers that saw the close: %d of %d):%s", returned, ended, consumers, t.GoroutineDump())
		}
		if l := t.Live(); len(l) > 0 {
			t.Failf("leak", "goroutines remain: %v", l)
		}
	} else if returned || sawClose {
		t.Failf("early", "the merged stream is done although %s", open())
	}
}
