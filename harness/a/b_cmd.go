//go:build cmd

package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"

	"verif/harness/ref"
	"verif/sim"
)

// handsOf are the handlers of a manager.
func handsOf(t *T, m *cmd.Manager, name string) []*hand {
	var hs []*hand
	for kind := range kinds {
		h := &hand{}
		h.init(t, kind)
		h.name = name + h.name
		h.nc, h.ns, h.ds = m.NetConn(), m.NetStream(), m.DataStream()
		h.lanes = map[uint32][]string{}
		hs = append(hs, h)
	}
	return hs
}

// route is the handler a message is meant for, -1 for none.
func route(m *ref.Msg) int {
	switch {
	case m.CSID == 3, m.CSID == 8 && m.SID == 0:
		return hConn
	case m.Type == 0x14 && (m.CSID == 4 || m.CSID == 8 && m.SID == 1):
		return hStream
	case m.CSID == 4 && (m.Type == 8 || m.Type == 9 || m.Type == 0x12):
		return hData
	}
	return -1
}

// expect records that m arrives for one of the handlers.
func expect(t *T, hs []*hand, m *ref.Msg) {
	k := route(m)
	if k < 0 {
		t.Logf("arriving for nobody: %v", m)
		return
	}
	h := hs[k]
	w := meaning(k, m.Type, m.Data)
	t.Logf("arriving for the %s: %v meaning %s", h.name, m, cut(w))
	h.lanes[m.CSID] = append(h.lanes[m.CSID], w)
	h.total++
}

// genRouted makes the body of message n on a command chunk stream.
func genRouted(t *T, id uint32, n int, bad float64) (typ byte, sid uint32, b []byte) {
	sid = pick[uint32](t, 0, 1, 1, 2, 0x01000000)
	kind := t.Src.Intn(3)
	if t.Src.Chance(0.85) {
		switch id {
		case 3:
			kind = hConn
		case 8:
			kind = pick(t, hConn, hStream)
			sid = uint32(kind)
		case 4:
			kind = pick(t, hStream, hData, hData)
		}
	}
	typ, b = genCommand(t, kind, n)
	if t.Src.Chance(bad) {
		typ, b = spoil(t, kind, typ, b)
	}
	if t.Src.Chance(0.08) {
		typ = pick[byte](t, 0x14, 8, 9, 0x12, 0x11, 0x0f, 0x13)
	}
	return
}

// checkLanes checks that the outcomes are an interleaving of what arrived on
// the chunk streams.
func (h *hand) checkLanes(all bool) {
	t := h.t
	var ids []uint32
	for _, id := range []uint32{3, 4, 8} {
		if len(h.lanes[id]) > 0 {
			ids = append(ids, id)
		}
	}
	for i, o := range h.outs {
		if o != "" && canon(h.vals[i]) != h.now[i] {
			t.Failf("altered", "%s: outcome %d (%s) was altered after it was delivered: it is now %s", h.name, i, h.now[i], canon(h.vals[i]))
		}
	}
	next := map[uint32]int{}
	dead := map[string]bool{}
	best := 0
	var try func(k int) bool
	try = func(k int) bool {
		best = max(best, k)
		if k == len(h.outs) {
			return true
		}
		key := fmt.Sprint(k, next)
		if dead[key] {
			return false
		}
		for _, id := range ids {
			if i := next[id]; i < len(h.lanes[id]) && h.lanes[id][i] == h.outs[k] {
				next[id]++
				if try(k + 1) {
					return true
				}
				next[id]--
			}
		}
		dead[key] = true
		return false
	}
	if !try(0) {
		o := h.outs[best]
		if o == "" {
			o = fmt.Sprintf("an error (%v)", h.errs)
		}
		due := ""
		for _, id := range ids {
			due += fmt.Sprintf(" chunk stream %d: %q;", id, h.lanes[id])
		}
		t.Failf("misrouted", "%s: outcome %d is %s, which did not arrive for it, or arrived before or later; expected per chunk stream:%s", h.name, best, cut(o), due)
	}
	if all && len(h.outs) < h.total {
		t.Failf("lost", "%s: %d messages arrived for it, only %d outcomes were observed:%s", h.name, h.total, len(h.outs), t.GoroutineDump())
	}
}

// cmdRig is a dispatcher and what is around it.
type cmdRig struct {
	t    *T
	fw   *fakeWriter
	m    *cmd.Manager
	hs   []*hand
	src  *source       // scripted source
	p    *chunk.Parser // or a real one
	st   chunk.Stream
	pipe *sim.Pipe
	msgs []*ref.Msg
	prog *program
}

func newCmdRig(t *T, real bool, n int, bad float64) *cmdRig {
	r := &cmdRig{t: t, fw: newFakeWriter(t, pick(t, 0, 0, 0.3))}
	r.fw.relays = true
	if real {
		r.prog = generate(t, genOpts{
			msgs: n, only: []uint32{3, 4, 4, 8, 8, 5, 6}, compress: pick(t, 0, 0.5), abort: pick(t, 0, 0.2), scs: pick(t, 0, 0.2), minSize: pick(t, 1, 20), maxLen: 300,
			body: func(id uint32, n int) (byte, uint32, []byte) { return genRouted(t, id, n, bad) },
		})
		for _, d := range r.prog.desc {
			t.Logf("peer %s", d)
		}
		r.pipe = transport(t, "transport")
		r.p = chunk.NewParser(chunk.NewReader(r.pipe, r.prog.size, chunk.NewNormalizer()))
		st, _ := r.p.Stream(3, 4, 5, 8)
		r.st = st
		r.m = cmd.New(st, r.fw)
		r.msgs, _, _ = r.prog.upTo(len(r.prog.bytes))
	} else {
		longMedia = true
		r.src = &source{make(chan *chunk.Chunk, pick(t, 0, 0, 2))}
		r.m = cmd.New(r.src, r.fw)
		again := pick(t, 0, 0, 0.3)
		var last *ref.Msg
		for i := 0; i < n; i++ {
			m := &ref.Msg{CSID: pick[uint32](t, 3, 4, 4, 8, 8, 5, 6, 2, 64, uint32(t.Src.Range(3, 70)))}
			m.Type, m.SID, m.Data = genRouted(t, m.CSID, i+1, bad)
			m.TS, m.Ext = genTS(t, 0.05)
			if last != nil && t.Src.Chance(again) {
				m = last
			}
			last = m
			r.msgs = append(r.msgs, m)
		}
	}
	r.hs = handsOf(t, r.m, "")
	for _, h := range r.hs {
		h.known = func(e error) bool {
			for x := range h.encs {
				if errors.Is(e, x) {
					return true
				}
			}
			return isOne(e, r.fw.mark) || e.Error() == "amf0: string too long"
		}
	}
	return r
}

// feed makes the messages arrive.
func (r *cmdRig) feed(then func()) {
	t := r.t
	if r.p != nil {
		for _, m := range r.msgs {
			if m.CSID != 2 && m.CSID != 6 {
				expect(t, r.hs, m)
			}
		}
		feed(t, r.pipe, r.prog.bytes, then)
		return
	}
	var cs []*chunk.Chunk
	for _, m := range r.msgs {
		expect(t, r.hs, m)
		cs = append(cs, whole(m))
	}
	pa := newPauser(t)
	t.Go("source", func() {
		for _, c := range cs {
			pa.pause()
			sim.To(r.src.ch).Send(c)
		}
		pa.pause()
		then()
	})
}

// others collects what a real parser hands to others.
func (r *cmdRig) others() {
	t := r.t
	for _, id := range []uint32{2, 6} {
		st, _ := r.p.Stream(id)
		t.Go("other consumer", func() {
			for range sim.Range(st.In()) {
			}
		})
	}
	t.Go("error collector", func() {
		for e := range sim.Range(r.p.Errs()) {
			if isEnd(e) {
				return
			}
		}
	})
}

// c22 has a dispatcher route messages.
func c22(t *T) {
	real := t.Src.Chance(0.4)
	r := newCmdRig(t, real, lots(t, 1, 16), pick(t, 0, 0, 0.2, 0.5))
	managed := t.Src.Chance(0.6)
	if real {
		r.others()
		t.Go("Parser", r.p.Recv)
	}
	late := pick(t, 0, 0, 0, 300)
	t.Go("Dispatch", func() {
		if late > 0 {
			sim.Sleep(us(1 + t.Src.Intn(late)))
		}
		r.m.Dispatch(managed)
	})
	for _, h := range r.hs {
		if !managed {
			late := pick(t, 0, 0, 300)
			t.Go(h.name, func() {
				if late > 0 {
					sim.Sleep(us(1 + t.Src.Intn(late)))
				}
				h.run()
			})
		}
		pa := newPauser(t)
		t.Go("collector of the "+h.name, func() { h.collect(1<<30, pa) })
	}
	closes := t.Src.Chance(0.2)
	r.feed(func() {
		switch {
		case !closes:
		case real:
			r.pipe.End(io.EOF)
		default:
			sim.Close(r.src.ch)
		}
	})
	for _, h := range r.hs {
		if t.Src.Chance(0.3) {
			h.send(t.Src.Range(1, 2), 3, 0.1)
		}
	}
	t.Settle(horizon)
	for _, h := range r.hs {
		h.checkLanes(true)
		if h.inOver || h.errOver {
			t.Failf("closed", "the %s closed its channels without a close request", h.name)
		}
	}
}

// c23 closes a dispatcher, or a handler on its own.
func c23(t *T) {
	if t.Src.Chance(0.4) {
		c23hand(t)
		return
	}
	real := t.Src.Chance(0.3)
	r := newCmdRig(t, real, lots(t, 0, 9), pick(t, 0, 0.3))
	managed := t.Src.Chance(0.6)
	if real {
		if t.Src.Chance(0.8) {
			r.others()
		}
		t.Go("Parser", r.p.Recv)
	}
	late := pick(t, 0, 0, 0, 0, 30, 2000)
	disp := t.Go("Dispatch", func() {
		if late > 0 {
			sim.Sleep(us(1 + t.Src.Intn(late)))
		}
		r.m.Dispatch(managed)
	})
	running := map[*hand]*sim.G{}
	for _, h := range r.hs {
		if !managed && t.Src.Chance(0.75) {
			running[h] = t.Go(h.name, h.run)
		}
		pa := newPauser(t)
		limit := pick(t, 0, 1, 3, 1<<30, 1<<30)
		t.Go("collector of the "+h.name, func() { h.collect(limit, pa) })
		if t.Src.Chance(0.3) {
			h.send(t.Src.Range(1, 2), 3, 0.1)
		}
	}
	ends := t.Src.Chance(0.6)
	if !real && t.Src.Chance(0.2) {
		t.Logf("source closed at once")
		sim.Close(r.src.ch)
	} else {
		r.feed(func() {
			switch {
			case !ends:
			case real:
				r.pipe.End(io.EOF)
			default:
				t.Logf("source closed")
				sim.Close(r.src.ch)
			}
		})
	}
	wait := pick(t, 1, 20, 400, 20000)
	moment := func() {
		switch t.Src.Intn(4) {
		case 0:
		case 1:
			for k := t.Src.Intn(40); k > 0; k-- {
				t.Yield()
			}
		default:
			sim.Sleep(us(t.Src.Intn(wait) + 1))
		}
	}
	closed := false
	t.Go("closer", func() {
		moment()
		t.Logf("close request")
		t.Stats.Faults["close"]++
		r.m.Close()
		closed = true
		t.Logf("close request returned")
	})
	// Handlers that run on their own are closed on their own, too.
	shut := map[*hand]bool{}
	for _, h := range r.hs {
		if running[h] == nil {
			continue
		}
		t.Go("closer of the "+h.name, func() {
			moment()
			t.Logf("close request to the %s", h.name)
			t.Stats.Faults["close"]++
			h.close()
			shut[h] = true
			t.Logf("close request to the %s returned", h.name)
		})
	}
	over := true
	if real {
		over = false
		t.Go("closer of the parser", func() {
			moment()
			r.p.Close()
			over = true
		})
		// A close request to a parser may have to wait for the transport.
		t.Settle(horizon)
		r.pipe.End(io.EOF)
	}
	t.Settle(horizon)
	if !closed {
		t.Failf("hang", "the close request has not returned:%s", t.GoroutineDump())
	}
	if !disp.Done() {
		t.Failf("hang", "the dispatch loop goes on after the close request returned:%s", t.GoroutineDump())
	}
	for _, h := range r.hs {
		if g := running[h]; g != nil {
			if !shut[h] {
				t.Failf("hang", "the close request to the %s has not returned:%s", h.name, t.GoroutineDump())
			}
			if !g.Done() {
				t.Failf("hang", "the %s goes on after its close request returned:%s", h.name, t.GoroutineDump())
			}
		}
	}
	if !over {
		t.Failf("hang", "the close request to the parser has not returned:%s", t.GoroutineDump())
	}
	if real {
		// What the dispatcher did not take is still in the merged stream.
		t.Go("drainer", func() {
			for range sim.Range(r.st.In()) {
			}
		})
		t.Settle(horizon)
	}
	if l := t.Live(); len(l) > 0 {
		t.Failf("leak", "goroutines remain after the close request: %v", l)
	}
	for _, h := range r.hs {
		h.checkLanes(false)
		h.checkSilent(managed || running[h] != nil)
	}
}

// checkSilent checks that nothing comes of a closed handler any more. If it ran,
// and is one of those that close the channels they deliver on, it did that.
func (h *hand) checkSilent(ran bool) {
	n := len(h.outs) + len(h.outErrs)
	pa := &pauser{}
	t := h.t
	t.Go("late collector of the "+h.name, func() { h.collect(1<<30, pa) })
	t.Settle(horizon)
	if len(h.outs)+len(h.outErrs) > n {
		t.Failf("delivered", "the %s delivers after it was closed", h.name)
	}
	if ran && h.kind != hConn && !(h.inOver && h.errOver) {
		t.Failf("open", "the %s was closed, but not the channels it delivers on", h.name)
	}
}

// c23hand closes a handler on its own.
func c23hand(t *T) { closeHand(t) }

func closeHand(t *T) (*fakeWriter, *hand) {
	fw := newFakeWriter(t, pick(t, 0, 0.5))
	h := newHand(t, t.Src.Intn(3), fw)
	fw.relays = h.kind == hData
	h.known = func(e error) bool {
		for x := range h.encs {
			if errors.Is(e, x) {
				return true
			}
		}
		return isOne(e, fw.mark) || e.Error() == "amf0: string too long"
	}
	late := pick(t, 0, 0, 0, 0, 30, 2000)
	run := t.Go(h.name, func() {
		if late > 0 {
			sim.Sleep(us(1 + t.Src.Intn(late)))
		}
		h.run()
	})
	pa := newPauser(t)
	limit := pick(t, 0, 0, 1, 3, 1<<30)
	t.Go("collector", func() { h.collect(limit, pa) })
	if t.Src.Chance(0.6) {
		h.send(t.Src.Range(1, 3), 4, 0.1)
	}
	ends := t.Src.Chance(0.6)
	if t.Src.Chance(0.2) {
		t.Logf("source closed at once")
		sim.Close(h.feed)
	} else {
		h.feedMsgs(lots(t, 0, 7), pick(t, 0, 0.3), func() {
			if ends {
				t.Logf("source closed")
				sim.Close(h.feed)
			}
		})
	}
	closed := false
	wait := pick(t, 1, 20, 400, 20000)
	t.Go("closer", func() {
		switch t.Src.Intn(4) {
		case 0:
		case 1:
			for k := t.Src.Intn(40); k > 0; k-- {
				t.Yield()
			}
		default:
			sim.Sleep(us(t.Src.Intn(wait) + 1))
		}
		if h.inOver || h.errOver {
			t.Failf("closed", "the %s closed its channels without a close request", h.name)
		}
		t.Logf("close request")
		t.Stats.Faults["close"]++
		h.close()
		closed = true
		t.Logf("close request returned")
	})
	t.Settle(horizon)
	if !closed {
		t.Failf("hang", "the close request has not returned:%s", t.GoroutineDump())
	}
	if !run.Done() {
		t.Failf("hang", "the %s goes on after its close request returned:%s", h.name, t.GoroutineDump())
	}
	if l := t.Live(); len(l) > 0 {
		t.Failf("leak", "goroutines remain after the close request: %v", l)
	}
	h.checkIn(false)
	h.checkSilent(true)
	return fw, h
}
