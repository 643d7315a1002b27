//go:build cmd

package main

import (
	"errors"
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/harness/ref"
	"verif/sim"
)

// c24 has handlers work on their own.
func c24(t *T) {
	if t.Src.Chance(0.1) {
		longMedia = true
		c24close(t)
		return
	}
	c24open(t)
}

func c24open(t *T) {
	history = min(history, 60) // judging takes a search
	longMedia = true
	type side struct {
		h    *hand
		sink *sim.Sink
		size int
		fw   *fakeWriter
		perm *sim.Fault
	}
	var sides []*side
	first := t.Src.Intn(3)
	for k, n := 0, pick(t, 1, 1, 2, 3); k < n; k++ {
		s := &side{}
		kind := first
		if k > 0 && t.Src.Chance(0.4) {
			kind = t.Src.Intn(3)
		}
		var w chunk.Writer
		if t.Src.Chance(0.5) {
			s.size = genSize(t)
			s.sink = &sim.Sink{W: t.World, Name: fmt.Sprintf("wire %d", k), Slow: t.Src.Chance(0.5)}
			w = chunk.NewWriter(s.sink, s.size)
			if t.Src.Chance(0.3) {
				s.sink.Faults = append(s.sink.Faults, &sim.Fault{Kind: sim.FaultWStall, Pos: t.Src.Intn(100), Stall: us(1 + t.Src.Intn(100000))})
			}
			if t.Src.Chance(0.3) {
				s.perm = &sim.Fault{Kind: sim.FaultWrite, Pos: t.Src.Intn(400), Err: ioErr(t, "write", k)}
				s.sink.Faults = append(s.sink.Faults, s.perm)
			}
		} else {
			s.fw = newFakeWriter(t, pick(t, 0, 0.3, 0.8))
			s.fw.relays = kind == hData
			w = s.fw
		}
		h := newHand(t, kind, w)
		h.name = fmt.Sprintf("%s %d", h.name, k)
		s.h = h
		h.known = func(e error) bool {
			for x := range h.encs {
				if errors.Is(e, x) {
					return true
				}
			}
			// The stand-in for AMF0 fails to encode with this.
			if e.Error() == "amf0: string too long" {
				return true
			}
			return s.fw != nil && isOne(e, s.fw.mark) || s.perm != nil && errors.Is(e, s.perm.Err)
		}
		t.Go(h.name, h.run)
		sides = append(sides, s)
	}
	for _, s := range sides {
		h := s.h
		pa := newPauser(t)
		t.Go("collector of the "+h.name, func() { h.collect(1<<30, pa) })
		closes := t.Src.Chance(0.2)
		if t.Src.Chance(0.8) {
			h.feedMsgs(lots(t, 1, 10), pick(t, 0, 0.3, 0.7), func() {
				if closes {
					sim.Close(h.feed)
				}
			})
		}
		if t.Src.Chance(0.7) {
			h.send(t.Src.Range(1, 3), 5, pick(t, 0, 0, 0.2))
		}
	}
	t.Settle(horizon)
	for _, s := range sides {
		h := s.h
		h.checkIn(true)
		var got []*ref.Msg
		var failed []error
		gone := s.perm != nil && s.perm.Fired()
		if s.sink != nil {
			got = unwire(t, h.name, s.sink.Out, s.size, gone)
		} else {
			got, failed = s.fw.msgs, s.fw.failed
		}
		h.checkOut(got, failed, gone)
		if h.inOver || h.errOver {
			t.Failf("closed", "the %s closed its channels without a close request", h.name)
		}
	}
}

// c24close sends values to a handler that is being closed. What it still
// accepts, it writes.
func c24close(t *T) {
	fw, h := closeHand(t)
	if k := place(fw.msgs, h.senders); k < len(fw.msgs) {
		t.Failf("bogus", "%s: %v (header type %d), written as message %d, is not a value sent, or one sent before, or out of its sender's order", h.name, fw.msgs[k], fw.msgs[k].Fmt, k)
	}
	n := 0
	for _, vs := range h.senders {
		for _, v := range vs {
			if v.ok && v.m != nil {
				n++
			}
		}
	}
	if n != len(fw.msgs)+len(fw.failed) {
		t.Failf("lost", "%s: %d values were accepted before it was closed, %d were written, %d writes failed", h.name, n, len(fw.msgs), len(fw.failed))
	}
}
