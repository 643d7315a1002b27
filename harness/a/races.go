package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/sim"
)

// several runs f a few times in a few goroutines.
func several(t *T, name string, gs, times int, f func(g, i int)) (out []*sim.G) {
	for g := 0; g < gs; g++ {
		pa := newPauser(t)
		n := t.Src.Range(1, times)
		out = append(out, t.Go(fmt.Sprintf("%s %d", name, g), func() {
			for i := 0; i < n; i++ {
				f(g, i)
				pa.pause()
			}
		}))
	}
	return
}

// c26 uses everything that may be shared from several goroutines, while every
// access to memory is tracked.
func c26(t *T) {
	on := func(p float64) bool { return t.Src.Chance(p) }
	var prompt []*sim.G // these have nothing to wait for
	if on(0.35) {
		prompt = builders(t)
	}
	o := c01(t)
	o.msgs = t.Src.Range(1, 6)
	prog := generate(t, o)
	pipe := transport(t, "transport")
	norm := chunk.NewNormalizer()
	reader := chunk.NewReader(pipe, prog.size, norm)
	sink := &sim.Sink{W: t.World, Name: "wire"}
	writer := chunk.NewWriter(sink, genSize(t))
	p := chunk.NewParser(reader)
	relay := on(0.5)
	var fan chunk.Writer
	if on(0.3) {
		fan = chunk.NewWriter(&sim.Sink{W: t.World, Name: "another wire"}, genSize(t))
	}
	var ids []uint32
	have := map[uint32]bool{}
	msgs, _, _ := prog.upTo(len(prog.bytes))
	for _, m := range msgs {
		if !have[m.CSID] {
			have[m.CSID] = true
			ids = append(ids, m.CSID)
		}
	}
	use := func(s chunk.Stream) {
		for c := range sim.Range(s.In()) {
			c.StreamId()
			c.TypeId()
			if relay && c.Header.BasicHeader.FormatId == 0 {
				if fan != nil {
					t.Go("another writer", func() { fan.Write(c) })
				}
				writer.Write(c)
			}
		}
	}
	if on(0.5) && !have[2] {
		// A control stream on top.
		st, _ := p.Stream(2)
		cs := control.NewStream(st, writer, control.NewParser(), control.NewChunker())
		t.Go("control", cs.Recv)
		several(t, "control sender", t.Src.Range(1, 2), 3, func(g, i int) {
			sim.To(cs.Out()).Send(genCtl(t, g*10+i).theirs())
		})
	}
	t.Go("Recv", p.Recv)
	for _, id := range ids {
		t.Go("consumer", func() {
			s, err := p.Stream(id)
			if err == nil {
				use(s)
			}
		})
	}
	if on(0.5) {
		prompt = append(prompt, several(t, "asker", t.Src.Range(1, 3), 3, func(g, i int) {
			switch t.Src.Intn(3) {
			case 0:
				if s, err := p.Stream(uint32(100+g), uint32(200+i)); err == nil {
					t.Go("merged", func() { use(s) })
				}
			case 1:
				p.Stream(uint32(100+t.Src.Intn(3)), uint32(200+t.Src.Intn(3)))
			default:
				p.Stream(uint32(100 + t.Src.Intn(3)))
			}
		})...)
	}
	if on(0.3) {
		prompt = append(prompt, several(t, "inspector", t.Src.Range(1, 2), 4, func(g, i int) {
			if n, ok := norm.(interface{ Last() *chunk.Header }); ok {
				n.Last()
			}
			if n, ok := norm.(interface{ Header(uint32) *chunk.Header }); ok && len(ids) > 0 {
				n.Header(ids[t.Src.Intn(len(ids))])
			}
		})...)
	}
	if on(0.7) {
		prompt = append(prompt, several(t, "read size", t.Src.Range(1, 3), 4, func(g, i int) {
			if on(0.4) {
				// Putting the same size into force again keeps the
				// stream readable.
				reader.SetReadSize(reader.ReadSize())
			} else {
				reader.ReadSize()
			}
		})...)
	}
	if on(0.7) {
		prompt = append(prompt, several(t, "write size", t.Src.Range(1, 3), 4, func(g, i int) {
			if on(0.5) {
				writer.SetWriteSize(genSize(t))
			} else {
				writer.WriteSize()
			}
		})...)
	}
	if on(0.8) {
		prompt = append(prompt, several(t, "writer", t.Src.Range(1, 3), 4, func(g, i int) {
			writer.Write(toChunk(t, genOut(t, g, i, 100, 300, 0.2).m))
		})...)
	}
	t.Go("errors", func() {
		for e := range sim.Range(p.Errs()) {
			if isEnd(e) {
				sim.Sleep(us(50))
			}
			if isEnd(e) && t.Now() > 30*time.Millisecond {
				return
			}
		}
	})
	if on(0.4) {
		t.Go("closer", func() {
			sim.Sleep(us(t.Src.Intn(2000) + 1))
			p.Close()
		})
	}
	feed(t, pipe, prog.bytes, func() { pipe.End(io.EOF) })
	t.Settle(100 * time.Millisecond)
	for _, g := range prompt {
		if !g.Done() && strings.Contains(g.Blocked(), "mutex") {
			t.Failf("hang", "%s waits for a lock for ever:%s", g.Name(), t.GoroutineDump())
		}
	}
}

// builders feeds and inspects a message builder.
func builders(t *T) []*sim.G {
	h := &chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(t.Src.Intn(100))}}
	b := chunk.NewBuilder(h)
	return several(t, "builder", t.Src.Range(2, 4), 4, func(g, i int) {
		switch t.Src.Intn(5) {
		case 0:
			b.Append(make([]byte, t.Src.Intn(9)))
		case 1:
			b.Read(bytes.NewReader(make([]byte, 8)), t.Src.Intn(9))
		case 2:
			b.BytesLeft()
		case 3:
			b.AddLeft(t.Src.Range(-3, 3))
		case 4:
			b.Build()
		}
	})
}
