package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/harness/kit"
	"verif/harness/ref"
	"verif/sim"
)

// T is a simulated run.
type T = kit.T

func pick[X any](t *T, xs ...X) X { return xs[t.Src.Intn(len(xs))] }

// content makes the payload of message n: every byte depends on n and on its
// position, so no byte can be attributed to another message or place.
func content(n, size int) []byte {
	b := make([]byte, size)
	x := sim.Mix(uint64(n) + 0x9e37)
	for i := range b {
		if i%8 == 0 {
			x = sim.Mix(x, uint64(i))
		}
		b[i] = byte(x >> (8 * (i % 8)))
	}
	return b
}

// seen is a delivered chunk as it was when it was handed out.
type seen struct {
	m    ref.Msg
	len  uint32
	at   *chunk.Chunk
	bad  string
	when int
	own  *seen // what its owner made of it, if anything
}

// use is what an owner of a message may do with it: change it.
func (s *seen) use(t *T) {
	if s.bad != "" {
		return
	}
	c := s.at
	for i := range c.Data {
		c.Data[i] ^= 0xa5
	}
	if t.Src.Chance(0.3) {
		// Appending to it may put bytes here.
		for b, i := c.Data[:cap(c.Data)], len(c.Data); i < len(b); i++ {
			b[i] ^= 0xa5
		}
	}
	if h := c.Header; t.Src.Chance(0.5) {
		*h = chunk.Header{}
		h.BasicHeader.StreamId = 70000
		h.MessageHeader.TypeId = 1
	} else {
		h.BasicHeader.FormatId ^= 3
		h.MessageHeader.FormatId ^= 3
		h.MessageHeader.Timestamp ^= 0xffffff
		h.MessageHeader.Length += 3
		h.MessageHeader.StreamId ^= 1
		h.MessageHeader.TypeId ^= 0x1d
		h.ExtendedTimestamp.Delta ^= 0x10101
	}
	o := look(c)
	s.own = &o
}

func look(c *chunk.Chunk) seen {
	s := seen{at: c}
	if c == nil {
		s.bad = "a nil message was delivered"
		return s
	}
	if c.Header == nil {
		s.bad = "a message without a header was delivered"
		return s
	}
	h := c.Header
	s.m = ref.Msg{
		Fmt:  h.BasicHeader.FormatId,
		CSID: h.BasicHeader.StreamId,
		TS:   h.MessageHeader.Timestamp,
		Ext:  h.ExtendedTimestamp.Delta,
		Type: h.MessageHeader.TypeId,
		SID:  h.MessageHeader.StreamId,
		Data: append([]byte(nil), c.Data...),
	}
	s.len = h.MessageHeader.Length
	return s
}

func (s *seen) String() string {
	if s.bad != "" {
		return s.bad
	}
	return fmt.Sprintf("%v declaring %d bytes", &s.m, s.len)
}

// unchanged reports whether the chunk still is what it was when handed out.
func (s *seen) unchanged() bool {
	n := look(s.at)
	if s.own != nil {
		s = s.own
	}
	return n.bad == s.bad && n.len == s.len && n.m.CSID == s.m.CSID && n.m.TS == s.m.TS &&
		n.m.Ext == s.m.Ext && n.m.Type == s.m.Type && n.m.SID == s.m.SID && bytes.Equal(n.m.Data, s.m.Data)
}

// want compares a delivered message with the one expected. what selects the
// header fields beyond chunk stream, type, message stream, length and payload.
func (s *seen) want(m *ref.Msg) string {
	if s.bad != "" {
		return s.bad
	}
	var d []string
	diff := func(f string, got, want any) { d = append(d, fmt.Sprintf("%s is %v, the peer sent %v", f, got, want)) }
	if s.m.CSID != m.CSID {
		diff("chunk stream", s.m.CSID, m.CSID)
	}
	if s.m.Type != m.Type {
		diff("type", s.m.Type, m.Type)
	}
	if s.m.SID != m.SID {
		diff("message stream", s.m.SID, m.SID)
	}
	if int(s.len) != len(m.Data) {
		diff("length", s.len, len(m.Data))
	}
	if s.m.TS != m.TS {
		diff("timestamp", fmt.Sprintf("%#x", s.m.TS), fmt.Sprintf("%#x", m.TS))
	}
	if m.TS == 0xffffff && s.m.Ext != m.Ext {
		diff("extended timestamp", fmt.Sprintf("%#x", s.m.Ext), fmt.Sprintf("%#x", m.Ext))
	}
	if !bytes.Equal(s.m.Data, m.Data) {
		i := 0
		for i < len(s.m.Data) && i < len(m.Data) && s.m.Data[i] == m.Data[i] {
			i++
		}
		d = append(d, fmt.Sprintf("payload (%d bytes, expected %d) differs from byte %d", len(s.m.Data), len(m.Data), i))
	}
	return strings.Join(d, "; ")
}

func isEnd(err error) bool {
	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
}

// recvOr receives from ch unless stop is closed first.
func drain[X any](ch <-chan X, f func(X)) {
	for {
		v, ok, sel := sim.TryRecv(ch)
		if !sel || !ok {
			return
		}
		f(v)
	}
}

// pause sometimes yields or sleeps, to stall a consumer or producer.
type pauser struct {
	t       *T
	p       float64
	longest int
}

func newPauser(t *T) *pauser {
	longest := pick(t, 3, 200, 5000, 5000, 2000000)
	if history > 1 || timeScale > 1000 {
		longest = min(longest, 5000) // the run has to end before its horizon
	}
	return &pauser{t, pick(t, 0, 0, 0.2, 0.7), longest}
}

func (p *pauser) pause() {
	if p.p > 0 && p.t.Src.Chance(p.p) {
		if p.t.Src.Chance(0.3) {
			p.t.Stats.Faults["consumer-stall"]++
			sim.Sleep(us(1 + p.t.Src.Intn(p.longest)))
		} else {
			p.t.Yield()
		}
	}
}
