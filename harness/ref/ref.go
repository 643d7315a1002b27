// Package ref is an independent, sequential model of the chunk format as this
// library speaks it. It shares no code with the library.
package ref

import (
	"encoding/binary"
	"fmt"
)

// Msg is a message as it travels on a chunk stream.
type Msg struct {
	Fmt  byte   // header type of its first chunk
	CSID uint32 // chunk stream
	TS   uint32 // the 24-bit timestamp field, 0xffffff if extended
	Ext  uint32 // the extended timestamp, if TS is 0xffffff
	Type byte
	SID  uint32 // message stream
	Data []byte
}

func (m *Msg) String() string {
	d := m.Data
	dots := ""
	if len(d) > 12 {
		d, dots = d[:12], "..."
	}
	return fmt.Sprintf("msg{csid %d type %d sid %d ts %#x ext %#x len %d %x%s}", m.CSID, m.Type, m.SID, m.TS, m.Ext, len(m.Data), d, dots)
}

// Basic appends a basic header. wide asks for the 3-byte form where the
// shorter one would do.
func Basic(b []byte, format byte, csid uint32, wide bool) []byte {
	switch {
	case csid < 63 && csid > 0:
		return append(b, format<<6|byte(csid))
	case csid >= 64 && csid < 320 && !wide:
		return append(b, format<<6, byte(csid-64))
	case csid >= 64 && csid < 65600:
		return append(b, format<<6|63, byte((csid-64)>>8), byte(csid-64))
	}
	panic(fmt.Sprintf("ref: chunk stream %d cannot be encoded", csid))
}

// First appends the headers of a message's first chunk.
func First(b []byte, m *Msg, wide bool) []byte {
	b = Basic(b, m.Fmt, m.CSID, wide)
	if m.Fmt <= 2 {
		b = append(b, byte(m.TS>>16), byte(m.TS>>8), byte(m.TS))
	}
	if m.Fmt <= 1 {
		n := len(m.Data)
		b = append(b, byte(n>>16), byte(n>>8), byte(n), m.Type)
	}
	if m.Fmt == 0 {
		b = binary.LittleEndian.AppendUint32(b, m.SID)
	}
	if m.TS == 0xffffff {
		b = binary.BigEndian.AppendUint32(b, m.Ext)
	}
	return b
}

// Next appends the headers of a continuation chunk.
func Next(b []byte, m *Msg, wide bool) []byte {
	b = Basic(b, 3, m.CSID, wide)
	if m.TS == 0xffffff {
		b = binary.BigEndian.AppendUint32(b, m.Ext)
	}
	return b
}

// Encode appends a whole message, not interleaved with anything.
func Encode(b []byte, m *Msg, size int) []byte {
	b = First(b, m, false)
	d := m.Data
	for {
		n := min(len(d), size)
		b = append(b, d[:n]...)
		d = d[n:]
		if len(d) == 0 {
			return b
		}
		b = Next(b, m, false)
	}
}

// ErrShort means the bytes end before the message does.
type ErrShort struct{ Got *Msg }

func (e *ErrShort) Error() string { return "ref: truncated message" }

func basic(b []byte) (format byte, csid uint32, n int) {
	if len(b) < 1 {
		return 0, 0, 0
	}
	format = b[0] >> 6
	switch b[0] & 63 {
	case 0:
		if len(b) < 2 {
			return 0, 0, 0
		}
		return format, uint32(b[1]) + 64, 2
	case 63:
		if len(b) < 3 {
			return 0, 0, 0
		}
		return format, uint32(b[1])<<8 + uint32(b[2]) + 64, 3
	}
	return format, uint32(b[0] & 63), 1
}

// Decode reads one contiguously encoded message that starts with a full
// header. It returns how many bytes the message took.
func Decode(b []byte, size int) (*Msg, int, error) { return decode(b, size, nil) }

// Wire decodes a sequence of contiguously encoded messages, whose headers may
// be compressed against earlier ones.
type Wire struct{ last map[uint32]*Msg }

// Decode reads the next message.
func (w *Wire) Decode(b []byte, size int) (*Msg, int, error) {
	if w.last == nil {
		w.last = map[uint32]*Msg{}
	}
	m, n, err := decode(b, size, w.last)
	if err == nil {
		w.last[m.CSID] = m
	}
	return m, n, err
}

// Know makes m the latest message of its chunk stream.
func (w *Wire) Know(m *Msg) {
	if w.last == nil {
		w.last = map[uint32]*Msg{}
	}
	w.last[m.CSID] = m
}

func decode(b []byte, size int, last map[uint32]*Msg) (*Msg, int, error) {
	format, csid, n := basic(b)
	if n == 0 {
		return nil, 0, &ErrShort{}
	}
	if format != 0 && last == nil {
		return nil, 0, fmt.Errorf("message starts with a type %d header", format)
	}
	hn := []int{11, 7, 3, 0}[format]
	if len(b) < n+hn {
		return nil, 0, &ErrShort{&Msg{CSID: csid}}
	}
	h := b[n:]
	m := &Msg{CSID: csid, Fmt: format}
	length := 0
	if p := last[csid]; p != nil {
		m.TS, m.Type, m.SID = p.TS, p.Type, p.SID
		length = len(p.Data)
	} else if format > 1 {
		return nil, 0, fmt.Errorf("the first message on chunk stream %d starts with a type %d header", csid, format)
	}
	if hn >= 3 {
		m.TS = uint32(h[0])<<16 | uint32(h[1])<<8 | uint32(h[2])
	}
	if hn >= 7 {
		length = int(h[3])<<16 | int(h[4])<<8 | int(h[5])
		m.Type = h[6]
	}
	if hn == 11 {
		m.SID = binary.LittleEndian.Uint32(h[7:])
	}
	n += hn
	if m.TS == 0xffffff {
		if len(b) < n+4 {
			return nil, 0, &ErrShort{m}
		}
		m.Ext = binary.BigEndian.Uint32(b[n:])
		n += 4
	}
	for {
		k := min(length-len(m.Data), size)
		if len(b) < n+k {
			m.Data = append(m.Data, b[n:]...)
			return nil, 0, &ErrShort{m}
		}
		m.Data = append(m.Data, b[n:n+k]...)
		n += k
		if len(m.Data) == length {
			return m, n, nil
		}
		f, c, j := basic(b[n:])
		if j == 0 {
			return nil, 0, &ErrShort{m}
		}
		if f != 3 || c != csid {
			return nil, 0, fmt.Errorf("after %d of %d payload bytes of %v: expected a continuation header for chunk stream %d, found type %d for %d", len(m.Data), length, m, csid, f, c)
		}
		n += j
		if m.TS == 0xffffff {
			if len(b) < n+4 {
				return nil, 0, &ErrShort{m}
			}
			if e := binary.BigEndian.Uint32(b[n:]); e != m.Ext {
				return nil, 0, fmt.Errorf("continuation of %v does not repeat the extended timestamp (found %#x)", m, e)
			}
			n += 4
		}
	}
}
