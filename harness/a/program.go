package main

import (
	"encoding/binary"
	"fmt"

	"verif/harness/ref"
)

// event is something the reader must do once it has read the bytes up to end.
type event struct {
	end  int
	msg  *ref.Msg // deliver this message
	size int      // or read with this chunk size from now on
	bad  bool     // or report an error
}

// program is a well-formed chunk stream and what it means.
type program struct {
	size   int // chunk size at the start
	bytes  []byte
	events []event
	starts []int // where chunks start
	bodies []int // where chunk payloads start
	last   int   // chunk size at the end
	parts  map[uint32]int
	sizes  []int // sizes in force, in order
	desc   []string
}

type genOpts struct {
	msgs     int     // messages to start
	ids      int     // chunk streams
	compress float64 // chance of a compressed first header
	ext      float64 // chance of an extended timestamp
	scs      float64 // chance of a Set Chunk Size
	badScs   float64 // chance of an invalid Set Chunk Size
	abort    float64 // chance of an Abort
	cut      bool    // leave partial messages at the end
	maxLen   int
	wide     float64
	tag      int // distinguishes the payloads of several connections
	only     []uint32
	minSize  int  // of chunks
	size     int  // of chunks at first
	full     bool // all messages have about maxLen bytes

	// body makes up message n of a chunk stream other than 2.
	body func(id uint32, n int) (typ byte, sid uint32, data []byte)
}

// scaled makes a few runs much larger in one dimension.
func scaled(opts func(t *T) genOpts) func(t *T) genOpts {
	return func(t *T) genOpts {
		o := opts(t)
		if t.Src.Intn(8000) == 0 {
			o.msgs = t.Src.Range(1, 2)
			o.maxLen = 1<<24 - 1
			o.minSize = o.maxLen / t.Src.Range(1, 10)
			o.full = true
			t.Probe("as long as messages get")
			return o
		}
		if history > 1 {
			o.msgs = min(o.msgs*history, endless)
			o.maxLen = pick(t, 4, 30, 100)
			if t.Src.Chance(0.3) {
				o.ids = min(10*history, 600)
			}
			o.minSize = pick(t, 1, 4, 30)
			if history == endless/4 {
				o.maxLen, o.minSize = 4, pick(t, 1, 2, 30)
				o.size = o.minSize
			}
			return o
		}
		switch t.Src.Intn(60) {
		case 0:
			o.ids = t.Src.Range(9, 90)
			o.msgs = 2*o.ids + t.Src.Intn(100)
			o.maxLen = pick(t, 8, 40)
			o.minSize = pick(t, 4, 30)
			t.Probe("many chunk streams")
			if t.Src.Intn(7) == 0 {
				o.ids = pick(t, 270, 600, 1100, 2100, 4200)
				o.msgs = 2*o.ids + t.Src.Intn(100)
				o.maxLen, o.minSize = 6, 6
				t.Probe("thousands of chunk streams")
			}
		case 1:
			o.msgs = t.Src.Range(1, 4)
			o.maxLen = pick(t, 5000, 70000, 70000, 140000)
			o.minSize = o.maxLen / pick(t, 60, 60, 400, 1200)
			t.Probe("long messages")
		}
		return o
	}
}

var idClasses = [][2]int{{3, 62}, {64, 319}, {320, 65599}}

func genID(t *T) uint32 {
	switch t.Src.Intn(4) {
	case 0:
		return uint32(t.Src.Range(3, 8))
	case 1:
		return []uint32{62, 64, 65, 127, 128, 255, 256, 318, 319, 320, 321, 383, 384, 575, 576, 65598, 65599, 16447}[t.Src.Intn(18)]
	}
	c := idClasses[t.Src.Intn(3)]
	return uint32(t.Src.Range(c[0], c[1]))
}

func genIDs(t *T, n int) []uint32 {
	var ids []uint32
	have := map[uint32]bool{2: true}
	for len(ids) < n {
		id := genID(t)
		if len(ids) > 0 && t.Src.Chance(0.2) {
			// Related ids are the ones worth confusing.
			id = ids[0] ^ []uint32{64, 128, 256, 1, 32768, 1 << 16}[t.Src.Intn(6)]
			if t.Src.Chance(0.4) {
				id = ids[0] + []uint32{64, 320, 256, 1 << 16, 255, 1<<32 - 64, 1<<32 - 320, 1<<32 - 256, 1<<32 - 1<<16}[t.Src.Intn(9)]
			}
		}
		for id < 3 || id > 65599 || id == 63 || have[id] {
			id++
			if id > 65599 {
				id = 3
			}
		}
		have[id] = true
		ids = append(ids, id)
	}
	return ids
}

func genLen(t *T, size, maxLen int) int {
	n := 0
	switch t.Src.Intn(6) {
	case 0:
		n = t.Src.Intn(4)
	case 1:
		n = size
	case 2:
		n = size*t.Src.Range(1, 4) + t.Src.Range(-1, 1)
	case 3:
		n = t.Src.Intn(40)
	default:
		n = t.Src.Intn(maxLen + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > maxLen {
		n = n % (maxLen + 1)
	}
	return n
}

func genTS(t *T, ext float64) (ts, e uint32) {
	if t.Src.Chance(ext) {
		switch t.Src.Intn(4) {
		case 3:
			e = pick(t, 0, 1, 0xfffffe, uint32(t.Src.Intn(1<<24)))
		case 0:
			e = 0xffffff + uint32(t.Src.Intn(4))
		case 1:
			e = 0xffffffff - uint32(t.Src.Intn(4))
		default:
			e = 0x1000000 + uint32(t.Src.Intn(1<<30))*3
		}
		return 0xffffff, e
	}
	switch t.Src.Intn(4) {
	case 0:
		return 0, 0
	case 1:
		return 0xfffffe - uint32(t.Src.Intn(3)), 0
	}
	return uint32(t.Src.Intn(1<<24)) % 0xffffff, 0
}

func genType(t *T) byte {
	ty := []byte{0x14, 8, 9, 0x12, 3, 4, 5, 6, 0x11, 0x0f, 22, 0}[t.Src.Intn(12)]
	if ty == 0 {
		if ty = byte(t.Src.Range(7, 255)); t.Src.Chance(0.1) {
			ty = 0
		}
	}
	return ty
}

func genSize(t *T) int {
	switch t.Src.Intn(4) {
	case 0:
		return 128
	case 1:
		return t.Src.Range(1, 9)
	case 2:
		return t.Src.Range(10, 300)
	}
	return []int{1, 2, 64, 127, 129, 255, 256, 4096, 65535, 65536, 1 << 24, 1<<31 - 1}[t.Src.Intn(12)]
}

// generate makes up a well-formed chunk stream.
func generate(t *T, o genOpts) *program {
	if o.maxLen == 0 {
		o.maxLen = pick(t, 60, 300, 700, 700, 20)
	}
	p := &program{size: max(genSize(t), o.minSize), parts: map[uint32]int{}}
	if o.size > 0 {
		p.size = o.size
	}
	size := p.size
	p.sizes = []int{size}
	ids := o.only
	if ids == nil {
		ids = genIDs(t, o.ids)
	}
	type live struct {
		m      *ref.Msg
		sent   int
		begun  bool
		wide   bool
		scs    int  // new size, for Set Chunk Size
		bad    bool // invalid Set Chunk Size
		abort  bool
		target uint32
	}
	lives := map[uint32]*live{}
	var order []uint32 // chunk streams with a partial message
	last := map[uint32]*ref.Msg{}
	lastLen := map[uint32]int{}
	sids := []uint32{0, 1, uint32(t.Src.Intn(1 << 30)), 0xffffffff - uint32(t.Src.Intn(3))}
	n := 0
	started := 0
	newMsg := func(id uint32) *live {
		l := &live{m: &ref.Msg{CSID: id}}
		m := l.m
		n++
		var data []byte
		fixed := false
		if id == 2 || o.scs+o.abort > 0 && t.Src.Chance(0.04) {
			// Control messages belong on chunk stream 2, but are what
			// their type says wherever they arrive.
			fixed = true
			m.Type = []byte{3, 4, 5, 6}[t.Src.Intn(4)]
			data = content(o.tag*1000+n, t.Src.Range(0, 12))
			switch {
			case t.Src.Chance(o.abort):
				l.abort = true
				m.Type = 2
				if len(order) > 0 && t.Src.Chance(0.8) {
					l.target = order[t.Src.Intn(len(order))]
				} else if t.Src.Chance(0.7) {
					l.target = ids[t.Src.Intn(len(ids))]
				} else {
					l.target = []uint32{2, 0, 63, 70000, 0xffffffff}[t.Src.Intn(5)]
				}
				data = binary.BigEndian.AppendUint32(nil, l.target)
			case t.Src.Chance(o.scs):
				m.Type = 1
				l.scs = max(genSize(t), o.minSize)
				if t.Src.Chance(0.15) {
					l.scs = []int{1<<31 - 1, 1 << 24, 0xffffff, 1 << 20, 1 << 16}[t.Src.Intn(5)]
				}
				data = binary.BigEndian.AppendUint32(nil, uint32(l.scs))
			case t.Src.Chance(o.badScs):
				m.Type = 1
				l.bad = true
				switch t.Src.Intn(3) {
				case 0:
					data = make([]byte, 4)
				case 1:
					data = binary.BigEndian.AppendUint32(nil, 1<<31|pick(t, 0, 1, 1<<31-1, uint32(t.Src.Intn(1<<20))))
				default:
					data = content(n, t.Src.Range(0, 3))
				}
			}
		} else if o.body != nil {
			fixed = true
			m.Type, m.SID, data = o.body(id, o.tag*1000+n)
		} else {
			m.Type = genType(t)
			m.SID = sids[t.Src.Intn(len(sids))]
			ln := genLen(t, size, o.maxLen)
			if o.full {
				ln = o.maxLen - t.Src.Intn(3)
			}
			data = content(o.tag*1000+n, ln)
		}
		m.TS, m.Ext = genTS(t, o.ext)
		if prev := last[id]; prev != nil && t.Src.Chance(o.compress) {
			f := byte(t.Src.Range(1, 3))
			if fixed {
				if f >= 2 && (prev.Type != m.Type || lastLen[id] != len(data)) {
					f = 1
				}
			}
			if !fixed && (prev.Type == 1 || prev.Type == 2) {
				f = 1
			}
			m.Fmt = f
			m.SID = prev.SID
			if f >= 2 && !fixed {
				m.Type = prev.Type
				data = content(o.tag*1000+n, lastLen[id])
			}
			if f == 3 {
				m.TS, m.Ext = prev.TS, prev.Ext
			}
		}
		m.Data = data
		l.wide = t.Src.Chance(o.wide)
		last[id] = m
		lastLen[id] = len(data)
		return l
	}
	control := o.scs+o.badScs+o.abort > 0
	inter := pick(t, 0.5, 0.9, 0.1)
	hot := 0.0 // share of one chunk stream; the others are idle for long
	if history > 1 {
		hot = pick(t, 0, 0.99, 0.999, 0.9999)
	}
	for {
		var id uint32
		if hot > 0 && started < o.msgs && t.Src.Chance(hot) {
			id = ids[0]
		} else if started < o.msgs && (len(order) == 0 || t.Src.Chance(inter)) {
			if control && t.Src.Chance(0.35) {
				id = 2
			} else {
				id = ids[t.Src.Intn(len(ids))]
			}
		} else if len(order) > 0 {
			if o.cut && started >= o.msgs && t.Src.Chance(0.3) {
				break
			}
			id = order[t.Src.Intn(len(order))]
		} else {
			break
		}
		l := lives[id]
		if l == nil {
			if started >= o.msgs {
				break
			}
			started++
			l = newMsg(id)
			lives[id] = l
			order = append(order, id)
		}
		p.starts = append(p.starts, len(p.bytes))
		if !l.begun {
			p.bytes = ref.First(p.bytes, l.m, l.wide)
			l.begun = true
		} else {
			p.bytes = ref.Next(p.bytes, l.m, l.wide)
		}
		p.bodies = append(p.bodies, len(p.bytes))
		k := min(size, len(l.m.Data)-l.sent)
		p.bytes = append(p.bytes, l.m.Data[l.sent:l.sent+k]...)
		p.desc = append(p.desc, fmt.Sprintf("@%d chunk of %v: payload %d..%d", p.starts[len(p.starts)-1], l.m, l.sent, l.sent+k))
		l.sent += k
		if l.sent < len(l.m.Data) {
			continue
		}
		drop := func(id uint32) {
			delete(lives, id)
			for i, x := range order {
				if x == id {
					order = append(order[:i:i], order[i+1:]...)
					return
				}
			}
		}
		drop(id)
		e := event{end: len(p.bytes)}
		switch {
		case l.bad:
			e.bad = true
		case l.scs > 0:
			e.size = l.scs
			size = l.scs
			p.sizes = append(p.sizes, size)
			if len(order) > 0 {
				t.Probe("size change amid partial messages")
			}
		default:
			e.msg = l.m
			if l.abort {
				if lives[l.target] != nil {
					t.Probe("abort of a partial message")
					drop(l.target)
				} else {
					t.Probe("abort of nothing")
				}
			}
			if l.m.Fmt != 0 {
				t.Probe(fmt.Sprintf("message starting with type %d", l.m.Fmt))
			}
			if l.m.TS == 0xffffff {
				t.Probe("extended timestamp")
			}
			if len(order) > 0 {
				t.Probe("completion amid partial messages")
			}
		}
		p.events = append(p.events, e)
	}
	p.last = size
	for id, l := range lives {
		p.parts[id] = l.sent
	}
	return p
}

// beforeResize finds where a Set Chunk Size starts that is received in one chunk
// with any size that is at least 4.
func (p *program) beforeResize(t *T) (at int, ok bool) {
	var found []int
	i := 0
	for _, e := range p.events {
		for i < len(p.starts) && p.bodies[i]+4 < e.end {
			i++
		}
		if e.size > 0 && i < len(p.starts) && p.bodies[i]+4 == e.end {
			if _, _, size := p.upTo(p.starts[i]); size >= 4 {
				found = append(found, p.starts[i])
			}
		}
	}
	if len(found) == 0 {
		return 0, false
	}
	return found[t.Src.Intn(len(found))], true
}

// upTo is what must have happened once n bytes have arrived.
func (p *program) upTo(n int) (msgs []*ref.Msg, errs, size int) {
	size = p.size
	for _, e := range p.events {
		if e.end > n {
			break
		}
		switch {
		case e.bad:
			errs++
		case e.msg != nil:
			msgs = append(msgs, e.msg)
		default:
			size = e.size
		}
	}
	return
}
