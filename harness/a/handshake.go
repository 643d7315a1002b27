package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/handshake"

	"verif/sim"
)

const (
	packet = 1536
	total  = 1 + 2*packet
)

// peer is a client that shakes hands, well or badly.
type peer struct {
	t    *T
	name string
	conn *sim.Conn
	h    *handshake.Handshaker
	srv  *sim.Pipe // what the server sent

	version  byte
	c1       [packet]byte
	splitC0  bool // wait for S0 before sending C1
	lateC2   bool // wait for S2 before sending C2
	c2time   bool // fill in C2's time fields in another way
	slow     int  // longest delay between pieces
	echo     func(challenge []byte) []byte
	trailing []byte
	shaken   func() // called by the client once it has S2
	cutAt    int    // stop sending after this many bytes, -1 for never
	end      bool

	sent  int
	s0    []byte
	s1    []byte
	s2    []byte
	stuck string

	done   bool
	err    error
	wrote  int // bytes the server had sent when it returned
	reads  int // reads when it returned
	early  bool
	broken string
}

func newPeer(t *T, name string) *peer {
	c := sim.NewConn(t.World, name)
	c.In.Frag = t.Src.Intn(4)
	if c.In.Frag == sim.FragByte && t.Src.Chance(0.7) {
		c.In.Frag = sim.FragChunky
	}
	c.In.Empty = pick(t, 0, 0, 0.05)
	p := &peer{t: t, name: name, conn: c, version: 3, cutAt: -1, slow: pick(t, 0, 50, 20000)}
	p.srv = &sim.Pipe{W: t.World, Name: name + " (client side)"}
	c.Out.Peer = p.srv
	c.Out.Slow = t.Src.Chance(0.2)
	if t.Src.Chance(0.2) {
		c.Out.Window = pick(t, 1, 100, 1536, 2000)
		if c.Out.Window == 1 && t.Src.Chance(0.8) {
			c.Out.Window = 700
		}
	}
	c.Out.Notify = func() {
		if c.In.Taken < 1 || p.version != 3 {
			p.early = true
		}
	}
	binary.BigEndian.PutUint32(p.c1[:], uint32(t.Src.Intn(1<<30))*uint32(pick(t, 0, 1, 4)))
	binary.BigEndian.PutUint32(p.c1[4:], uint32(t.Src.Intn(1<<30))*uint32(pick(t, 0, 1, 4)))
	copy(p.c1[8:], content(int(sim.HashString(name)%1000)+1+t.Src.Intn(1000)*1000, packet-8))
	if t.Src.Chance(0.1) {
		for i := t.Src.Intn(2) * 4; i < 8; i += 4 {
			binary.BigEndian.PutUint32(p.c1[i:], 0xffffffff-uint32(t.Src.Intn(pick(t, 1, 1, 20, 300))))
		}
	}
	p.splitC0, p.lateC2 = t.Src.Chance(0.3), t.Src.Chance(0.5)
	p.echo = func(ch []byte) []byte { return ch }
	p.shaken = func() {}
	if t.Src.Chance(0.1) {
		// Not all that random.
		b := pick(t, 0, 0xff, p.version)
		for i := 8; i < packet; i++ {
			p.c1[i] = b
		}
	}
	if t.Src.Chance(0.5) {
		p.trailing = content(5, t.Src.Intn(pick(t, 300, 300, 6000)))
	}
	p.c2time = t.Src.Chance(0.3)
	return p
}

func (p *peer) send(b []byte) bool {
	for len(b) > 0 {
		n := len(b)
		if p.slow > 0 && p.t.Src.Chance(0.5) {
			n = 1 + p.t.Src.Intn(n)
		}
		if p.cutAt >= 0 && p.sent+n > p.cutAt {
			n = p.cutAt - p.sent
		}
		p.conn.In.Feed(b[:n])
		p.sent += n
		b = b[n:]
		if p.cutAt >= 0 && p.sent >= p.cutAt {
			if p.end {
				p.conn.In.End(io.EOF)
				// Whatever is in flight to the client now goes nowhere.
				p.conn.Out.Window = 0
				p.conn.Out.Drain()
			}
			return false
		}
		if p.slow > 0 && p.t.Src.Chance(0.6) {
			sim.Sleep(us(1 + p.t.Src.Intn(p.slow)))
		}
	}
	return true
}

// get takes n bytes the server sent.
func (p *peer) get(n int, what string) []byte {
	p.stuck = what
	var out []byte
	for len(out) < n {
		k := n - len(out)
		if w := p.conn.Out.Window; w > 0 && k > w {
			k = w
		}
		b, err := p.srv.Take(k)
		out = append(out, b...)
		p.conn.Out.Drain()
		if err != nil {
			return nil
		}
	}
	p.stuck = ""
	return out
}

// start runs the client and the server's handshake.
func (p *peer) start() {
	p.client()
	p.server()
}

func (p *peer) client() {
	t := p.t
	t.Go(p.name+" client", func() {
		if !p.send([]byte{p.version}) {
			return
		}
		if p.splitC0 {
			if p.s0 = p.get(1, "S0"); p.s0 == nil {
				return
			}
		}
		if !p.send(p.c1[:]) {
			return
		}
		if !p.splitC0 {
			if p.s0 = p.get(1, "S0"); p.s0 == nil {
				return
			}
		}
		if p.s1 = p.get(packet, "S1"); p.s1 == nil {
			return
		}
		if p.lateC2 {
			if p.s2 = p.get(packet, "S2"); p.s2 == nil {
				return
			}
			p.shaken()
		}
		c2 := make([]byte, packet)
		copy(c2, p.s1[:4])
		binary.BigEndian.PutUint32(c2[4:], uint32(t.Src.Intn(1<<30)))
		if p.c2time {
			// Whose time these are is not agreed on everywhere.
			copy(c2, p.c1[:4])
			copy(c2[4:], pick(t, p.s1[:4], []byte{0, 0, 0, 0}, []byte{255, 255, 255, 255}))
		}
		copy(c2[8:], p.echo(p.s1[8:]))
		rest := append(c2, p.trailing...)
		if p.lateC2 || p.conn.Out.Window == 0 {
			if !p.send(rest) {
				return
			}
		} else {
			t.Go(p.name+" client C2", func() { p.send(rest) })
		}
		if !p.lateC2 {
			if p.s2 = p.get(packet, "S2"); p.s2 != nil {
				p.shaken()
			}
		}
	})
}

func (p *peer) server() {
	t := p.t
	t.Go(p.name+" server", func() {
		h := handshake.With(&handshake.Param{Conn: p.conn})
		p.h = h
		p.err = h.Handshake()
		p.done = true
		p.wrote, p.reads = len(p.conn.Out.Out), p.conn.In.Reads
		t.Logf("%s: handshake returned %v", p.name, p.err)
	})
}

// challenge is the challenge the server sent, if it got that far.
func (p *peer) challenge() []byte {
	if o := p.conn.Out.Out; len(o) >= 1+packet {
		return o[9 : 1+packet]
	}
	return nil
}

// success checks everything a good handshake must look like.
func (p *peer) success() {
	t := p.t
	if !p.done {
		t.Failf("hang", "%s: the handshake with a compliant client has not returned (client sent %d bytes, waits for %q):%s", p.name, p.sent, p.stuck, t.GoroutineDump())
	}
	if p.err != nil {
		t.Failf("refused", "%s: the handshake with a compliant client failed: %v", p.name, p.err)
	}
	o := p.conn.Out.Out
	if len(o) != total {
		t.Failf("bytes", "%s: the server sent %d bytes, expected %d", p.name, len(o), total)
	}
	if o[0] != 3 {
		t.Failf("bytes", "%s: the server's version is %d", p.name, o[0])
	}
	s2 := o[1+packet:]
	if !bytes.Equal(s2[:4], p.c1[:4]) {
		t.Failf("bytes", "%s: the server's second packet carries time %x, the client sent %x", p.name, s2[:4], p.c1[:4])
	}
	for i := 8; i < packet; i++ {
		if s2[i] != p.c1[i] {
			t.Failf("bytes", "%s: the server's second packet differs from the client's random bytes at %d", p.name, i-8)
		}
	}
	if p.conn.In.Taken != total {
		t.Failf("consumed", "%s: the server consumed %d bytes, the handshake has %d", p.name, p.conn.In.Taken, total)
	}
	p.quiet()
}

// quiet checks that nothing was sent too early or after the end.
func (p *peer) quiet() {
	if p.early {
		p.t.Failf("early", "%s: the server sent something before it had received a supported version", p.name)
	}
	if n := len(p.conn.Out.Out); n > p.wrote {
		p.t.Failf("after", "%s: %d bytes were sent after the handshake returned", p.name, n-p.wrote)
	}
	if p.conn.In.Reads > p.reads {
		p.t.Failf("after", "%s: the connection was read after the handshake returned", p.name)
	}
}

// c18 shakes hands with compliant clients.
func c18(t *T) {
	var ps []*peer
	for k, n := 0, pick(t, 1, 1, 2); k < n; k++ {
		p := newPeer(t, fmt.Sprintf("conn%d", k))
		for j := t.Src.Intn(3); j > 0; j-- {
			p.conn.In.Faults = append(p.conn.In.Faults, &sim.Fault{Kind: sim.FaultStall, Pos: t.Src.Intn(total), Stall: us(1 + t.Src.Intn(1000000))})
		}
		if t.Src.Chance(0.2) {
			p.conn.Out.Faults = append(p.conn.Out.Faults, &sim.Fault{Kind: sim.FaultWStall, Pos: t.Src.Intn(total), Stall: us(1 + t.Src.Intn(1000000))})
		}
		if t.Src.Chance(0.2) {
			// The client hangs up right after its last byte.
			p.trailing = nil
			p.conn.In.Faults = append(p.conn.In.Faults, &sim.Fault{Kind: sim.FaultEOF, Pos: total, Err: io.EOF, WithData: true})
		}
		ps = append(ps, p)
	}
	for _, p := range ps {
		p.start()
	}
	t.Settle(horizon)
	for _, p := range ps {
		p.success()
	}
}

// c19 shakes hands with clients and transports that must fail.
func c19(t *T) {
	p := newPeer(t, "conn")
	callsAtFail := -1
	failed := func() {
		if callsAtFail < 0 {
			callsAtFail = p.conn.Out.Calls
		}
	}
	p.conn.In.OnFail, p.conn.Out.OnFail = failed, failed
	why := ""
	maxOut := total
	exact := -1
	kind := t.Src.Intn(8)
	var fault *sim.Fault
	pos := func() int {
		switch t.Src.Intn(3) {
		case 0:
			at := []int{0, 1, 2, 4, 5, 8, 9, 10, packet, packet + 1, packet + 2, packet + 5, packet + 9, packet + 10, total - 1}
			return at[t.Src.Intn(len(at))]
		}
		return t.Src.Intn(total)
	}
	switch kind {
	case 0:
		p.version = byte(pick(t, 0, 1, 2, 4, 5, 6, 7, 31, 32, 131, 255, t.Src.Intn(256)))
		if p.version == 3 {
			p.version = 0x83
		}
		why = fmt.Sprintf("the client offers version %d", p.version)
		exact = 0
		if t.Src.Chance(0.5) {
			p.cutAt = 1 // and waits
		}
	case 1, 2:
		at := pick(t, 0, 1, packet-9, packet-10, 4, 8, 763, t.Src.Intn(packet-8))
		bit := byte(1) << t.Src.Intn(8)
		how := t.Src.Intn(11)
		why = fmt.Sprintf("the client's echo is wrong (kind %d, from byte %d)", how, at)
		exact = total
		p.echo = func(ch []byte) []byte {
			e := append([]byte(nil), ch...)
			switch how {
			case 0, 1:
				e[at] ^= bit
			case 2:
				for i := at; i < len(e); i++ {
					e[i] ^= bit
				}
			case 3:
				e = make([]byte, len(e))
			case 4:
				copy(e, p.c1[8:]) // echoes itself
			case 5:
				e[at] ^= bit
				e[(at+1)%len(e)] ^= bit // sums alike
			case 6:
				e = append(e[1:len(e):len(e)], e[0]) // rotated
			case 7:
				for i, j := 0, len(e)-1; i < j; i, j = i+1, j-1 {
					e[i], e[j] = e[j], e[i]
				}
			case 8:
				for i := at; i < len(e); i++ {
					if e[i] != e[0] {
						e[0], e[i] = e[i], e[0] // the same bytes all in all
						break
					}
				}
			case 9:
				copy(e, p.s1) // off by the time fields
			case 10:
				for i := range e {
					e[i] = 0xff
				}
			}
			if bytes.Equal(e, ch) {
				e[0] ^= 1
			}
			return e
		}
	case 3:
		p.cutAt = pos()
		p.end = true
		if p.cutAt == 0 {
			p.cutAt = 1
		}
		why = fmt.Sprintf("the client hangs up after %d bytes", p.cutAt)
		if p.cutAt < 1 {
			exact = 0
		}
	case 4, 5:
		fault = &sim.Fault{Pos: pos(), Err: ioErr(t, "read", 0), WithData: t.Src.Chance(0.3)}
		fault.Kind = pick(t, sim.FaultPerm, sim.FaultTransient, sim.FaultEOF)
		switch fault.Kind {
		case sim.FaultEOF:
			fault.Err = io.EOF
		case sim.FaultTransient:
			// An error that comes with all the bytes asked for may be
			// disregarded, by the io.Reader contract.
			fault.WithData = false
		}
		p.conn.In.Faults = append(p.conn.In.Faults, fault)
		why = fmt.Sprintf("reading fails at byte %d (%s)", fault.Pos, fault.Kind)
		if fault.Pos == 0 {
			exact = 0
		}
	default:
		fault = &sim.Fault{Pos: pos(), Kind: pick(t, sim.FaultWrite, sim.FaultShort), Err: ioErr(t, "write", 0)}
		p.conn.Out.Faults = append(p.conn.Out.Faults, fault)
		why = fmt.Sprintf("writing fails at byte %d (%s)", fault.Pos, fault.Kind)
		exact = fault.Pos
	}
	t.Logf("%s", why)
	p.start()
	t.Settle(horizon)
	if fault != nil && fault.WithData && fault.Kind != sim.FaultStall && p.done && p.err == nil {
		t.Failf("success", "the handshake succeeded although %s", why)
	}
	if !p.done {
		t.Failf("hang", "the handshake has not returned although %s:%s", why, t.GoroutineDump())
	}
	if p.err == nil {
		t.Failf("success", "the handshake succeeded although %s", why)
	}
	if n := len(p.conn.Out.Out); exact >= 0 && n != exact || n > maxOut {
		t.Failf("sent", "the server sent %d bytes, expected %d, when %s", n, exact, why)
	}
	if p.conn.In.ReadsAfter > 1 {
		t.Failf("after", "the connection was read %d times after it had failed (%s)", p.conn.In.ReadsAfter-1, why)
	}
	if fault != nil && (fault.Kind == sim.FaultWrite || fault.Kind == sim.FaultShort) && p.conn.In.Reads > p.readsAtFault(fault) {
		t.Failf("after", "the connection was read after a write had failed (%s)", why)
	}
	if n := p.conn.Out.Calls; callsAtFail >= 0 && n > callsAtFail {
		t.Failf("after", "%d writes were started after the transport had failed (%s)", n-callsAtFail, why)
	}
	// Nothing may move on even if the transport would go on working.
	reads := p.conn.In.Reads
	p.conn.In.Feed(make([]byte, 5000))
	t.Settle(horizon)
	if p.conn.In.Reads > reads {
		t.Failf("after", "the connection is read on after the handshake failed")
	}
	p.quiet()
	// Asking again does not turn the failure into success.
	if t.Src.Chance(0.3) && (fault == nil || fault.Kind != sim.FaultTransient && fault.Kind != sim.FaultShort) {
		var err error
		back := false
		t.Go("second try", func() { err, back = p.h.Handshake(), true })
		t.Settle(horizon)
		if back && err == nil {
			t.Failf("success", "the handshake succeeded when asked for again although %s", why)
		}
		if !back && fault != nil && (fault.Kind == sim.FaultPerm || fault.Kind == sim.FaultEOF) {
			t.Failf("hang", "the handshake has not returned when asked for again although %s:%s", why, t.GoroutineDump())
		}
		t.Probe("asked again")
	}
}

func (p *peer) readsAtFault(f *sim.Fault) int {
	if f.Note == 0 {
		return 1 << 30
	}
	return f.Note - 1
}

// c20 runs handshakes next to each other.
func c20(t *T) {
	n := min(lots(t, 2, 5), 80)
	crowd := 7
	if n > 5 {
		crowd = pick(t, 7, 2, 16)
	}
	var ps []*peer
	fate := make([]string, n)
	for k := 0; k < n; k++ {
		p := newPeer(t, fmt.Sprintf("conn%d", k))
		fate[k] = "good"
		f := t.Src.Intn(crowd)
		if crowd == 16 && f > 6 {
			f = 1
		}
		switch f {
		case 0:
			fate[k] = "version"
			p.version = 6
		case 1:
			fate[k] = "stall"
			p.cutAt = t.Src.Range(1, total-1)
		case 2:
			fate[k] = "hangup"
			p.cutAt = t.Src.Range(1, total-1)
			p.end = true
		case 3, 4:
			fate[k] = "stolen"
			from := t.Src.Intn(n)
			if from == k {
				from = (k + 1) % n
			}
			if k == 0 && n > 1 && from == 0 {
				from = 1
			}
			p.echo = func(own []byte) []byte {
				// Wait for the other challenge to be issued.
				for i := 0; i < 200 && ps[from].challenge() == nil; i++ {
					sim.Sleep(us(100))
				}
				c := ps[from].challenge()
				if c == nil {
					c = make([]byte, len(own))
				} else {
					t.Probe("foreign challenge echoed")
				}
				return c
			}
		}
		ps = append(ps, p)
	}
	for k, p := range ps {
		t.Logf("%s: %s", p.name, fate[k])
		if t.Src.Chance(0.4) {
			d := 1 + t.Src.Intn(3000)
			t.Go("dial", func() { sim.Sleep(us(d)); p.start() })
		} else {
			p.start()
		}
	}
	t.Settle(horizon)
	judge := func(round string) {
		for k, p := range ps {
			switch fate[k] {
			case "good":
				p.success()
			case "stall":
				if p.done {
					t.Failf("dependent", "%s stalls, but its handshake returned %v", p.name, p.err)
				}
			default:
				if !p.done {
					t.Failf("hang", "%s (%s): the handshake has not returned%s:%s", p.name, fate[k], round, t.GoroutineDump())
				}
				if p.err == nil {
					t.Failf("success", "%s (%s): the handshake succeeded%s", p.name, fate[k], round)
				}
			}
		}
	}
	judge("")
	// A replay of an earlier handshake's challenge is rejected as well.
	if t.Src.Chance(0.4) {
		old := ps[t.Src.Intn(n)].challenge()
		if old != nil {
			p := newPeer(t, "replayer")
			p.echo = func([]byte) []byte { return old }
			ps = append(ps, p)
			fate = append(fate, "replay")
			p.start()
			t.Settle(horizon)
			judge(" (after a replay)")
		}
	}
	// Every challenge comes from its own part of the secure random source.
	var pool []byte
	for _, b := range t.Secure {
		pool = append(pool, b...)
	}
	type span struct {
		at   int
		name string
	}
	var spans []span
	for _, p := range ps {
		c := p.challenge()
		if c == nil {
			continue
		}
		at := bytes.Index(pool, c)
		if at < 0 {
			t.Failf("weak", "%s: the challenge was not drawn in full from the secure random source", p.name)
		}
		for _, s := range spans {
			if at < s.at+len(c) && s.at < at+len(c) {
				t.Failf("shared", "%s and %s were issued overlapping challenges", s.name, p.name)
			}
		}
		spans = append(spans, span{at, p.name})
	}
}
