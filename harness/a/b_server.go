//go:build cmd

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/server"

	"verif/harness/ref"
	"verif/sim"
)

// listen makes a server over a simulated listener.
func listen(t *T) (*server.Server, *sim.Listener) {
	var l *sim.Listener
	t.World.OnListen = func(network, bind string) (net.Listener, error) {
		switch network {
		case "tcp", "tcp4":
		default:
			return nil, net.UnknownNetworkError(network)
		}
		if bind != "0.0.0.0:1935" {
			t.Failf("new", "the server listens on %q", bind)
		}
		l = sim.NewListener(t.World, bind)
		return l, nil
	}
	s, err := server.New("0.0.0.0:1935")
	if err != nil || s == nil || l == nil {
		t.Failf("new", "no server could be made over a working listener: %v", err)
	}
	return s, l
}

// c21 has connections come in, and fail to.
func c21(t *T) {
	s, l := listen(t)
	type item struct {
		c   *sim.Conn
		err error
	}
	var items []item
	var conns []*sim.Conn
	var errs []error
	fail := pick(t, 0, 0.2, 0.5, 0.9)
	if history > 1 && t.Src.Chance(0.5) {
		fail = 0.997 // nothing but trouble for a long time
	}
	same := pick(t, 0, 0.3, 0.8)
	n := min(lots(t, 1, pick(t, 4, 12, 12, 40)), 400)
	if fail > 0.99 {
		n = pick(t, n, n, 1200)
	}
	for i := 0; i < n; i++ {
		if t.Src.Chance(fail) {
			var e error
			switch k := len(errs); {
			case k > 0 && t.Src.Chance(same):
				// A condition that persists, or returns.
				e = errs[k-1-t.Src.Intn(min(k, 2))]
				t.Probe("an accept error came again")
			case t.Src.Chance(0.3):
				e = fmt.Errorf("accept error %d", i)
			default:
				e = &net.OpError{Op: "accept", Net: "tcp", Err: [...]error{
					os.NewSyscallError("accept4", syscall.EMFILE),
					os.NewSyscallError("accept4", syscall.ECONNABORTED),
					os.NewSyscallError("accept4", syscall.EINTR),
					os.ErrDeadlineExceeded,
					fmt.Errorf("accept error %d", i),
				}[t.Src.Intn(5)]}
			}
			items = append(items, item{err: e})
			errs = append(errs, e)
		} else {
			c := sim.NewConn(t.World, fmt.Sprintf("client %d", i))
			items = append(items, item{c: c})
			conns = append(conns, c)
		}
	}
	var got []*client.Client
	var gotErrs []error
	late := pick(t, 0, 0, 0, 500)
	loop := t.Go("Accept", func() {
		if late > 0 {
			sim.Sleep(us(1 + t.Src.Intn(late)))
		}
		s.Accept()
	})
	closing := t.Src.Chance(0.5)
	var limit, elimit = 1 << 30, 1 << 30
	if closing {
		limit, elimit = pick(t, 1<<30, 0, 1, 3), pick(t, 1<<30, 0, 1, 3)
	}
	requested := false
	closedEarly := func(what string) {
		if !requested {
			t.Failf("closed", "the channel of %s was closed without a close request", what)
		}
	}
	clients := func(limit int, pa *pauser) {
		for ; limit > 0; limit-- {
			c, ok := sim.Recv2(s.Clients())
			if !ok {
				closedEarly("clients")
				return
			}
			if c == nil {
				t.Failf("bogus", "a nil client was handed out")
			}
			t.Logf("client handed out")
			got = append(got, c)
			pa.pause()
		}
	}
	failures := func(limit int, pa *pauser) {
		for ; limit > 0; limit-- {
			e, ok := sim.Recv2(s.Errs())
			if !ok {
				closedEarly("errors")
				return
			}
			if e == nil {
				t.Failf("bogus", "a nil error was reported")
			}
			t.Logf("reported: %v", e)
			if requested && errors.Is(e, net.ErrClosed) {
				t.Probe("the end of the listener is reported")
			}
			gotErrs = append(gotErrs, e)
			pa.pause()
		}
	}
	pa, pb := newPauser(t), newPauser(t)
	t.Go("collector of clients", func() { clients(limit, pa) })
	t.Go("collector of errors", func() { failures(elimit, pb) })
	pc := newPauser(t)
	t.Go("network", func() {
		for _, it := range items {
			pc.pause()
			if it.err != nil {
				l.Connect(nil, it.err)
			} else {
				l.Connect(it.c, nil)
			}
		}
	})
	closed := false
	again := 0
	if closing {
		wait := pick(t, 1, 20, 400, 20000)
		if t.Src.Chance(0.3) {
			again = t.Src.Range(1, 3)
			t.Probe("closed by several")
		}
		t.Go("closer", func() {
			switch t.Src.Intn(4) {
			case 0:
			case 1:
				for k := t.Src.Intn(30); k > 0; k-- {
					t.Yield()
				}
			default:
				sim.Sleep(us(t.Src.Intn(wait) + 1))
			}
			t.Logf("close request")
			t.Stats.Faults["close"]++
			requested = true
			for k := again; k > 0; k-- {
				t.Go("another closer", func() {
					if t.Src.Chance(0.3) {
						sim.Sleep(us(1 + t.Src.Intn(wait)))
					}
					s.Close()
					again--
				})
			}
			s.Close()
			closed = true
			t.Logf("close request returned")
		})
	}
	t.Settle(horizon)
	check := func() {
		for i, c := range got {
			if i >= len(conns) {
				t.Failf("extra", "%d clients were handed out for %d connections", len(got), len(conns))
			}
			if c.Conn != conns[i] {
				t.Failf("order", "client %d handed out is not the one of connection %d accepted", i, i)
			}
			for _, o := range got[:i] {
				if o == c {
					t.Failf("twice", "client %d was handed out twice", i)
				}
			}
		}
		n := len(gotErrs)
		if requested && n > 0 && errors.Is(gotErrs[n-1], net.ErrClosed) {
			// The end of the accept loop may be worth a last error.
			n--
		}
		for i, e := range gotErrs[:n] {
			if i >= len(errs) || !errors.Is(e, errs[i]) {
				t.Failf("error", "error %d reported is %v, the accept errors were %v", i, e, errs)
			}
		}
	}
	check()
	if !closing {
		if len(got) < len(conns) {
			t.Failf("lost", "%d connections came in, %d clients were handed out:%s", len(conns), len(got), t.GoroutineDump())
		}
		if len(gotErrs) < len(errs) {
			t.Failf("unreported", "%d accept calls failed, %d errors were reported", len(errs), len(gotErrs))
		}
		for i, c := range conns {
			if c.Closed > 0 {
				t.Failf("dropped", "connection %d was closed by a server that is not", i)
			}
		}
		return
	}
	if !closed || again > 0 {
		t.Failf("hang", "the close request has not returned:%s", t.GoroutineDump())
	}
	if !loop.Done() {
		t.Failf("hang", "the accept loop goes on after the close request returned:%s", t.GoroutineDump())
	}
	if !l.Closed {
		t.Failf("open", "the listener is still open after the close request returned")
	}
	// Whom it could not hand out any more, it does not leave hanging.
	k := 0
	for _, it := range items[:l.Given] {
		if it.c == nil {
			continue
		}
		if k++; k > len(got) && it.c.Closed == 0 {
			t.Failf("hanging", "connection %d was accepted but not handed out, and is still open after the server was closed", k-1)
		}
	}
	// Nothing keeps coming, though more clients would like to.
	n, m := len(got), len(gotErrs)
	for i := 0; i < 3; i++ {
		l.Connect(sim.NewConn(t.World, "latecomer"), nil)
	}
	t.Go("late collector of clients", func() { clients(1<<30, &pauser{}) })
	t.Go("late collector of errors", func() { failures(1<<30, &pauser{}) })
	t.Settle(horizon)
	if len(got) > n {
		t.Failf("delivered", "%d clients were handed out after the server was closed", len(got)-n)
	}
	if len(gotErrs) > m+1 {
		t.Failf("delivered", "%d errors were reported after the server was closed, the last one %v", len(gotErrs)-m, gotErrs[len(gotErrs)-1])
	}
	check()
}

// What becomes of the clients of c25.
const (
	kGood = iota
	kStall
	kHangup
	kVersion
	kGarbage
	kWrites
	kUndrained
	kUncollected
)

var cliKinds = []string{"good", "stalls", "hangs up", "version", "garbage", "writes fail", "does not drain", "is not collected"}

// cli is one client of the server and the application's side of it.
type cli struct {
	t      *T
	name   string
	kind   int
	p      *peer
	prog   *program
	c      *client.Client
	handed int
	hsDone bool
	hsErr  error
	taken  int // bytes of the client that were read when its handshake returned
	wrote  int // bytes that were written to it then
	ctl    *ctlRun
	hs     []*hand
	ss     *senders
	perm   *sim.Fault
	expOut bool // all that is sent must be written

	relayed [][]*outVal // media of the other clients, per client
	queues  []chan data.Data
	feeds   map[*cli]bool // where its media goes
}

// shaken is how much of the client's bytes belongs to the handshake.
const shakenBytes = total

func newCli(t *T, n, kind int, all int) *cli {
	c := &cli{t: t, kind: kind, name: fmt.Sprintf("client %d (%s)", n, cliKinds[kind])}
	c.p = newPeer(t, c.name)
	p := c.p
	bad := pick(t, 0, 0, 0.3)
	c.prog = generate(t, genOpts{
		msgs: lots(t, 1, 14), only: []uint32{3, 4, 4, 4, 8, 8, 5}, compress: pick(t, 0, 0.5), abort: pick(t, 0, 0.2), scs: pick(t, 0.05, 0.2),
		maxLen: 300, tag: n + 1, size: 128,
		body: func(id uint32, n int) (byte, uint32, []byte) { return genRouted(t, id, n, bad) },
	})
	p.trailing = c.prog.bytes
	whole := shakenBytes + len(p.trailing)
	inside := func() int {
		if t.Src.Chance(0.7) {
			return shakenBytes + t.Src.Intn(len(p.trailing)+1)
		}
		return t.Src.Intn(whole + 1)
	}
	window := p.conn.Out.Window
	switch kind {
	case kGood:
		if t.Src.Chance(0.3) {
			// It leaves when it is done.
			p.cutAt, p.end = whole, true
		}
		for j := t.Src.Intn(3); j > 0; j-- {
			p.conn.In.Faults = append(p.conn.In.Faults, &sim.Fault{Kind: sim.FaultStall, Pos: t.Src.Intn(whole), Stall: us(1 + t.Src.Intn(1000000))})
		}
		if t.Src.Chance(0.3) {
			p.conn.Out.Faults = append(p.conn.Out.Faults, &sim.Fault{Kind: sim.FaultWStall, Pos: t.Src.Intn(total + 500), Stall: us(1 + t.Src.Intn(1000000))})
		}
	case kStall:
		p.cutAt = inside()
	case kHangup:
		p.cutAt, p.end = inside(), true
	case kVersion:
		p.version = pick[byte](t, 0, 2, 4, 6, 255)
	case kGarbage:
		b := append([]byte(nil), p.trailing...)
		for i := t.Src.Range(1, 5); i > 0 && len(b) > 0; i-- {
			b[t.Src.Intn(len(b))] = byte(t.Src.Intn(256))
		}
		if t.Src.Chance(0.3) {
			b = content(n+77, t.Src.Intn(2000))
		}
		p.trailing = b
	case kWrites:
		c.perm = &sim.Fault{Kind: sim.FaultWrite, Pos: total + t.Src.Intn(600), Err: ioErr(t, "write", c.name)}
		if t.Src.Chance(0.1) {
			c.perm.Pos = t.Src.Intn(total)
		}
		p.conn.Out.Faults = append(p.conn.Out.Faults, c.perm)
	}
	p.shaken = func() {
		p.conn.Out.Window = 0
		if kind == kUndrained {
			p.conn.Out.Window = pick(t, 1, 100, 1000, window+1)
		}
		p.conn.Out.Drain()
	}
	c.relayed = make([][]*outVal, all)
	return c
}

// arrived are the messages of the client that arrive whole.
func (c *cli) arrived() []*ref.Msg {
	if c.kind == kGarbage || c.kind == kVersion {
		return nil
	}
	n := c.p.sent - shakenBytes
	if n < 0 {
		return nil
	}
	msgs, _, _ := c.prog.upTo(n)
	return msgs
}

// serve is what an application does with a client.
func (c *cli) serve(all []*cli) {
	t := c.t
	nt := c.c.Net()
	c.ctl = &ctlRun{t: t, s: c.c.Controls(), marks: t.Src.Chance(0.3)}
	c.ctl.known = func(e error) bool {
		for k := range c.ss.encs {
			if errors.Is(e, k) {
				return true
			}
		}
		return c.perm != nil && errors.Is(e, c.perm.Err)
	}
	c.ss = &senders{encs: map[error]bool{}}
	c.hs = handsOf(t, nt, c.name+": ")
	for _, h := range c.hs {
		h.known = func(e error) bool {
			for k := range h.encs {
				if errors.Is(e, k) {
					return true
				}
			}
			return c.perm != nil && errors.Is(e, c.perm.Err) || e.Error() == "amf0: string too long"
		}
	}
	early := t.Src.Chance(0.3)
	begin := func() {
		t.Go(c.name+" controls", c.c.Controls().Recv)
		t.Go(c.name+" dispatch", func() { nt.Dispatch(true) })
	}
	if early {
		begin()
	}
	t.Go(c.name+" handshake", func() {
		err := c.c.Handshake()
		c.hsErr, c.hsDone = err, true
		c.taken, c.wrote = c.p.conn.In.Taken, len(c.p.conn.Out.Out)
		t.Logf("%s: handshake returned %v", c.name, err)
		if err != nil {
			return
		}
		if !early {
			begin()
		}
		skip := -1
		if c.kind == kUncollected {
			skip = t.Src.Intn(4)
		}
		pa := newPauser(t)
		if skip != 3 {
			t.Go(c.name+" controls collector", func() { c.ctl.collect(1<<30, pa) })
		}
		for i, h := range c.hs {
			pa := newPauser(t)
			if skip != i {
				t.Go("collector of the "+h.name, func() { h.collect(1<<30, pa) })
			}
		}
		if t.Src.Chance(0.6) {
			c.ss = send(t, c.ctl, t.Src.Range(1, 2), 4, pick(t, 0, 0.1))
		}
		for _, h := range c.hs {
			if t.Src.Chance(0.6) {
				h.send(t.Src.Range(1, 2), 3, pick(t, 0, 0.1))
			}
		}
		for i, q := range c.queues {
			if !all[i].feeds[c] {
				continue
			}
			t.Go(c.name+" relay", func() {
				for v := range sim.Range(q) {
					sim.To(nt.DataStream().In()).Send(v)
				}
			})
		}
	})
	// Media goes to some of the others.
	me := -1
	for i, o := range all {
		if o == c {
			me = i
		}
	}
	var to []*cli
	for _, o := range all {
		if c.feeds[o] {
			to = append(to, o)
		}
	}
	c.hs[hData].onValue = func(v any) {
		var m *ref.Msg
		switch v := v.(type) {
		case *data.Audio:
			m = &ref.Msg{CSID: 4, Type: 8, Data: append([]byte{v.Control()}, v.Payload()...)}
		case *data.Video:
			m = &ref.Msg{CSID: 4, Type: 9, Data: append([]byte{v.Control()}, v.Payload()...)}
		default:
			return
		}
		for _, o := range to {
			o.relayed[me] = append(o.relayed[me], &outVal{m: m, loose: true, what: m.String()})
			sim.To(o.queues[me]).Send(v.(data.Data))
		}
	}
}

// check checks what the application and the client have seen.
func (c *cli) check(all []*cli) {
	t := c.t
	if c.handed != 1 {
		t.Failf("handed", "%s was handed out %d times", c.name, c.handed)
	}
	good := c.kind == kGood
	if good && !c.hsDone {
		t.Failf("hang", "%s: the handshake has not returned (client sent %d bytes, waits for %q):%s", c.name, c.p.sent, c.p.stuck, t.GoroutineDump())
	}
	if good && c.hsErr != nil {
		t.Failf("refused", "%s: the handshake failed: %v", c.name, c.hsErr)
	}
	if c.hsDone && c.hsErr == nil && c.kind == kVersion {
		t.Failf("accepted", "%s: the handshake was accepted", c.name)
	}
	if !c.hsDone || c.hsErr != nil {
		for _, h := range c.hs {
			if len(h.outs) > 0 {
				t.Failf("bogus", "%s delivers without a handshake", h.name)
			}
		}
		if n := c.p.conn.In.Taken - c.taken; c.hsDone && n > 0 {
			t.Failf("after", "%s: %d bytes of it were read after its handshake failed (%v)", c.name, n, c.hsErr)
		}
		if n := len(c.p.conn.Out.Out) - c.wrote; c.hsDone && n > 0 {
			t.Failf("after", "%s: %d bytes were written to it after its handshake failed (%v)", c.name, n, c.hsErr)
		}
		if c.hsDone && c.kind == kVersion && t.Src.Chance(0.5) {
			var err error
			back := false
			t.Go(c.name+" second handshake", func() { err, back = c.c.Handshake(), true })
			t.Settle(horizon)
			if back && err == nil {
				t.Failf("accepted", "%s: the handshake was accepted when asked for again", c.name)
			}
		}
		return
	}
	if c.kind == kGarbage {
		return
	}
	out := c.p.conn.Out.Out
	// The handshake was this client's own.
	s2 := out[1+packet : total]
	if out[0] != 3 || !bytes.Equal(s2[:4], c.p.c1[:4]) || !bytes.Equal(s2[8:], c.p.c1[8:]) {
		t.Failf("handshake", "%s: the handshake was answered with other bytes than its own", c.name)
	}
	// What arrived was delivered.
	for _, m := range c.arrived() {
		if m.CSID == 2 {
			c.ctl.wants = append(c.ctl.wants, decode(m.Type, m.Data))
		} else {
			expect(t, c.hs, m)
		}
	}
	flows := c.kind == kGood || c.kind == kStall || c.kind == kHangup || c.kind == kWrites
	c.ctl.checkIn(flows)
	for _, h := range c.hs {
		h.checkLanes(flows)
	}
	// What was sent was written.
	cut := c.perm != nil && c.perm.Fired() || c.kind == kUndrained
	var groups [][]*outVal
	sent, bad := 0, 0
	for g, cs := range c.ss.vals {
		var vs []*outVal
		for i, x := range cs {
			if c.ss.sent[g][i] || !flows {
				if x.err != nil {
					bad++
					continue
				}
				vs = append(vs, &outVal{m: &ref.Msg{CSID: 2, Type: x.typ, Data: x.encode()}, what: x.String()})
				sent++
			}
		}
		groups = append(groups, vs)
	}
	for _, h := range c.hs {
		for _, vs := range h.senders {
			for _, v := range vs {
				if v.m == nil {
					bad++
				} else {
					sent++
				}
			}
			groups = append(groups, vs)
		}
	}
	for i := range c.relayed {
		groups = append(groups, c.relayed[i])
		sent += len(c.relayed[i])
	}
	best, bestDesc, bestN := -1, "", 0
	for _, size := range []int{4096, 128} {
		got, err := unwired(out[total:], size, cut)
		k := place(got, groups)
		if err == nil && k == len(got) {
			best, bestDesc, bestN = k, "", len(got)
			break
		}
		if k > best {
			best = k
			if err != nil {
				bestDesc = fmt.Sprintf("after %d messages, %v", len(got), err)
			}
			if k < len(got) {
				bestDesc = fmt.Sprintf("message %d is %v, which was not sent to it, or sent before, or later", k, got[k])
			}
		}
	}
	if bestDesc != "" {
		t.Failf("wire", "%s: it receives something it was not sent: %s", c.name, bestDesc)
	}
	if flows && !cut {
		if left := c.ss.left + c.hs[0].left + c.hs[1].left + c.hs[2].left; left > 0 {
			t.Failf("stuck", "%s: values sent to it are no longer accepted:%s", c.name, t.GoroutineDump())
		}
		if bestN < sent {
			t.Failf("unsent", "%s: %d messages were sent to it, %d of them were written:%s", c.name, sent, bestN, t.GoroutineDump())
		}
		n := len(c.ctl.outErrs) + len(c.hs[0].outErrs) + len(c.hs[1].outErrs) + len(c.hs[2].outErrs)
		if n != bad {
			t.Failf("errors", "%s: %d values sent to it do not encode, %d errors were reported", c.name, bad, n)
		}
	}
	// Errors of one connection stay with it.
	for _, o := range all {
		if o == c || o.perm == nil || c.perm != nil {
			continue
		}
		for _, h := range c.hs {
			for _, e := range append(h.errs, h.outErrs...) {
				if errors.Is(e, o.perm.Err) {
					t.Failf("leaked", "%s: an error of %s was reported for it: %v", c.name, o.name, e)
				}
			}
		}
	}
}

// unwired decodes everything written.
func unwired(out []byte, size int, cutOK bool) (got []*ref.Msg, err error) {
	w := &ref.Wire{}
	for len(out) > 0 {
		m, n, err := w.Decode(out, size)
		var short *ref.ErrShort
		if cutOK && errors.As(err, &short) {
			return got, nil
		}
		if err != nil {
			return got, err
		}
		got = append(got, m)
		out = out[n:]
	}
	return got, nil
}

// c25 has a server with several clients.
func c25(t *T) {
	s, l := listen(t)
	n := t.Src.Range(1, 3)
	faulty := pick(t, 0, 0.5, 1)
	if t.Src.Intn(800) == 0 {
		n = t.Src.Range(10, pick(t, 40, 40, 300))
		history = 1
		faulty = pick(t, 0.5, 1)
		t.Probe("a crowd of clients")
	}
	lucky := t.Src.Intn(n)
	one := t.Src.Range(kStall, kUncollected)
	if t.Src.Chance(0.5) {
		one = -1
	}
	var all []*cli
	for i := 0; i < n; i++ {
		kind := kGood
		if i != lucky && t.Src.Chance(faulty) {
			kind = t.Src.Range(kStall, kUncollected)
			if one >= 0 {
				kind = one
			}
			t.Fault("client " + cliKinds[kind])
		}
		all = append(all, newCli(t, i, kind, n))
	}
	for _, c := range all {
		c.feeds = map[*cli]bool{}
		for _, o := range all {
			c.queues = append(c.queues, make(chan data.Data, 1000))
			if t.Src.Chance(min(0.4, 2/float64(n))) {
				c.feeds[o] = true
			}
		}
	}
	t.Go("Accept", s.Accept)
	t.Go("application", func() {
		for c := range sim.Range(s.Clients()) {
			for _, x := range all {
				if c.Conn == io.ReadWriter(x.p.conn) {
					x.handed++
					x.c = c
					x.serve(all)
				}
			}
		}
	})
	t.Go("error collector", func() {
		for e := range sim.Range(s.Errs()) {
			t.Failf("error", "an accept error was reported: %v", e)
		}
	})
	pa := newPauser(t)
	t.Go("network", func() {
		for _, c := range all {
			pa.pause()
			l.Connect(c.p.conn, nil)
			c.p.client()
		}
	})
	t.Settle(horizon)
	for _, c := range all {
		c.check(all)
	}
}

// c25 and its parts.
func c25all(t *T) {
	if t.Src.Chance(0.4) {
		c25parts(t)
		return
	}
	c25(t)
}

// c25parts has the parts of several connections at work at once, each on its
// own: whatever they share shows sooner than behind a whole server.
func c25parts(t *T) {
	parts := []func(*T){
		c24open, c24open, c22, c22, c15, c16open, c11, c18, c20,
		readerScenario(c02, true, nil), writersScenario(false),
	}
	first := t.Src.Intn(len(parts))
	var fs []func(*T)
	for n := pick(t, 2, 2, 3); n > 0; n-- {
		f := parts[first]
		if t.Src.Chance(0.15) {
			f = parts[t.Src.Intn(len(parts))]
		}
		fs = append(fs, f)
	}
	t.Probe("parts of several connections")
	t.Together(fs...)
}

// lone runs a single client that sends messages after its handshake.
func lone(t *T, msgs ...*ref.Msg) *cli {
	s, l := listen(t)
	c := &cli{t: t, name: "client"}
	c.p = newPeer(t, c.name)
	c.p.trailing = nil
	for _, m := range msgs {
		c.p.trailing = ref.First(c.p.trailing, m, false)
		c.p.trailing = append(c.p.trailing, m.Data...)
	}
	t.Go("Accept", s.Accept)
	t.Go("application", func() {
		c.c = sim.Recv(s.Clients())
		c.serve([]*cli{})
	})
	l.Connect(c.p.conn, nil)
	c.p.client()
	t.Settle(horizon)
	return c
}

// csidOther is the recorded finding about chunk streams nobody asked for.
func csidOther(t *T) {
	c := lone(t,
		&ref.Msg{CSID: 6, Type: 9, SID: 1, Data: content(1, 20)},
		&ref.Msg{CSID: 3, Type: 0x14, Data: ref.AMF(nil, "connect", 1.0, nil)})
	if len(c.hs[hConn].outs) != 1 {
		t.Failf("csid-other", "a message on a chunk stream other than 2, 3, 4, 5 and 8 keeps all later messages of its client from being delivered")
	}
}

// clientErrors is the recorded finding about rejected messages.
func clientErrors(t *T) {
	c := lone(t,
		&ref.Msg{CSID: 2, Type: 1, Data: make([]byte, 4)},
		&ref.Msg{CSID: 3, Type: 0x14, Data: ref.AMF(nil, "connect", 1.0, nil)})
	if len(c.hs[hConn].outs) != 1 {
		t.Failf("client-errors", "a rejected message (Set Chunk Size 0) keeps all later messages of its client from being delivered, as nobody can receive the error")
	}
}
