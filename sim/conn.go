package sim

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"
)

// Fault kinds of a transport.
const (
	FaultEOF       = "eof"             // the stream ends here, for good
	FaultPerm      = "read-error"      // every read from here on fails
	FaultTransient = "transient-error" // one read fails here, later ones work
	FaultStall     = "stall"           // reads block for a while here
	FaultWrite     = "write-error"     // writes fail from this byte on
	FaultShort     = "short-write"     // one write is cut here and fails
	FaultShortNil  = "short-write-nil" // one write is cut here and reports no error
	FaultWStall    = "write-stall"     // a write blocks for a while here
)

// Fault is a transport fault at a byte position.
type Fault struct {
	Pos      int
	Kind     string
	Err      error
	WithData bool // return the error together with the bytes before it
	Stall    time.Duration
	At       int // where it happened
	Note     int // reads of the other direction when it happened, plus one
	fired    bool
}

// Fired reports whether the fault happened.
func (f *Fault) Fired() bool { return f.fired }

// ErrInjected is the base of injected transport errors.
var ErrInjected = errors.New("sim: injected transport error")

// Fragmentation modes.
const (
	FragWhole = iota
	FragRandom
	FragByte
	FragChunky
)

// Pipe is one direction of a byte stream.
type Pipe struct {
	W      *World
	Name   string
	buf    []byte // bytes written and not yet read
	ended  error  // error once buf is drained
	Taken  int    // bytes handed to the reader so far
	Put    int    // bytes ever fed
	Frag   int
	Empty  float64 // chance of an empty read
	MaxBuf int     // 0 for unlimited
	Faults []*Fault
	stall  bool
	empty  int
	broken error // permanent read failure
	rdWait []*G
	wrWait []*G

	Reads      int
	ReadsAfter int // reads after the stream was broken or ended

	OnFail func() // called when a read returns nothing but an error

	rdDeadline time.Duration // 0 for none
	closed     bool          // reader side closed
}

func (p *Pipe) failed() {
	if p.OnFail != nil {
		p.OnFail()
	}
}

func (p *Pipe) wakeReaders() { wakeAll(p.W, &p.rdWait) }

// Feed makes bytes available to the reader, without blocking.
func (p *Pipe) Feed(b []byte) {
	p.buf = append(p.buf, b...)
	p.Put += len(b)
	p.wakeReaders()
}

// End makes reads fail with err once the bytes fed are consumed.
func (p *Pipe) End(err error) {
	if p.ended == nil {
		p.ended = err
		p.wakeReaders()
	}
}

// Pending is the number of bytes fed and not yet read.
func (p *Pipe) Pending() int { return len(p.buf) }

// Read reads for the consuming side.
func (p *Pipe) Read(b []byte) (int, error) {
	w := p.W
	w.syncPoint()
	p.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if p.closed {
			return 0, net.ErrClosed
		}
		if p.broken != nil {
			p.ReadsAfter++
			p.failed()
			return 0, p.broken
		}
		limit := len(p.buf)
		// The nearest fault bounds what this read may return.
		var next *Fault
		for _, f := range p.Faults {
			if !f.fired && (next == nil || f.Pos < next.Pos) {
				next = f
			}
		}
		if next != nil && next.Pos <= p.Taken {
			switch next.Kind {
			case FaultStall:
				next.fired = true
				w.Fault(FaultStall)
				Sleep(next.Stall)
				continue
			default:
				next.fired = true
				w.Fault(next.Kind)
				if next.Kind != FaultTransient {
					p.broken = next.Err
				}
				p.failed()
				return 0, next.Err
			}
		}
		if next != nil && next.Pos-p.Taken < limit {
			limit = next.Pos - p.Taken
		}
		if limit > 0 {
			if p.Empty > 0 && p.empty < 3 && w.Src.Chance(p.Empty) {
				p.empty++
				w.Stats.Faults["empty-read"]++
				return 0, nil
			}
			p.empty = 0
			n := len(b)
			if n > limit {
				n = limit
			}
			full := n
			switch p.Frag {
			case FragRandom:
				n -= w.Src.Intn(n)
			case FragByte:
				n = 1
			case FragChunky:
				if n > 2 && w.Src.Chance(0.3) {
					n -= w.Src.Intn(n)
				}
			}
			if n < full {
				w.Stats.Faults["short-read"]++
			}
			copy(b, p.buf[:n])
			p.buf = p.buf[n:]
			p.Taken += n
			wakeAll(w, &p.wrWait)
			if next != nil && next.WithData && next.Pos == p.Taken && next.Kind != FaultStall {
				next.fired = true
				w.Fault(next.Kind + "+data")
				if next.Kind != FaultTransient {
					p.broken = next.Err
				}
				return n, next.Err
			}
			return n, nil
		}
		if p.ended != nil {
			p.ReadsAfter++
			p.failed()
			return 0, p.ended
		}
		if p.rdDeadline != 0 && w.now >= p.rdDeadline {
			return 0, os.ErrDeadlineExceeded
		}
		p.rdWait = append(p.rdWait, w.cur)
		w.block("read " + p.Name)
		if w.dying {
			panic(kill{})
		}
	}
}

// WriteRec describes one Write call made by the library.
type WriteRec struct {
	G          int
	Start, End int // bytes accepted, as positions in Out
	Len        int
	Err        error
	Enter      int // event sequence numbers
	Leave      int
}

// Sink records what the library writes.
type Sink struct {
	W      *World
	Name   string
	Out    []byte
	Recs   []WriteRec
	Faults []*Fault
	Broken error
	Window int // bytes the peer accepts before it must drain; 0 unlimited
	Peer   *Pipe
	Other  *Pipe // the opposite direction
	locked bool
	wait   []*G
	drain  []*G
	acked  int
	closed bool
	seq    int
	Calls  int    // of Write
	OnFail func() // called when a write fails

	deadline time.Duration // of writes; 0 for none
	Notify   func()        // called in the writer's context after each acceptance
	Slow     bool          // yield inside writes
}

func (s *Sink) lock() {
	w := s.W
	w.syncPoint()
	for s.locked {
		s.wait = append(s.wait, w.cur)
		w.block("write lock " + s.Name)
		if w.dying {
			panic(kill{})
		}
	}
	s.locked = true
}

func (s *Sink) unlock() {
	s.locked = false
	if !s.W.dying {
		wake(s.W, &s.wait)
	}
}

// Drain tells a windowed sink that the peer consumed everything so far.
func (s *Sink) Drain() {
	s.acked = len(s.Out)
	wakeAll(s.W, &s.drain)
}

func (s *Sink) accept(b []byte) {
	s.Out = append(s.Out, b...)
	if s.Peer != nil {
		s.Peer.Feed(b)
	}
	if s.Notify != nil {
		s.Notify()
	}
}

// Write accepts b, atomically with respect to other Writes, as net.Conn does.
func (s *Sink) Write(b []byte) (n int, err error) {
	w := s.W
	s.seq++
	s.Calls++
	rec := WriteRec{G: w.cur.id, Len: len(b), Enter: s.seq}
	s.lock()
	rec.Start = len(s.Out)
	defer func() {
		if w.dying {
			return
		}
		s.seq++
		if err != nil && s.OnFail != nil {
			s.OnFail()
		}
		rec.Leave = s.seq
		rec.End = rec.Start + n
		rec.Err = err
		s.Recs = append(s.Recs, rec)
		s.unlock()
	}()
	for n < len(b) || len(b) == 0 {
		if s.closed {
			return n, net.ErrClosed
		}
		if s.Broken != nil {
			return n, s.Broken
		}
		if s.deadline != 0 && w.now >= s.deadline {
			return n, os.ErrDeadlineExceeded
		}
		var next *Fault
		for _, f := range s.Faults {
			if !f.fired && (next == nil || f.Pos < next.Pos) {
				next = f
			}
		}
		k := len(b) - n
		if next != nil && next.Pos <= len(s.Out) {
			next.fired = true
			next.At = len(s.Out)
			if s.Other != nil {
				next.Note = s.Other.Reads + 1
			}
			w.Fault(next.Kind)
			switch next.Kind {
			case FaultWStall:
				for until := w.now + next.Stall; w.now < until && !s.closed; {
					if s.deadline != 0 && w.now >= s.deadline {
						return n, os.ErrDeadlineExceeded
					}
					d := until
					if s.deadline != 0 {
						d = min(d, s.deadline)
					}
					Sleep(d - w.now)
				}
				continue
			case FaultWrite:
				s.Broken = next.Err
				return n, next.Err
			case FaultShortNil:
				return n, nil
			default:
				return n, next.Err
			}
		}
		if next != nil && next.Pos-len(s.Out) < k {
			k = next.Pos - len(s.Out)
		}
		if s.Window > 0 {
			room := s.Window - (len(s.Out) - s.acked)
			if room <= 0 && len(b) > 0 {
				s.drain = append(s.drain, w.cur)
				w.block("write " + s.Name)
				if w.dying {
					panic(kill{})
				}
				continue
			}
			if k > room {
				k = room
			}
		}
		if s.Slow && k > 1 && w.Src.Chance(0.5) {
			k -= w.Src.Intn(k)
		}
		s.accept(b[n : n+k])
		n += k
		if s.Slow && n < len(b) {
			w.syncPoint()
		}
		if len(b) == 0 {
			break
		}
	}
	return n, nil
}

// Conn is a simulated net.Conn as the library sees it.
type Conn struct {
	In     *Pipe
	Out    *Sink
	Closed int
	raddr  *net.TCPAddr
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// NewConn makes a connection in w.
func NewConn(w *World, name string) *Conn {
	in := &Pipe{W: w, Name: name}
	return &Conn{
		In:    in,
		Out:   &Sink{W: w, Name: name, Other: in},
		raddr: &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(2+w.Src.Intn(3))), Port: 50000 + w.Src.Intn(4)},
	}
}

func (c *Conn) Read(b []byte) (int, error)  { return c.In.Read(b) }
func (c *Conn) Write(b []byte) (int, error) { return c.Out.Write(b) }

// Close closes the library's end.
func (c *Conn) Close() error {
	w := c.In.W
	if w.dying {
		return nil
	}
	w.syncPoint()
	c.Closed++
	if c.Closed > 1 {
		return net.ErrClosed
	}
	c.In.closed = true
	c.In.wakeReaders()
	c.Out.closed = true
	wakeAll(w, &c.Out.drain)
	return nil
}

func (c *Conn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1935}
}

// RemoteAddr is one of few: hosts connect many times, and ports are used again.
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }

// SetDeadline sets both deadlines.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

// SetReadDeadline sets the read deadline.
func (c *Conn) SetReadDeadline(t time.Time) error {
	w := c.In.W
	if t.IsZero() {
		c.In.rdDeadline = 0
		return nil
	}
	c.In.rdDeadline = t.Sub(Epoch)
	if c.In.rdDeadline <= 0 {
		c.In.rdDeadline = 1
	}
	w.At(c.In.rdDeadline-w.now, c.In.wakeReaders)
	return nil
}

// SetWriteDeadline sets the write deadline.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	w := c.Out.W
	if t.IsZero() {
		c.Out.deadline = 0
		return nil
	}
	c.Out.deadline = max(t.Sub(Epoch), 1)
	w.At(c.Out.deadline-w.now, func() { wakeAll(w, &c.Out.drain) })
	return nil
}

var _ net.Conn = (*Conn)(nil)

// Listener is a simulated net.Listener.
type Listener struct {
	W       *World
	pending []acceptItem
	wait    []*G
	Closed  bool
	Accepts int // Accept calls
	Given   int // results handed out
	AfterCl int // Accept calls after Close
	bind    string
}

type acceptItem struct {
	c   net.Conn
	err error
}

// Listen is what net.Listen becomes; a scenario may intercept it.
func Listen(network, bind string) (net.Listener, error) {
	w := W
	if w == nil {
		return nil, errors.New("sim: net.Listen outside a simulation")
	}
	w.syncPoint()
	if w.OnListen != nil {
		return w.OnListen(network, bind)
	}
	return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("sim: no listener")}
}

// NewListener makes a listener.
func NewListener(w *World, bind string) *Listener { return &Listener{W: w, bind: bind} }

// Connect queues a connection, or a failure of one Accept.
func (l *Listener) Connect(c net.Conn, err error) {
	l.pending = append(l.pending, acceptItem{c, err})
	wake(l.W, &l.wait)
}

// Backlog is the number of queued results.
func (l *Listener) Backlog() int { return len(l.pending) }

// Accept hands out the next result.
func (l *Listener) Accept() (net.Conn, error) {
	w := l.W
	w.syncPoint()
	l.Accepts++
	for {
		if l.Closed {
			l.AfterCl++
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: addr(l.bind), Err: net.ErrClosed}
		}
		if len(l.pending) > 0 {
			it := l.pending[0]
			l.pending = l.pending[1:]
			l.Given++
			if it.err != nil {
				w.Fault("accept-error")
			}
			return it.c, it.err
		}
		l.wait = append(l.wait, w.cur)
		w.block("accept")
		if w.dying {
			panic(kill{})
		}
	}
}

// Close closes the listener.
func (l *Listener) Close() error {
	w := l.W
	if w.dying {
		return nil
	}
	w.syncPoint()
	if l.Closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: addr(l.bind), Err: net.ErrClosed}
	}
	l.Closed = true
	wakeAll(w, &l.wait)
	return nil
}

// Addr is the bound address.
func (l *Listener) Addr() net.Addr { return addr(l.bind) }

var _ net.Listener = (*Listener)(nil)

// ReadAll is a convenience for scenario peers: it blocks until n bytes are
// available on p or p has ended, and takes them.
func (p *Pipe) Take(n int) ([]byte, error) {
	w := p.W
	for len(p.buf) < n {
		if p.ended != nil || p.broken != nil || p.closed {
			b := p.buf
			p.buf = nil
			p.Taken += len(b)
			return b, io.ErrUnexpectedEOF
		}
		p.rdWait = append(p.rdWait, w.cur)
		w.block(fmt.Sprintf("peer take %s", p.Name))
		if w.dying {
			panic(kill{})
		}
	}
	b := append([]byte(nil), p.buf[:n]...)
	p.buf = p.buf[n:]
	p.Taken += n
	return b, nil
}
