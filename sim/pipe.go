package sim

import (
	"context"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

type pipe struct {
	wrMu       Mutex
	mu         Mutex
	wrCh       chan []byte
	rdCh       chan int
	done       chan struct{}
	closed     bool
	rerr, werr error
}

func newPipe() *pipe {
	return &pipe{wrCh: make(chan []byte), rdCh: make(chan int), done: make(chan struct{})}
}

func (p *pipe) end() {
	if !p.closed {
		p.closed = true
		Close(p.done)
	}
}

func (p *pipe) readErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil && p.werr != nil {
		return p.werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (p *pipe) read(b []byte) (int, error) {
	if IsClosed[struct{}](p.done) {
		return 0, p.readErr()
	}
	c := RecvCase((<-chan []byte)(p.wrCh))
	if Select(false, c, RecvCase((<-chan struct{})(p.done))) == 1 {
		return 0, p.readErr()
	}
	n := copy(b, c.V)
	To(p.rdCh).Send(n)
	return n, nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	if IsClosed[struct{}](p.done) {
		return 0, p.writeErr()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if Select(false, SC(p.wrCh).Val(b), RecvCase((<-chan struct{})(p.done))) == 1 {
			return n, p.writeErr()
		}
		k := Recv((<-chan int)(p.rdCh))
		b = b[k:]
		n += k
	}
	return n, nil
}

// PipeReader replaces io.PipeReader.
type PipeReader struct{ p *pipe }

// PipeWriter replaces io.PipeWriter.
type PipeWriter struct{ p *pipe }

// IOPipe replaces io.Pipe.
func IOPipe() (*PipeReader, *PipeWriter) {
	p := newPipe()
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) { return r.p.read(b) }
func (r *PipeReader) Close() error               { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.end()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) { return w.p.write(b) }
func (w *PipeWriter) Close() error                { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.end()
	return nil
}

// netPipe is one end of NetPipe; deadlines are not supported.
type netPipe struct {
	*PipeReader
	*PipeWriter
}

func (n netPipe) Close() error {
	n.PipeReader.Close()
	return n.PipeWriter.Close()
}
func (netPipe) LocalAddr() net.Addr              { return pipeAddr{} }
func (netPipe) RemoteAddr() net.Addr             { return pipeAddr{} }
func (netPipe) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (netPipe) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (netPipe) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

// NetPipe replaces net.Pipe.
func NetPipe() (net.Conn, net.Conn) {
	r1, w1 := IOPipe()
	r2, w2 := IOPipe()
	return netPipe{r1, w2}, netPipe{r2, w1}
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen listens.
func (*ListenConfig) Listen(_ context.Context, network, bind string) (net.Listener, error) {
	return Listen(network, bind)
}
