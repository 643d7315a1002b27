package sim

import (
	"context"
	"time"
)

type cctxKey struct{}

// cctx is a cancellable context of the simulation.
type cctx struct {
	context.Context
	done     chan struct{}
	mu       Mutex
	err      error
	cause    error
	children []*cctx
	funcs    []*afterFunc
	deadline time.Time
	timer    *Timer
}

type afterFunc struct{ f func() }

func (c *cctx) Done() <-chan struct{} { return c.done }

func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cctx) Value(k any) any {
	if _, ok := k.(cctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *cctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	children, funcs := c.children, c.funcs
	c.children, c.funcs = nil, nil
	Close(c.done)
	c.mu.Unlock()
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, k := range children {
		k.cancel(err, cause)
	}
	for _, f := range funcs {
		Go(f.f)
	}
}

func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: parent, done: make(chan struct{})}
	if parent.Done() == nil {
		return c
	}
	if p, ok := parent.Value(cctxKey{}).(*cctx); ok && (<-chan struct{})(p.done) == parent.Done() {
		p.mu.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.children = append(p.children, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
		return c
	}
	Go(func() {
		if Select(false, RecvCase(parent.Done()), RecvCase((<-chan struct{})(c.done))) == 0 {
			c.cancel(parent.Err(), context.Cause(parent))
		}
	})
	return c
}

// WithCancel replaces context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithCancelCause replaces context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

// WithDeadlineCause replaces context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline = d
		if left := Until(d); left <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else if c.Err() == nil {
			c.timer = AfterFunc(left, func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), nil)
}

// WithTimeoutCause replaces context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

// Cause replaces context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(cctxKey{}).(*cctx); ok && (<-chan struct{})(p.done) == c.Done() {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return context.Cause(c)
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(parent context.Context, f func()) (stop func() bool) {
	c := newCtx(parent)
	a := &afterFunc{f}
	if c.Err() != nil {
		Go(f)
		return func() bool { return false }
	}
	c.mu.Lock()
	c.funcs = append(c.funcs, a)
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.err != nil {
			return false
		}
		c.funcs = nil
		return true
	}
}
