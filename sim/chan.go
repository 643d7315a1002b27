package sim

import (
	"fmt"
	"iter"
	"unsafe"
)

// Channel operations are virtual: a channel value is only an identity, and
// its buffer, waiters and closedness live here. Operations by code that is
// not instrumented (a native close or send) are seen by polling.

type chanState struct {
	id     int
	cap    int
	buf    []chanItem
	recvq  []*waitCase
	sendq  []*waitCase
	closed bool
	vc     vclock // buffered and close synchronisation
}

type chanItem struct {
	v  any
	vc vclock
}

// wait is one blocked channel operation (one case, or all cases of a select).
type wait struct {
	g     *G
	cases []waitCase
	fired int
	at    int // its place in World.native
}

type waitCase struct {
	w    *wait
	c    *chanState
	send bool
	v    any
	ok   bool
	poll func() (v any, ok, selected bool)
}

// plainError is a runtime.Error look-alike for misuse panics.
type plainError string

func (e plainError) Error() string       { return string(e) }
func (e plainError) RuntimeError()       {}
func (e plainError) String() string      { return string(e) }
func chanPtr[C any](c *C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(c)) }

func (w *World) chanOf(p unsafe.Pointer, capacity int) *chanState {
	if p == nil {
		return nil
	}
	c := w.chans[p]
	if c == nil {
		c = &chanState{id: len(w.chans) + 1, cap: capacity}
		w.chans[p] = c
	}
	return c
}

// deq pops the first waiter that has not been satisfied yet.
func deq(q *[]*waitCase) *waitCase {
	for len(*q) > 0 {
		k := (*q)[0]
		*q = (*q)[1:]
		if k.w.fired < 0 {
			return k
		}
	}
	return nil
}

func live(q *[]*waitCase) bool {
	for len(*q) > 0 {
		if (*q)[0].w.fired < 0 {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (k *waitCase) index() int {
	for i := range k.w.cases {
		if &k.w.cases[i] == k {
			return i
		}
	}
	panic("sim: lost case")
}

func (w *World) fire(k *waitCase) {
	k.w.fired = k.index()
	if n := len(w.native) - 1; k.w.at >= 0 {
		last := w.native[n]
		w.native[k.w.at], last.at = last, k.w.at
		w.native = w.native[:n]
		k.w.at = -1
	}
	w.ready(k.w.g)
}

// canGo reports whether the case could complete now.
func (k *waitCase) canGo() bool {
	c := k.c
	if c == nil {
		return false
	}
	if k.send {
		return c.closed || live(&c.recvq) || len(c.buf) < c.cap
	}
	return len(c.buf) > 0 || live(&c.sendq) || c.closed
}

// run completes a case that canGo.
func (w *World) run(k *waitCase) {
	c := k.c
	g := w.cur
	if k.send {
		if c.closed {
			panic(plainError("send on closed channel"))
		}
		if r := deq(&c.recvq); r != nil {
			r.v, r.ok = k.v, true
			w.syncBoth(g, r.w.g)
			w.fire(r)
			return
		}
		it := chanItem{v: k.v}
		if w.cfg.Races {
			g.vc.join(c.vc)
			it.vc = g.vc.clone()
			g.vc.tick(g.id)
		}
		c.buf = append(c.buf, it)
		return
	}
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append(c.buf[:0:0], c.buf[1:]...)
		k.v, k.ok = it.v, true
		if w.cfg.Races {
			g.vc.join(it.vc)
			c.vc.join(g.vc)
			g.vc.tick(g.id)
		}
		if s := deq(&c.sendq); s != nil {
			it := chanItem{v: s.v}
			if w.cfg.Races {
				s.w.g.vc.join(c.vc)
				it.vc = s.w.g.vc.clone()
				s.w.g.vc.tick(s.w.g.id)
			}
			c.buf = append(c.buf, it)
			w.fire(s)
		}
		return
	}
	if s := deq(&c.sendq); s != nil {
		k.v, k.ok = s.v, true
		w.syncBoth(g, s.w.g)
		w.fire(s)
		return
	}
	if c.closed {
		k.v, k.ok = nil, false
		if w.cfg.Races {
			g.vc.join(c.vc)
		}
		return
	}
	panic("sim: case not ready")
}

func (w *World) syncBoth(a, b *G) {
	if w.cfg.Races {
		a.vc.join(b.vc)
		b.vc.join(a.vc)
		a.vc.tick(a.id)
		b.vc.tick(b.id)
	}
}

// exec performs a select over cases and returns the index of the one taken,
// or -1 for the default.
func (w *World) exec(wt *wait, hasDefault bool) int {
	w.syncPoint()
	g := w.cur
	wt.g = g
	wt.fired, wt.at = -1, -1
	var ready []int
	for i := range wt.cases {
		if wt.cases[i].canGo() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[w.Src.Intn(len(ready))]
		}
		w.run(&wt.cases[i])
		wt.fired = i
		return i
	}
	for i := range wt.cases {
		k := &wt.cases[i]
		if k.poll != nil && k.c != nil {
			if v, ok, sel := k.poll(); sel {
				k.v, k.ok = v, ok
				wt.fired = i
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	why := "select"
	if len(wt.cases) == 1 {
		why = "chan receive"
		if wt.cases[0].send {
			why = "chan send"
		}
	}
	for i := range wt.cases {
		k := &wt.cases[i]
		k.w = wt
		if k.c == nil {
			continue
		}
		if k.send {
			k.c.sendq = append(k.c.sendq, k)
		} else {
			k.c.recvq = append(k.c.recvq, k)
			if wt.at < 0 {
				wt.at = len(w.native)
				w.native = append(w.native, wt)
			}
		}
	}
	w.block(why)
	if w.dying {
		panic(kill{})
	}
	k := &wt.cases[wt.fired]
	if k.send && !k.ok {
		panic(plainError("send on closed channel"))
	}
	return wt.fired
}

// pollNative looks for blocked receives that a native close or send made
// ready. It runs only when nothing else can.
func (w *World) pollNative() bool {
	for _, wt := range w.native {
		for i := range wt.cases {
			k := &wt.cases[i]
			if k.poll == nil || k.c == nil {
				continue
			}
			if v, ok, sel := k.poll(); sel {
				k.v, k.ok = v, ok
				w.fire(k)
				return true
			}
		}
	}
	return false
}

func (w *World) closeChan(c *chanState) {
	w.syncPoint()
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	if w.cfg.Races {
		c.vc.join(w.cur.vc)
		w.cur.vc.tick(w.cur.id)
	}
	for r := deq(&c.recvq); r != nil; r = deq(&c.recvq) {
		r.v, r.ok = nil, false
		if w.cfg.Races {
			r.w.g.vc.join(c.vc)
		}
		w.fire(r)
	}
	for s := deq(&c.sendq); s != nil; s = deq(&c.sendq) {
		s.ok = false
		w.fire(s)
	}
}

func pollOf[T any](ch <-chan T) func() (any, bool, bool) {
	return func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
}

// need returns the current world or panics.
func need() *World {
	w := W
	if w == nil {
		panic("sim: blocking operation outside a simulation")
	}
	if w.cur == nil && !w.dying {
		panic("sim: operation from the scheduler")
	}
	return w
}

// Case is one case of a select.
type Case interface{ waitCase(w *World) waitCase }

// RCase is a receive case; V and OK hold its outcome.
type RCase[T any] struct {
	ch  <-chan T
	V   T
	OK  bool
	got any
}

func (r *RCase[T]) waitCase(w *World) waitCase {
	return waitCase{c: w.chanOf(chanPtr(&r.ch), cap(r.ch)), poll: pollOf(r.ch)}
}

func (r *RCase[T]) set(k *waitCase) {
	r.V, _ = k.v.(T)
	r.OK = k.ok
}

// RecvCase builds a receive case.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

func (s *SCase[T]) waitCase(w *World) waitCase {
	return waitCase{c: w.chanOf(chanPtr(&s.ch), cap(s.ch)), send: true, v: s.v, ok: true}
}

// SC starts a send case.
func SC[T any](ch chan<- T) *SCase[T] { return &SCase[T]{ch: ch} }

// V sets the value a send case sends.
func (s *SCase[T]) Val(v T) *SCase[T] { s.v = v; return s }

// Select performs a select; -1 means the default case.
func Select(hasDefault bool, cases ...Case) int {
	w := need()
	wt := &wait{cases: make([]waitCase, len(cases))}
	for i, c := range cases {
		wt.cases[i] = c.waitCase(w)
		wt.cases[i].w = wt
	}
	i := w.exec(wt, hasDefault)
	if i >= 0 {
		if r, ok := cases[i].(interface{ set(*waitCase) }); ok {
			r.set(&wt.cases[i])
		}
	}
	return i
}

// Sender is the target of a send statement.
type Sender[T any] struct{ ch chan<- T }

// To wraps a channel for sending.
func To[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Send performs ch <- v.
func (s Sender[T]) Send(v T) {
	w := need()
	wt := &wait{cases: make([]waitCase, 1)}
	wt.cases[0] = waitCase{w: wt, c: w.chanOf(chanPtr(&s.ch), cap(s.ch)), send: true, v: v, ok: true}
	w.exec(wt, false)
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	w := need()
	wt := &wait{cases: make([]waitCase, 1)}
	wt.cases[0] = waitCase{w: wt, c: w.chanOf(chanPtr(&ch), cap(ch)), poll: pollOf(ch)}
	w.exec(wt, false)
	v, _ := wt.cases[0].v.(T)
	return v, wt.cases[0].ok
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// TryRecv receives without blocking; sel is false if nothing was ready.
func TryRecv[T any](ch <-chan T) (v T, ok, sel bool) {
	r := RecvCase(ch)
	if Select(true, r) < 0 {
		return v, false, false
	}
	return r.V, r.OK, true
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	w := W
	if w == nil {
		close(ch)
		return
	}
	w.closeChan(w.chanOf(chanPtr(&ch), cap(ch)))
}

// Len performs len(ch).
func Len[T any](ch <-chan T) int {
	w := W
	if w == nil || ch == nil {
		return len(ch)
	}
	return len(w.chanOf(chanPtr(&ch), cap(ch)).buf)
}

// Range performs for v := range ch.
func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Block performs select {}.
func Block() {
	w := need()
	w.syncPoint()
	w.block("select (no cases)")
	panic(kill{})
}

// IsClosed reports whether the run has closed ch, for oracles.
func IsClosed[T any](ch <-chan T) bool {
	w := W
	c := w.chanOf(chanPtr(&ch), cap(ch))
	return c != nil && c.closed
}

func (w *World) String() string { return fmt.Sprintf("world %d", w.gen) }
