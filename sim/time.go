package sim

import "time"

// Now replaces time.Now.
func Now() time.Time {
	if w := W; w != nil {
		return Epoch.Add(w.now)
	}
	return Epoch
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	ev *timerEv
}

func (t *Timer) arm(d time.Duration) {
	w := need()
	t.ev = w.At(d, func() {
		if t.f != nil {
			w.spawn("timer", t.f, true)
			return
		}
		w.deliver(t.c)
	})
}

// deliver puts the current time on a timer channel from scheduler context.
func (w *World) deliver(c chan time.Time) {
	st := w.chanOf(chanPtr(&c), cap(c))
	now := Epoch.Add(w.now)
	if r := deq(&st.recvq); r != nil {
		r.v, r.ok = now, true
		w.fire(r)
		return
	}
	if len(st.buf) < st.cap {
		st.buf = append(st.buf, chanItem{v: now})
	}
}

func (w *World) drain(c chan time.Time) {
	if c != nil {
		w.chanOf(chanPtr(&c), cap(c)).buf = nil
	}
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	w := need()
	w.syncPoint()
	ok := w.cancel(t.ev)
	w.drain(t.c)
	return ok
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.arm(d)
	return ok
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	ev   *timerEv
	dead bool
}

func (t *Ticker) arm() {
	w := need2()
	t.ev = w.At(t.d, func() {
		if !t.dead {
			w.deliver(t.c)
			t.arm()
		}
	})
}

func need2() *World {
	if W == nil {
		panic("sim: ticker outside a simulation")
	}
	return W
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	t.dead = true
	if W != nil {
		W.cancel(t.ev)
	}
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.dead = false
	t.d = d
	t.arm()
}
