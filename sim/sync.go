package sim

import (
	"sort"
)

// resetters restore the package-level variables of instrumented packages.
var resetters []func()

// OnReset registers the function that re-runs a package's initialisation.
func OnReset(f func()) { resetters = append(resetters, f) }

func resetPackages() {
	for _, f := range resetters {
		f()
	}
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	gen    uint64
	locked bool
	wait   []*G
	vc     vclock
}

func (m *Mutex) fresh(w *World) {
	if m.gen != w.gen {
		*m = Mutex{gen: w.gen}
	}
}

// wake readies one waiter.
func wake(w *World, q *[]*G) {
	if len(*q) == 0 {
		return
	}
	i := 0
	if len(*q) > 1 {
		i = w.Src.Intn(len(*q))
	}
	g := (*q)[i]
	*q = append((*q)[:i:i], (*q)[i+1:]...)
	w.ready(g)
}

func wakeAll(w *World, q *[]*G) {
	for _, g := range *q {
		w.ready(g)
	}
	*q = nil
}

// Lock locks m.
func (m *Mutex) Lock() {
	w := W
	if w == nil {
		return
	}
	w.syncPoint()
	m.fresh(w)
	for m.locked {
		m.wait = append(m.wait, w.cur)
		w.block("mutex")
		if w.dying {
			panic(kill{})
		}
	}
	m.locked = true
	w.acquire(m.vc)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	w := W
	if w == nil {
		return true
	}
	w.syncPoint()
	m.fresh(w)
	if m.locked {
		return false
	}
	m.locked = true
	w.acquire(m.vc)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	w := W
	if w == nil || w.dying {
		return
	}
	m.fresh(w)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	w.release(&m.vc)
	wake(w, &m.wait)
	w.syncPoint()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	gen     uint64
	writer  bool
	readers int
	pending int // writers waiting: they hold off new readers
	wait    []*G
	vc      vclock
	rvc     vclock
}

func (m *RWMutex) fresh(w *World) {
	if m.gen != w.gen {
		*m = RWMutex{gen: w.gen}
	}
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	w := W
	if w == nil {
		return
	}
	w.syncPoint()
	m.fresh(w)
	m.pending++
	for m.writer || m.readers > 0 {
		m.wait = append(m.wait, w.cur)
		w.block("rwmutex")
		if w.dying {
			panic(kill{})
		}
	}
	m.pending--
	m.writer = true
	w.acquire(m.vc)
	w.acquire(m.rvc)
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	w := W
	if w == nil {
		return true
	}
	w.syncPoint()
	m.fresh(w)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	w.acquire(m.vc)
	w.acquire(m.rvc)
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	w := W
	if w == nil || w.dying {
		return
	}
	m.fresh(w)
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	w.release(&m.vc)
	wakeAll(w, &m.wait)
	w.syncPoint()
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	w := W
	if w == nil {
		return
	}
	w.syncPoint()
	m.fresh(w)
	for m.writer || m.pending > 0 {
		m.wait = append(m.wait, w.cur)
		w.block("rwmutex (read)")
		if w.dying {
			panic(kill{})
		}
	}
	m.readers++
	w.acquire(m.vc)
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	w := W
	if w == nil {
		return true
	}
	w.syncPoint()
	m.fresh(w)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	w.acquire(m.vc)
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	w := W
	if w == nil || w.dying {
		return
	}
	m.fresh(w)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	w.release(&m.rvc)
	if m.readers == 0 {
		wakeAll(w, &m.wait)
	}
	w.syncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker over RLock and RUnlock.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	gen  uint64
	n    int
	wait []*G
	vc   vclock
}

func (wg *WaitGroup) fresh(w *World) {
	if wg.gen != w.gen {
		*wg = WaitGroup{gen: w.gen}
	}
}

// Add adds delta to the counter.
func (wg *WaitGroup) Add(delta int) {
	w := W
	if w == nil || w.dying {
		return
	}
	w.syncPoint()
	wg.fresh(w)
	if delta < 0 {
		w.release(&wg.vc)
	}
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		wakeAll(w, &wg.wait)
	}
}

// Done decrements the counter.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait blocks until the counter is zero.
func (wg *WaitGroup) Wait() {
	w := need()
	w.syncPoint()
	wg.fresh(w)
	if wg.n > 0 {
		wg.wait = append(wg.wait, w.cur)
		w.block("waitgroup")
		if w.dying {
			panic(kill{})
		}
	}
	w.acquire(wg.vc)
}

// Go runs f in a goroutine counted by wg.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() {
		defer wg.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	gen  uint64
	done bool
	mu   Mutex
}

// Do calls f once.
func (o *Once) Do(f func()) {
	w := W
	if w != nil && o.gen != w.gen {
		*o = Once{gen: w.gen}
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	wait []*condWait
}

type condWait struct {
	g    *G
	done bool
	vc   vclock
}

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	w := need()
	k := &condWait{g: w.cur}
	c.wait = append(c.wait, k)
	c.L.Unlock()
	for !k.done {
		w.block("cond")
		if w.dying {
			panic(kill{})
		}
	}
	w.acquire(k.vc)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	w := need()
	w.syncPoint()
	if len(c.wait) > 0 {
		k := c.wait[0]
		c.wait = c.wait[1:]
		k.done = true
		w.release(&k.vc)
		w.ready(k.g)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	w := need()
	w.syncPoint()
	for _, k := range c.wait {
		k.done = true
		w.release(&k.vc)
		w.ready(k.g)
	}
	c.wait = nil
}

// Pool replaces sync.Pool; it forgets its contents between runs.
type Pool struct {
	New   func() any
	gen   uint64
	items []any
	vc    vclock
}

func (p *Pool) fresh(w *World) {
	if w != nil && p.gen != w.gen {
		p.gen = w.gen
		p.items = nil
		p.vc = nil
	}
}

// Get takes an item.
func (p *Pool) Get() any {
	w := W
	if w != nil && !w.dying {
		w.syncPoint()
	}
	p.fresh(w)
	if n := len(p.items); n > 0 {
		if w != nil {
			w.acquire(p.vc)
		}
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	w := W
	if x == nil {
		return
	}
	p.fresh(w)
	if w != nil {
		w.release(&p.vc)
	}
	p.items = append(p.items, x)
	if w != nil && !w.dying {
		w.syncPoint()
	}
}

// Map replaces sync.Map; Range visits in insertion order.
type Map struct {
	gen  uint64
	m    map[any]any
	keys []any
	vc   vclock
}

func (m *Map) enter() {
	w := W
	if w != nil {
		if !w.dying && w.cur != nil {
			w.syncPoint()
		}
		if m.gen != w.gen {
			*m = Map{gen: w.gen}
		}
		w.acqRel(&m.vc)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Load(k any) (any, bool) { m.enter(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.enter(); m.set(k, v) }
func (m *Map) Delete(k any)           { m.enter(); m.del(k) }
func (m *Map) Clear()                 { m.enter(); m.m = map[any]any{}; m.keys = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// sortedKeys orders map keys structurally.
func sortedKeys[K comparable, V any](m map[K]V) []K {
	type kv struct {
		k K
		s string
	}
	ks := make([]kv, 0, len(m))
	for k := range m {
		ks = append(ks, kv{k, structural(k)})
	}
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	out := make([]K, len(ks))
	for i := range ks {
		out[i] = ks[i].k
	}
	return out
}
