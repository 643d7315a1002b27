package sim

import (
	"container/heap"
	"fmt"
	"iter"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"net"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// W is the run in progress, or nil.
var W *World

type gstate byte

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDead
)

// G is a simulated goroutine.
type G struct {
	id    int
	name  string
	lib   bool // started by instrumented code
	state gstate
	why   string // what it is blocked on
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	prio  int
	vc    vclock
}

// kill is the panic value used to unwind goroutines at the end of a run.
type kill struct{}

// Panic describes a panic that would have crashed the process.
type Panic struct {
	G     string
	Value string
	Stack string
}

// Config bounds and shapes a run.
type Config struct {
	MaxSteps int // statement steps before the run counts as stuck
	Trace    bool
	Races    bool
	Places   bool // note where accesses are, to report races with
}

// Stats counts what a run did.
type Stats struct {
	Steps       int
	Switches    int
	Preemptions int
	SyncOps     int
	Goroutines  int
	SimTime     time.Duration
	Faults      map[string]int
	Probes      map[string]int
}

// World is one simulated execution.
type World struct {
	Src   *Source
	cfg   Config
	Stats Stats

	gs    []*G
	runq  []*G
	cur   *G
	now   time.Duration
	timer timerHeap
	tseq  uint64

	chans  map[unsafe.Pointer]*chanState
	shadow map[unsafe.Pointer]*shadowCell
	Race   string
	atomVC vclock

	meanYield, meanSync int
	policy              int
	yieldIn, syncIn     int // Y() and sync operations until the next forced switch; -1 never
	moreSteps           int // added to the budget during the run
	budgetIn            int // Y() calls until the step limit
	fairAfter           int

	mainG    *G
	settling bool
	settleBy time.Duration

	dying     bool
	aborted   bool
	stepsLeft int
	Crash     *Panic // first panic of a goroutine
	Stuck     string // set when the step budget ran out
	Hung      bool   // the scenario itself blocked forever
	Hash      uint64 // hash of the schedule
	EvHash    uint64 // hash of the event log
	Log       []string
	gen       uint64
	native    []*wait // blocked with receives, which native code may complete
	randN     uint64
	rand1     *mrand.Rand
	rand2     *mrand2.Rand
	Secure    [][]byte // what was read from the secure random source
	OnListen  func(network, bind string) (net.Listener, error)
}

var generation uint64

// Epoch is the simulated wall clock at time zero.
var Epoch = time.Date(2016, 4, 29, 12, 0, 0, 0, time.UTC)

// Run executes scenario as the first goroutine of a fresh world.
func Run(src *Source, cfg Config, scenario func(w *World)) *World {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4000000
	}
	w := &World{
		Src:    src,
		cfg:    cfg,
		chans:  make(map[unsafe.Pointer]*chanState),
		Hash:   14695981039346656037,
		EvHash: 14695981039346656037,
	}
	generation++
	w.gen = generation
	w.Stats.Faults = make(map[string]int)
	w.Stats.Probes = make(map[string]int)
	if cfg.Races {
		w.shadow = make(map[unsafe.Pointer]*shadowCell)
	}
	// Swarm configuration of the scheduler.
	w.policy = src.Intn(4)
	w.meanYield = []int{0, 400, 60, 12, 4}[src.Intn(5)]
	w.meanSync = []int{0, 12, 4, 1}[src.Intn(4)]
	w.fairAfter = 30000
	resetPackages()
	W = w
	w.yieldIn = -1
	w.syncIn = -1
	w.budgetIn = cfg.MaxSteps
	w.rearmYield()
	w.rearmSync()
	w.mainG = w.spawn("scenario", func() { scenario(w) }, false)
	w.loop()
	w.Stats.SimTime = w.now
	w.Stats.Goroutines = len(w.gs)
	w.stepsLeft = w.budgetIn - w.moreSteps
	w.killAll()
	W = nil
	return w
}

func (w *World) rearmYield() {
	w.yieldIn = -1
	if w.Stats.Switches < w.fairAfter {
		if n := w.Src.countdown(w.meanYield); n > 0 {
			w.yieldIn = n
		}
	}
}

func (w *World) rearmSync() {
	w.syncIn = -1
	if w.Stats.Switches < w.fairAfter {
		if n := w.Src.countdown(w.meanSync); n > 0 {
			w.syncIn = n
		}
	}
}

func (w *World) spawn(name string, f func(), lib bool) *G {
	g := &G{id: len(w.gs), name: name, lib: lib}
	if w.policy == 3 && w.Stats.Switches < w.fairAfter {
		g.prio = 1 + w.Src.Intn(64)
	}
	w.gs = append(w.gs, g)
	if w.cfg.Races {
		if w.cur != nil {
			g.vc = w.cur.vc.clone()
			w.cur.vc.tick(w.cur.id)
		}
		g.vc.tick(g.id)
	}
	g.next, g.stop = iter.Pull(func(yield func(struct{}) bool) {
		g.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(kill); ok || w.dying {
					return
				}
				if w.Crash == nil {
					w.Crash = &Panic{G: g.name, Value: fmt.Sprint(r), Stack: string(debug.Stack())}
				}
			}
		}()
		f()
	})
	g.state = gRunnable
	w.runq = append(w.runq, g)
	return g
}

// park switches back to the scheduler; the caller has set g.state.
func (w *World) park(g *G) {
	if !g.yield(struct{}{}) {
		panic(kill{})
	}
}

func (w *World) loop() {
	for {
		if w.Crash != nil || w.Stuck != "" || w.Race != "" || w.aborted || w.mainG.state == gDead {
			return
		}
		w.fireTimers(false)
		if len(w.runq) == 0 {
			if len(w.native) > 0 && w.pollNative() {
				continue
			}
			if w.settling && (len(w.timer) == 0 || w.timer[0].at > w.settleBy) {
				if len(w.timer) > 0 && w.settleBy > w.now {
					w.now = w.settleBy
				}
				w.settling = false
				w.ready(w.mainG)
				continue
			}
			if w.fireTimers(true) {
				continue
			}
			w.Hung = true
			return
		}
		if w.settling && w.now > w.settleBy {
			w.settling = false
			w.ready(w.mainG)
		}
		g := w.pick()
		w.Stats.Switches++
		w.now += time.Microsecond
		w.Hash = (w.Hash ^ uint64(g.id+1)) * 1099511628211
		w.cur = g
		g.state = gRunning
		_, alive := g.next()
		w.cur = nil
		if !alive {
			g.state = gDead
		}
	}
}

func (w *World) pick() *G {
	n := len(w.runq)
	i := 0
	if n > 1 && w.Stats.Switches < w.fairAfter {
		switch w.policy {
		case 0: // first in, first out
		case 1: // uniform
			i = w.Src.Intn(n)
		case 2: // mostly newest first
			i = w.Src.Draw(n, func(r *rng) int {
				if r.intn(4) == 0 {
					return r.intn(n)
				}
				return n - 1
			})
		case 3: // random priorities that occasionally change
			i = w.Src.Draw(n, func(r *rng) int {
				best := 0
				for j, g := range w.runq {
					if g.prio > w.runq[best].prio {
						best = j
					}
				}
				return best
			})
			if w.Src.Chance(0.05) {
				w.runq[i].prio = w.Src.Intn(65) - 64
			}
		}
	}
	g := w.runq[i]
	w.runq = append(w.runq[:i], w.runq[i+1:]...)
	return g
}

func (w *World) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		g.why = ""
		w.runq = append(w.runq, g)
	}
}

// block parks the current goroutine until something calls ready on it.
func (w *World) block(why string) {
	g := w.cur
	g.state = gBlocked
	g.why = why
	w.park(g)
}

// Y is a preemption point: instrumented code calls it before every statement.
func Y() {
	w := W
	if w == nil {
		return
	}
	w.budgetIn--
	w.yieldIn--
	if w.budgetIn > 0 && w.yieldIn != 0 {
		return
	}
	w.slowY()
}

func (w *World) slowY() {
	if w.dying {
		panic(kill{})
	}
	if w.cur == nil {
		return
	}
	if w.budgetIn <= 0 {
		if w.Stuck == "" {
			w.Stuck = fmt.Sprintf("step budget (%d) exhausted in goroutine %q\n%s", w.cfg.MaxSteps, w.cur.name, debug.Stack())
		}
		w.cur.state = gBlocked
		w.park(w.cur)
	}
	w.rearmYield()
	w.preempt()
}

func (w *World) preempt() {
	g := w.cur
	if len(w.runq) == 0 {
		return
	}
	w.Stats.Preemptions++
	g.state = gRunnable
	w.runq = append(w.runq, g)
	w.park(g)
}

// syncPoint is called before every synchronisation operation.
func (w *World) syncPoint() {
	if w.dying {
		panic(kill{})
	}
	w.Stats.SyncOps++
	w.budgetIn--
	if w.budgetIn <= 0 {
		w.slowY()
	}
	w.syncIn--
	if w.syncIn == 0 {
		w.rearmSync()
		w.preempt()
	}
}

// Go starts f as a new goroutine of instrumented code.
func Go(f func()) {
	w := W
	if w == nil {
		panic("sim: go statement outside a simulation")
	}
	w.syncPoint()
	w.spawn("lib", f, true)
}

// Go starts f as a goroutine of the scenario.
func (w *World) Go(name string, f func()) *G {
	return w.spawn(name, f, false)
}

// Abort ends the run: the calling goroutine does not continue.
func (w *World) Abort() {
	if w.dying {
		panic(kill{})
	}
	w.aborted = true
	w.block("abort")
	panic(kill{})
}

// Cur is the name of the running goroutine.
func (w *World) Cur() string {
	if w.cur == nil {
		return "scheduler"
	}
	return w.cur.name
}

// Dying reports whether the run is being torn down.
func (w *World) Dying() bool { return w.dying }

// GoroutineDump lists every live goroutine and what it waits for.
func (w *World) GoroutineDump() string {
	var b strings.Builder
	for _, g := range w.gs {
		if g.state != gDead {
			why := g.why
			if why == "" {
				why = "runnable"
			}
			fmt.Fprintf(&b, " %s#%d: %s;", g.name, g.id, why)
		}
	}
	return b.String()
}

// Yield gives other goroutines a chance to run.
func (w *World) Yield() { w.preempt() }

// Gosched replaces runtime.Gosched.
func Gosched() {
	if w := W; w != nil && w.cur != nil && !w.dying {
		w.preempt()
	}
}

// Settle blocks the scenario until every other goroutine is blocked and no
// timer is pending, or the given amount of simulated time has passed. It
// reports whether the world became idle.
func (w *World) Settle(d time.Duration) bool {
	if w.cur != w.mainG {
		panic("sim: Settle outside the scenario goroutine")
	}
	w.settling = true
	w.settleBy = w.now + d
	w.block("settle")
	if w.cfg.Races {
		// Everybody else is at rest: the scenario may look at anything.
		for _, g := range w.gs {
			if g != w.mainG {
				w.mainG.vc.join(g.vc)
			}
		}
	}
	return len(w.runq) == 0 && len(w.timer) == 0
}

// Now is the simulated time since the start of the run.
func (w *World) Now() time.Duration { return w.now }

// Live lists the goroutines that instrumented code started and that have not
// ended, with what each is blocked on.
func (w *World) Live() []string {
	var out []string
	for _, g := range w.gs {
		if g.lib && g.state != gDead {
			out = append(out, fmt.Sprintf("goroutine %d (%s)", g.id, g.why))
		}
	}
	return out
}

// Done reports whether g has ended.
func (g *G) Done() bool { return g.state == gDead }

// Blocked reports what g is blocked on, or "".
func (g *G) Blocked() string { return g.why }

// Name returns g's name.
func (g *G) Name() string { return g.name }

// Fault counts an injected fault that actually fired.
func (w *World) Fault(kind string) {
	w.Stats.Faults[kind]++
	w.Logf("FAULT %s", kind)
}

// Probe counts that a rare condition was reached.
func (w *World) Probe(name string) { w.Stats.Probes[name]++ }

// Logf records an event of the run. It draws nothing and reads no clock.
func (w *World) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for i := 0; i < len(s); i++ {
		w.EvHash = (w.EvHash ^ uint64(s[i])) * 1099511628211
	}
	w.EvHash = (w.EvHash ^ 0xff) * 1099511628211
	if w.cfg.Trace {
		who := "-"
		if w.cur != nil {
			who = fmt.Sprintf("%s#%d", w.cur.name, w.cur.id)
		}
		w.Log = append(w.Log, fmt.Sprintf("t=%v sw=%d %s: %s", w.now, w.Stats.Switches, who, s))
	}
}

// killAll unwinds every goroutine that is still alive.
func (w *World) killAll() {
	w.dying = true
	w.budgetIn = 0
	w.yieldIn = 0
	for _, g := range w.gs {
		if g.state != gDead {
			w.cur = g
			g.stop()
			g.state = gDead
		}
	}
	w.cur = nil
}

// timers

type timerEv struct {
	at   time.Duration
	seq  uint64
	f    func()
	dead bool
	idx  int
}

type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timerEv); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// At schedules f to run (in scheduler context: it must not block) after d.
func (w *World) At(d time.Duration, f func()) *timerEv {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &timerEv{at: w.now + d, seq: w.tseq, f: f}
	heap.Push(&w.timer, t)
	return t
}

func (w *World) cancel(t *timerEv) bool {
	if t == nil || t.idx < 0 || t.dead {
		return false
	}
	heap.Remove(&w.timer, t.idx)
	t.dead = true
	return true
}

// fireTimers runs due timers; with jump it first advances to the next one.
func (w *World) fireTimers(jump bool) bool {
	if jump && len(w.timer) > 0 && w.timer[0].at > w.now {
		w.now = w.timer[0].at
	}
	fired := false
	for len(w.timer) > 0 && w.timer[0].at <= w.now {
		t := heap.Pop(&w.timer).(*timerEv)
		t.dead = true
		fired = true
		t.f()
	}
	return fired
}

// Sleep blocks the calling goroutine for d of simulated time.
func Sleep(d time.Duration) {
	w := W
	if w.dying {
		panic(kill{})
	}
	g := w.cur
	if d <= 0 {
		w.preempt()
		return
	}
	w.At(d, func() { w.ready(g) })
	w.block("sleep")
}

// Trim shortens a stack for reports.
func Trim(stack string, lines int) string {
	ls := strings.Split(stack, "\n")
	if len(ls) > lines {
		ls = ls[:lines]
	}
	return strings.Join(ls, "\n")
}

// MoreSteps extends the step budget of a run that is known to be long.
func (w *World) MoreSteps(n int) {
	w.budgetIn += n
	w.moreSteps += n
}

// StepsLeft is what remains of the step budget.
func (w *World) StepsLeft() int {
	if w.stepsLeft > 0 {
		return w.stepsLeft
	}
	return 0
}
