// Package kit runs simulated executions in bulk: seeds, workers, known
// findings, minimisation, replay files and evidence.
package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sim"
)

// Prop is one property and the scenario that decides it.
type Prop struct {
	ID       string
	Scenario func(t *T)
	Quick    int // runs
	Thorough int
	Races    bool
	MaxSteps int
	Real     []string // components that ran real code
	Stubs    []string // components that ran a stand-in
	Rule     string
	Oracle   string
	Assume   []string
	Known    []Known
}

// Known is a probe for a recorded finding: a scenario that fails while the
// finding stands.
type Known struct {
	ID       string
	Scenario func(t *T)
}

// T is a run as its scenario sees it.
type T struct {
	*sim.World
	fail *Failure

	// OnlyRaces leaves everything but races to the checks of other properties.
	OnlyRaces bool

	whole *T // the run this is a part of, if it is
	rest  func(d time.Duration) bool
}

// top is the run t is a part of.
func (t *T) top() *T {
	if t.whole != nil {
		return t.whole
	}
	return t
}

// Settle blocks the scenario until everything is at rest; see sim.World.
func (t *T) Settle(d time.Duration) bool {
	if t.rest != nil {
		return t.rest(d)
	}
	return t.World.Settle(d)
}

// Together runs several scenarios in one world, at the same time. Each sees the
// others come to rest before it goes on from Settle.
func (t *T) Together(scenarios ...func(*T)) {
	arrive := make(chan bool, len(scenarios))
	var longest time.Duration
	var waiting []chan bool
	for i, f := range scenarios {
		part := &T{World: t.World, whole: t.top()}
		part.rest = func(d time.Duration) bool {
			ch := make(chan bool)
			waiting = append(waiting, ch)
			longest = max(longest, d)
			sim.To((chan<- bool)(arrive)).Send(true)
			return sim.Recv((<-chan bool)(ch))
		}
		t.Go(fmt.Sprintf("scenario %d", i), func() {
			f(part)
			sim.To((chan<- bool)(arrive)).Send(false)
		})
	}
	for n := len(scenarios); n > 0; {
		for range n {
			if !sim.Recv((<-chan bool)(arrive)) {
				n--
			}
		}
		if n == 0 {
			return
		}
		idle := t.Settle(longest)
		woken := waiting
		waiting, longest = nil, 0
		for _, ch := range woken {
			sim.To((chan<- bool)(ch)).Send(idle)
		}
	}
}

// Failure is a violation of a property in one run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Failf records a violation and ends the run.
func (t *T) Failf(class, format string, args ...any) {
	if t.Dying() {
		t.Abort()
	}
	if top := t.top(); top.fail == nil && !top.OnlyRaces {
		top.fail = &Failure{class, fmt.Sprintf(format, args...)}
		t.Logf("VIOLATION %s: %s", class, top.fail.Msg)
	}
	t.Abort()
}

// Failed reports whether a violation was recorded.
func (t *T) Failed() bool { return t.top().fail != nil }

type outcome struct {
	w    *sim.World
	fail *Failure
	bad  string // harness trouble
}

func exec1(p *Prop, scenario func(*T), src *sim.Source, trace bool) outcome {
	var t *T
	exec := func(src *sim.Source, places bool) *sim.World {
		t = &T{}
		cfg := sim.Config{MaxSteps: p.MaxSteps, Trace: trace, Races: p.Races, Places: places}
		return sim.Run(src, cfg, func(w *sim.World) {
			t.World = w
			scenario(t)
		})
	}
	w := exec(src, trace)
	if w.Race != "" && !trace {
		// Once more, to find out where it is.
		w = exec(sim.NewReplay(append([]uint32(nil), w.Src.Rec...)), true)
	}
	o := outcome{w: w, fail: t.fail}
	switch {
	case t.fail != nil:
	case w.Race != "":
		o.fail = &Failure{"race", w.Race}
	case t.OnlyRaces && (w.Crash == nil || !harnessPanic(w.Crash.Stack)):
	case w.Crash != nil:
		if harnessPanic(w.Crash.Stack) {
			o.bad = "panic in harness: " + w.Crash.Value + "\n" + sim.Trim(w.Crash.Stack, 60)
		} else {
			o.fail = &Failure{"panic", fmt.Sprintf("goroutine %q panicked: %s; %s", w.Crash.G, w.Crash.Value, panicSite(w.Crash.Stack))}
		}
	case w.Stuck != "":
		o.fail = &Failure{"livelock", sim.Trim(w.Stuck, 1) + "; " + panicSite(w.Stuck)}
	case w.Hung:
		o.fail = &Failure{"deadlock", "the scenario can make no progress:" + w.GoroutineDump()}
	}
	return o
}

// frames lists the functions of a stack trace, innermost first, after the
// last runtime panic frame.
func frames(stack string) []string {
	var fs []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "panic(") {
			fs = nil
			continue
		}
		fs = append(fs, l)
	}
	return fs
}

// harnessPanic reports whether a panic came from the harness itself rather
// than from library code it runs.
func harnessPanic(stack string) bool {
	for _, f := range frames(stack) {
		if strings.Contains(f, "WatchBeam/rtmp") {
			return false
		}
		if strings.HasPrefix(f, "verif/harness") || strings.HasPrefix(f, "main.") {
			return true
		}
	}
	return false
}

func panicSite(stack string) string {
	for _, f := range frames(stack) {
		if i := strings.Index(f, "WatchBeam/rtmp"); i >= 0 {
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			return "in " + strings.TrimPrefix(f[i:], "WatchBeam/rtmp/")
		}
	}
	return ""
}

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Probe    string   `json:"probe,omitempty"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	EvHash   uint64   `json:"event_hash"`
	Choices  []uint32 `json:"choices"`
	Original int      `json:"original_choices"`
	Steps    int      `json:"steps"`
	Switches int      `json:"switches"`
	Faults   any      `json:"faults"`
	Trace    []string `json:"trace"`
}

type workerOut struct {
	Runs     int
	Steps    int64
	Switches int64
	Preempt  int64
	SyncOps  int64
	Gs       int64
	SimTime  time.Duration
	Faults   map[string]int
	Probes   map[string]int
	Hashes   []uint64 // distinct non-trivial
	States   int
	Fails    []failRun
	Bad      string
	BadRun   int
	Diverged int
	Checked  int
	Timeout  bool
}

type failRun struct {
	Run  int
	Seed uint64
	Failure
}

// Main is the entry point of a harness binary.
func Main(props []*Prop) {
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	by := map[string]*Prop{}
	for _, p := range props {
		by[p.ID] = p
		if p.MaxSteps == 0 {
			p.MaxSteps = 25000000
		}
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: run|work|minimise|replay|list")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "master seed")
	tier := fs.String("tier", "quick", "quick or thorough")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 0, "end of runs")
	step := fs.Int("step", 1, "stride")
	workers := fs.Int("workers", runtime.NumCPU(), "worker processes")
	evidence := fs.String("evidence", "", "evidence file")
	replays := fs.String("replays", "", "directory for replay files")
	known := fs.String("known", "", "known findings file")
	runs := fs.Int("runs", 0, "override the number of runs")
	limit := fs.Duration("limit", 0, "wall-clock limit")
	wall0 := fs.Float64("wall0", 0, "seconds already spent building")
	trace := fs.Bool("trace", false, "print the trace")
	probe := fs.String("probe", "", "probe id")
	fs.Parse(os.Args[2:])
	need := func() *Prop {
		p := by[*prop]
		if p == nil {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
			os.Exit(2)
		}
		return p
	}
	switch mode {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "work":
		work(need(), *seed, *from, *to, *step, *limit)
	case "one":
		p := need()
		o := exec1(p, p.Scenario, sim.NewSource(runSeed(p, *seed, *from)), true)
		if *trace {
			for _, l := range o.w.Log {
				fmt.Println(l)
			}
		}
		fmt.Println("hash", o.w.Hash, "ev", o.w.EvHash, "stats", o.w.Stats, "bad", o.bad)
		if o.fail != nil {
			fmt.Println(o.fail.Class, o.fail.Msg)
			if o.w.Crash != nil {
				fmt.Println(o.w.Crash.Stack)
			}
			fmt.Println(o.w.Stuck)
		}
	case "minimise":
		minimise(need(), *seed, *from, *probe, fs.Arg(0))
	case "probe":
		runProbe(need(), *probe)
	case "replay":
		replay(by, fs.Arg(0))
	case "run":
		p := need()
		n := p.Quick
		if *tier == "thorough" {
			n = p.Thorough
		}
		if *runs > 0 {
			n = *runs
		}
		os.Exit(drive(p, n, *seed, *tier, *workers, *evidence, *replays, *known, *limit, *wall0))
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

func runSeed(p *Prop, master uint64, i int) uint64 {
	return sim.Mix(master, sim.HashString(p.ID), uint64(i))
}

func work(p *Prop, master uint64, from, to, step int, limit time.Duration) {
	out := workerOut{Faults: map[string]int{}, Probes: map[string]int{}}
	seen := map[uint64]bool{}
	states := map[uint64]bool{}
	start := time.Now()
	bw := bufio.NewWriter(os.Stdout)
	classes := map[string]int{}
	for i := from; i < to; i += step {
		if limit > 0 && time.Since(start) > limit {
			out.Timeout = true
			break
		}
		fmt.Fprintf(bw, "R %d\n", i)
		bw.Flush()
		sd := runSeed(p, master, i)
		o := exec1(p, p.Scenario, sim.NewSource(sd), false)
		w := o.w
		if o.bad != "" {
			out.Bad, out.BadRun = o.bad, i
			break
		}
		out.Runs++
		out.Steps += int64(p.MaxSteps - w.StepsLeft())
		out.Switches += int64(w.Stats.Switches)
		out.Preempt += int64(w.Stats.Preemptions)
		out.SyncOps += int64(w.Stats.SyncOps)
		out.Gs += int64(w.Stats.Goroutines)
		out.SimTime += w.Stats.SimTime
		nf := 0
		for k, v := range w.Stats.Faults {
			out.Faults[k] += v
			nf += v
		}
		for k, v := range w.Stats.Probes {
			out.Probes[k] += v
		}
		if len(states) < 1500000 {
			states[w.EvHash] = true
		}
		if (w.Stats.Preemptions > 0 || nf > 0) && len(seen) < 1500000 {
			seen[sim.Mix(w.Hash, w.EvHash)] = true
		}
		if o.fail != nil {
			classes[o.fail.Class]++
			if classes[o.fail.Class] <= 2 {
				out.Fails = append(out.Fails, failRun{i, sd, *o.fail})
			}
			if len(out.Fails) >= 6 || classes[o.fail.Class] > 20 {
				break
			}
		}
		// Determinism self-check on a sample of runs.
		if (i/step)%50 == 7 && o.fail == nil {
			out.Checked++
			o2 := exec1(p, p.Scenario, sim.NewReplay(w.Src.Rec), false)
			if o2.w.Hash != w.Hash || o2.w.EvHash != w.EvHash {
				out.Diverged++
			}
		}
	}
	for h := range seen {
		out.Hashes = append(out.Hashes, h)
	}
	out.States = len(states)
	b, _ := json.Marshal(out)
	fmt.Fprintf(bw, "O %s\n", b)
	bw.Flush()
}

type knownEntry struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func loadKnown(path, prop string) ([]knownEntry, error) {
	if path == "" {
		return nil, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var doc struct {
		Findings []knownEntry `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		return nil, err
	}
	var out []knownEntry
	for _, k := range doc.Findings {
		if k.Property == prop && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out, nil
}

func drive(p *Prop, n int, seed uint64, tier string, workers int, evidence, replays, known string, limit time.Duration, wall0 float64) int {
	start := time.Now()
	self, _ := os.Executable()
	if workers > n {
		workers = n
	}
	fmt.Printf("property %s: seed %d, %d runs, %d workers\n", p.ID, seed, n, workers)
	type res struct {
		out  workerOut
		last int
		err  error
		tail string
	}
	ch := make(chan res, workers)
	for k := 0; k < workers; k++ {
		go func() {
			var r res
			r.last = -1
			args := []string{"work", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-to", fmt.Sprint(n), "-step", fmt.Sprint(workers), "-limit", limit.String()}
			cmd := exec.Command(self, args...)
			var errb bytes.Buffer
			cmd.Stderr = &errb
			pipe, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				r.err = err
				ch <- r
				return
			}
			beat := make(chan struct{}, 1)
			done := make(chan struct{})
			go func() {
				for {
					select {
					case <-beat:
					case <-done:
						return
					case <-time.After(120 * time.Second):
						cmd.Process.Kill()
						return
					}
				}
			}()
			got := false
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			for sc.Scan() {
				l := sc.Text()
				select {
				case beat <- struct{}{}:
				default:
				}
				if strings.HasPrefix(l, "R ") {
					r.last, _ = strconv.Atoi(l[2:])
				} else if strings.HasPrefix(l, "O ") {
					got = json.Unmarshal([]byte(l[2:]), &r.out) == nil
				}
			}
			err = cmd.Wait()
			close(done)
			if !got {
				r.err = fmt.Errorf("worker ended early: %v", err)
				r.tail = errb.String()
			}
			ch <- r
		}()
	}
	tot := workerOut{Faults: map[string]int{}, Probes: map[string]int{}}
	hashes := map[uint64]bool{}
	var fails []failRun
	trouble := ""
	for k := 0; k < workers; k++ {
		r := <-ch
		if r.err != nil {
			if strings.Contains(r.tail, "stack overflow") || strings.Contains(r.tail, "fatal error: concurrent map") {
				fails = append(fails, failRun{r.last, runSeed(p, seed, r.last), Failure{"fatal", "the process died: " + sim.Trim(r.tail, 2)}})
			} else {
				trouble = fmt.Sprintf("%v at run %d\n%s", r.err, r.last, sim.Trim(r.tail, 40))
			}
			continue
		}
		o := r.out
		tot.Runs += o.Runs
		tot.Steps += o.Steps
		tot.Switches += o.Switches
		tot.Preempt += o.Preempt
		tot.SyncOps += o.SyncOps
		tot.Gs += o.Gs
		tot.SimTime += o.SimTime
		tot.States += o.States
		tot.Diverged += o.Diverged
		tot.Checked += o.Checked
		tot.Timeout = tot.Timeout || o.Timeout
		for k, v := range o.Faults {
			tot.Faults[k] += v
		}
		for k, v := range o.Probes {
			tot.Probes[k] += v
		}
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		fails = append(fails, o.Fails...)
		if o.Bad != "" {
			trouble = fmt.Sprintf("run %d: %s", o.BadRun, o.Bad)
		}
	}
	searchWall := time.Since(start).Seconds()
	sort.Slice(fails, func(i, j int) bool { return fails[i].Run < fails[j].Run })

	exit := 0
	violations := 0
	// Known findings are separate probes, so the main scenario reports
	// anything it finds.
	entries, err := loadKnown(known, p.ID)
	if err != nil {
		trouble = err.Error()
	}
	for _, kn := range p.Known {
		listed := ""
		for _, e := range entries {
			if e.ID == kn.ID {
				listed = e.What
			}
		}
		out, err := exec.Command(self, "probe", "-prop", p.ID, "-probe", kn.ID).CombinedOutput()
		s := strings.TrimSpace(string(out))
		switch {
		case err == nil && s == "ok":
		case err == nil && strings.HasPrefix(s, "FAIL ") && listed != "":
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, kn.ID, listed)
		case err == nil && strings.HasPrefix(s, "FAIL "):
			path := writeReplay(self, p, seed, 0, kn.ID, replays)
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", s, p.ID, path)
			violations++
			exit = 1
		default:
			trouble = fmt.Sprintf("probe %s: %v %s", kn.ID, err, s)
		}
	}
	if len(fails) > 0 {
		f := fails[0]
		fmt.Printf("run %d (seed %d) broke the property: %s: %s\n", f.Run, f.Seed, f.Class, f.Msg)
		path := writeReplay(self, p, seed, f.Run, "", replays)
		violations += len(fails)
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	} else if trouble != "" {
		fmt.Fprintf(os.Stderr, "harness error: %s\n", trouble)
		exit = 2
	}
	// A sample: the first run, written out.
	var sample []string
	if out, err := exec.Command(self, "one", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-from", "0", "-trace").Output(); err == nil {
		sample = strings.Split(strings.TrimSpace(string(out)), "\n")
		if len(sample) > 60 {
			sample = append(sample[:40:40], append([]string{"..."}, sample[len(sample)-19:]...)...)
		}
	}
	if evidence != "" {
		wall := time.Since(start).Seconds() + wall0
		ev := map[string]any{
			"property": p.ID,
			"tier":     tier,
			"seed":     seed,
			"level":    "exploration",
			"wall_s":   wall,
			"coverage": map[string]any{
				"evaluations":           tot.Runs,
				"distinct_nontrivial":   len(hashes),
				"rule":                  p.Rule + " One run is one seed; it is non-trivial if at least one goroutine was preempted at a point the scheduler drew or at least one transport fault or fragmentation was injected; two runs are distinct if the hash of their (schedule, event log) differs. Each worker stops counting distinct runs at 1500000.",
				"samples":               sample,
				"oracle":                p.Oracle,
				"runs_per_hour":         int(float64(tot.Runs) / searchWall * 3600),
				"seeds_per_hour":        int(float64(tot.Runs) / searchWall * 3600),
				"simulated_time_s":      tot.SimTime.Seconds(),
				"statements_simulated":  tot.Steps,
				"goroutine_switches":    tot.Switches,
				"forced_preemptions":    tot.Preempt,
				"sync_operations":       tot.SyncOps,
				"goroutines":            tot.Gs,
				"faults_injected":       tot.Faults,
				"rare_conditions_hit":   tot.Probes,
				"distinct_event_logs":   tot.States,
				"determinism_rechecks":  tot.Checked,
				"determinism_diverged":  tot.Diverged,
				"stopped_by_wall_limit": tot.Timeout,
				"real_code":             p.Real,
				"stand_ins":             p.Stubs,
			},
			"assumptions": p.Assume,
			"violations":  violations,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.MkdirAll(filepath.Dir(evidence), 0o777); err == nil {
			err = os.WriteFile(evidence, append(b, '\n'), 0o666)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			if exit == 0 {
				exit = 2
			}
		}
	}
	fmt.Printf("property %s: %d runs, %d distinct, %d switches, %d preemptions, faults %v, probes %v, %.1fs search; exit %d\n",
		p.ID, tot.Runs, len(hashes), tot.Switches, tot.Preempt, tot.Faults, tot.Probes, searchWall, exit)
	if tot.Diverged > 0 {
		fmt.Printf("note: %d of %d determinism re-checks diverged\n", tot.Diverged, tot.Checked)
	}
	return exit
}

func writeReplay(self string, p *Prop, seed uint64, run int, probe, dir string) string {
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0o777)
	name := fmt.Sprintf("%s-%d-%d.json", p.ID, seed, run)
	if probe != "" {
		name = fmt.Sprintf("%s-%s.json", p.ID, probe)
	}
	path := filepath.Join(dir, name)
	os.Remove(path)
	cmd := exec.Command(self, "minimise", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(run), "-probe", probe, path)
	cmd.Stderr = os.Stderr
	cmd.Stdout = os.Stdout
	done := make(chan error, 1)
	if err := cmd.Start(); err == nil {
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	if _, err := os.Stat(path); err != nil {
		b, _ := json.MarshalIndent(Replay{Property: p.ID, Class: "unminimised", Seed: runSeed(p, seed, run), Run: run, Probe: probe}, "", " ")
		os.WriteFile(path, b, 0o666)
		return path
	}
	// The replay must fail the same way in a fresh process.
	if out, err := exec.Command(self, "replay", path).CombinedOutput(); err == nil {
		fmt.Printf("note: the replay did not reproduce: %s\n", out)
	}
	return path
}

func runProbe(p *Prop, id string) {
	for _, k := range p.Known {
		if k.ID == id {
			o := exec1(p, k.Scenario, sim.NewReplay(nil), false)
			switch {
			case o.bad != "":
				fmt.Println("BAD", o.bad)
			case o.fail != nil:
				fmt.Println("FAIL", o.fail.Class, o.fail.Msg)
			default:
				fmt.Println("ok")
			}
			return
		}
	}
	fmt.Println("BAD no such probe")
}

func scenarioOf(p *Prop, probe string) func(*T) {
	for _, k := range p.Known {
		if probe != "" && k.ID == probe {
			return k.Scenario
		}
	}
	return p.Scenario
}

func minimise(p *Prop, master uint64, run int, probe, path string) {
	sc := scenarioOf(p, probe)
	sd := runSeed(p, master, run)
	var src *sim.Source
	if probe != "" {
		src = sim.NewReplay(nil)
	} else {
		src = sim.NewSource(sd)
	}
	o := exec1(p, sc, src, true)
	if o.fail == nil {
		fmt.Fprintf(os.Stderr, "run %d does not fail when repeated\n", run)
		os.Exit(2)
	}
	best := append([]uint32(nil), o.w.Src.Rec...)
	class := o.fail.Class
	orig := len(best)
	save := func(o outcome, choices []uint32) {
		r := Replay{
			Property: p.ID, Probe: probe, Class: o.fail.Class, Message: o.fail.Msg, Seed: sd, Run: run,
			EvHash: o.w.EvHash, Choices: choices, Original: orig,
			Steps: p.MaxSteps - o.w.StepsLeft(), Switches: o.w.Stats.Switches, Faults: o.w.Stats.Faults, Trace: o.w.Log,
		}
		if len(r.Trace) > 3000 {
			r.Trace = append(r.Trace[:1500:1500], r.Trace[len(r.Trace)-1500:]...)
		}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(path, b, 0o666)
	}
	save(o, best)
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	fails := func(c []uint32) bool {
		tries++
		o := exec1(p, sc, sim.NewReplay(c), false)
		return o.bad == "" && o.fail != nil && o.fail.Class == class
	}
	over := func() bool { return time.Now().After(deadline) || tries > 6000 }
	trim := func(c []uint32) []uint32 {
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	best = trim(best)
	// Truncate.
	for lo, hi := 0, len(best); lo < hi && !over(); {
		mid := (lo + hi) / 2
		if fails(best[:mid]) {
			hi = mid
			best = trim(append([]uint32(nil), best[:mid]...))
			if hi > len(best) {
				hi = len(best)
			}
		} else {
			lo = mid + 1
		}
	}
	for round := 0; round < 6 && !over(); round++ {
		before := len(best)
		var sum uint64
		for _, v := range best {
			sum += uint64(v)
		}
		for size := len(best) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(best) && !over(); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if fails(c) {
					best = trim(c)
					continue
				}
				nz := false
				for _, v := range best[i : i+size] {
					nz = nz || v != 0
				}
				if nz {
					c = append([]uint32(nil), best...)
					for j := i; j < i+size; j++ {
						c[j] = 0
					}
					if fails(c) {
						best = trim(c)
					}
				}
				i += size
			}
		}
		for i := 0; i < len(best) && !over(); i++ {
			for best[i] > 0 && !over() {
				c := append([]uint32(nil), best...)
				c[i] /= 2
				if fails(c) {
					best = c
					continue
				}
				c[i] = best[i] - 1
				if c[i] != best[i]/2 && fails(c) {
					best = c
					continue
				}
				break
			}
		}
		best = trim(best)
		var sum2 uint64
		for _, v := range best {
			sum2 += uint64(v)
		}
		if len(best) == before && sum == sum2 {
			break
		}
	}
	o = exec1(p, sc, sim.NewReplay(best), true)
	if o.fail == nil || o.fail.Class != class {
		return // keep the file saved first
	}
	save(o, best)
	fmt.Printf("minimised %d choices to %d in %d tries: %s: %s\n", orig, len(best), tries, o.fail.Class, o.fail.Msg)
}

func replay(by map[string]*Prop, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := by[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		os.Exit(2)
	}
	var src *sim.Source
	if r.Class == "unminimised" {
		src = sim.NewSource(r.Seed)
	} else {
		src = sim.NewReplay(r.Choices)
	}
	o := exec1(p, scenarioOf(p, r.Probe), src, true)
	for _, l := range o.w.Log {
		fmt.Println(l)
	}
	if o.bad != "" {
		fmt.Println(o.bad)
		os.Exit(2)
	}
	if o.fail == nil {
		fmt.Println("replay: the property held")
		os.Exit(0)
	}
	if o.w.Crash != nil {
		fmt.Println(o.w.Crash.Stack)
	}
	fmt.Printf("%s: %s\n", o.fail.Class, o.fail.Msg)
	if r.Class != "unminimised" && (o.fail.Class != r.Class || o.w.EvHash != r.EvHash) {
		fmt.Printf("replay: failed, but not as recorded (class %s, event hash %d)\n", r.Class, r.EvHash)
	} else {
		fmt.Println("replay: reproduced exactly")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	os.Exit(1)
}
