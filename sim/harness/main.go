//go:build go1.23

package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	_ "github.com/exascience/pargo/zzsim/loctab"
	"github.com/exascience/pargo/zzsim/simrt"
)

// message is what a worker reports, one JSON object per line.
type message struct {
	Type   string // run, fail, sum
	Index  int64
	Seed   uint64
	Res    *Result
	Next   int64
	Done   bool
	Runs   int64
	Steps  int64
	SimNs  int64
	Stats  simrt.Stats
	Faults map[string]int64
	Probes map[string]int64
	Loads  map[string]int64
	Strats map[string]int64
	Hashes []uint64
	Triv   int64
	Hit    []string
	Other  map[string]int64
	Sample []sample
}

type sample struct {
	Seed  uint64   `json:"seed"`
	Load  string   `json:"workload"`
	Plan  []string `json:"plan"`
	Strat string   `json:"strategy"`
	Steps int64    `json:"steps"`
	Tasks int      `json:"goroutines"`
	Switc int64    `json:"context_switches"`
	Hash  string   `json:"interleaving"`
}

const (
	leakLimit = 3000
	exitError = 2
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(exitError)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "base seed")
	runs := flag.Int64("runs", 0, "number of runs (0: the tier's)")
	capS := flag.Int("cap", 0, "wall-clock cap in seconds (0: the tier's)")
	out := flag.String("out", "/verif", "where evidence and replays go")
	workers := flag.Int("workers", 0, "worker processes")
	worker := flag.Bool("worker", false, "internal")
	start := flag.Int64("start", 0, "internal")
	stride := flag.Int64("stride", 1, "internal")
	stopAt := flag.Int64("stop", 0, "internal")
	budget := flag.Duration("for", 0, "internal")
	minim := flag.String("minimise", "", "internal")
	replay := flag.String("replay", "", "replay file")
	trace := flag.Bool("trace", false, "print the trace of the replayed run")
	one := flag.Int64("one", -1, "run one index and print what happened")
	self := flag.Bool("selftest", false, "determinism self test: print fingerprints")
	list := flag.Bool("list", false, "list properties")
	all := flag.Bool("all", false, "keep going after violations and summarise classes")
	flag.Parse()
	debug.SetMaxStack(1 << 30)
	switch {
	case *list:
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	case *replay != "":
		os.Exit(replayFile(*replay, *trace))
	case *minim != "":
		minimise(*minim)
		return
	}
	p := properties[*prop]
	if p == nil {
		die("no such property %q", *prop)
	}
	switch {
	case *worker:
		work(p, uint64(*seed), *start, *stride, *stopAt, *all, *budget)
	case *self:
		n := *stopAt
		for i := *start; i < n; i += *stride {
			r := runOne(runSpec{Prop: p.id, Seed: seedOf(uint64(*seed), p.id, i)})
			fmt.Printf("%s %d %016x %d %d\n", p.id, i, r.Hash, r.Steps, len(r.Fails))
		}
	case *one >= 0:
		r := runOne(runSpec{Prop: p.id, Seed: seedOf(uint64(*seed), p.id, *one), trace: *trace})
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		for _, l := range r.Desc {
			fmt.Println("plan:", l)
		}
		for _, f := range r.Fails {
			fmt.Println("FAIL", f.Class, f.Msg, "step", f.Step)
		}
		fmt.Println(r.Load, r.Strat, "steps", r.Steps, "tasks", r.Stats.Tasks, "leaked", r.Leaked, "aborted", r.Aborted, "probes", r.Probes, "faults", r.Faults)
	default:
		d := &driver{p: p, tier: *tier, seed: *seed, out: *out, all: *all, workers: *workers}
		d.runs, d.cap = int64(p.quick), 100
		if *tier == "thorough" {
			d.runs, d.cap = int64(p.thorough), 1800
		}
		if *runs > 0 {
			d.runs = *runs
		}
		if *capS > 0 {
			d.cap = *capS
		}
		os.Exit(d.run())
	}
}

// ---------------------------------------------------------------- worker

func work(p *property, base uint64, start, stride, stop int64, all bool, budget time.Duration) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(300)
	o := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(o)
	sum := &message{Type: "sum", Faults: map[string]int64{}, Probes: map[string]int64{}, Loads: map[string]int64{}, Strats: map[string]int64{}, Other: map[string]int64{}}
	leaked := 0
	began := time.Now()
	last := began
	i := start
	for ; i < stop; i += stride {
		if budget > 0 && i > start && time.Since(began) > budget {
			break
		}
		if time.Since(last) > time.Second || i == start {
			last = time.Now()
			enc.Encode(message{Type: "run", Index: i})
			o.Flush()
		}
		r := runOne(runSpec{Prop: p.id, Seed: seedOf(base, p.id, i)})
		sum.Runs++
		sum.Steps += r.Steps
		sum.SimNs += r.SimNs
		sum.Stats.Switches += r.Stats.Switches
		sum.Stats.Preempts += r.Stats.Preempts
		sum.Stats.Choices += r.Stats.Choices
		sum.Stats.SyncOps += r.Stats.SyncOps
		sum.Stats.Tasks += r.Stats.Tasks
		if r.Stats.MaxRunnable > sum.Stats.MaxRunnable {
			sum.Stats.MaxRunnable = r.Stats.MaxRunnable
		}
		for k, v := range r.Faults {
			sum.Faults[k] += v
		}
		for k, v := range r.Probes {
			sum.Probes[k] += v
		}
		sum.Loads[r.Load]++
		sum.Strats[r.Strat]++
		if r.Stats.Tasks > 1 && r.Stats.Switches > 2 {
			sum.Hashes = append(sum.Hashes, r.Hash)
		} else {
			sum.Triv++
		}
		if len(sum.Sample) < 1 && r.Stats.Tasks > 2 {
			sum.Sample = append(sum.Sample, sample{seedOf(base, p.id, i), r.Load, r.Desc, r.Strat, r.Steps, r.Stats.Tasks, r.Stats.Switches, fmt.Sprintf("%016x", r.Hash)})
		}
		for _, f := range r.Fails {
			if !accepts(p, f.Class) {
				sum.Other[f.Class]++
				if os.Getenv("SIM_OTHER") != "" {
					if o, err := os.OpenFile(os.Getenv("SIM_OTHER"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
						fmt.Fprintf(o, "run %d: %s: %s\n", i, f.Class, f.Msg)
						o.Close()
					}
				}
			}
		}
		if relevant(p, r.Fails) != nil || hasBroken(r.Fails) {
			r.Trace = nil
			enc.Encode(message{Type: "fail", Index: i, Seed: seedOf(base, p.id, i), Res: r})
			o.Flush()
			if !all {
				i += stride
				break
			}
		}
		leaked += r.Leaked
		if leaked > leakLimit {
			i += stride
			break
		}
	}
	sum.Next = i
	sum.Done = i >= stop
	sum.Hit = simrt.CoveredLines()
	enc.Encode(sum)
	o.Flush()
}

// hasBroken finds failures of the machinery itself.
func hasBroken(f []simrt.Failure) bool {
	for _, x := range f {
		if x.Class == "unsupported" || x.Class == "harness" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- driver

type driver struct {
	p       *property
	tier    string
	seed    int64
	runs    int64
	cap     int
	out     string
	all     bool
	workers int

	mu     sync.Mutex
	sum    message
	hashes map[uint64]bool
	hit    map[string]bool
	fails  map[int64]*message
	limit  int64
	broken string
	class  map[string]int
	began  time.Time
	capped bool
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return e
}

func (d *driver) run() int {
	d.began = time.Now()
	d.hashes, d.hit, d.fails, d.class = map[uint64]bool{}, map[string]bool{}, map[int64]*message{}, map[string]int{}
	d.sum = message{Faults: map[string]int64{}, Probes: map[string]int64{}, Loads: map[string]int64{}, Strats: map[string]int64{}, Other: map[string]int64{}}
	d.limit = d.runs
	n := d.workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if n < 2 {
			n = 2
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.slot(int64(k), int64(n))
		}()
	}
	wg.Wait()
	if d.broken != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", d.broken)
		return exitError
	}
	if d.all {
		var cs []string
		for c := range d.class {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			fmt.Println(d.class[c], c)
		}
		for c, n := range d.sum.Other {
			fmt.Println("other", n, c)
		}
		fmt.Println("probes", d.sum.Probes)
		fmt.Println("faults", d.sum.Faults)
		fmt.Println("loads", d.sum.Loads, "runs", d.sum.Runs, "steps", d.sum.Steps, "distinct", len(d.hashes), "wall", time.Since(d.began))
	}
	code := 0
	var best *message
	for _, m := range d.fails {
		if best == nil || m.Index < best.Index {
			best = m
		}
	}
	if best != nil && !d.all {
		code = d.report(best)
	}
	if code == exitError {
		return code
	}
	d.evidence(len(d.fails))
	if code == 0 && d.sum.Runs == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no run completed")
		return exitError
	}
	if code == 0 && !d.all {
		fmt.Printf("%s held in %d simulated runs (%d distinct interleavings, %.1f s)\n", d.p.id, d.sum.Runs, len(d.hashes), time.Since(d.began).Seconds())
	}
	return code
}

func (d *driver) stopNow(next int64, grace time.Duration) bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	if time.Since(d.began) > time.Duration(d.cap)*time.Second+grace {
		d.capped = true
		return true
	}
	return d.broken != "" || next >= d.limit
}

// slot runs the indices k, k+n, k+2n, ... in one worker process after another.
func (d *driver) slot(k, n int64) {
	next := k
	crashes := 0
	for !d.stopNow(next, 0) {
		left := time.Until(d.began.Add(time.Duration(d.cap) * time.Second))
		cmd := exec.Command(self(), "-worker", "-prop", d.p.id, "-seed", fmt.Sprint(d.seed), "-start", fmt.Sprint(next), "-stride", fmt.Sprint(n), "-stop", fmt.Sprint(d.limit), "-for", left.String(), "-all="+strconv.FormatBool(d.all))
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		var errBuf tail
		cmd.Stderr = &errBuf
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		var mu sync.Mutex
		lastMsg, lastIdx := time.Now(), next
		finished := make(chan bool)
		hung := false
		go func() {
			for {
				select {
				case <-finished:
					return
				case <-time.After(200 * time.Millisecond):
				}
				mu.Lock()
				l, idx := lastMsg, lastIdx
				mu.Unlock()
				if d.stopNow(idx, 30*time.Second) {
					cmd.Process.Kill()
				} else if time.Since(l) > 120*time.Second {
					hung = true
					cmd.Process.Kill()
				}
			}
		}()
		sc := bufio.NewReaderSize(pipe, 1<<20)
		gotSum := false
		for {
			line, err := sc.ReadBytes('\n')
			if len(line) > 0 {
				var m message
				if json.Unmarshal(line, &m) == nil {
					mu.Lock()
					lastMsg = time.Now()
					if m.Type != "sum" {
						lastIdx = m.Index
					}
					mu.Unlock()
					switch m.Type {
					case "fail":
						d.fail(&m)
					case "sum":
						gotSum = true
						next = m.Next
						d.add(&m)
					}
				}
			}
			if err != nil {
				break
			}
		}
		err = cmd.Wait()
		close(finished)
		if gotSum {
			continue
		}
		if d.stopNow(lastIdx, 30*time.Second) {
			return
		}
		if hung {
			d.setBroken(fmt.Sprintf("worker made no progress near run %d (watchdog)", lastIdx))
			return
		}
		// The worker died: find the run that kills it.
		if crashes++; crashes > 3 {
			d.setBroken("worker processes keep dying: " + errBuf.String())
			return
		}
		i := lastIdx
		for ; i < d.limit; i += n {
			one := exec.Command(self(), "-one", fmt.Sprint(i), "-prop", d.p.id, "-seed", fmt.Sprint(d.seed))
			if b, err := one.CombinedOutput(); err != nil {
				why := firstLine(b)
				d.fail(&message{Index: i, Seed: seedOf(uint64(d.seed), d.p.id, i), Res: &Result{Fails: []simrt.Failure{{Class: "crash", Msg: "the process died: " + why}}}})
				break
			}
		}
		next = i + n
	}
}

func firstLine(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic") || strings.Contains(l, "runtime:") {
			return l
		}
	}
	return strings.SplitN(string(b), "\n", 2)[0]
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<14 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return firstLine(t.b) }

func (d *driver) setBroken(s string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.broken == "" {
		d.broken = s
	}
}

func (d *driver) fail(m *message) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, f := range m.Res.Fails {
		if f.Class == "unsupported" || f.Class == "harness" {
			if d.broken == "" {
				d.broken = fmt.Sprintf("seed %d: %s: %s", m.Seed, f.Class, f.Msg)
			}
		}
		if accepts(d.p, f.Class) {
			if d.class[f.Class]++; d.class[f.Class] <= 3 && d.all {
				fmt.Println(m.Index, m.Res.Load, f.Class, f.Msg)
			}
		}
	}
	if relevant(d.p, m.Res.Fails) == nil {
		return
	}
	d.fails[m.Index] = m
	if !d.all && m.Index < d.limit {
		d.limit = m.Index
	}
}

func (d *driver) add(m *message) {
	d.mu.Lock()
	defer d.mu.Unlock()
	s := &d.sum
	s.Runs += m.Runs
	s.Steps += m.Steps
	s.SimNs += m.SimNs
	s.Triv += m.Triv
	s.Stats.Switches += m.Stats.Switches
	s.Stats.Preempts += m.Stats.Preempts
	s.Stats.Choices += m.Stats.Choices
	s.Stats.SyncOps += m.Stats.SyncOps
	s.Stats.Tasks += m.Stats.Tasks
	if m.Stats.MaxRunnable > s.Stats.MaxRunnable {
		s.Stats.MaxRunnable = m.Stats.MaxRunnable
	}
	for _, x := range []struct{ to, from map[string]int64 }{{s.Faults, m.Faults}, {s.Probes, m.Probes}, {s.Loads, m.Loads}, {s.Strats, m.Strats}, {s.Other, m.Other}} {
		for k, v := range x.from {
			x.to[k] += v
		}
	}
	for _, h := range m.Hashes {
		d.hashes[h] = true
	}
	for _, l := range m.Hit {
		d.hit[l] = true
	}
	if len(s.Sample) < 6 {
		s.Sample = append(s.Sample, m.Sample...)
	}
}

// ---------------------------------------------------------------- reporting

type replayDoc struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Message  string          `json:"message"`
	Hash     string          `json:"interleaving"`
	Spec     runSpec         `json:"run"`
	Plan     []string        `json:"plan_described"`
	Workload string          `json:"workload"`
	Steps    int64           `json:"steps"`
	Faults   any             `json:"faults_injected,omitempty"`
	Original runSpec         `json:"found_as"`
	Note     string          `json:"note"`
	Trace    []string        `json:"trace,omitempty"`
	Fails    []simrt.Failure `json:"violations"`
}

func docOf(p *property, spec runSpec, r *Result) *replayDoc {
	f := relevant(p, r.Fails)
	if f == nil {
		return nil
	}
	return &replayDoc{Property: p.id, Class: f.Class, Message: f.Msg, Hash: fmt.Sprintf("%016x", r.Hash), Spec: spec, Plan: r.Desc, Workload: r.Load, Steps: r.Steps, Faults: r.Faults, Fails: r.Fails,
		Note: "plan: drawn workload and fault choices; schedule: steps at which the scheduler deviates from run-until-blocked round robin, with the goroutine (or alternative) chosen"}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		die("%v", err)
	}
}

func (d *driver) report(m *message) int {
	dir := filepath.Join(d.out, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", d.p.id, m.Seed))
	f := relevant(d.p, m.Res.Fails)
	doc := &replayDoc{Property: d.p.id, Class: f.Class, Message: f.Msg, Hash: fmt.Sprintf("%016x", m.Res.Hash), Spec: runSpec{Prop: d.p.id, Seed: m.Seed}, Plan: m.Res.Desc, Workload: m.Res.Load, Steps: m.Res.Steps, Faults: m.Res.Faults, Fails: m.Res.Fails}
	doc.Original = doc.Spec
	if m.Res.Hash == 0 {
		doc.Hash = ""
	}
	writeJSON(path, doc)
	if m.Res.Hash != 0 {
		min := path + ".min"
		writeJSON(min, doc)
		cmd := exec.Command(self(), "-minimise", min)
		cmd.Start()
		done := make(chan bool)
		go func() { cmd.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(45 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		ok := false
		if b, err := os.ReadFile(min); err == nil {
			var md replayDoc
			if json.Unmarshal(b, &md) == nil && md.Class == doc.Class {
				// the replay must fail the same way in a fresh process
				out, _ := exec.Command(self(), "-replay", min).CombinedOutput()
				if strings.Contains(string(out), "VIOLATION property="+d.p.id) && strings.Contains(string(out), "exact=true") {
					doc = &md
					writeJSON(path, doc)
					ok = true
				}
			}
		}
		os.Remove(min)
		if !ok {
			out, _ := exec.Command(self(), "-replay", path).CombinedOutput()
			if !strings.Contains(string(out), "VIOLATION property="+d.p.id) {
				fmt.Fprintf(os.Stderr, "ERROR: the violation of seed %d does not replay (%s: %s)\n", m.Seed, f.Class, f.Msg)
				return exitError
			}
		}
	}
	fmt.Printf("%s: %s\n", doc.Class, doc.Message)
	for _, l := range doc.Plan {
		fmt.Println("  plan:", l)
	}
	fmt.Printf("  %d steps, %d schedule choices, seed %d\n", doc.Steps, len(doc.Spec.Devs), m.Seed)
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.p.id, path)
	return 1
}

func replayFile(path string, trace bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var doc replayDoc
	if err := json.Unmarshal(b, &doc); err != nil {
		die("%s: %v", path, err)
	}
	p := properties[doc.Property]
	if p == nil {
		die("%s: no property %q", path, doc.Property)
	}
	doc.Spec.trace = trace
	r := runOne(doc.Spec)
	if trace {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	for _, l := range r.Desc {
		fmt.Println("plan:", l)
	}
	f := relevant(p, r.Fails)
	if f == nil {
		fmt.Println("no violation")
		return 0
	}
	h := fmt.Sprintf("%016x", r.Hash)
	fmt.Printf("%s: %s\n", f.Class, f.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	fmt.Printf("exact=%v interleaving=%s\n", h == doc.Hash && f.Class == doc.Class, h)
	return 1
}

func (d *driver) evidence(violations int) {
	dir := filepath.Join(d.out, "evidence")
	os.MkdirAll(dir, 0o755)
	wall := time.Since(d.began).Seconds()
	s := d.sum
	pk := map[string][2]int{}
	var missed []string
	for _, l := range simrt.AllLines() {
		if l == "" || strings.HasPrefix(l, "?") {
			continue
		}
		k := filepath.Dir(l)
		c := pk[k]
		c[0]++
		if d.hit[l] {
			c[1]++
		} else {
			missed = append(missed, l)
		}
		pk[k] = c
	}
	cov := map[string]string{}
	for k, c := range pk {
		if c[1] > 0 {
			cov[k] = fmt.Sprintf("%d of %d instrumented lines executed", c[1], c[0])
		}
	}
	samples := []any{}
	for _, x := range s.Sample {
		samples = append(samples, x)
	}
	if len(samples) == 0 {
		samples = append(samples, "no multi-goroutine run")
	}
	perHour := 0
	if wall > 0 {
		perHour = int(float64(s.Runs) / wall * 3600)
	}
	rule := d.p.rule
	if rule == "" {
		rule = "each run draws a workload, its sizes, faults, GOMAXPROCS and a scheduling strategy from its own seed"
	}
	writeJSON(filepath.Join(dir, d.p.id+".json"), map[string]any{
		"property": d.p.id, "tier": d.tier, "seed": d.seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations":         s.Runs,
			"distinct_nontrivial": len(d.hashes),
			"rule":                rule + "; a run is non-trivial if it has at least two goroutines and three context switches, and distinct if the fingerprint of its sequence of (goroutine, source line) switches and drawn alternatives differs",
			"samples":             samples,
			"simulated_runs":      s.Runs, "seeds_per_hour": perHour, "trivial_runs": s.Triv,
			"requested_runs": d.runs, "stopped_by_time_cap": d.capped,
			"simulated_time_s": float64(s.SimNs) / 1e9, "scheduling_steps": s.Steps, "context_switches": s.Stats.Switches, "preemptions": s.Stats.Preempts, "sync_operations": s.Stats.SyncOps, "goroutines": s.Stats.Tasks, "max_runnable": s.Stats.MaxRunnable,
			"faults_injected": s.Faults, "rare_conditions_reached": s.Probes, "workloads": s.Loads, "strategies": s.Strats,
			"code_reached": cov, "violations_of_other_properties_seen": s.Other,
			"real_components": "all of pargo's packages, compiled from /repo's current tree with scheduling points and access records inserted",
			"stub_components": "the Go scheduler, package sync, sync/atomic, channels and select, runtime.GOMAXPROCS, time and context (simulated); user callbacks, collections, sources and readers (harness)",
		},
		"assumptions": []string{"sequentially consistent memory between scheduling points (data races are detected by happens-before instead)", "a context switch can happen before every statement and memory access of pargo, and at every synchronisation operation", "standard library code other than the stubs runs atomically"},
	})
	_ = missed
	if os.Getenv("SIM_MISSED") != "" {
		for _, l := range missed {
			if _, ok := cov[filepath.Dir(l)]; ok {
				fmt.Println("missed", l)
			}
		}
	}
}
