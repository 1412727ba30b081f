//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/zzsim/simrt"
)

// W is one simulated run in the making.
type W struct {
	*Draw
	prop     string
	desc     []string
	maxSteps int64
	hint     int64
	procs    int
	noRace   bool
	post     func(s *simrt.Sim)
	kind     string
}

// Descf describes the drawn plan, for replay files.
func (w *W) Descf(format string, args ...any) {
	if len(w.desc) < 200 {
		w.desc = append(w.desc, fmt.Sprintf(format, args...))
	}
}

// Fail records a violation of a property.
func Fail(prop, what, format string, args ...any) {
	simrt.Failf(prop+"/"+what, format, args...)
}

type workload struct {
	name   string
	weight int
	plan   func(w *W) func()
}

type property struct {
	id       string
	rule     string
	loads    []workload
	quick    int  // runs in the quick tier
	thorough int  // runs in the thorough tier
	raceOnly bool // C28: only data races count
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

// Result of one run.
type Result struct {
	Draws   []int
	Devs    []simrt.Deviation
	Fails   []simrt.Failure
	Hash    uint64
	Steps   int64
	Stats   simrt.Stats
	SimNs   int64
	Faults  map[string]int64
	Probes  map[string]int64
	Load    string
	Strat   string
	Desc    []string
	Trace   []string
	Leaked  int
	Aborted bool
}

// runSpec says what to run: plan and schedule come each either from the seed or
// from a record.
type runSpec struct {
	Prop      string            `json:"property"`
	Seed      uint64            `json:"seed"`
	FixPlan   bool              `json:"plan_fixed"`
	Draws     []int             `json:"plan,omitempty"`
	FixSched  bool              `json:"schedule_fixed"`
	SchedSeed uint64            `json:"schedule_seed,omitempty"`
	Devs      []simrt.Deviation `json:"schedule,omitempty"`
	trace     bool
}

func seedOf(base uint64, prop string, i int64) uint64 {
	h := base
	for _, c := range prop {
		h = simrt.Mix(h, uint64(c))
	}
	return simrt.Mix(h, uint64(i))
}

func runOne(r runSpec) *Result {
	prop := properties[r.Prop]
	d := &Draw{fixed: r.Draws, replay: r.FixPlan}
	d.rng.Seed(simrt.Mix(r.Seed, 1))
	w := &W{Draw: d, prop: prop.id, maxSteps: 400000, hint: 2000}
	ws := make([]int, len(prop.loads))
	for i, l := range prop.loads {
		ws[i] = l.weight
	}
	l := prop.loads[d.Pick(ws...)]
	w.kind = l.name
	w.procs = d.Of(4, 4, 1, 1, 2, 2, 3, 8, 16, 5, 64)
	body := l.plan(w)
	ss := r.SchedSeed
	if ss == 0 {
		ss = simrt.Mix(r.Seed, 2)
	}
	s := simrt.New(simrt.Config{Seed: ss, MaxSteps: 4 * w.maxSteps, Procs: w.procs, Replay: r.FixSched, Devs: r.Devs, Trace: r.trace, NoRace: w.noRace, LenHint: w.hint})
	s.Run(body)
	if w.post != nil && !s.Aborted() {
		w.post(s)
	}
	res := &Result{Draws: d.Log, Devs: s.Devs, Fails: s.Fails, Hash: s.Hash(), Steps: s.Steps(), Stats: s.Stats, SimNs: int64(s.SimTime()),
		Faults: s.Faults, Probes: s.Probes, Load: l.name, Strat: s.StrategyName(), Desc: w.desc, Leaked: s.Leaked(), Aborted: s.Aborted()}
	if r.trace {
		res.Trace = s.TraceLines()
	}
	return res
}

// relevant returns the first failure of a run that counts against the property.
func relevant(p *property, fails []simrt.Failure) *simrt.Failure {
	for i := range fails {
		if strings.HasPrefix(fails[i].Class, p.id+"/") {
			return &fails[i]
		}
	}
	for i := range fails {
		if accepts(p, fails[i].Class) {
			return &fails[i]
		}
	}
	return nil
}

func accepts(p *property, class string) bool {
	if p.raceOnly {
		return class == "race"
	}
	switch class {
	case "race", "crash", "deadlock", "livelock":
		return true
	}
	return strings.HasPrefix(class, p.id+"/")
}
