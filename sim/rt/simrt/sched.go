//go:build go1.23

package simrt

import (
	"math"
	"sort"
)

// strategy decides preemptions and picks; everything it decides is recorded as
// deviations from the default (run on until blocked, then next id round robin).
type strategy struct {
	kind      int // 0 random walk, 1 PCT, 2 run-to-block with random picks
	p         float64
	syncOnly  bool
	stallP    float64
	stallMax  int
	changes   []int64 // PCT change points
	lowPrio   int
	wake      bool
	fair      bool
	softCap   int64
	lifo      int
	newFirstP float64
}

const never = math.MaxInt64

// StrategyName describes the kind of schedule drawn for this run.
func (s *Sim) StrategyName() string {
	switch {
	case s.cfg.Replay:
		return "replay"
	case s.strat.kind == 1:
		return "pct"
	case s.strat.kind == 2:
		return "run-to-block"
	case s.strat.syncOnly:
		return "random-sync"
	}
	return "random"
}

func (s *Sim) initStrategy() {
	st := &s.strat
	s.nextEv = never
	if s.cfg.Replay {
		s.armReplay()
		s.limitEv()
		return
	}
	r := &s.rng
	hint := s.cfg.LenHint
	if hint < 64 {
		hint = 64
	}
	st.softCap = s.cfg.MaxSteps / 8
	switch r.Intn(10) {
	case 0, 1, 2:
		st.kind = 0
		st.p = []float64{0.5, 0.2, 0.1, 0.05, 0.02}[r.Intn(5)]
		if hint > 20000 {
			st.p = []float64{0.05, 0.01, 0.002, 100 / float64(hint), 20 / float64(hint)}[r.Intn(5)]
		}
	case 3, 4:
		st.kind = 0
		st.syncOnly = true
		st.p = []float64{0.7, 0.4, 0.2, 0.1}[r.Intn(4)]
	case 5, 6, 7:
		st.kind = 1
		d := r.Intn(5)
		for i := 0; i < d; i++ {
			// log-uniform positions: many interesting points are early
			if r.Intn(2) == 0 {
				st.changes = append(st.changes, 1+int64(r.Uint64()%uint64(hint)))
			} else {
				st.changes = append(st.changes, 1+int64(math.Exp(r.Float()*math.Log(float64(hint)))))
			}
		}
		sort.Slice(st.changes, func(i, j int) bool { return st.changes[i] < st.changes[j] })
	case 8:
		st.kind = 2
	case 9:
		st.kind = 0
		st.p = 4 / float64(hint)
	}
	if st.kind != 1 && r.Intn(3) == 0 {
		st.stallP = []float64{0.02, 0.1, 0.3}[r.Intn(3)]
		st.stallMax = []int{20, 200, 2000}[r.Intn(3)]
	}
	s.arm()
}

func (s *Sim) limitEv() {
	if s.nextEv > s.cfg.MaxSteps {
		s.nextEv = s.cfg.MaxSteps
	}
	if len(s.timers) > 0 {
		if at := s.timerStep(); at < s.nextEv {
			s.nextEv = at
		}
	}
}

// arm computes the next step at which the slow path must be taken.
func (s *Sim) arm() {
	if s.cfg.Replay {
		s.armReplay()
		return
	}
	st := &s.strat
	s.nextEv = never
	switch st.kind {
	case 0:
		p := st.p
		if st.syncOnly {
			s.nextEv = s.steps + 1
		} else {
			u := s.rng.Float()
			d := int64(math.Log(1-u)/math.Log(1-p)) + 1
			if d < 1 {
				d = 1
			}
			s.nextEv = s.steps + d
		}
	case 1:
		if len(st.changes) > 0 {
			s.nextEv = st.changes[0]
		}
		if st.wake {
			s.nextEv = s.steps + 1
		}
	}
	if !st.fair && s.nextEv > st.softCap {
		s.nextEv = st.softCap
	}
	s.limitEv()
}

func (s *Sim) armReplay() {
	s.nextEv = never
	for s.replayAt < len(s.replay) && s.replay[s.replayAt].Step <= s.steps {
		s.replayAt++
	}
	if s.replayAt < len(s.replay) {
		s.nextEv = s.replay[s.replayAt].Step
	}
	s.limitEv()
}

func (st *strategy) created(s *Sim, t *Task) {
	if st.kind == 1 && !s.cfg.Replay {
		t.prio = 1000 + s.rng.Intn(1<<20)
		st.wokenHigher(s, t)
	}
}

func (st *strategy) woken(s *Sim, t *Task) {
	if st.kind == 1 && !s.cfg.Replay {
		st.wokenHigher(s, t)
	}
}

func (st *strategy) wokenHigher(s *Sim, t *Task) {
	if s.cur != nil && t.prio > s.cur.prio {
		st.wake = true
		if s.nextEv > s.steps+1 {
			s.nextEv = s.steps + 1
		}
	}
}

// slow is reached at steps where something may be decided.
func (s *Sim) slow(kind int) {
	if s.steps >= s.cfg.MaxSteps {
		s.Fail("livelock", "no end after the step limit; "+s.describeLive())
		s.stop()
	}
	s.runTimers()
	if s.cfg.Replay {
		var target *Task
		for s.replayAt < len(s.replay) && s.replay[s.replayAt].Step < s.steps {
			s.replayAt++
		}
		if s.replayAt < len(s.replay) && s.replay[s.replayAt].Step == s.steps {
			id := s.replay[s.replayAt].Val
			for _, t := range s.runq {
				if t.id == id {
					target = t
				}
			}
			s.armReplay()
			if target != nil {
				s.Devs = append(s.Devs, Deviation{s.steps, id})
				s.switchTo(target)
			}
			return
		}
		s.armReplay()
		return
	}
	st := &s.strat
	if !st.fair && s.steps >= st.softCap {
		// liveness: from here on every runnable task gets its turn
		st.fair = true
		st.kind = 0
		st.syncOnly = false
		st.p = 0.1
		st.stallP = 0
	}
	var target *Task
	switch st.kind {
	case 0:
		if st.syncOnly && (kind != pkSync || s.rng.Float() >= st.p) {
			s.arm()
			return
		}
		target = s.choosePreempt()
	case 1:
		st.wake = false
		for len(st.changes) > 0 && st.changes[0] <= s.steps {
			st.changes = st.changes[1:]
			st.lowPrio--
			s.cur.prio = st.lowPrio
		}
		for _, t := range s.runq {
			if t.prio > s.cur.prio && (target == nil || t.prio > target.prio) {
				target = t
			}
		}
	}
	s.arm()
	if target != nil {
		s.Devs = append(s.Devs, Deviation{s.steps, target.id})
		s.switchTo(target)
	}
}

func (s *Sim) describeLive() string {
	d := s.blockedList()
	for _, t := range s.runq {
		d += "; " + t.label() + " runnable at " + locName(t.loc)
		if len(d) > 1500 {
			break
		}
	}
	if s.cur != nil {
		d += "; " + s.cur.label() + " running at " + locName(s.cur.loc)
	}
	return d
}

// choosePreempt picks a runnable task other than the current one at random.
func (s *Sim) choosePreempt() *Task {
	if s.cfg.Replay || len(s.runq) == 0 {
		return nil
	}
	st := &s.strat
	if st.stallP > 0 && s.rng.Float() < st.stallP {
		s.cur.stalledUntil = s.steps + 1 + int64(s.rng.Intn(st.stallMax))
		s.Faults["stall"]++
	}
	return s.randomReady()
}

func (s *Sim) randomReady() *Task {
	n := 0
	for _, t := range s.runq {
		if t.stalledUntil <= s.steps {
			n++
		}
	}
	if n == 0 {
		return s.runq[s.rng.Intn(len(s.runq))]
	}
	k := s.rng.Intn(n)
	for _, t := range s.runq {
		if t.stalledUntil <= s.steps {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

// pick selects the next task when none is running.
func (s *Sim) pick() *Task {
	if f := s.forced; f != nil {
		s.forced = nil
		return f
	}
	if len(s.runq) == 0 {
		return nil
	}
	if s.steps >= s.cfg.MaxSteps {
		s.failNow("livelock", "no end after the step limit; "+s.describeLive())
		return nil
	}
	def := s.defaultPick()
	if len(s.runq) == 1 {
		return def
	}
	s.steps++
	t := def
	if s.cfg.Replay {
		for s.replayAt < len(s.replay) && s.replay[s.replayAt].Step < s.steps {
			s.replayAt++
		}
		if s.replayAt < len(s.replay) && s.replay[s.replayAt].Step == s.steps {
			for _, x := range s.runq {
				if x.id == s.replay[s.replayAt].Val {
					t = x
				}
			}
		}
		s.armReplay()
	} else if s.strat.kind == 1 {
		for _, x := range s.runq {
			if t == def || x.prio > t.prio {
				t = x
			}
		}
		for _, x := range s.runq {
			if x.prio > t.prio {
				t = x
			}
		}
		s.strat.wake = false
		s.arm()
	} else {
		t = s.randomReady()
	}
	if t != def {
		s.Devs = append(s.Devs, Deviation{s.steps, t.id})
	}
	return t
}

// defaultPick is round robin over task ids.
func (s *Sim) defaultPick() *Task {
	var lo, hi *Task
	for _, t := range s.runq {
		if t.id > s.last && (hi == nil || t.id < hi.id) {
			hi = t
		}
		if lo == nil || t.id < lo.id {
			lo = t
		}
	}
	if hi != nil {
		return hi
	}
	return lo
}
