//go:build go1.23

// Package simrt is the deterministic simulation runtime that instrumented pargo
// code runs on.  Goroutines are coroutines, exactly one of which runs at a time;
// every choice (who runs next, select case, map order) is drawn by the simulator
// and recorded, so that one seed is one exactly repeatable execution.
package simrt

import (
	"errors"
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- vector clocks

// VC is a vector clock indexed by task id.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o), len(o)+8)
		copy(n, *v)
		*v = n
	}
	w := *v
	for i, c := range o {
		if c > w[i] {
			w[i] = c
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

// ---------------------------------------------------------------- tasks

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	id           int
	name         string
	fn           func()
	next         func() (struct{}, bool)
	yield        func(struct{}) bool
	state        int
	why          string // reason for blocking
	loc          int
	vc           VC
	prio         int
	stalledUntil int64
	depth        int
	quiesce      bool
	// result of a channel operation completed by another task
	sel *selWait
	// Lib is true for goroutines started by library (instrumented) code.
	Lib bool
	// Tag is free for the harness.
	Tag any
}

// ID returns the task's number.
func (t *Task) ID() int { return t.id }

// Name describes the task.
func (t *Task) Name() string { return t.name }

// Blocked reports why the task is blocked, or "".
func (t *Task) Blocked() string {
	if t.state == stBlocked {
		return t.why
	}
	return ""
}

// Failure is one violation noticed during a run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Step  int64  `json:"step"`
}

// Deviation is one recorded choice that differs from the default.
type Deviation struct {
	Step int64 `json:"s"`
	Val  int   `json:"v"`
}

// Stats counts what happened in a run.
type Stats struct {
	Steps, Switches, Preempts, Choices, SyncOps int64
	Tasks                                       int
	MaxRunnable                                 int
}

// Config of one run.
type Config struct {
	Seed     uint64
	MaxSteps int64
	Procs    int
	Replay   bool
	Devs     []Deviation // when Replay
	Trace    bool
	NoRace   bool
	LenHint  int64 // rough expected number of steps
}

// Sim is one simulated execution.
type Sim struct {
	cfg    Config
	rng    Rand
	tasks  []*Task
	runq   []*Task
	cur    *Task
	last   int
	steps  int64
	nextEv int64
	forced *Task
	abort  bool

	strat    strategy
	replay   []Deviation
	replayAt int
	Devs     []Deviation
	Fails    []Failure
	failSet  map[string]bool
	Stats    Stats
	Faults   map[string]int64
	Probes   map[string]int64
	hash     uint64
	gomax    int
	skew     int64
	timers   []*event
	timerSeq int64
	chans    map[uintptr]*chanState
	keep     []any
	atomics  map[uintptr]*VC
	sh       shadow
	trace    []string
	yieldMem bool
	liveLib  int
	gen      uint64
	LogLines []string
	quiet    bool
	hitExtra int
}

// S is the current simulation.  There is exactly one at a time per process.
var S = &Sim{}

var runGen uint64

// ResetHooks are called before every run; instrumented packages register
// functions here that re-initialise their package-level variables.
var ResetHooks []func()

// New prepares a simulation and makes it current.
func New(cfg Config) *Sim {
	runGen++
	s := &Sim{cfg: cfg, failSet: map[string]bool{}, Faults: map[string]int64{}, Probes: map[string]int64{},
		chans: map[uintptr]*chanState{}, atomics: map[uintptr]*VC{}, gen: runGen, gomax: cfg.Procs, last: -1}
	if s.gomax < 1 {
		s.gomax = 4
	}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 1 << 20
	}
	s.rng.Seed(cfg.Seed)
	s.hash = 14695981039346656037
	s.sh.init(!cfg.NoRace)
	s.replay = cfg.Devs
	s.initStrategy()
	S = s
	for _, h := range ResetHooks {
		h()
	}
	return s
}

// Gen identifies the current run; shims use it to reset stale state.
func Gen() uint64 { return S.gen }

func (s *Sim) mix(x uint64) {
	s.hash = (s.hash ^ x) * 1099511628211
	s.hash ^= s.hash >> 29
}

// Hash is the fingerprint of the run's interleaving.
func (s *Sim) Hash() uint64 { return s.hash }

// Steps is the number of scheduling points passed so far.
func (s *Sim) Steps() int64 { return s.steps }

// Go starts a library goroutine.
func Go(loc int, fn func()) {
	Point(pkSync)
	t := S.spawn(locName(loc), fn)
	t.loc = loc
	t.Lib = true
	S.liveLib++
	Point(pkSync)
}

// Spawn starts a harness goroutine.
func Spawn(name string, fn func()) *Task {
	t := S.spawn(name, fn)
	Point(pkSync)
	return t
}

func (s *Sim) spawn(name string, fn func()) *Task {
	t := &Task{id: len(s.tasks), name: name, fn: fn}
	s.tasks = append(s.tasks, t)
	if s.cur != nil {
		t.vc = append(make(VC, 0, len(s.tasks)+4), s.cur.vc...)
		s.cur.vc[s.cur.id]++
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	s.Stats.Tasks++
	if len(s.tasks) > 60000 {
		s.Fail("livelock", "more than 60000 goroutines created in one run")
		s.stop()
	}
	s.makeRunnable(t)
	s.strat.created(s, t)
	if s.cfg.Trace {
		s.tracef("start %s", t.label())
	}
	return t
}

func (t *Task) label() string { return fmt.Sprintf("G%d(%s)", t.id, t.name) }

func (s *Sim) makeRunnable(t *Task) {
	t.state = stRunnable
	t.why = ""
	s.runq = append(s.runq, t)
	if n := len(s.runq); n > s.Stats.MaxRunnable {
		s.Stats.MaxRunnable = n
	}
	s.strat.woken(s, t)
}

func (s *Sim) unqueue(t *Task) {
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

// Run executes root as the first task until nothing can run any more.
func (s *Sim) Run(root func()) {
	s.spawn("main", root)
	s.loop()
	s.finish()
}

func (s *Sim) finish() {
	s.Stats.Steps = s.steps
	if s.abort {
		return
	}
	r := s.tasks[0]
	if r.state != stDone {
		s.failNow("deadlock", "no goroutine can run: "+s.blockedList())
	}
}

func (s *Sim) blockedList() string {
	var b []string
	for _, t := range s.tasks {
		if t.state == stBlocked {
			b = append(b, fmt.Sprintf("%s blocked on %s at %s", t.label(), t.why, locName(t.loc)))
		}
	}
	if len(b) > 12 {
		b = append(b[:12], fmt.Sprintf("... and %d more", len(b)-12))
	}
	return strings.Join(b, "; ")
}

// LiveTasks lists tasks that have not finished, other than the current one.
func (s *Sim) LiveTasks() (l []*Task) {
	for _, t := range s.tasks {
		if t.state != stDone && t != s.cur {
			l = append(l, t)
		}
	}
	return
}

func (s *Sim) loop() {
	for !s.abort {
		t := s.pick()
		if t == nil {
			if s.fireNextTimer() {
				continue
			}
			woken := false
			for i := len(s.tasks) - 1; i >= 0; i-- { // the oldest last
				q := s.tasks[i]
				if q.state == stBlocked && q.quiesce {
					q.quiesce = false
					s.makeRunnable(q)
					woken = true
					break
				}
			}
			if woken {
				continue
			}
			return
		}
		s.unqueue(t)
		if t.id != s.last {
			s.Stats.Switches++
			s.mix(uint64(t.id)<<32 | uint64(uint32(t.loc)))
			if s.cfg.Trace {
				s.tracef("run   %s at %s", t.label(), locName(t.loc))
			}
		}
		s.last = t.id
		s.cur = t
		s.resume(t)
		s.cur = nil
	}
}

func (s *Sim) resume(t *Task) {
	if t.next == nil {
		next, _ := iter.Pull(func(yield func(struct{}) bool) {
			t.yield = yield
			defer func() {
				if p := recover(); p != nil {
					s.Fail("crash", fmt.Sprintf("unrecovered panic in %s: %s", t.label(), firstLine(fmt.Sprint(p))))
					if s.cfg.Trace {
						s.tracef("panic in %s: %v\n%s", t.label(), p, debug.Stack())
					}
					s.abort = true
				}
				t.state = stDone
				if t.Lib {
					s.liveLib--
				}
				if s.cfg.Trace {
					s.tracef("end   %s", t.label())
				}
			}()
			t.fn()
		})
		t.next = next
	}
	t.next()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// Point kinds.
const (
	pkMem  = 0
	pkSync = 1
)

// Point is a scheduling point.
func Point(kind int) {
	s := S
	if s.cur == nil {
		return
	}
	s.steps++
	if kind == pkSync {
		s.Stats.SyncOps++
	}
	if s.steps >= s.nextEv {
		s.slow(kind)
	}
}

// Y is the scheduling point before a statement of library code.
func Y(loc int) {
	s := S
	t := s.cur
	if t == nil {
		return
	}
	t.loc = loc
	hit[loc] = true
	s.steps++
	if s.steps >= s.nextEv {
		s.slow(pkMem)
	}
}

// V is a scheduling point after evaluating a nested call.
func V[T any](loc int, v T) T {
	Y(loc)
	return v
}

// Yield is an explicit scheduling point for harness code.
func Yield() { Point(pkSync) }

// switchTo preempts the current task in favour of t.
func (s *Sim) switchTo(t *Task) {
	if t == nil || t == s.cur {
		return
	}
	c := s.cur
	s.forced = t
	s.Stats.Preempts++
	s.runq = append(s.runq, c)
	c.yield(struct{}{})
}

// park blocks the current task until another one makes it runnable.
func (s *Sim) park(why string) {
	t := s.cur
	t.state = stBlocked
	t.why = why
	s.steps++
	if s.cfg.Trace {
		s.tracef("block %s on %s at %s", t.label(), why, locName(t.loc))
	}
	t.yield(struct{}{})
}

// stop ends the whole run from inside a task; the task never continues.
func (s *Sim) stop() {
	s.abort = true
	if t := s.cur; t != nil && t.yield != nil {
		t.state = stBlocked
		t.why = "aborted"
		for {
			t.yield(struct{}{})
		}
	}
}

// Fail records a violation and lets the run go on.
func (s *Sim) Fail(class, msg string) {
	if s.failSet[class] || s.abort {
		return
	}
	s.failSet[class] = true
	s.Fails = append(s.Fails, Failure{class, msg, s.steps})
	if s.cfg.Trace {
		s.tracef("VIOLATION %s: %s", class, msg)
	}
}

func (s *Sim) failNow(class, msg string) {
	s.Fail(class, msg)
	s.abort = true
}

// Failf records a violation of the given class.
func Failf(class, format string, args ...any) { S.Fail(class, fmt.Sprintf(format, args...)) }

// Failed reports whether a violation has been recorded.
func Failed() bool { return len(S.Fails) > 0 }

// Stop abandons the run.
func Stop() { S.stop() }

// Probe counts that a rare condition was reached.
func Probe(name string) { S.Probes[name]++ }

// Fault counts an injected fault.
func Fault(name string) {
	S.Faults[name]++
	if S.cfg.Trace {
		S.tracef("fault %s", name)
	}
}

// Logf adds a line to the trace; it never affects the schedule.
func Logf(format string, args ...any) {
	if S.cfg.Trace {
		S.tracef(format, args...)
	}
}

func (s *Sim) tracef(format string, args ...any) {
	if len(s.trace) > 20000 {
		return
	}
	w := "-"
	if s.cur != nil {
		w = fmt.Sprintf("G%d", s.cur.id)
	}
	s.trace = append(s.trace, fmt.Sprintf("%7d %-5s ", s.steps, w)+fmt.Sprintf(format, args...))
}

// TraceLines returns the trace of the run.
func (s *Sim) TraceLines() []string { return s.trace }

// Note adds an event to the interleaving fingerprint.
func Note(x uint64) { S.mix(x) }

// Now returns the current event number, used to stamp histories.
func Now() int64 {
	S.steps++
	return S.steps
}

// Quiesce parks the current task until no other task can run and no timer is
// pending, then returns.
func Quiesce() {
	s := S
	s.cur.quiesce = true
	s.park("quiesce")
}

// Current returns the running task.
func Current() *Task { return S.cur }

// Sleep parks the task for d of simulated time.
func Sleep(d time.Duration) {
	s := S
	t := s.cur
	Point(pkSync)
	s.addTimer(int64(d), func() { s.makeRunnable(t) })
	s.park("sleep")
}

// ---------------------------------------------------------------- choices

// Choose draws one of n alternatives; 0 is the default.
func Choose(n int) int {
	s := S
	if n <= 1 {
		return 0
	}
	s.steps++
	s.Stats.Choices++
	v := 0
	if s.cfg.Replay {
		for s.replayAt < len(s.replay) && s.replay[s.replayAt].Step < s.steps {
			s.replayAt++
		}
		if s.replayAt < len(s.replay) && s.replay[s.replayAt].Step == s.steps {
			v = s.replay[s.replayAt].Val % n
			if v < 0 {
				v = 0
			}
		}
		s.armReplay()
	} else {
		v = s.rng.Intn(n)
	}
	if v != 0 {
		s.Devs = append(s.Devs, Deviation{s.steps, v})
	}
	s.mix(uint64(v) + 77)
	return v
}

// ---------------------------------------------------------------- code coverage

var locs []string
var hit []bool

// SetLocs installs the table of source locations.
func SetLocs(l []string) { locs = l; hit = make([]bool, len(l)) }

// userLoc marks accesses by user code (the harness).
const userLoc = 1 << 29

func locName(i int) string {
	if i >= userLoc {
		return "user code (after " + locName(i&^userLoc) + ")"
	}
	if i >= 0 && i < len(locs) {
		return locs[i]
	}
	return "?"
}

// Coverage returns how many instrumented statements were executed, and which
// source lines never were.
func Coverage() (total, covered int, missed []string) {
	lines := map[string]bool{}
	for i, l := range locs {
		if l == "" || strings.HasPrefix(l, "?") {
			continue
		}
		if hit[i] {
			lines[l] = true
		} else if _, ok := lines[l]; !ok {
			lines[l] = false
		}
	}
	for l, h := range lines {
		total++
		if h {
			covered++
		} else {
			missed = append(missed, l)
		}
	}
	sort.Strings(missed)
	return
}

// CoveredLines lists all covered locations.
func CoveredLines() (l []string) {
	m := map[string]bool{}
	for i, h := range hit {
		if h && !m[locs[i]] {
			m[locs[i]] = true
			l = append(l, locs[i])
		}
	}
	return
}

// AllLines lists all instrumented locations.
func AllLines() (l []string) {
	m := map[string]bool{}
	for _, x := range locs {
		if !m[x] {
			m[x] = true
			l = append(l, x)
		}
	}
	return
}

// ---------------------------------------------------------------- runtime package

// GOMAXPROCS is the simulated runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	old := S.gomax
	if n > 0 {
		S.gomax = n
	}
	return old
}

// NumCPU is the simulated runtime.NumCPU.
func NumCPU() int { return S.gomax }

// Gosched is the simulated runtime.Gosched.
func Gosched() {
	s := S
	if s.cur == nil {
		return
	}
	s.steps++
	if t := s.choosePreempt(); t != nil {
		s.switchTo(t)
	}
}

// NumGoroutine is the simulated runtime.NumGoroutine.
func NumGoroutine() int {
	n := 0
	for _, t := range S.tasks {
		if t.state != stDone {
			n++
		}
	}
	return n
}

// Goexit is not simulated.
func Goexit() {
	S.Fail("unsupported", "runtime.Goexit is not simulated")
	S.stop()
}

// Stack stands in for debug.Stack: real stacks hold addresses, which differ
// from run to run.
func Stack() []byte { return []byte("goroutine [running]:\nsimulated stack\n") }

// RuntimeStack stands in for runtime.Stack.
func RuntimeStack(buf []byte, all bool) int {
	n := copy(buf, Stack())
	loc := 0
	if S.cur != nil {
		loc = S.cur.loc
	}
	accessElems(loc, buf[:n], true)
	return n
}

// SetFinalizer stands in for runtime.SetFinalizer: finalizers need not ever run.
func SetFinalizer(obj, finalizer any) {}

// PrintStack stands in for debug.PrintStack.
func PrintStack() {}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

var _ runtime.Error = plainError("")

// Fatal models an unrecoverable runtime error.
func Fatal(msg string) {
	S.Fail("crash", "fatal error: "+msg)
	S.stop()
}

// ---------------------------------------------------------------- for shims

// Lot is a queue of parked tasks with a clock.
type Lot struct {
	q  []*Task
	HB VC
}

// Park blocks the current task in the lot.
func (l *Lot) Park(why string) {
	s := S
	if s.cur == nil {
		panic("simrt: blocking call outside of a simulated goroutine")
	}
	l.q = append(l.q, s.cur)
	s.park(why)
}

// WakeOne makes the longest waiting task runnable.
func (l *Lot) WakeOne() *Task {
	if len(l.q) == 0 {
		return nil
	}
	t := l.q[0]
	l.q = l.q[1:]
	S.makeRunnable(t)
	return t
}

// WakeAll makes all waiting tasks runnable.
func (l *Lot) WakeAll() int {
	q := l.q
	l.q = nil
	for _, t := range q {
		S.makeRunnable(t)
	}
	return len(q)
}

// WakeAllHB is WakeAll, ordering the woken tasks after the current one.
func (l *Lot) WakeAllHB(n int) {
	s := S
	for n != 0 && len(l.q) > 0 {
		t := l.q[0]
		l.q = l.q[1:]
		if s.cur != nil {
			t.vc.join(s.cur.vc)
		}
		s.makeRunnable(t)
		n--
	}
	if s.cur != nil {
		s.cur.vc[s.cur.id]++
	}
}

// Len is the number of tasks in the lot.
func (l *Lot) Len() int { return len(l.q) }

// Acquire orders the current task after everything released to v.
func Acquire(v VC) { S.acquire(v) }

// Release adds the current task's past to v.
func Release(v *VC) { S.release(v) }

// SyncPoint is the scheduling point of a synchronisation operation.
func SyncPoint() { Point(pkSync) }

// InTask reports whether simulated code is running.
func InTask() bool { return S.cur != nil }

// AtomicAccess records an atomic access of *p.
func AtomicAccess[T any](p *T, write, rmw bool) {
	Point(pkSync)
	S.atomicAccess(unsafe.Pointer(p), write, rmw)
}

// Panic raises the kind of panic that package sync raises.
func Panic(msg string) { panic(errors.New(msg)) }

// Ticket is one call of Cond.Wait.
type Ticket struct {
	t        *Task
	notified bool
	parked   bool
	vc       VC
}

// Tickets is the queue of a condition variable.
type Tickets struct{ q []*Ticket }

// Enqueue takes a ticket.
func (l *Tickets) Enqueue() *Ticket {
	t := &Ticket{t: S.cur}
	l.q = append(l.q, t)
	return t
}

// ParkIf blocks until the ticket has been notified.
func (l *Tickets) ParkIf(t *Ticket, why string) {
	if !t.notified {
		t.parked = true
		S.park(why)
	}
	S.acquire(t.vc)
}

// Notify notifies n tickets, or all if n is negative.
func (l *Tickets) Notify(n int) {
	s := S
	for n != 0 && len(l.q) > 0 {
		t := l.q[0]
		l.q = l.q[1:]
		t.notified = true
		s.release(&t.vc)
		if t.parked {
			s.makeRunnable(t.t)
		}
		n--
	}
}

// Aborted reports whether the run ended prematurely.
func (s *Sim) Aborted() bool { return s.abort }

// Leaked is the number of goroutines that will never finish.
func (s *Sim) Leaked() int {
	n := 0
	for _, t := range s.tasks {
		if t.next != nil && t.state != stDone {
			n++
		}
	}
	return n
}
