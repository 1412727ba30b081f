//go:build go1.23

package simrt

import (
	"context"
	"errors"
	"math"
	"sort"
	"time"
)

// Simulated time: one scheduling step takes stepNs; when nothing can run the
// clock jumps to the next timer.

const stepNs = 1000

var epochTime = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

type event struct {
	at   int64
	seq  int64
	fn   func()
	dead bool
}

func (s *Sim) now() int64 { return s.steps*stepNs + s.skew }

// SimTime is the simulated time covered so far.
func (s *Sim) SimTime() time.Duration { return time.Duration(s.now()) }

func (s *Sim) addTimer(d int64, fn func()) *event {
	if d < 0 {
		d = 0
	}
	at := s.now() + d
	if at < 0 {
		at = math.MaxInt64 / 2
	}
	s.timerSeq++
	e := &event{at: at, seq: s.timerSeq, fn: fn}
	i := sort.Search(len(s.timers), func(i int) bool { return s.timers[i].at > e.at })
	s.timers = append(s.timers, nil)
	copy(s.timers[i+1:], s.timers[i:])
	s.timers[i] = e
	if at := s.timerStep(); at < s.nextEv {
		s.nextEv = at
	}
	return e
}

func (s *Sim) dropDead() {
	for len(s.timers) > 0 && s.timers[0].dead {
		s.timers = s.timers[1:]
	}
}

func (s *Sim) timerStep() int64 {
	s.dropDead()
	if len(s.timers) == 0 {
		return never
	}
	d := s.timers[0].at - s.skew
	if d < 0 {
		d = 0
	}
	return (d + stepNs - 1) / stepNs
}

// runTimers fires everything that is due.
func (s *Sim) runTimers() {
	for {
		s.dropDead()
		if len(s.timers) == 0 || s.timers[0].at > s.now() {
			return
		}
		e := s.timers[0]
		s.timers = s.timers[1:]
		e.dead = true
		s.mix(uint64(e.seq) + 99)
		e.fn()
	}
}

// fireNextTimer jumps to the next timer when nothing else can happen.
func (s *Sim) fireNextTimer() bool {
	s.dropDead()
	if len(s.timers) == 0 {
		return false
	}
	if d := s.timers[0].at - s.now(); d > 0 {
		s.skew += d
	}
	s.runTimers()
	return true
}

// timerTask starts fn as a goroutine of its own, ordered after creator.
func (s *Sim) timerTask(name string, vc VC, fn func()) {
	cur := s.cur
	s.cur = nil
	t := s.spawn(name, fn)
	s.cur = cur
	t.vc.join(vc)
	if int(t.id) < len(t.vc) {
		t.vc[t.id]++
	}
}

func (s *Sim) curVC() VC {
	if s.cur == nil {
		return nil
	}
	v := s.cur.vc.clone()
	s.cur.vc[s.cur.id]++
	return v
}

// TimeNow is time.Now.
func TimeNow() time.Time {
	Point(pkSync)
	return epochTime.Add(time.Duration(S.now()))
}

// TimeSince is time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil is time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	e  *event
	fn func()
	vc VC
}

func (t *Timer) start(d time.Duration) {
	s := S
	t.vc = s.curVC()
	t.e = s.addTimer(int64(d), func() {
		if t.fn != nil {
			s.timerTask("timer", t.vc, t.fn)
			return
		}
		st := stateOf(t.C)
		if len(st.buf) == 0 && s.canSend(st) {
			cur := s.cur
			s.cur = nil
			now := epochTime.Add(time.Duration(s.now()))
			s.sendFromTimer(st, now)
			s.cur = cur
		}
	})
}

func (s *Sim) sendFromTimer(c *chanState, v any) {
	c.recvq = live(c.recvq)
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		c.nsent++
		c.nrecv++
		s.wakeWaiter(w, v, true, false)
		return
	}
	c.nsent++
	c.buf = append(c.buf, chanItem{v})
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.start(d)
	return t
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	Point(pkSync)
	was := !t.e.dead
	t.e.dead = true
	if t.C != nil {
		stateOf(t.C).buf = nil
	}
	return was
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	e    *event
	left int
	d    time.Duration
}

// NewTicker is time.NewTicker.  A ticker stops by itself after many ticks in
// order to bound a run.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic(errors.New("non-positive interval for NewTicker"))
	}
	t := &Ticker{c: make(chan time.Time, 1), left: 100000, d: d}
	t.C = t.c
	t.arm()
	return t
}

func (t *Ticker) arm() {
	s := S
	t.e = s.addTimer(int64(t.d), func() {
		st := stateOf(t.C)
		if len(st.buf) == 0 {
			cur := s.cur
			s.cur = nil
			s.sendFromTimer(st, epochTime.Add(time.Duration(s.now())))
			s.cur = cur
		}
		if t.left--; t.left > 0 {
			t.arm()
		}
	})
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() { Point(pkSync); t.e.dead = true; t.left = 0 }

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) { t.e.dead = true; t.d = d; t.left = 100000; t.arm() }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---------------------------------------------------------------- context

type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*simCtx
	after    []func()
	hb       VC
	deadline time.Time
	hasDL    bool
	key, val any
	kind     int // 0 cancel, 1 value, 2 without cancel
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	if c.kind == 2 || c.parent == nil {
		return time.Time{}, false
	}
	return c.parent.Deadline()
}

func (c *simCtx) Done() <-chan struct{} {
	switch c.kind {
	case 1:
		return c.parent.Done()
	case 2:
		return nil
	}
	return c.done
}

func (c *simCtx) Err() error {
	switch c.kind {
	case 1:
		return c.parent.Err()
	case 2:
		return nil
	}
	Point(pkSync)
	if c.err != nil {
		S.acquire(c.hb)
	}
	return c.err
}

type causeKey struct{}

func (c *simCtx) Value(key any) any {
	if _, ok := key.(causeKey); ok {
		switch c.kind {
		case 1:
			return c.parent.Value(key)
		case 2:
			return nil
		}
		return c
	}
	if c.kind == 1 && c.key == key {
		return c.val
	}
	return c.parent.Value(key)
}

func (c *simCtx) String() string { return "simulated context" }

func nearest(p context.Context) *simCtx {
	x, _ := p.Value(causeKey{}).(*simCtx)
	return x
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	s := S
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	s.release(&c.hb)
	s.doClose(stateOf((<-chan struct{})(c.done)))
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
	for _, f := range c.after {
		var vc VC
		if s.cur != nil {
			vc = s.cur.vc.clone()
		}
		s.timerTask("context.AfterFunc", vc, f)
	}
	c.after = nil
}

func newCancel(parent context.Context) *simCtx {
	if parent == nil {
		panic(errors.New("cannot create context from nil parent"))
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	Point(pkSync)
	if p := nearest(parent); p != nil {
		if p.err != nil {
			S.acquire(p.hb)
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		Go(-1, func() {
			a, b := RecvCase(d), RecvCase((<-chan struct{})(c.done))
			if SelectN(-1, false, a, b) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func (c *simCtx) cancelFn(cause error) {
	Point(pkSync)
	if c.err == nil {
		c.cancel(context.Canceled, cause)
	} else {
		S.acquire(c.hb)
	}
	Point(pkSync)
}

// CtxWithCancel is context.WithCancel.
func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancelFn(nil) }
}

// CtxWithCancelCause is context.WithCancelCause.
func CtxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(err error) { c.cancelFn(err) }
}

// CtxWithDeadlineCause is context.WithDeadlineCause.
func CtxWithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancelFn(nil) }
	}
	c.deadline, c.hasDL = d, true
	s := S
	e := s.addTimer(int64(d.Sub(epochTime))-s.now(), func() {
		cur := s.cur
		s.cur = nil
		s.Faults["deadline"]++
		c.cancel(context.DeadlineExceeded, cause)
		s.cur = cur
	})
	return c, func() { e.dead = true; c.cancelFn(nil) }
}

// CtxWithDeadline is context.WithDeadline.
func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, d, nil)
}

// CtxWithTimeout is context.WithTimeout.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, epochTime.Add(time.Duration(S.now())+d), nil)
}

// CtxWithTimeoutCause is context.WithTimeoutCause.
func CtxWithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return CtxWithDeadlineCause(parent, epochTime.Add(time.Duration(S.now())+d), cause)
}

// CtxWithValue is context.WithValue.
func CtxWithValue(parent context.Context, key, val any) context.Context {
	return &simCtx{parent: parent, kind: 1, key: key, val: val}
}

// CtxWithoutCancel is context.WithoutCancel.
func CtxWithoutCancel(parent context.Context) context.Context {
	return &simCtx{parent: parent, kind: 2}
}

// CtxCause is context.Cause.
func CtxCause(c context.Context) error {
	if p := nearest(c); p != nil {
		Point(pkSync)
		S.acquire(p.hb)
		return p.cause
	}
	return c.Err()
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(c context.Context, f func()) (stop func() bool) {
	p := nearest(c)
	Point(pkSync)
	if p == nil {
		return func() bool { return true }
	}
	ran := false
	dead := false
	g := func() {
		if !dead {
			ran = true
			f()
		}
	}
	if p.err != nil {
		ran = true
		Go(-1, f)
		return func() bool { return false }
	}
	p.after = append(p.after, g)
	return func() bool {
		Point(pkSync)
		if ran || dead || p.err != nil {
			return false
		}
		dead = true
		return true
	}
}
