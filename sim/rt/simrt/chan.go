//go:build go1.23

package simrt

import (
	"reflect"
	"unsafe"
)

// Channels are modelled in a side table keyed by the identity of the real
// channel value, which itself never carries data.

type waiter struct {
	t    *Task
	sw   *selWait
	idx  int
	val  any
	send bool
}

// selWait is one blocked channel operation (a select with one or more cases).
type selWait struct {
	done bool
	idx  int
	val  any
	ok   bool
	// closed is set when a sender must panic
	closed bool
}

type chanItem struct {
	v any
}

type chanState struct {
	cap     int
	buf     []chanItem
	slots   []VC
	nsent   uint64
	nrecv   uint64
	closed  bool
	closeVC VC
	recvq   []*waiter
	sendq   []*waiter
	ref     any
	id      int
}

func live(q []*waiter) []*waiter {
	for len(q) > 0 && q[0].sw.done {
		q = q[1:]
	}
	return q
}

func (s *Sim) chanOf(key unsafe.Pointer, ref any, cap int) *chanState {
	c := s.chans[uintptr(key)]
	if c == nil {
		c = &chanState{cap: cap, ref: ref, id: len(s.chans)}
		if cap > 0 {
			c.slots = make([]VC, cap)
		}
		s.chans[uintptr(key)] = c
	}
	return c
}

func chPtr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func stateOf[T any](ch <-chan T) *chanState {
	if ch == nil {
		return nil
	}
	return S.chanOf(chPtr(ch), ch, cap(ch))
}

func stateOfS[T any](ch chan<- T) *chanState {
	if ch == nil {
		return nil
	}
	return S.chanOf(chPtr(ch), ch, cap(ch))
}

// release publishes the current task's clock into v and starts a new epoch.
func (s *Sim) release(v *VC) {
	if t := s.cur; t != nil {
		v.join(t.vc)
		t.vc[t.id]++
	}
}

func (s *Sim) releaseStore(v *VC) {
	if t := s.cur; t != nil {
		*v = append((*v)[:0], t.vc...)
		t.vc[t.id]++
	}
}

func (s *Sim) acquire(v VC) {
	if t := s.cur; t != nil {
		t.vc.join(v)
	}
}

// sync2 orders two tasks both ways (unbuffered channel rendezvous).
func (s *Sim) sync2(a, b *Task) {
	if a == nil || b == nil {
		return
	}
	a.vc.join(b.vc)
	b.vc.join(a.vc)
	a.vc[a.id]++
	b.vc[b.id]++
}

// trySend attempts a send without blocking; it panics on a closed channel.
func (s *Sim) canSend(c *chanState) bool {
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	c.recvq = live(c.recvq)
	return len(c.recvq) > 0 || len(c.buf) < c.cap
}

func (s *Sim) canRecv(c *chanState) bool {
	if c == nil {
		return false
	}
	c.sendq = live(c.sendq)
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (s *Sim) wakeWaiter(w *waiter, val any, ok, closed bool) {
	w.sw.done = true
	w.sw.idx = w.idx
	w.sw.val = val
	w.sw.ok = ok
	w.sw.closed = closed
	s.makeRunnable(w.t)
}

func (s *Sim) doSend(c *chanState, v any) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	c.recvq = live(c.recvq)
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if c.cap > 0 {
			sl := &c.slots[c.nsent%uint64(c.cap)]
			s.acquire(*sl)
			s.release(sl)
			w.t.vc.join(*sl)
			sl.join(w.t.vc)
			w.t.vc[w.t.id]++
			c.nsent++
			c.nrecv++
		} else {
			s.sync2(s.cur, w.t)
		}
		s.wakeWaiter(w, v, true, false)
		return
	}
	sl := &c.slots[c.nsent%uint64(c.cap)]
	s.acquire(*sl)
	s.release(sl)
	c.nsent++
	c.buf = append(c.buf, chanItem{v})
}

func (s *Sim) doRecv(c *chanState) (any, bool) {
	c.sendq = live(c.sendq)
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		sl := &c.slots[c.nrecv%uint64(c.cap)]
		s.acquire(*sl)
		s.release(sl)
		c.nrecv++
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			s2 := &c.slots[c.nsent%uint64(c.cap)]
			w.t.vc.join(*s2)
			s2.join(w.t.vc)
			w.t.vc[w.t.id]++
			c.nsent++
			c.buf = append(c.buf, chanItem{w.val})
			s.wakeWaiter(w, nil, true, false)
		}
		return it.v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		s.sync2(s.cur, w.t)
		v := w.val
		s.wakeWaiter(w, nil, true, false)
		return v, true
	}
	s.acquire(c.closeVC)
	return nil, false
}

func (s *Sim) doClose(c *chanState) {
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	s.release(&c.closeVC)
	for _, w := range c.recvq {
		if !w.sw.done {
			w.t.vc.join(c.closeVC)
			s.wakeWaiter(w, nil, false, false)
		}
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if !w.sw.done {
			s.wakeWaiter(w, nil, false, true)
		}
	}
	c.sendq = nil
}

// Case is one alternative of a select statement.
type Case interface {
	state() *chanState
	isSend() bool
	value() any
	set(v any, ok bool)
}

// RCase is a receive alternative.
type RCase[T any] struct {
	c  *chanState
	V  T
	Ok bool
}

func (r *RCase[T]) state() *chanState { return r.c }
func (r *RCase[T]) isSend() bool      { return false }
func (r *RCase[T]) value() any        { return nil }
func (r *RCase[T]) set(v any, ok bool) {
	r.V, _ = v.(T)
	r.Ok = ok
}

// Val returns what was received.
func (r *RCase[T]) Val() T { return r.V }

// Val2 returns what was received, and whether the channel was still open.
func (r *RCase[T]) Val2() (T, bool) { return r.V, r.Ok }

// SCase is a send alternative.
type SCase[T any] struct {
	c *chanState
	v T
}

func (r *SCase[T]) state() *chanState  { return r.c }
func (r *SCase[T]) isSend() bool       { return true }
func (r *SCase[T]) value() any         { return r.v }
func (r *SCase[T]) set(v any, ok bool) {}

// RecvCase makes a receive alternative.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{c: stateOf(ch)} }

// Sender is a channel about to be sent to.
type Sender[T any] struct{ ch chan<- T }

// To starts a send.
func To[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Case makes a send alternative.
func (s Sender[T]) Case(v T) *SCase[T] { return &SCase[T]{c: stateOfS(s.ch), v: v} }

// Send sends v.
func (s Sender[T]) Send(loc int, v T) {
	SelectN(loc, false, &SCase[T]{c: stateOfS(s.ch), v: v})
}

// Recv is <-ch.
func Recv[T any](loc int, ch <-chan T) T {
	r := RCase[T]{c: stateOf(ch)}
	SelectN(loc, false, &r)
	return r.V
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](loc int, ch <-chan T) (T, bool) {
	r := RCase[T]{c: stateOf(ch)}
	SelectN(loc, false, &r)
	return r.V, r.Ok
}

// Close is close(ch).
func Close[T any](loc int, ch chan<- T) {
	S.here(loc)
	Point(pkSync)
	S.doClose(stateOfS(ch))
	Point(pkSync)
}

// ChanLen is len(ch).
func ChanLen[T any](ch <-chan T) int {
	c := stateOf(ch)
	if c == nil {
		return 0
	}
	Point(pkSync)
	return len(c.buf)
}

func (s *Sim) here(loc int) {
	if s.cur != nil && loc >= 0 {
		s.cur.loc = loc
		hit[loc] = true
	}
}

// SelectN executes a select statement and returns the index of the chosen
// case, or -1 for default.
func SelectN(loc int, hasDefault bool, cases ...Case) int {
	s := S
	s.here(loc)
	Point(pkSync)
	var readyBuf [8]int
	ready := readyBuf[:0]
	for i, c := range cases {
		st := c.state()
		if st == nil {
			continue
		}
		if c.isSend() {
			if s.canSend(st) {
				ready = append(ready, i)
			}
		} else if s.canRecv(st) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[Choose(len(ready))]
		}
		c := cases[i]
		if c.isSend() {
			s.doSend(c.state(), c.value())
		} else {
			c.set(s.doRecv(c.state()))
		}
		Point(pkSync)
		return i
	}
	if hasDefault {
		return -1
	}
	sw := &selWait{}
	any := false
	for i, c := range cases {
		st := c.state()
		if st == nil {
			continue
		}
		any = true
		w := &waiter{t: s.cur, sw: sw, idx: i}
		if c.isSend() {
			w.send = true
			w.val = c.value()
			st.sendq = append(live(st.sendq), w)
		} else {
			st.recvq = append(live(st.recvq), w)
		}
	}
	if s.cur == nil {
		panic("simrt: channel operation outside of a simulated goroutine")
	}
	why := "select"
	if !any {
		why = "a nil channel or empty select"
	} else if len(cases) == 1 {
		if cases[0].isSend() {
			why = "channel send"
		} else {
			why = "channel receive"
		}
	}
	s.park(why)
	if sw.closed {
		panic(plainError("send on closed channel"))
	}
	c := cases[sw.idx]
	if !c.isSend() {
		c.set(sw.val, sw.ok)
	}
	return sw.idx
}

// ---------------------------------------------------------------- reflection

type reflCase struct {
	c    *chanState
	send bool
	v    any
	out  any
	ok   bool
}

func (r *reflCase) state() *chanState { return r.c }
func (r *reflCase) isSend() bool      { return r.send }
func (r *reflCase) value() any        { return r.v }
func (r *reflCase) set(v any, ok bool) {
	r.out, r.ok = v, ok
}

func reflState(v reflect.Value) *chanState {
	if !v.IsValid() || v.IsNil() {
		return nil
	}
	return S.chanOf(v.UnsafePointer(), v.Interface(), v.Cap())
}

func reflVal(v any, t reflect.Type) reflect.Value {
	if v == nil {
		return reflect.Zero(t)
	}
	r := reflect.ValueOf(v)
	if t.Kind() == reflect.Interface {
		x := reflect.New(t).Elem()
		x.Set(r)
		return x
	}
	return r
}

// RSelect is reflect.Select.
func RSelect(loc int, cases []reflect.SelectCase) (int, reflect.Value, bool) {
	var cs []Case
	var idx []int
	def := -1
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			def = i
		case reflect.SelectSend:
			rc := &reflCase{c: reflState(c.Chan), send: true}
			if c.Send.IsValid() {
				rc.v = c.Send.Interface()
			}
			cs = append(cs, rc)
			idx = append(idx, i)
		case reflect.SelectRecv:
			cs = append(cs, &reflCase{c: reflState(c.Chan)})
			idx = append(idx, i)
		}
	}
	k := SelectN(loc, def >= 0, cs...)
	if k < 0 {
		return def, reflect.Value{}, false
	}
	i := idx[k]
	if cases[i].Dir == reflect.SelectSend {
		return i, reflect.Value{}, false
	}
	rc := cs[k].(*reflCase)
	return i, reflVal(rc.out, cases[i].Chan.Type().Elem()), rc.ok
}

// RRecv is reflect.Value.Recv.
func RRecv(loc int, ch reflect.Value) (reflect.Value, bool) {
	rc := &reflCase{c: reflState(ch)}
	SelectN(loc, false, rc)
	return reflVal(rc.out, ch.Type().Elem()), rc.ok
}

// RTryRecv is reflect.Value.TryRecv.
func RTryRecv(loc int, ch reflect.Value) (reflect.Value, bool) {
	rc := &reflCase{c: reflState(ch)}
	if SelectN(loc, true, rc) < 0 {
		return reflect.Value{}, false
	}
	return reflVal(rc.out, ch.Type().Elem()), rc.ok
}

// RSend is reflect.Value.Send.
func RSend(loc int, ch, v reflect.Value) {
	SelectN(loc, false, &reflCase{c: reflState(ch), send: true, v: v.Interface()})
}

// RTrySend is reflect.Value.TrySend.
func RTrySend(loc int, ch, v reflect.Value) bool {
	return SelectN(loc, true, &reflCase{c: reflState(ch), send: true, v: v.Interface()}) >= 0
}

// RClose is reflect.Value.Close.
func RClose(loc int, ch reflect.Value) {
	S.here(loc)
	Point(pkSync)
	S.doClose(reflState(ch))
	Point(pkSync)
}

// RLen is reflect.Value.Len.
func RLen(v reflect.Value) int {
	if v.Kind() == reflect.Chan {
		c := reflState(v)
		if c == nil {
			return 0
		}
		return len(c.buf)
	}
	if v.CanAddr() {
		S.access(v.Addr().UnsafePointer(), -1, false)
	}
	return v.Len()
}

// RRd records a read through an addressable reflect.Value.
func RRd(loc int, v reflect.Value) reflect.Value {
	if v.IsValid() && v.CanAddr() {
		S.accessVal(v.Addr().UnsafePointer(), v.Type(), loc, false)
	}
	return v
}

// RSet is reflect.Value.Set.
func RSet(loc int, dst, src reflect.Value) {
	Y(loc)
	if dst.IsValid() && dst.CanAddr() {
		S.accessVal(dst.Addr().UnsafePointer(), dst.Type(), loc, true)
	}
	dst.Set(src)
}

// RAppendSlice is reflect.AppendSlice.
func RAppendSlice(loc int, s, t reflect.Value) reflect.Value {
	RRd(loc, s)
	RRd(loc, t)
	if t.Kind() == reflect.Slice {
		for i := 0; i < t.Len(); i++ {
			RRd(loc, t.Index(i))
		}
	}
	n := s.Len()
	if n+t.Len() <= s.Cap() {
		r := s.Slice3(0, n+t.Len(), s.Cap())
		for i := n; i < r.Len(); i++ {
			e := r.Index(i)
			S.accessVal(e.Addr().UnsafePointer(), e.Type(), loc, true)
		}
	}
	return reflect.AppendSlice(s, t)
}

// RAppend is reflect.Append.
func RAppend(loc int, s reflect.Value, x ...reflect.Value) reflect.Value {
	RRd(loc, s)
	n := s.Len()
	if n+len(x) <= s.Cap() {
		r := s.Slice3(0, n+len(x), s.Cap())
		for i := n; i < r.Len(); i++ {
			e := r.Index(i)
			S.accessVal(e.Addr().UnsafePointer(), e.Type(), loc, true)
		}
	}
	return reflect.Append(s, x...)
}
