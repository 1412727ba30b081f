//go:build go1.23

package simrt

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// The shadow memory holds, per memory location, the last accesses as epochs and
// reports accesses that conflict without a happens-before ordering.  It judges
// the schedule-independent ordering, not the order this run happened to take.

type epoch struct {
	tid int32
	loc int32
	clk uint32
}

type cell struct {
	p    unsafe.Pointer // keeps the memory alive, so addresses are not reused
	w    epoch
	r    epoch
	rs   []epoch // several concurrent readers
	at   []epoch // atomic accesses, last per task
	aw   bool
	init bool
}

type shadow struct {
	on    bool
	cells map[uintptr]*cell
	slab  []cell
}

func (sh *shadow) init(on bool) {
	sh.on = on
	sh.cells = map[uintptr]*cell{}
}

func (sh *shadow) get(p unsafe.Pointer) *cell {
	c := sh.cells[uintptr(p)]
	if c == nil {
		if len(sh.slab) == 0 {
			sh.slab = make([]cell, 256)
		}
		c = &sh.slab[0]
		sh.slab = sh.slab[1:]
		c.p = p
		c.w.tid, c.r.tid = -1, -1
		sh.cells[uintptr(p)] = c
	}
	return c
}

func (e epoch) before(t *Task) bool {
	return e.tid < 0 || e.clk <= t.vc.get(int(e.tid))
}

func (s *Sim) raceReport(p unsafe.Pointer, what string, e epoch, prev string, loc int) {
	t := s.cur
	other := "?"
	if e.tid >= 0 && int(e.tid) < len(s.tasks) {
		other = s.tasks[e.tid].label()
	}
	s.Fail("race", fmt.Sprintf("%s by %s at %s is not ordered after the %s by %s at %s", what, t.label(), locName(loc), prev, other, locName(int(e.loc))))
}

// access records a plain access to one location.
func (s *Sim) access(p unsafe.Pointer, loc int, write bool) {
	t := s.cur
	if t == nil || !s.sh.on || p == nil {
		return
	}
	if loc < 0 {
		loc = t.loc
	}
	s.accessCell(s.sh.get(p), loc, write)
}

func (s *Sim) accessCell(c *cell, loc int, write bool) {
	t := s.cur
	p := c.p
	me := epoch{int32(t.id), int32(loc), t.vc[t.id]}
	if write {
		if c.w.tid != me.tid && !c.w.before(t) {
			s.raceReport(p, "write", c.w, "write", loc)
		}
		if c.r.tid != me.tid && !c.r.before(t) {
			s.raceReport(p, "write", c.r, "read", loc)
		}
		for _, e := range c.rs {
			if e.tid != me.tid && !e.before(t) {
				s.raceReport(p, "write", e, "read", loc)
			}
		}
		for _, e := range c.at {
			if e.tid != me.tid && !e.before(t) {
				if e.loc < 0 {
					e.loc = -e.loc - 1
				}
				s.raceReport(p, "write", e, "atomic access", loc)
			}
		}
		c.w = me
		c.r.tid = -1
		c.rs = c.rs[:0]
		return
	}
	if c.w.tid != me.tid && !c.w.before(t) {
		s.raceReport(p, "read", c.w, "write", loc)
	}
	for _, e := range c.at {
		if e.tid != me.tid && e.loc < 0 && !e.before(t) {
			s.raceReport(p, "read", epoch{e.tid, -e.loc - 1, e.clk}, "atomic write", loc)
		}
	}
	if c.r.tid == me.tid || c.r.before(t) {
		c.r = me
		return
	}
	for i := range c.rs {
		if c.rs[i].tid == me.tid {
			c.rs[i] = me
			return
		}
	}
	c.rs = append(c.rs, me)
}

// atomicAccess records an atomic access and updates the clocks.
func (s *Sim) atomicAccess(p unsafe.Pointer, write, rmw bool) {
	t := s.cur
	if t == nil {
		return
	}
	v := s.atomics[uintptr(p)]
	if v == nil {
		v = new(VC)
		s.atomics[uintptr(p)] = v
		s.keep = append(s.keep, p)
	}
	if s.sh.on {
		c := s.sh.get(p)
		me := epoch{int32(t.id), int32(t.loc), t.vc[t.id]}
		if c.w.tid != me.tid && !c.w.before(t) {
			s.raceReport(p, "atomic access", c.w, "write", t.loc)
		}
		if write {
			if c.r.tid != me.tid && !c.r.before(t) {
				s.raceReport(p, "atomic write", c.r, "read", t.loc)
			}
			for _, e := range c.rs {
				if e.tid != me.tid && !e.before(t) {
					s.raceReport(p, "atomic write", e, "read", t.loc)
				}
			}
			me.loc = -me.loc - 1
		}
		found := false
		for i := range c.at {
			if c.at[i].tid == me.tid && (c.at[i].loc < 0) == (me.loc < 0) {
				c.at[i] = me
				found = true
			}
		}
		if !found {
			c.at = append(c.at, me)
		}
	}
	switch {
	case rmw:
		s.acquire(*v)
		s.release(v)
	case write:
		s.releaseStore(v)
	default:
		s.acquire(*v)
	}
}

type leaf struct{ off uintptr }

var layouts = map[reflect.Type][]leaf{}

func layoutOf(t reflect.Type) []leaf {
	if l, ok := layouts[t]; ok {
		return l
	}
	var l []leaf
	var add func(t reflect.Type, off uintptr)
	add = func(t reflect.Type, off uintptr) {
		if len(l) > 256 {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				add(f.Type, off+f.Offset)
			}
		case reflect.Array:
			e := t.Elem()
			for i := 0; i < t.Len() && len(l) <= 256; i++ {
				add(e, off+uintptr(i)*e.Size())
			}
		default:
			if t.Size() > 0 {
				l = append(l, leaf{off})
			}
		}
	}
	add(t, 0)
	layouts[t] = l
	return l
}

func (s *Sim) accessVal(p unsafe.Pointer, t reflect.Type, loc int, write bool) {
	if s.cur == nil || !s.sh.on || p == nil {
		return
	}
	for _, l := range layoutOf(t) {
		s.access(unsafe.Add(p, l.off), loc, write)
	}
}

// Ld reads *p, a location that other goroutines may reach.
func Ld[T any](loc int, p *T) T {
	Y(loc)
	S.access(unsafe.Pointer(p), loc, false)
	return *p
}

// LdS is Ld for types with several parts.
func LdS[T any](loc int, p *T) T {
	Y(loc)
	S.accessVal(unsafe.Pointer(p), reflect.TypeFor[T](), loc, false)
	return *p
}

// W announces a write to *p.
func W[T any](loc int, p *T) *T {
	Y(loc)
	S.access(unsafe.Pointer(p), loc, true)
	return p
}

// WS is W for types with several parts.
func WS[T any](loc int, p *T) *T {
	Y(loc)
	S.accessVal(unsafe.Pointer(p), reflect.TypeFor[T](), loc, true)
	return p
}

// Touch records an access by harness code.
func Touch[T any](p *T, write bool) {
	s := S
	if s.cur == nil {
		return
	}
	s.access(unsafe.Pointer(p), s.cur.loc|userLoc, write)
}

// TouchAs records an access by harness code under a location of its own.
func TouchAs[T any](loc int, p *T, write bool) {
	S.access(unsafe.Pointer(p), loc, write)
}

func mapKey(m any) unsafe.Pointer { return reflect.ValueOf(m).UnsafePointer() }

func ptrOfMap[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR announces a read of a map.
func MR[M ~map[K]V, K comparable, V any](loc int, m M) M {
	Y(loc)
	S.access(ptrOfMap(map[K]V(m)), loc, false)
	return m
}

// MW announces a write of a map.
func MW[M ~map[K]V, K comparable, V any](loc int, m M) M {
	Y(loc)
	S.access(ptrOfMap(map[K]V(m)), loc, true)
	return m
}

// Iter is a simulated map iteration.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	seen map[K]bool
	loc  int
	at   int
	grow bool
}

// MapIter starts iterating over a map, in an order the simulator chooses.
func MapIter[M ~map[K]V, K comparable, V any](loc int, m M) *Iter[K, V] {
	Y(loc)
	it := &Iter[K, V]{m: m, loc: loc}
	S.access(ptrOfMap(it.m), loc, false)
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return lessAny(it.keys[i], it.keys[j]) })
	n := len(it.keys)
	if n > 1 {
		switch Choose(3) {
		case 0: // sorted
		case 1: // rotated
			r := Choose(n)
			it.keys = append(append([]K(nil), it.keys[r:]...), it.keys[:r]...)
		case 2:
			for i := n - 1; i > 0 && i > n-12; i-- {
				j := i - Choose(i+1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

// Next advances the iteration, skipping deleted keys.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	Y(it.loc)
	if it.m != nil {
		S.access(ptrOfMap(it.m), it.loc, false)
	}
	for it.at < len(it.keys) {
		key := it.keys[it.at]
		it.at++
		if val, ok := it.m[key]; ok {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
	}
	return false
}

func lessAny(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return !va.IsValid() && vb.IsValid()
	}
	if va.Kind() != vb.Kind() || va.Type() != vb.Type() {
		return va.Type().String() < vb.Type().String()
	}
	switch va.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Float32, reflect.Float64:
		return cmp.Less(va.Float(), vb.Float())
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

const maxElems = 1 << 16

func multi(t reflect.Type) bool {
	k := t.Kind()
	return k == reflect.Struct || k == reflect.Array
}

func accessElems[T any](loc int, s []T, write bool) {
	if S.cur == nil || !S.sh.on {
		return
	}
	t := reflect.TypeFor[T]()
	m := multi(t)
	for i := range s {
		if m {
			S.accessVal(unsafe.Pointer(&s[i]), t, loc, write)
		} else {
			S.access(unsafe.Pointer(&s[i]), loc, write)
		}
	}
}

// Copy is the builtin copy, split in two so that it can be interrupted.
func Copy[T any](loc int, dst, src []T) int {
	Y(loc)
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	accessElems(loc, src[:n], false)
	accessElems(loc, dst[:n], true)
	return copy(dst, src)
}

// CopyString is copy(dst, s) for a string.
func CopyString[B ~[]E, E ~byte](loc int, dst B, s string) int {
	Y(loc)
	n := min(len(dst), len(s))
	accessElems(loc, []E(dst[:n]), true)
	for i := range n {
		dst[i] = E(s[i])
	}
	return n
}

// AppendString is append(b, s...) for a string.
func AppendString[B ~[]E, E ~byte](loc int, b B, s string) B {
	x := make([]E, len(s))
	for i := range x {
		x[i] = E(s[i])
	}
	return Append(loc, b, x...)
}

// Append is the builtin append.
func Append[S ~[]T, T any](loc int, s S, x ...T) S {
	if n := len(s) + len(x); len(x) > 0 && n <= cap(s) {
		accessElems(loc, []T(s)[len(s):n], true)
	} else if len(x) > 0 {
		accessElems(loc, []T(s), false)
	}
	return append(s, x...)
}

// AppendAll is append(s, x...).
func AppendAll[S ~[]T, T any](loc int, s S, x []T) S {
	accessElems(loc, x, false)
	return Append(loc, s, x...)
}

// Ref is an assignable location.
type Ref[T any] struct{ p *T }

// P makes a Ref.
func P[T any](p *T) Ref[T] { return Ref[T]{p} }

// Set assigns v to the location.
func (r Ref[T]) Set(loc int, v T) {
	Y(loc)
	S.access(unsafe.Pointer(r.p), loc, true)
	*r.p = v
}

// SetS is Set for types with several parts.
func (r Ref[T]) SetS(loc int, v T) {
	Y(loc)
	S.accessVal(unsafe.Pointer(r.p), reflect.TypeFor[T](), loc, true)
	*r.p = v
}

// Wrote records a write that has just happened.
func Wrote[T any](loc int, p *T) {
	S.accessVal(unsafe.Pointer(p), reflect.TypeFor[T](), loc, true)
}

// MapRef is a map about to be assigned to.
type MapRef[K comparable, V any] struct{ m map[K]V }

// M makes a MapRef.
func M[MT ~map[K]V, K comparable, V any](m MT) MapRef[K, V] { return MapRef[K, V]{m} }

// Set is m[k] = v.
func (r MapRef[K, V]) Set(loc int, k K, v V) {
	Y(loc)
	S.access(ptrOfMap(r.m), loc, true)
	r.m[k] = v
}

// Zero returns zero values for the iteration variables.
func (it *Iter[K, V]) Zero() (k K, v V) { return }

// Key returns a zero key.
func (it *Iter[K, V]) Key() (k K) { return }

// Val returns a zero value.
func (it *Iter[K, V]) Val() (v V) { return }

// ChIter is a simulated range over a channel.
type ChIter[T any] struct {
	ch  <-chan T
	loc int
}

// ChanIter starts ranging over a channel.
func ChanIter[T any](loc int, ch <-chan T) *ChIter[T] { return &ChIter[T]{ch, loc} }

// Key returns a zero element.
func (it *ChIter[T]) Key() (v T) { return }

// Next receives the next element.
func (it *ChIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.loc, it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// Reset sets *p to its zero value.
func Reset[T any](p *T) {
	var z T
	*p = z
}

// RWr records a write through an addressable reflect.Value.
func RWr(loc int, v reflect.Value) reflect.Value {
	Y(loc)
	if v.IsValid() && v.CanAddr() {
		S.accessVal(v.Addr().UnsafePointer(), v.Type(), loc, true)
	}
	return v
}

// Appender is a slice about to be appended to.
type Appender[S ~[]T, T any] struct {
	s   S
	loc int
}

// App makes an Appender.
func App[S ~[]T, T any](loc int, s S) Appender[S, T] { return Appender[S, T]{s, loc} }

// To appends x.
func (a Appender[S, T]) To(x ...T) S { return Append(a.loc, a.s, x...) }

// SlR records reads of all elements of a slice.
func SlR[S ~[]T, T any](loc int, s S) S { accessElems(loc, []T(s), false); return s }

// SlW records writes of all elements of a slice.
func SlW[S ~[]T, T any](loc int, s S) S { accessElems(loc, []T(s), true); return s }

// Nop does nothing.
func Nop() {}

// Cells is the shadow of an array of user elements.
type Cells struct{ c []cell }

// NewCells makes the shadow of n elements.
func NewCells(n int) *Cells {
	a := &Cells{make([]cell, n)}
	for i := range a.c {
		a.c[i].w.tid, a.c[i].r.tid = -1, -1
	}
	return a
}

// Touch records an access of element i.
func (a *Cells) Touch(i int, write bool) {
	s := S
	if s.cur == nil || !s.sh.on {
		return
	}
	s.accessCell(&a.c[i], s.cur.loc|userLoc, write)
}

// TouchAll records an access of elements i..j-1.
func (a *Cells) TouchAll(i, j int, write bool) {
	for ; i < j; i++ {
		a.Touch(i, write)
	}
}
