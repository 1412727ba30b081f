//go:build go1.23

// Package simsync stands in for package sync in the simulation.
package simsync

import (
	"github.com/exascience/pargo/zzsim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	lot  simrt.Lot
	gen  uint64
}

func (m *Mutex) fresh() {
	if g := simrt.Gen(); m.gen != g {
		*m = Mutex{gen: g}
	}
}

// Lock is Mutex.Lock.
func (m *Mutex) Lock() {
	simrt.SyncPoint()
	m.fresh()
	for m.held {
		m.lot.Park("Mutex.Lock")
	}
	m.held = true
	simrt.Acquire(m.lot.HB)
	simrt.SyncPoint()
}

// TryLock is Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	simrt.SyncPoint()
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	simrt.Acquire(m.lot.HB)
	return true
}

// Unlock is Mutex.Unlock.
func (m *Mutex) Unlock() {
	simrt.SyncPoint()
	m.fresh()
	if !m.held {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	simrt.Release(&m.lot.HB)
	m.lot.WakeOne()
	simrt.SyncPoint()
}

// RWMutex is sync.RWMutex, with its preference for waiting writers.
type RWMutex struct {
	wheld   bool // some writer owns the right to write
	active  bool // and all readers have left
	readers int
	wq      simrt.Lot // writers waiting for the right
	drain   simrt.Lot // the writer waiting for the readers
	rq      simrt.Lot // readers waiting for the writer
	rhb     simrt.VC
	gen     uint64
}

func (m *RWMutex) fresh() {
	if g := simrt.Gen(); m.gen != g {
		*m = RWMutex{gen: g}
	}
}

// RLock is RWMutex.RLock.
func (m *RWMutex) RLock() {
	simrt.SyncPoint()
	m.fresh()
	if m.wheld {
		m.rq.Park("RWMutex.RLock") // the writer hands the lock over
	} else {
		m.readers++
	}
	simrt.Acquire(m.wq.HB)
	simrt.SyncPoint()
}

// TryRLock is RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	simrt.SyncPoint()
	m.fresh()
	if m.wheld {
		return false
	}
	m.readers++
	simrt.Acquire(m.wq.HB)
	return true
}

// RUnlock is RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	simrt.SyncPoint()
	m.fresh()
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Release(&m.rhb)
	if m.readers == 0 {
		m.drain.WakeOne()
	}
	simrt.SyncPoint()
}

// Lock is RWMutex.Lock.
func (m *RWMutex) Lock() {
	simrt.SyncPoint()
	m.fresh()
	for m.wheld {
		m.wq.Park("RWMutex.Lock")
	}
	m.wheld = true
	for m.readers > 0 {
		m.drain.Park("RWMutex.Lock (readers)")
	}
	m.active = true
	simrt.Acquire(m.wq.HB)
	simrt.Acquire(m.rhb)
	simrt.SyncPoint()
}

// TryLock is RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	simrt.SyncPoint()
	m.fresh()
	if m.wheld || m.readers > 0 {
		return false
	}
	m.wheld, m.active = true, true
	simrt.Acquire(m.wq.HB)
	simrt.Acquire(m.rhb)
	return true
}

// Unlock is RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	simrt.SyncPoint()
	m.fresh()
	if !m.active {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.wheld, m.active = false, false
	simrt.Release(&m.wq.HB)
	m.readers += m.rq.WakeAll()
	m.wq.WakeOne()
	simrt.SyncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	lot  simrt.Lot
	gen  uint64
	sema uint32
}

func (w *WaitGroup) fresh() {
	if g := simrt.Gen(); w.gen != g {
		*w = WaitGroup{gen: g}
	}
}

// Add is WaitGroup.Add.
func (w *WaitGroup) Add(d int) {
	simrt.SyncPoint()
	w.fresh()
	if d < 0 {
		simrt.Release(&w.lot.HB)
	}
	old := w.n
	w.n += d
	if w.n < 0 {
		simrt.Panic("sync: negative WaitGroup counter")
	}
	if d > 0 && old == 0 {
		// the first Add must be ordered against Wait
		simrt.Touch(&w.sema, false)
	}
	if w.n == 0 {
		w.lot.WakeAll()
	}
	simrt.SyncPoint()
}

// Done is WaitGroup.Done.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait is WaitGroup.Wait.
func (w *WaitGroup) Wait() {
	simrt.SyncPoint()
	w.fresh()
	if w.n > 0 {
		if w.lot.Len() == 0 {
			simrt.Touch(&w.sema, true)
		}
		w.lot.Park("WaitGroup.Wait")
	}
	simrt.Acquire(w.lot.HB)
	simrt.SyncPoint()
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(-1, func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	lot simrt.Tickets
	gen uint64
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) fresh() {
	if g := simrt.Gen(); c.gen != g {
		c.gen = g
		c.lot = simrt.Tickets{}
	}
}

// Wait is Cond.Wait.
func (c *Cond) Wait() {
	simrt.SyncPoint()
	c.fresh()
	// enqueued before the lock is released, as in the real one
	t := c.lot.Enqueue()
	c.L.Unlock()
	c.lot.ParkIf(t, "Cond.Wait")
	c.L.Lock()
}

// Signal is Cond.Signal.
func (c *Cond) Signal() {
	simrt.SyncPoint()
	c.fresh()
	c.lot.Notify(1)
	simrt.SyncPoint()
}

// Broadcast is Cond.Broadcast.
func (c *Cond) Broadcast() {
	simrt.SyncPoint()
	c.fresh()
	c.lot.Notify(-1)
	simrt.SyncPoint()
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
	gen  uint64
	hb   simrt.VC
}

// Do is Once.Do.
func (o *Once) Do(f func()) {
	simrt.SyncPoint()
	if g := simrt.Gen(); o.gen != g {
		*o = Once{gen: g}
	}
	if o.done {
		simrt.Acquire(o.hb)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			simrt.Release(&o.hb)
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() int { f(); return 0 })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p any
	var r T
	return func() T {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			r = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return r
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	type both struct {
		a A
		b B
	}
	g := OnceValue(func() both { a, b := f(); return both{a, b} })
	return func() (A, B) { r := g(); return r.a, r.b }
}

// Pool is sync.Pool; whether an object is reused is a simulated choice.
type Pool struct {
	New func() any
	l   []any
	hb  simrt.VC
	gen uint64
}

func (p *Pool) fresh() {
	if g := simrt.Gen(); p.gen != g {
		p.gen = g
		p.l, p.hb = nil, nil
	}
}

// Get is Pool.Get.
func (p *Pool) Get() any {
	simrt.SyncPoint()
	p.fresh()
	if n := len(p.l); n > 0 {
		if k := simrt.Choose(n + 1); k < n {
			x := p.l[n-1-k]
			p.l = append(p.l[:n-1-k], p.l[n-k:]...)
			simrt.Acquire(p.hb)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is Pool.Put.
func (p *Pool) Put(x any) {
	simrt.SyncPoint()
	p.fresh()
	if x == nil {
		return
	}
	simrt.Release(&p.hb)
	p.l = append(p.l, x)
}

// Map is sync.Map.
type Map struct {
	m    map[any]any
	keys []any
	hb   simrt.VC
	gen  uint64
}

func (m *Map) op(write bool) {
	simrt.SyncPoint()
	if g := simrt.Gen(); m.gen != g {
		*m = Map{gen: g}
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	simrt.Acquire(m.hb)
	if write {
		simrt.Release(&m.hb)
	}
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Load is Map.Load.
func (m *Map) Load(k any) (any, bool) { m.op(false); v, ok := m.m[k]; return v, ok }

// Store is Map.Store.
func (m *Map) Store(k, v any) { m.op(true); m.set(k, v) }

// LoadOrStore is Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op(true)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete is Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op(true)
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}

// Delete is Map.Delete.
func (m *Map) Delete(k any) { m.op(true); m.del(k) }

// Swap is Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	m.op(true)
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}

// CompareAndSwap is Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op(true)
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}

// CompareAndDelete is Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op(true)
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

// Range is Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.op(false)
	for _, k := range append([]any(nil), m.keys...) {
		m.op(false)
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Clear is Map.Clear.
func (m *Map) Clear() { m.op(true); m.m, m.keys = nil, nil }
