//go:build go1.23

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zzsim/simrt"
)

// Package sync: concurrent clients of a Map.

// mkey is a key with an arbitrary hash.
type mkey struct {
	id   int
	hash uint64
}

func (k mkey) Hash() uint64 {
	simrt.Yield()
	return k.hash
}

// mval is a stored value with content of its own.
type mval struct {
	id int
	c  cell
}

const (
	opLoad = iota
	opLoadOrStore
	opLoadOrCompute
	opDelete
	opDeleteOrStore
	opDeleteOrCompute
	opModifyStore
	opModifyDelete
	opModifyFlip // store if absent, delete if present
	opLockedStore
	opLockedLoad
	opRange
	opParallelRange
	opSpecRange
)

var opNames = []string{"Load", "LoadOrStore", "LoadOrCompute", "Delete", "DeleteOrStore", "DeleteOrCompute", "Modify(store)", "Modify(delete)", "Modify(flip)", "Lock+store", "RLock+load", "Range", "ParallelRange", "SpeculativeRange"}

type mapOp struct {
	kind    int
	key     int
	nilVal  bool
	d       delay
	panics  int // 1+bomb kind
	stop    int // traversals: f returns false, or panics, at this visit (1-based)
	every   int // traversals: f panics for the keys whose number this divides
	left    int // the left-most split for which f panicked
	late    bool
	nested  []*mapOp // LoadOrCompute: what its computer does to the map
	waitFor int      // LoadOrCompute: computer waits for that task
	hold    bool     // locked operations: hold until the other tasks are done

	// history
	id        int
	call, ret int64
	val       *mval // value offered
	out       any
	flag      bool
	seen      any
	seenOk    bool
	calls     int
	cbFrom    int64
	cbTo      int64
	panicked  bool
	done      bool
}

type mapRun struct {
	prop   string
	m      *sync.Map
	size   int
	keys   []mkey
	stable []bool
	tasks  [][]*mapOp
	init   []int // keys present at the start
	hist   []*mapOp
	over   []*gate
	nops   int
	ids    int
	all    *gate
	free   int
	order  map[uintptr]int
}

func (r *mapRun) newVal(nilVal bool) *mval {
	if nilVal {
		return nil
	}
	r.ids++
	v := &mval{id: r.ids}
	v.c.set(r.ids)
	return v
}

// box turns a value into what is stored: nil values are stored as nil interfaces.
func box(v *mval) any {
	if v == nil {
		return nil
	}
	return v
}

func (r *mapRun) check(prop, where string, x any) *mval {
	if x == nil {
		return nil
	}
	v, ok := x.(*mval)
	if !ok {
		Fail(prop, "invented", "%s returned %v, which nobody stored", where, x)
		return nil
	}
	if v.c.get() != v.id {
		Fail(prop, "invented", "%s returned a damaged value", where)
	}
	return v
}

func name(x any) string {
	if v, ok := x.(*mval); ok && v != nil {
		return fmt.Sprintf("v%d", v.id)
	}
	return "nil"
}

// raw reads the current mapping of a key behind the library's back.
func (r *mapRun) raw(k mkey) (any, bool) {
	v, ok := r.m.Split(k).Map[k]
	return v, ok
}

func (r *mapRun) callback(o *mapOp, locked bool) {
	o.calls++
	if o.calls > 1 {
		Fail("C13", "twice", "%s called its function twice", opNames[o.kind])
	}
	k := r.keys[o.key]
	o.cbFrom = simrt.Now()
	v0, ok0 := r.raw(k)
	o.d.do()
	if o.waitFor > 0 {
		simrt.Probe("computer waits for another goroutine")
		r.over[o.waitFor].wait("another user of the map")
	}
	for _, n := range o.nested {
		simrt.Probe("computer uses the map")
		r.do(n)
	}
	if locked {
		if o.hold {
			simrt.Fault("callback holds its split")
			r.all.wait("users of other splits")
		}
		v1, ok1 := r.raw(k)
		if v0 != v1 || ok0 != ok1 {
			Fail("C13", "changed", "the mapping of the key changed from %s,%v to %s,%v while the function of %s was running", name(v0), ok0, name(v1), ok1, opNames[o.kind])
		}
	}
	simrt.Yield()
	o.cbTo = simrt.Now()
	if o.panics > 0 {
		simrt.Fault("panic in map callback")
		panic(bombValue(o.id, o.panics-1))
	}
}

func (r *mapRun) do(o *mapOp) {
	k := r.keys[o.key]
	o.val = r.newVal(o.nilVal)
	o.call = simrt.Now()
	r.hist = append(r.hist, o)
	p, panicked := catch(func() { r.perform(o, k) })
	o.ret = simrt.Now()
	o.done = true
	o.panicked = panicked
	if panicked {
		if o.panics == 0 || o.calls == 0 {
			Fail(r.prop, "panicked", "%s panicked with %s", opNames[o.kind], oneLine(fmt.Sprint(p)))
		} else {
			checkPanic(r.panicProp(o), opNames[o.kind], p, o.id, o.panics-1)
		}
	} else if o.panics > 0 && (o.kind < opRange && o.calls > 0 || o.kind >= opRange && o.left >= 0) {
		Fail(r.panicProp(o), "swallowed", "%s did not pass on the panic of its function", opNames[o.kind])
	}
}

func (r *mapRun) panicProp(o *mapOp) string {
	switch {
	case o.kind == opParallelRange && r.prop == "C04", o.kind == opSpecRange && r.prop == "C08":
		return r.prop
	case o.kind >= opRange:
		return "C14"
	}
	return "C13"
}

func (r *mapRun) perform(o *mapOp, k mkey) {
	m := r.m
	switch o.kind {
	case opLoad:
		o.out, o.flag = m.Load(k)
	case opLoadOrStore:
		o.out, o.flag = m.LoadOrStore(k, box(o.val))
	case opLoadOrCompute:
		o.out, o.flag = m.LoadOrCompute(k, func() interface{} { r.callback(o, false); return box(o.val) })
		if !o.flag && o.calls != 1 {
			Fail("C13", "uncalled", "LoadOrCompute stored a value without calling its computer")
		}
	case opDelete:
		m.Delete(k)
	case opDeleteOrStore:
		o.out, o.flag = m.DeleteOrStore(k, box(o.val))
	case opDeleteOrCompute:
		o.out, o.flag = m.DeleteOrCompute(k, func() interface{} {
			if v, ok := r.raw(k); ok {
				Fail("C13", "needless", "DeleteOrCompute called its computer although the key was mapped to %s", name(v))
			}
			r.callback(o, true)
			return box(o.val)
		})
		if o.flag && o.calls > 0 {
			Fail("C13", "needless", "DeleteOrCompute called its computer and deleted")
		}
	case opModifyStore, opModifyDelete, opModifyFlip:
		var rep any
		var st bool
		o.out, o.flag = m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) {
			o.seen, o.seenOk = v, ok
			r.check("C12", "Modify", v)
			if w, o2 := r.raw(k); w != v || o2 != ok {
				Fail("C13", "stale", "Modify called its modifier with %s,%v while the mapping was %s,%v", name(v), ok, name(w), o2)
			}
			r.callback(o, true)
			st = o.kind == opModifyStore || o.kind == opModifyFlip && !ok
			rep = box(o.val)
			return rep, st
		})
		if o.calls != 1 {
			Fail("C13", "count", "Modify called its modifier %d times", o.calls)
		}
		if o.out != rep || o.flag != st {
			Fail("C12", "returned", "Modify returned %s,%v, its modifier %s,%v", name(o.out), o.flag, name(rep), st)
		}
	case opLockedStore, opLockedLoad:
		s := m.Split(k)
		if o.kind == opLockedStore {
			s.Lock()
			defer s.Unlock()
		} else {
			s.RLock()
			defer s.RUnlock()
		}
		mm := simrt.MR(0, s.Map)
		v0, ok0 := mm[k]
		o.seen, o.seenOk = v0, ok0
		if s2 := m.Split(k); s2 != s {
			Fail("C16", "moved", "Split selected two different splits for one key")
		}
		o.d.do()
		if o.hold {
			simrt.Fault("user holds a split")
			r.all.wait("users of other splits")
		}
		if v1, ok1 := mm[k]; v1 != v0 || ok1 != ok0 {
			Fail("C16", "changed", "the mapping of a key changed from %s,%v to %s,%v while the user held the lock of its split", name(v0), ok0, name(v1), ok1)
		}
		if o.kind == opLockedStore {
			simrt.MW(0, s.Map)[k] = box(o.val)
		}
	case opRange, opParallelRange, opSpecRange:
		r.traverse(o)
	}
	switch o.kind {
	case opLoad, opLoadOrStore, opLoadOrCompute, opDeleteOrStore, opDeleteOrCompute:
		r.check("C12", opNames[o.kind], o.out)
	}
}

// ---------------------------------------------------------------- traversals

func (r *mapRun) traverse(o *mapOp) {
	visits := map[mkey]int{}
	o.left = -1
	stopped := false
	returned := false
	n := 0
	var running int
	var after gate
	after.quiet = true
	var stopSplit *sync.Split
	f := func(key, value interface{}) bool {
		k, ok := key.(mkey)
		if !ok {
			Fail("C14", "invented", "%s called f with key %v", opNames[o.kind], key)
			return true
		}
		n++
		o.calls++
		visits[k]++
		me := n
		if visits[k] > 1 {
			Fail("C14", "twice", "%s called f twice for key %d", opNames[o.kind], k.id)
		}
		if stopped && o.kind == opRange {
			Fail("C14", "went-on", "Range called f again after f had returned false")
		}
		if returned && o.kind != opSpecRange {
			Fail("C14", "late", "%s called f after it had returned", opNames[o.kind])
		}
		if returned && !stopped {
			Fail("C14", "late", "%s called f after it had returned, although f never returned false", opNames[o.kind])
		}
		running++
		defer func() { running-- }()
		r.check("C14", opNames[o.kind], value)
		if v, ok := r.raw(k); !ok || v != value {
			Fail("C14", "stale", "%s called f with value %s for key %d, which was %s,%v", opNames[o.kind], name(value), k.id, name(v), ok)
		}
		if r.stable[k.id] {
			r.checkValueSeen(o, k, value)
		}
		o.d.do()
		if v, ok := r.raw(k); !ok || v != value {
			Fail("C14", "unlocked", "the mapping of key %d changed to %s,%v while %s was calling f for it", k.id, name(v), ok, opNames[o.kind])
		}
		if o.late && o.stop > 0 && stopSplit != nil && r.order != nil {
			// f of a split to the right of the deciding one blocks
			if r.at(k) > r.order[mapID(stopSplit.Map)] {
				simrt.Fault("blocked right-hand function")
				after.wait("return of SpeculativeRange")
			}
		}
		if o.panics > 0 {
			if me == o.stop || o.every > 0 && k.id%o.every == 0 {
				stopped = true
				if at := r.at(k); o.left < 0 || at < o.left {
					o.left, o.id = at, 1000+k.id
				}
				simrt.Fault("panic in map callback")
				panic(bombValue(1000+k.id, o.panics-1))
			}
			return true
		}
		if o.stop > 0 && (o.late && stopSplit == r.m.Split(k) || !o.late && me == o.stop) {
			stopped = true
			simrt.Probe("traversal stopped by f")
			return false
		}
		return true
	}
	defer func() {
		returned = true
		after.set()
		if running > 0 && o.kind != opSpecRange {
			Fail(r.panicProp(o), "early", "%s returned or panicked while f was still running", opNames[o.kind])
		}
	}()
	switch o.kind {
	case opRange:
		r.m.Range(f)
	case opParallelRange:
		r.m.ParallelRange(func(k, v interface{}) { f(k, v) })
	case opSpecRange:
		if o.late {
			// decide at the split of the operation's key, if that key is stable
			stopSplit = r.m.Split(r.keys[o.key])
		}
		r.m.SpeculativeRange(f)
	}
	if running > 0 && !stopped && o.kind == opSpecRange {
		Fail("C14", "early", "%s returned while f was still running", opNames[o.kind])
	}
	if !stopped {
		for i, k := range r.keys {
			if r.stable[i] && visits[k] != 1 {
				Fail("C14", "missed", "%s called f %d times for key %d, which was present throughout", opNames[o.kind], visits[k], k.id)
			}
		}
	}
}

// checkValueSeen: the value must have been the key's at some moment of the call.
func (r *mapRun) checkValueSeen(o *mapOp, k mkey, value any) {
	var w *mapOp
	for _, h := range r.hist {
		if h.key == k.id && h.kind < opRange && h.val != nil && box(h.val) == value {
			w = h
		}
	}
	if w == nil {
		return // the initial value, or nil
	}
	for _, h := range r.hist {
		if h != w && h.key == k.id && h.kind == opModifyStore && h.done && !h.panicked && h.ret < o.call && w.done && w.ret < h.call {
			Fail("C14", "outdated", "%s called f with an old value of key %d", opNames[o.kind], k.id)
		}
	}
}

// ---------------------------------------------------------------- linearizability

type lstate struct {
	ok bool
	v  any
}

// step applies one operation to the model; ok is false if it cannot return what
// it returned.
func (o *mapOp) step(s lstate) (lstate, bool) {
	v := box(o.val)
	switch o.kind {
	case opLoad:
		return s, o.flag == s.ok && o.out == s.v
	case opLoadOrStore, opLoadOrCompute:
		if s.ok {
			return s, o.flag && o.out == s.v
		}
		return lstate{true, v}, !o.flag && o.out == v
	case opDelete:
		return lstate{}, true
	case opDeleteOrStore, opDeleteOrCompute:
		if s.ok {
			return lstate{}, o.flag && o.out == s.v
		}
		return lstate{true, v}, !o.flag && o.out == v
	case opModifyStore:
		return lstate{true, v}, o.seenOk == s.ok && o.seen == s.v
	case opModifyDelete:
		return lstate{}, o.seenOk == s.ok && o.seen == s.v
	case opModifyFlip:
		if s.ok {
			return lstate{}, o.seenOk && o.seen == s.v
		}
		return lstate{true, v}, !o.seenOk && o.seen == nil
	case opLockedStore:
		return lstate{true, v}, o.seenOk == s.ok && o.seen == s.v
	case opLockedLoad:
		return s, o.seenOk == s.ok && o.seen == s.v
	}
	return s, true
}

func (o *mapOp) String() string {
	return fmt.Sprintf("%s(key %d, v%s)=%s,%v saw %s,%v [%d..%d]", opNames[o.kind], o.key, strings.TrimPrefix(name(box(o.val)), "v"), name(o.out), o.flag, name(o.seen), o.seenOk, o.call, o.ret)
}

func linearizable(ops []*mapOp, init lstate) bool {
	n := len(ops)
	if n > 60 {
		simrt.Failf("harness", "history of %d operations", n)
		return true
	}
	type memo struct {
		mask uint64
		s    lstate
	}
	dead := map[memo]bool{}
	var search func(mask uint64, s lstate) bool
	search = func(mask uint64, s lstate) bool {
		if mask == 1<<n-1 {
			return true
		}
		k := memo{mask, s}
		if dead[k] {
			return false
		}
		// the earliest return among the pending bounds what may go next
		first := int64(1 << 62)
		for i, o := range ops {
			if mask>>i&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if mask>>i&1 == 0 && o.call <= first {
				if s2, ok := o.step(s); ok && search(mask|1<<i, s2) {
					return true
				}
			}
		}
		dead[k] = true
		return false
	}
	return search(0, init)
}

func (r *mapRun) checkHistory(initial map[int]any) {
	for ki := range r.keys {
		var ops, misses []*mapOp
		for _, o := range r.hist {
			if o.key == ki && o.kind == opLoadOrCompute && o.calls > 0 {
				// calling the computer tells that the key was absent before
				misses = append(misses, &mapOp{kind: opLoad, key: ki, call: o.call, ret: o.cbFrom})
			}
			if o.key == ki && o.kind < opRange && !o.panicked {
				if !o.done {
					return
				}
				ops = append(ops, o)
			}
		}
		var st lstate
		if v, ok := initial[ki]; ok {
			st = lstate{true, v}
		}
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
		if !linearizable(ops, st) {
			var d []string
			for _, o := range ops {
				d = append(d, o.String())
			}
			Fail("C12", "history", "no order of the operations on key %d (initially %s,%v) explains their results: %s", ki, name(st.v), st.ok, strings.Join(d, "; "))
		}
		if len(misses) > 0 {
			all := append(append([]*mapOp{}, ops...), misses...)
			sort.SliceStable(all, func(i, j int) bool { return all[i].call < all[j].call })
			if !linearizable(all, st) {
				var d []string
				for _, o := range all {
					d = append(d, o.String())
				}
				Fail("C13", "needless", "LoadOrCompute called its computer although key %d (initially %s,%v) was present throughout (shown as Load): %s", ki, name(st.v), st.ok, strings.Join(d, "; "))
			}
		}
		// nothing may have observed or changed the key while a locked function ran
		for _, a := range ops {
			if a.cbTo == 0 || a.kind == opLoadOrCompute {
				continue
			}
			for _, b := range ops {
				if b != a && b.call > a.cbFrom && b.ret < a.cbTo {
					Fail("C13", "observed", "%s ran from start to end while the function of %s was running", b, a)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- the run

// findOrder finds out the order of the splits.
func (r *mapRun) findOrder() {
	r.order = map[uintptr]int{}
	r.m.And(func(x map[interface{}]interface{}) bool {
		r.order[mapID(x)] = len(r.order)
		return true
	})
}

func (r *mapRun) at(k mkey) int { return r.order[mapID(r.m.Split(k).Map)] }

func (r *mapRun) run() {
	r.m = sync.NewMap(r.size)
	initial := map[int]any{}
	for _, k := range r.init {
		v := r.newVal(false)
		initial[k] = v
		if _, loaded := r.m.LoadOrStore(r.keys[k], v); loaded {
			Fail("C12", "history", "LoadOrStore loaded from an empty map")
		}
		s := r.m.Split(r.keys[k])
		if w, ok := s.Map[r.keys[k]]; !ok || w != any(v) {
			Fail("C16", "elsewhere", "a stored key is not in the split that Split selects")
		}
	}
	r.findOrder()
	for range r.tasks {
		r.over = append(r.over, &gate{})
	}
	r.all = &gate{quiet: true}
	r.free = 0
	for _, t := range r.tasks {
		if !holds(t) {
			r.free++
		}
	}
	if r.free == 0 {
		r.all.set()
	}
	var fs []func()
	for i, t := range r.tasks {
		fs = append(fs, func() {
			for _, o := range t {
				r.do(o)
			}
			r.over[i].set()
			if !holds(t) {
				if r.free--; r.free == 0 {
					r.all.set()
				}
			}
		})
	}
	if len(fs) > 0 {
		concurrently(fs...)
	}
	simrt.Quiesce()
	// every lock must be free again, and the final contents must fit
	for i := range r.keys {
		r.do(&mapOp{kind: opLoad, key: i})
	}
	for i := range r.keys {
		r.do(&mapOp{kind: opModifyDelete, key: i})
	}
	r.checkHistory(initial)
	noLeak(r.prop)
}

func holds(t []*mapOp) bool {
	for _, o := range t {
		if o.hold {
			return true
		}
	}
	return false
}

func (w *W) drawHash() uint64 {
	switch w.Pick(5, 2, 2, 2, 3) {
	case 1:
		return uint64(w.Int(4)) << 62
	case 2:
		return ^uint64(0) - uint64(w.Int(8))
	case 3:
		return 1<<63 + uint64(w.Int(8))
	case 4:
		return simrt.Mix(uint64(w.Int(1<<20)), 3)
	}
	return uint64(w.Int(8))
}

func (w *W) drawOp(r *mapRun, key int, stable bool) *mapOp {
	o := &mapOp{key: key}
	if stable {
		o.kind = []int{opModifyStore, opLoad, opLoadOrStore, opLoadOrCompute, opLockedStore, opLockedLoad}[w.Pick(4, 1, 1, 1, 1, 1)]
	} else {
		o.kind = w.Pick(2, 3, 3, 2, 3, 3, 3, 1, 3, 1, 1)
	}
	o.nilVal = w.Chance(1, 8)
	if w.Chance(1, 2) {
		o.d = w.drawDelay()
	}
	r.nops++
	o.id = r.nops
	return o
}

// drawBomb makes the function of a traversal panic.
func (w *W) drawBomb(o *mapOp, nk int) {
	o.panics = 1 + w.Int(bombKinds)
	if w.Chance(1, 2) {
		o.every = w.Range(1, 3)
	} else {
		o.stop = w.Range(1, nk)
	}
}

// insertOp inserts an operation somewhere in a task.
func (w *W) insertOp(r *mapRun, o *mapOp) {
	r.nops++
	o.id = r.nops
	t := w.Int(len(r.tasks) + 1)
	if t == len(r.tasks) {
		r.tasks = append(r.tasks, nil)
	}
	at := w.Int(len(r.tasks[t]) + 1)
	r.tasks[t] = append(r.tasks[t][:at:at], append([]*mapOp{o}, r.tasks[t][at:]...)...)
}

func hasCallback(k int) bool {
	return k == opLoadOrCompute || k == opDeleteOrCompute || k >= opModifyStore && k <= opModifyFlip
}

func planMap(prop string) func(w *W) func() {
	return func(w *W) func() {
		r := &mapRun{prop: prop}
		r.size = w.Of(1, 2, 3, 4, 0, 5, 8, -1)
		if w.Chance(1, 40) {
			r.size = w.Of(16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 257, 1000)
		}
		nk := w.Range(1, 3)
		if prop == "C14" {
			nk = w.Range(1, 6)
		}
		if prop == "C16" {
			nk = w.Range(2, 4)
		}
		if w.Chance(1, 40) {
			nk = w.LogUpTo(4, 40)
		}
		if prop == "C14" && w.Chance(1, 400) {
			nk = w.LogUpTo(40, 600)
		}
		for i := 0; i < nk; i++ {
			r.keys = append(r.keys, mkey{i, w.drawHash()})
			r.stable = append(r.stable, prop == "C14" && w.Chance(2, 3))
			if r.stable[i] || w.Chance(1, 3) {
				r.init = append(r.init, i)
			}
		}
		nt := w.Range(2, 4)
		if prop == "C14" {
			nt = w.Range(1, 3)
		}
		if w.Chance(1, 60) {
			nt = w.Range(5, 12)
		}
		budget := make([]int, nk)
		for t := 0; t < nt; t++ {
			var ops []*mapOp
			n := w.Range(1, 4)
			for i := 0; i < n; i++ {
				key := w.Int(nk)
				if budget[key] >= 12 {
					continue
				}
				budget[key]++
				o := w.drawOp(r, key, r.stable[key])
				if prop == "C13" {
					if !hasCallback(o.kind) && w.Chance(1, 2) {
						o.kind = []int{opLoadOrCompute, opDeleteOrCompute, opModifyStore, opModifyFlip, opModifyDelete}[w.Int(5)]
					}
					if hasCallback(o.kind) && w.Chance(1, 4) {
						o.panics = 1 + w.Int(bombKinds)
					}
					if o.kind == opLoadOrCompute {
						switch w.Int(4) {
						case 1:
							for j := w.Range(1, 2); j > 0; j-- {
								k2 := w.Int(nk)
								if budget[k2] < 12 {
									budget[k2]++
									o.nested = append(o.nested, w.drawOp(r, k2, false))
								}
							}
						case 2:
							if t == 0 && nt > 1 {
								o.waitFor = w.Range(1, nt-1)
							}
						}
					}
				}
				ops = append(ops, o)
			}
			r.tasks = append(r.tasks, ops)
		}
		if prop == "C14" {
			for i := w.Range(1, 2); i > 0; i-- {
				o := &mapOp{kind: opRange + w.Int(3), key: w.Int(nk)}
				if w.Chance(1, 3) {
					o.d = w.drawDelay()
				}
				switch {
				case o.kind == opSpecRange && w.Chance(1, 3):
					o.late = true
					// needs a stable key to be sure to decide
					for k := range r.keys {
						if r.stable[k] {
							o.key = k
							o.stop = 1
						}
					}
					o.late = o.stop > 0
				case o.kind != opParallelRange && w.Chance(1, 3):
					o.stop = w.Range(1, nk)
				case w.Chance(1, 5):
					w.drawBomb(o, nk)
				}
				w.insertOp(r, o)
			}
		}
		if prop == "C13" && w.Chance(1, 6) {
			o := &mapOp{kind: opRange + w.Int(3), key: w.Int(nk)}
			w.drawBomb(o, nk)
			w.insertOp(r, o)
		}
		for i, t := range r.tasks {
			var d []string
			for _, o := range t {
				x := fmt.Sprintf("%s(%d)", opNames[o.kind], o.key)
				if o.panics > 0 {
					x += "!panics"
				}
				if o.waitFor > 0 {
					x += fmt.Sprintf("!waits for task %d", o.waitFor)
				}
				for _, n := range o.nested {
					x += fmt.Sprintf("{%s(%d)}", opNames[n.kind], n.key)
				}
				if o.every > 0 {
					x += fmt.Sprintf("!panics for every %dth key", o.every)
				} else if o.stop > 0 && o.panics > 0 {
					x += fmt.Sprintf("!panics at %d", o.stop)
				} else if o.stop > 0 {
					x += fmt.Sprintf("!stops at %d", o.stop)
				}
				d = append(d, x)
			}
			w.Descf("task %d: %s", i, strings.Join(d, ", "))
		}
		w.Descf("NewMap(%d) keys(id,hash)=%v initially %v stable %v", r.size, r.keys, r.init, r.stable)
		hold := prop == "C16" && w.Chance(3, 4)
		holdKind := w.Int(4)
		holdDelay := w.drawDelay()
		return func() {
			if hold {
				r.arrangeHold(holdKind, holdDelay)
			}
			r.run()
		}
	}
}

// arrangeHold makes one more task hold the split of key 0 until all other tasks,
// none of which uses that split, are done.
func (r *mapRun) arrangeHold(kind int, d delay) {
	probe := sync.NewMap(r.size)
	s0 := probe.Split(r.keys[0])
	var keys []int
	for i, k := range r.keys {
		if probe.Split(k) != s0 {
			keys = append(keys, i)
		}
	}
	if len(keys) == 0 {
		return
	}
	simrt.Probe("split held while others are used")
	for _, t := range r.tasks {
		for _, o := range t {
			if probe.Split(r.keys[o.key]) == s0 {
				o.key = keys[o.id%len(keys)]
			}
		}
	}
	r.tasks = append(r.tasks, []*mapOp{{kind: []int{opModifyStore, opLockedStore, opLockedLoad, opDeleteOrCompute}[kind], key: 0, hold: true, d: d, id: 1000}})
	in := r.init[:0]
	for _, k := range r.init {
		if k != 0 || kind != 3 {
			in = append(in, k)
		}
	}
	r.init = in
}

// ---------------------------------------------------------------- folds

type mapFold struct {
	m    *sync.Map
	idx  map[uintptr]int
	seq  bool
	name string
}

type smap = map[interface{}]interface{}

func mapID(m smap) uintptr { return reflect.ValueOf(m).Pointer() }

// in finds the split of a map handed to a fold function and occupies it.
func (c *parCall) in(m smap) (rec *batchRec, hot bool, i int) {
	i, ok := c.fold.idx[mapID(m)]
	if !ok {
		Fail("C15", "invented", "%s: the function was called with a map that is no split", c.name())
		i = 0
	}
	n := len(m)
	simrt.MW(0, m)
	defer func() {
		simrt.MW(0, m)
		if len(m) != n {
			Fail("C15", "unlocked", "%s: the contents of a split changed while the function was running on it", c.name())
		}
	}()
	rec, hot = c.enter(i, i+1)
	return
}

func foldFn[T any](c *parCall, val func(l, h int) T) func(smap) T {
	return func(m smap) T {
		r, _, i := c.in(m)
		v := val(i, i+1)
		r.ret = v
		return v
	}
}

func foldFn2[T any](c *parCall, val func(l, h int) T) func(smap) (T, bool) {
	return func(m smap) (T, bool) {
		r, t, i := c.in(m)
		v := val(i, i+1)
		r.ret = v
		return v, t
	}
}

func (c *parCall) fAnd(m smap) bool { _, t, _ := c.in(m); return !t }
func (c *parCall) fOr(m smap) bool  { _, t, _ := c.in(m); return t }

type foldForm struct {
	form
	seq bool
}

var foldForms []*foldForm

func init() {
	add := func(name string, mode, kind int, call func(c *parCall)) {
		foldForms = append(foldForms, &foldForm{form{name, mode == 2, false, kind, 1, call}, mode == 0})
	}
	fl := func(c *parCall) func(l, h int) float64 {
		return func(l, h int) float64 { return float64(c.pack(l, h)) }
	}
	jf := func(c *parCall) func(x, y float64) float64 {
		return func(x, y float64) float64 { return float64(c.joinInt(int(x), int(y))) }
	}
	unf := func(c *parCall) func(x float64) (int, int) {
		return func(x float64) (int, int) { return c.unpack(int(x)) }
	}
	ivb := func(x any) (int, int) { return x.(*iv).l, x.(*iv).h }
	add("And", 0, kAnd, func(c *parCall) { c.gotBool = c.fold.m.And(c.fAnd) })
	add("Or", 0, kOr, func(c *parCall) { c.gotBool = c.fold.m.Or(c.fOr) })
	add("ParallelAnd", 1, kAnd, func(c *parCall) { c.gotBool = c.fold.m.ParallelAnd(c.fAnd) })
	add("ParallelOr", 1, kOr, func(c *parCall) { c.gotBool = c.fold.m.ParallelOr(c.fOr) })
	add("SpeculativeAnd", 2, kAnd, func(c *parCall) { c.gotBool = c.fold.m.SpeculativeAnd(c.fAnd) })
	add("SpeculativeOr", 2, kOr, func(c *parCall) { c.gotBool = c.fold.m.SpeculativeOr(c.fOr) })
	add("Reduce", 0, kAny, func(c *parCall) {
		c.gotVal = c.fold.m.Reduce(foldFn[interface{}](c, c.anyVal), c.joinAny)
	})
	add("ReduceInt", 0, kInt, func(c *parCall) { c.gotVal = c.fold.m.ReduceInt(foldFn(c, c.pack), c.joinInt) })
	add("ReduceFloat64", 0, kFloat, func(c *parCall) { c.gotVal = c.fold.m.ReduceFloat64(foldFn(c, fl(c)), jf(c)) })
	add("ReduceString", 0, kString, func(c *parCall) { c.gotVal = c.fold.m.ReduceString(foldFn(c, c.strVal), c.joinStr) })
	add("ReduceIntSum", 0, kIntSum, func(c *parCall) { c.gotVal = c.fold.m.ReduceIntSum(foldFn(c, sumTerm)) })
	add("ReduceIntProduct", 0, kIntProd, func(c *parCall) { c.gotVal = c.fold.m.ReduceIntProduct(foldFn(c, prodTerm)) })
	add("ReduceFloat64Sum", 0, kFloatSum, func(c *parCall) { c.gotVal = c.fold.m.ReduceFloat64Sum(foldFn(c, fsumTerm)) })
	add("ReduceFloat64Product", 0, kFloatProd, func(c *parCall) { c.gotVal = c.fold.m.ReduceFloat64Product(foldFn(c, fprodTerm)) })
	add("ReduceStringSum", 0, kStringSum, func(c *parCall) { c.gotVal = c.fold.m.ReduceStringSum(foldFn(c, ssumTerm)) })
	add("ParallelReduce", 1, kAny, func(c *parCall) {
		c.gotVal = c.fold.m.ParallelReduce(foldFn[interface{}](c, c.anyVal), c.joinAny)
	})
	add("ParallelReduceInt", 1, kInt, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceInt(foldFn(c, c.pack), c.joinInt) })
	add("ParallelReduceFloat64", 1, kFloat, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceFloat64(foldFn(c, fl(c)), jf(c)) })
	add("ParallelReduceString", 1, kString, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceString(foldFn(c, c.strVal), c.joinStr) })
	add("ParallelReduceIntSum", 1, kIntSum, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceIntSum(foldFn(c, sumTerm)) })
	add("ParallelReduceIntProduct", 1, kIntProd, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceIntProduct(foldFn(c, prodTerm)) })
	add("ParallelReduceFloat64Sum", 1, kFloatSum, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceFloat64Sum(foldFn(c, fsumTerm)) })
	add("ParallelReduceFloat64Product", 1, kFloatProd, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceFloat64Product(foldFn(c, fprodTerm)) })
	add("ParallelReduceStringSum", 1, kStringSum, func(c *parCall) { c.gotVal = c.fold.m.ParallelReduceStringSum(foldFn(c, ssumTerm)) })
	add("SpeculativeReduce", 2, kAny, func(c *parCall) {
		c.gotVal, c.gotDec = c.fold.m.SpeculativeReduce(foldFn2[interface{}](c, c.anyVal), join2(c, c.joinAny, ivb))
	})
	add("SpeculativeReduceInt", 2, kInt, func(c *parCall) {
		c.gotVal, c.gotDec = c.fold.m.SpeculativeReduceInt(foldFn2(c, c.pack), join2(c, c.joinInt, c.unpack))
	})
	add("SpeculativeReduceFloat64", 2, kFloat, func(c *parCall) {
		c.gotVal, c.gotDec = c.fold.m.SpeculativeReduceFloat64(foldFn2(c, fl(c)), join2(c, jf(c), unf(c)))
	})
	add("SpeculativeReduceString", 2, kString, func(c *parCall) {
		c.gotVal, c.gotDec = c.fold.m.SpeculativeReduceString(foldFn2(c, c.strVal), join2(c, c.joinStr, c.unstr))
	})
}

// planFold draws folds over a map, with other goroutines changing it meanwhile.
func planFold(prop string) func(w *W) func() {
	return func(w *W) func() {
		n := w.Of(1, 2, 3, 4, 5, 6, 7, 8, 12, 20)
		if w.Chance(1, 60) {
			n = w.LogUpTo(20, 300)
		}
		var cs []*parCall
		for i := w.Pick(0, 5, 1); i > 0; i-- {
			c := &parCall{high: n, fold: &mapFold{}}
			for {
				f := foldForms[w.Int(len(foldForms))]
				if prop == "C04" && (f.seq || f.spec) || prop == "C08" && !f.spec {
					continue
				}
				c.f, c.spec, c.fold.seq = &f.form, f.spec, f.seq
				break
			}
			if w.Chance(1, 2) {
				for j := w.Range(1, 4); j > 0; j-- {
					c.delays = append(c.delays, w.drawDelay())
				}
			}
			used := map[int]bool{}
			add := func(what int) {
				s := special{at: w.Int(n), what: what}
				if what == bomb {
					s.kind = w.Int(bombKinds)
				}
				if !used[s.at] {
					used[s.at] = true
					c.specials = append(c.specials, s)
				}
			}
			if c.hotKind() && w.Chance(1, 2) {
				for j := w.Range(1, 2); j > 0; j-- {
					add(hot)
				}
			}
			if prop != "C15" || w.Chance(1, 5) {
				for j := w.Range(1, 2); j > 0; j-- {
					add(bomb)
				}
			}
			sort.Slice(c.specials, func(i, j int) bool { return c.specials[i].at < c.specials[j].at })
			if c.spec && len(c.specials) > 0 && c.specials[0].what == hot && w.Chance(1, 2) {
				c.blocked = true
			}
			if c.spec && len(c.specials) == 0 && w.Chance(1, 5) {
				c.joinTrue = true
			}
			w.Descf("NewMap(%d).%s specials(at,1 decisive/2 panic,kind)=%v blocked=%v delays=%v", n, c.f.name, c.specials, c.blocked, c.delays)
			cs = append(cs, c)
		}
		together := len(cs) > 1 && !cs[0].blocked && !cs[1].blocked && w.Chance(1, 2)
		r := &mapRun{prop: prop, size: n}
		nk := w.Range(1, 3)
		for i := 0; i < nk; i++ {
			r.keys = append(r.keys, mkey{i, w.drawHash()})
			r.stable = append(r.stable, false)
		}
		mut := w.Pick(2, 2, 1)
		for t := 0; t < mut; t++ {
			var ops []*mapOp
			for i := w.Range(1, 3); i > 0; i-- {
				ops = append(ops, w.drawOp(r, w.Int(nk), false))
			}
			r.tasks = append(r.tasks, ops)
		}
		if prop != "C15" && w.Chance(1, 3) {
			o := &mapOp{kind: opParallelRange}
			if prop == "C08" {
				o.kind = opSpecRange
			}
			w.drawBomb(o, nk)
			w.insertOp(r, o)
			for i := 0; i < nk; i++ {
				if w.Chance(2, 3) {
					r.init = append(r.init, i)
				}
			}
			w.Descf("%s panics at %d/for every %dth key %v, present %v", opNames[o.kind], o.stop, o.every, r.keys, r.init)
		}
		return func() {
			m := sync.NewMap(n)
			r.m = m
			r.findOrder()
			initial := map[int]any{}
			for _, k := range r.init {
				v := r.newVal(false)
				initial[k] = v
				m.LoadOrStore(r.keys[k], v)
			}
			idx := map[uintptr]int{}
			m.And(func(x map[interface{}]interface{}) bool {
				idx[mapID(x)] = len(idx)
				return true
			})
			if len(idx) != n {
				Fail("C15", "missed", "And visited %d of %d splits", len(idx), n)
				return
			}
			for _, c := range cs {
				c.fold.m, c.fold.idx = m, idx
			}
			fs := []func(){func() {
				if !together {
					for _, c := range cs {
						c.execFold()
					}
					return
				}
				cs[0].execFold()
			}}
			if together {
				fs = append(fs, cs[1].execFold)
			}
			for _, t := range r.tasks {
				fs = append(fs, func() {
					for _, o := range t {
						r.do(o)
					}
				})
			}
			concurrently(fs...)
			simrt.Quiesce()
			for _, c := range cs {
				c.finishFold()
			}
			// all locks must be free again
			m.And(func(x map[interface{}]interface{}) bool { simrt.MW(0, x); return true })
			r.checkHistory(initial)
			noLeak(prop)
		}
	}
}

func (c *parCall) execFold() {
	c.after = gate{quiet: true}
	p, panicked := catch(func() { c.f.call(c) })
	c.returned = true
	where := fmt.Sprintf("%s over %d splits", c.name(), c.high)
	prop := "C15"
	if !c.spec {
		if panicked && !c.fold.seq {
			prop = "C04"
		}
		var b *special
		decided := false
		for _, r := range c.recs {
			if !r.ended {
				Fail(prop, "early", "%s returned or panicked while the function was still running on split %d", where, r.l)
			} else {
				r.c.get()
			}
			if s := c.first(r.l, r.h, true); s != nil && (b == nil || s.at < b.at) {
				b = s
			}
			if s := c.first(r.l, r.h, false); s != nil && s.what == hot {
				decided = true
			}
		}
		if b != nil {
			if c.fold.seq {
				prop = "C15"
			} else {
				prop = "C04"
			}
			if !panicked {
				Fail(prop, "swallowed", "%s returned although the function panicked on split %d", where, b.at)
			} else {
				checkPanic(prop, where, p, b.at, b.kind)
			}
		} else if panicked {
			Fail("C15", "panicked", "%s panicked with %q", where, oneLine(fmt.Sprint(p)))
		} else {
			c.checkCover(c.recs, decided && c.hotKind(), where, true)
			c.checkValue(c.first(c.low, c.high, false), where)
		}
	} else {
		dec := c.first(c.low, c.high, false)
		switch {
		case dec != nil && dec.what == bomb:
			if !panicked {
				Fail("C08", "swallowed", "%s returned although the function panicked on split %d", where, dec.at)
				Fail("C15", "result", "%s returned although the function panicked on split %d", where, dec.at)
			} else {
				checkPanic("C08", where, p, dec.at, dec.kind)
			}
		case panicked:
			Fail("C15", "panicked", "%s panicked with %q", where, oneLine(fmt.Sprint(p)))
			Fail("C08", "panicked", "%s panicked with %q", where, oneLine(fmt.Sprint(p)))
		default:
			for _, r := range c.recs {
				if dec == nil || r.l <= dec.at {
					if !r.ended {
						Fail("C15", "early", "%s returned while the function was still running on split %d", where, r.l)
					} else {
						r.c.get()
					}
				} else if !r.ended {
					simrt.Probe("speculative fold returned early")
				}
			}
			c.checkCover(c.recs, dec != nil, where, true)
			c.checkValue(dec, where)
		}
	}
	c.after.set()
}

func (c *parCall) finishFold() {
	c.checkCover(c.recs, true, c.name(), false)
}

func init() {
	for _, x := range []struct {
		id string
		q  int
	}{{"C12", 1600000}, {"C13", 1600000}, {"C14", 1300000}, {"C16", 1600000}} {
		register(&property{id: x.id, quick: x.q, thorough: x.q * 40, loads: []workload{{"map", 1, planMap(x.id)}}})
	}
	register(&property{id: "C15", quick: 1600000, thorough: 1600000 * 40, loads: []workload{{"fold", 1, planFold("C15")}}})
}
