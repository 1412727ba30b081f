//go:build go1.23

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/zzsim/simrt"
)

// Packages parallel and speculative: lists of functions and ranges.  A list of n
// functions is treated as the range [0,n) in batches of one.

// special kinds of an index
const (
	normal = iota
	hot    // decisive
	bomb   // panics
)

type special struct {
	at, what, kind int
}

type parCall struct {
	f        *form
	spec     bool
	low      int
	high     int
	n        int // range forms: number of batches asked for
	specials []special
	delays   []delay
	waits    [][]int // list or exact-range: batch i waits for those
	barrier  bool
	blocked  bool // those right of the deciding one block until the call has returned
	joinTrue bool
	nested   map[int]*parCall
	depth    int
	invalid  bool
	seq      *seqCall // set for calls of package sequential
	fold     *mapFold // set for folds over the splits of a sync.Map

	// state of the run
	recs     []*batchRec
	gates    []*gate
	bar      *barrier
	after    gate
	returned bool
	err      string // sticky join error
	gotVal   any
	gotBool  bool
	gotDec   bool
}

type batchRec struct {
	l, h  int
	c     cell
	ended bool
	ret   any
}

type form struct {
	name string
	spec bool
	rng  bool
	kind int
	min  int
	call func(c *parCall)
}

const (
	kDo = iota
	kAnd
	kOr
	kAny
	kInt
	kFloat
	kString
	kIntSum
	kIntProd
	kFloatSum
	kFloatProd
	kStringSum
)

func (c *parCall) hotKind() bool { return c.spec || c.f.kind == kAnd || c.f.kind == kOr }

// first returns the first special of a batch: any for speculative calls, only
// bombs otherwise.
func (c *parCall) first(l, h int, bombsOnly bool) *special {
	for i := range c.specials {
		s := &c.specials[i]
		if s.at >= l && s.at < h && (!bombsOnly || s.what == bomb) {
			return s
		}
	}
	return nil
}

func (c *parCall) name() string {
	p := "parallel."
	if c.fold != nil {
		return "Map." + c.f.name
	}
	if c.spec {
		p = "speculative."
	}
	if c.seq != nil {
		p = "sequential."
	}
	return p + c.f.name
}

func (c *parCall) idx(l int) int {
	if !c.f.rng {
		return l
	}
	return (l - c.low) / ((c.high - c.low) / c.n)
}

// enter is the body of a user function; it reports whether the batch is hot.
func (c *parCall) enter(l, h int) (rec *batchRec, isHot bool) {
	rec = &batchRec{l: l, h: h}
	c.recs = append(c.recs, rec)
	if c.returned && !c.spec {
		Fail(c.coverProp(), "late", "%s: function for [%d,%d) started after the call had returned", c.name(), l, h)
	}
	if c.seq != nil {
		c.enterSeq(rec)
	} else if l < c.low || h > c.high || l > h {
		Fail("C02", "bounds", "%s(%d,%d,%d): batch [%d,%d) is outside of the range", c.name(), c.low, c.high, c.n, l, h)
	}
	if c.bar != nil {
		simrt.Probe("barrier inside a call")
		c.bar.arrive("barrier of " + c.name())
	}
	if c.waits != nil && l >= c.low && l < c.high {
		i := c.idx(l)
		if i >= 0 && i < len(c.waits) {
			for _, j := range c.waits[i] {
				c.gates[j].wait(fmt.Sprintf("function %d of %s", j, c.name()))
			}
			defer c.gates[i].set()
		}
	}
	if len(c.delays) > 0 {
		c.delays[abs(l-c.low)%len(c.delays)].do()
	}
	if n := c.nested[l-c.low]; n != nil {
		if n.seq != nil {
			n.execSeq()
		} else {
			n.exec()
		}
	}
	if c.blocked && l > c.specials[0].at {
		simrt.Fault("blocked right-hand function")
		c.after.wait("the return of " + c.name())
	}
	rec.c.set(l + 1)
	s := c.first(l, h, !c.spec)
	if s != nil && s.what == bomb {
		rec.ended = true
		simrt.Fault("panic in user function")
		panic(bombValue(s.at-c.low, s.kind))
	}
	isHot = s != nil
	if !c.spec {
		for i := range c.specials {
			if x := &c.specials[i]; x.at >= l && x.at < h && x.what == hot {
				isHot = true
			}
		}
	}
	simrt.Yield()
	rec.ended = true
	return
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (c *parCall) coverProp() string {
	if c.fold != nil {
		return "C15"
	}
	if c.seq != nil {
		return "C29"
	}
	if c.f.rng {
		return "C02"
	}
	return "C01"
}

// ---- values

type iv struct {
	l, h int
	bad  string
	c    *cell
}

func (c *parCall) pack(l, h int) int { return (l-c.low)<<22 | (h - c.low) }

func (c *parCall) unpack(v int) (l, h int) { return v>>22 + c.low, v&(1<<22-1) + c.low }

func (c *parCall) joinIv(l1, h1, l2, h2 int) (int, int) {
	if h1 != l2 && c.err == "" {
		c.err = fmt.Sprintf("join([%d,%d), [%d,%d))", l1, h1, l2, h2)
	}
	return l1, h2
}

func (c *parCall) anyVal(l, h int) any {
	x := &iv{l: l, h: h, c: &cell{}}
	x.c.set(h - l)
	return x
}

func (c *parCall) joinAny(x, y any) any {
	a, ok1 := x.(*iv)
	b, ok2 := y.(*iv)
	if !ok1 || !ok2 {
		if c.err == "" {
			c.err = fmt.Sprintf("join(%v, %v)", x, y)
		}
		return &iv{c: &cell{}}
	}
	simrt.Yield()
	l, h := c.joinIv(a.l, a.h, b.l, b.h)
	r := &iv{l: l, h: h, c: &cell{}}
	r.c.set(a.c.get() + b.c.get())
	return r
}

func (c *parCall) joinInt(x, y int) int {
	simrt.Yield()
	l1, h1 := c.unpack(x)
	l2, h2 := c.unpack(y)
	return c.pack(c.joinIv(l1, h1, l2, h2))
}

func (c *parCall) strVal(l, h int) string { return fmt.Sprintf("%d:%d", l, h) }

func (c *parCall) unstr(s string) (l, h int) {
	if n, err := fmt.Sscanf(s, "%d:%d", &l, &h); n != 2 || err != nil {
		if c.err == "" {
			c.err = fmt.Sprintf("join of %q", s)
		}
	}
	return
}

func (c *parCall) joinStr(x, y string) string {
	simrt.Yield()
	l1, h1 := c.unstr(x)
	l2, h2 := c.unstr(y)
	return c.strVal(c.joinIv(l1, h1, l2, h2))
}

// sumTerm is the sum of i*K+1 over the batch.
func sumTerm(l, h int) int {
	// modulo the size of an int, also for bounds at its limits
	n := h - l
	a, b := n, n-1
	if a%2 == 0 {
		a /= 2
	} else {
		b /= 2
	}
	return (l*n+a*b)*2654435761 + n
}

func prodTerm(l, h int) int {
	p := 1
	for i := l; i < h; i++ {
		p *= 2*i + 1
	}
	return p
}

func fsumTerm(l, h int) float64 {
	s := 0.0
	for i := l; i < h; i++ {
		s += float64(i % 1000)
	}
	return s
}

func fprodTerm(l, h int) float64 {
	p := 1.0
	for i := l; i < h; i++ {
		switch (i%3 + 3) % 3 {
		case 0:
			p *= 2
		case 1:
			p *= 0.5
		}
	}
	return p
}

func ssumTerm(l, h int) string { return fmt.Sprintf("<%d:%d>", l, h) }

// whole tells whether a speculative join should decide.
func (c *parCall) jt(l, h int) bool { return c.joinTrue && l == c.low && h == c.high }

// ---- the forms

func fns[T any](c *parCall, f func(l, h int) T) []func() T {
	r := make([]func() T, c.high)
	for i := range r {
		r[i] = func() T { return f(i, i+1) }
	}
	return r
}

func fns2[T any](c *parCall, f func(l, h int) (T, bool)) []func() (T, bool) {
	r := make([]func() (T, bool), c.high)
	for i := range r {
		r[i] = func() (T, bool) { return f(i, i+1) }
	}
	return r
}

func (c *parCall) bDo(l, h int)       { c.enter(l, h) }
func (c *parCall) bAnd(l, h int) bool { _, t := c.enter(l, h); return !t }
func (c *parCall) bOr(l, h int) bool  { _, t := c.enter(l, h); return t }

func batchFn[T any](c *parCall, val func(l, h int) T) func(l, h int) T {
	return func(l, h int) T {
		r, _ := c.enter(l, h)
		v := val(l, h)
		r.ret = v
		return v
	}
}

func batchFn2[T any](c *parCall, val func(l, h int) T) func(l, h int) (T, bool) {
	return func(l, h int) (T, bool) {
		r, t := c.enter(l, h)
		v := val(l, h)
		r.ret = v
		return v, t
	}
}

func join2[T any](c *parCall, j func(x, y T) T, bounds func(T) (int, int)) func(x, y T) (T, bool) {
	return func(x, y T) (T, bool) {
		v := j(x, y)
		return v, c.jt(bounds(v))
	}
}

var parForms, specForms []*form

func init() {
	add := func(name string, rng bool, kind, min int, call func(c *parCall)) {
		parForms = append(parForms, &form{name, false, rng, kind, min, call})
	}
	fl := func(c *parCall) func(l, h int) float64 {
		return func(l, h int) float64 { return float64(c.pack(l, h)) }
	}
	jf := func(c *parCall) func(x, y float64) float64 {
		return func(x, y float64) float64 { return float64(c.joinInt(int(x), int(y))) }
	}
	add("Do", false, kDo, 0, func(c *parCall) {
		f := make([]func(), c.high)
		for i := range f {
			f[i] = func() { c.bDo(i, i+1) }
		}
		parallel.Do(f...)
	})
	add("And", false, kAnd, 0, func(c *parCall) { c.gotBool = parallel.And(fns(c, c.bAnd)...) })
	add("Or", false, kOr, 0, func(c *parCall) { c.gotBool = parallel.Or(fns(c, c.bOr)...) })
	add("Reduce", false, kAny, 1, func(c *parCall) {
		f := fns(c, batchFn(c, c.anyVal))
		g := make([]func() interface{}, len(f))
		for i := range f {
			g[i] = f[i]
		}
		c.gotVal = parallel.Reduce(c.joinAny, g[0], g[1:]...)
	})
	add("ReduceInt", false, kInt, 1, func(c *parCall) {
		f := fns(c, batchFn(c, c.pack))
		c.gotVal = parallel.ReduceInt(c.joinInt, f[0], f[1:]...)
	})
	add("ReduceFloat64", false, kFloat, 1, func(c *parCall) {
		f := fns(c, batchFn(c, fl(c)))
		c.gotVal = parallel.ReduceFloat64(jf(c), f[0], f[1:]...)
	})
	add("ReduceString", false, kString, 1, func(c *parCall) {
		f := fns(c, batchFn(c, c.strVal))
		c.gotVal = parallel.ReduceString(c.joinStr, f[0], f[1:]...)
	})
	add("ReduceIntSum", false, kIntSum, 0, func(c *parCall) { c.gotVal = parallel.ReduceIntSum(fns(c, batchFn(c, sumTerm))...) })
	add("ReduceIntProduct", false, kIntProd, 0, func(c *parCall) { c.gotVal = parallel.ReduceIntProduct(fns(c, batchFn(c, prodTerm))...) })
	add("ReduceFloat64Sum", false, kFloatSum, 0, func(c *parCall) { c.gotVal = parallel.ReduceFloat64Sum(fns(c, batchFn(c, fsumTerm))...) })
	add("ReduceFloat64Product", false, kFloatProd, 0, func(c *parCall) { c.gotVal = parallel.ReduceFloat64Product(fns(c, batchFn(c, fprodTerm))...) })
	add("ReduceStringSum", false, kStringSum, 0, func(c *parCall) { c.gotVal = parallel.ReduceStringSum(fns(c, batchFn(c, ssumTerm))...) })

	add("Range", true, kDo, 0, func(c *parCall) { parallel.Range(c.low, c.high, c.n, c.bDo) })
	add("RangeAnd", true, kAnd, 0, func(c *parCall) { c.gotBool = parallel.RangeAnd(c.low, c.high, c.n, c.bAnd) })
	add("RangeOr", true, kOr, 0, func(c *parCall) { c.gotBool = parallel.RangeOr(c.low, c.high, c.n, c.bOr) })
	add("RangeReduce", true, kAny, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduce(c.low, c.high, c.n, batchFn(c, c.anyVal), c.joinAny)
	})
	add("RangeReduceInt", true, kInt, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceInt(c.low, c.high, c.n, batchFn(c, c.pack), c.joinInt)
	})
	add("RangeReduceFloat64", true, kFloat, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceFloat64(c.low, c.high, c.n, batchFn(c, fl(c)), jf(c))
	})
	add("RangeReduceString", true, kString, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceString(c.low, c.high, c.n, batchFn(c, c.strVal), c.joinStr)
	})
	add("RangeReduceIntSum", true, kIntSum, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceIntSum(c.low, c.high, c.n, batchFn(c, sumTerm))
	})
	add("RangeReduceIntProduct", true, kIntProd, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceIntProduct(c.low, c.high, c.n, batchFn(c, prodTerm))
	})
	add("RangeReduceFloat64Sum", true, kFloatSum, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceFloat64Sum(c.low, c.high, c.n, batchFn(c, fsumTerm))
	})
	add("RangeReduceFloat64Product", true, kFloatProd, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceFloat64Product(c.low, c.high, c.n, batchFn(c, fprodTerm))
	})
	add("RangeReduceStringSum", true, kStringSum, 0, func(c *parCall) {
		c.gotVal = parallel.RangeReduceStringSum(c.low, c.high, c.n, batchFn(c, ssumTerm))
	})

	adds := func(name string, rng bool, kind, min int, call func(c *parCall)) {
		specForms = append(specForms, &form{name, true, rng, kind, min, call})
	}
	ivb := func(x any) (int, int) { return x.(*iv).l, x.(*iv).h }
	adds("Do", false, kOr, 0, func(c *parCall) { c.gotBool = speculative.Do(fns(c, c.bOr)...) })
	adds("And", false, kAnd, 0, func(c *parCall) { c.gotBool = speculative.And(fns(c, c.bAnd)...) })
	adds("Or", false, kOr, 0, func(c *parCall) { c.gotBool = speculative.Or(fns(c, c.bOr)...) })
	adds("Reduce", false, kAny, 1, func(c *parCall) {
		f := fns2(c, batchFn2(c, c.anyVal))
		g := make([]func() (interface{}, bool), len(f))
		for i := range f {
			g[i] = f[i]
		}
		c.gotVal, c.gotDec = speculative.Reduce(join2(c, c.joinAny, ivb), g[0], g[1:]...)
	})
	adds("ReduceInt", false, kInt, 1, func(c *parCall) {
		f := fns2(c, batchFn2(c, c.pack))
		c.gotVal, c.gotDec = speculative.ReduceInt(join2(c, c.joinInt, c.unpack), f[0], f[1:]...)
	})
	unf := func(c *parCall) func(x float64) (int, int) {
		return func(x float64) (int, int) { return c.unpack(int(x)) }
	}
	adds("ReduceFloat64", false, kFloat, 1, func(c *parCall) {
		f := fns2(c, batchFn2(c, fl(c)))
		c.gotVal, c.gotDec = speculative.ReduceFloat64(join2(c, jf(c), unf(c)), f[0], f[1:]...)
	})
	adds("ReduceString", false, kString, 1, func(c *parCall) {
		f := fns2(c, batchFn2(c, c.strVal))
		c.gotVal, c.gotDec = speculative.ReduceString(join2(c, c.joinStr, c.unstr), f[0], f[1:]...)
	})
	adds("Range", true, kOr, 0, func(c *parCall) { c.gotBool = speculative.Range(c.low, c.high, c.n, c.bOr) })
	adds("RangeAnd", true, kAnd, 0, func(c *parCall) { c.gotBool = speculative.RangeAnd(c.low, c.high, c.n, c.bAnd) })
	adds("RangeOr", true, kOr, 0, func(c *parCall) { c.gotBool = speculative.RangeOr(c.low, c.high, c.n, c.bOr) })
	adds("RangeReduce", true, kAny, 0, func(c *parCall) {
		c.gotVal, c.gotDec = speculative.RangeReduce(c.low, c.high, c.n, batchFn2(c, c.anyVal), join2(c, c.joinAny, ivb))
	})
	adds("RangeReduceInt", true, kInt, 0, func(c *parCall) {
		c.gotVal, c.gotDec = speculative.RangeReduceInt(c.low, c.high, c.n, batchFn2(c, c.pack), join2(c, c.joinInt, c.unpack))
	})
	adds("RangeReduceFloat64", true, kFloat, 0, func(c *parCall) {
		c.gotVal, c.gotDec = speculative.RangeReduceFloat64(c.low, c.high, c.n, batchFn2(c, fl(c)), join2(c, jf(c), unf(c)))
	})
	adds("RangeReduceString", true, kString, 0, func(c *parCall) {
		c.gotVal, c.gotDec = speculative.RangeReduceString(c.low, c.high, c.n, batchFn2(c, c.strVal), join2(c, c.joinStr, c.unstr))
	})
}

// ---- executing one call

func (c *parCall) deadlockProp() string { return "C05" }

func (c *parCall) exec() {
	c.after = gate{quiet: true}
	if c.waits != nil {
		for range c.waits {
			c.gates = append(c.gates, &gate{})
		}
	}
	if c.barrier {
		n := c.high - c.low
		if c.f.rng {
			n = c.n
		}
		c.bar = &barrier{n: n}
	}
	p, panicked := catch(func() { c.f.call(c) })
	c.returned = true
	if c.invalid {
		started := len(c.recs)
		if !panicked {
			Fail("C02", "no-panic", "%s(%d,%d,%d) did not panic", c.name(), c.low, c.high, c.n)
		}
		if started > 0 {
			Fail("C02", "invoked", "%s(%d,%d,%d) invoked the range function", c.name(), c.low, c.high, c.n)
		}
		return
	}
	atReturn := len(c.recs)
	var open []*batchRec
	for _, r := range c.recs {
		if !r.ended {
			open = append(open, r)
		}
	}
	dec := c.first(c.low, c.high, !c.spec) // what decides, if anything
	where := fmt.Sprintf("%s [%d,%d)", c.name(), c.low, c.high)
	if c.f.rng {
		where = fmt.Sprintf("%s(%d,%d,%d)", c.name(), c.low, c.high, c.n)
	}
	// --- termination before return, and visibility
	switch {
	case !c.spec:
		prop, what := c.coverProp(), "early"
		if panicked {
			prop, what = "C04", "early"
		}
		for _, r := range open {
			Fail(prop, what, "%s returned or panicked while the function for [%d,%d) was still running", where, r.l, r.h)
		}
		for _, r := range c.recs {
			if r.ended && r.c.get() != r.l+1 {
				Fail(prop, "effects", "%s: effect of [%d,%d) lost", where, r.l, r.h)
			}
		}
		c.checkCover(c.recs, panicked, where, true)
	case dec == nil:
		for _, r := range open {
			Fail("C07", "early", "%s returned while the function for [%d,%d) was still running, with none decisive", where, r.l, r.h)
		}
		for _, r := range c.recs {
			if r.ended {
				r.c.get()
			}
		}
		c.checkCover(c.recs, panicked, where, true)
	case !panicked:
		for _, r := range c.recs {
			if r.l <= dec.at {
				if !r.ended {
					Fail("C07", "early", "%s returned while the function for [%d,%d), left of the decisive index %d, was still running", where, r.l, r.h, dec.at)
				} else {
					r.c.get()
				}
			}
		}
		if len(open) > 0 {
			simrt.Probe("speculative call returned early")
		}
	}
	// --- outcome
	if dec != nil && dec.what == bomb {
		prop := "C04"
		if c.spec {
			prop = "C08"
		}
		if !panicked {
			Fail(prop, "swallowed", "%s returned although the function for index %d panicked", where, dec.at)
		} else {
			checkPanic(prop, where, p, dec.at-c.low, dec.kind)
		}
	} else if panicked {
		prop := "C01"
		if c.spec {
			prop = "C06"
			for _, s := range c.specials {
				if s.what == bomb {
					prop = "C08"
				}
			}
		} else if c.f.rng {
			prop = "C02"
		}
		Fail(prop, "panicked", "%s panicked with %q", where, oneLine(fmt.Sprint(p)))
	} else {
		c.checkValue(dec, where)
	}
	c.after.set()
	if c.depth == 0 {
		simrt.Quiesce()
		if !c.spec && len(c.recs) > atReturn {
			prop := c.coverProp()
			if panicked {
				prop = "C04"
			}
			Fail(prop, "late", "%s: functions were started after the call had returned", where)
		}
		c.checkCover(c.recs, true, where, c.spec && dec == nil)
		for _, r := range c.recs {
			if !r.ended {
				Fail("C05", "stuck", "%s: the function for [%d,%d) never ended", where, r.l, r.h)
			}
		}
	}
}

// checkCover verifies that batches are disjoint and, unless partial, cover all.
func (c *parCall) checkCover(recs []*batchRec, partial bool, where string, final bool) {
	prop := c.coverProp()
	what := "twice"
	if c.spec && !c.f.rng && c.fold == nil {
		prop = "C06"
	}
	rs := append([]*batchRec(nil), recs...)
	sort.SliceStable(rs, func(i, j int) bool {
		if rs[i].l != rs[j].l {
			return rs[i].l < rs[j].l
		}
		return rs[i].h < rs[j].h
	})
	at := c.low
	n := 0
	for _, r := range rs {
		if r.l == r.h {
			if c.low != c.high {
				n++
			}
			continue
		}
		n++
		if r.l < at {
			Fail(prop, what, "%s: index %d was processed twice", where, r.l)
		} else if r.l > at && !partial {
			Fail(prop, "missed", "%s: [%d,%d) was never processed", where, at, r.l)
		}
		if r.h > at {
			at = r.h
		}
	}
	if at < c.high && !partial {
		Fail(prop, "missed", "%s: [%d,%d) was never processed", where, at, c.high)
	}
	if partial && !c.spec && c.f != nil && len(c.specials) > 0 && final && c.fold == nil {
		// a parallel call that panics still runs everything
		if at < c.high || c.gaps(rs) {
			Fail("C04", "missed", "%s: some functions were never run before the panic surfaced", where)
		}
	}
	if c.f.rng && c.n > 0 && n > c.n {
		Fail("C02", "batches", "%s: %d batches", where, n)
	}
}

func (c *parCall) gaps(rs []*batchRec) bool {
	at := c.low
	for _, r := range rs {
		if r.l > at {
			return true
		}
		if r.h > at {
			at = r.h
		}
	}
	return at < c.high
}

func (c *parCall) checkValue(dec *special, where string) {
	prop := "C03"
	if c.spec {
		prop = "C06"
	}
	if c.fold != nil {
		prop = "C15"
	}
	if c.seq != nil {
		prop = "C29"
	}
	if c.err != "" {
		Fail(prop, "join-order", "%s: %s was called, which combines results that are not neighbours in order", where, c.err)
	}
	switch c.f.kind {
	case kDo:
		return
	case kAnd, kOr:
		want := c.f.kind == kAnd
		for _, s := range c.specials {
			if s.what == hot {
				want = c.f.kind == kOr
			}
		}
		if c.gotBool != want {
			Fail(prop, "result", "%s returned %v", where, c.gotBool)
		}
		return
	}
	l, h := c.low, c.high
	if c.spec {
		wantDec := dec != nil
		if dec == nil && c.joinTrue && len(c.recs) > 1 {
			wantDec = true
		}
		if c.gotDec != wantDec {
			Fail(prop, "decided", "%s returned %v as second result", where, c.gotDec)
			return
		}
		if dec != nil {
			for _, r := range c.recs {
				if r.l <= dec.at && dec.at < r.h {
					l, h = r.l, r.h
					if c.f.kind == kAny && r.ret != c.gotVal {
						Fail(prop, "result", "%s did not return the result of the left-most decisive function", where)
						return
					}
				}
			}
		}
	}
	bad := false
	var got any = c.gotVal
	switch c.f.kind {
	case kAny:
		x, ok := c.gotVal.(*iv)
		if !ok {
			bad = true
			break
		}
		got = fmt.Sprintf("[%d,%d)", x.l, x.h)
		bad = x.l != l || x.h != h || x.c.get() != h-l
	case kInt:
		bad = c.gotVal != c.pack(l, h)
		a, b := c.unpack(c.gotVal.(int))
		got = fmt.Sprintf("[%d,%d)", a, b)
	case kFloat:
		bad = c.gotVal != float64(c.pack(l, h))
	case kString:
		bad = c.gotVal != c.strVal(l, h)
	case kIntSum:
		bad = c.gotVal != sumTerm(l, h)
	case kIntProd:
		bad = c.gotVal != prodTerm(l, h)
	case kFloatSum:
		bad = c.gotVal != fsumTerm(l, h)
	case kFloatProd:
		bad = c.gotVal != fprodTerm(l, h)
	case kStringSum:
		at := l
		s := c.gotVal.(string)
		for s != "" {
			var a, b int
			e := strings.IndexByte(s, '>')
			if e < 0 {
				bad = true
				break
			}
			if n, _ := fmt.Sscanf(s[:e+1], "<%d:%d>", &a, &b); n != 2 || a != at || b < a {
				bad = true
				break
			}
			at = b
			s = s[e+1:]
		}
		bad = bad || at != h
	}
	if bad {
		Fail(prop, "result", "%s returned %v, expected the result for [%d,%d)", where, got, l, h)
	}
}

// ---- drawing a call

func (w *W) drawPar(focus string, depth int) *parCall {
	c := &parCall{depth: depth}
	switch focus {
	case "C01", "C03", "C04", "C29":
	case "C02", "C05":
		c.spec = w.Chance(1, 3)
	default:
		c.spec = true
	}
	forms := parForms
	if focus == "C29" {
		forms = seqForms
		c.seq = &seqCall{}
	}
	if c.spec {
		forms = specForms
	}
	var ok []*form
	for _, f := range forms {
		if focus == "C01" && f.rng || focus == "C02" && !f.rng {
			continue
		}
		if focus == "C03" && f.kind == kDo {
			continue
		}
		ok = append(ok, f)
	}
	c.f = ok[w.Int(len(ok))]
	size := 0
	switch w.Pick(12, 5, 1) {
	case 0:
		size = w.Range(0, 8)
	case 1:
		size = w.LogUpTo(4, 40)
	case 2:
		size = w.LogUpTo(40, 200)
		if w.Chance(1, 12) {
			size = w.LogUpTo(200, 3000)
		}
	}
	if depth > 0 {
		size = w.Range(1, 4)
	}
	if size < c.f.min {
		size = c.f.min
	}
	if c.f.rng {
		if size < 40 && c.f.kind != kIntProd && c.f.kind != kFloatProd && c.f.kind != kFloatSum && w.Chance(1, 8) {
			size = w.LogUpTo(100, 1<<20)
			if (c.f.kind == kDo || c.f.kind == kAnd || c.f.kind == kOr || c.f.kind == kAny || c.f.kind == kString) && w.Chance(1, 4) {
				size <<= w.Range(10, 41)
			}
		}
		if (c.f.kind == kDo || c.f.kind == kAnd || c.f.kind == kOr || c.f.kind == kAny || c.f.kind == kString) && w.Chance(1, 24) {
			size = math.MaxInt - w.LogUpTo(0, 1000)
		}
		switch w.Pick(8, 4, 2, 1, 1) {
		case 1:
			c.low = w.Range(-20, 20)
		case 2:
			c.low = w.Of(-1<<40, 1<<40, -1<<20, 1<<30)
		case 3: // up to the largest int
			c.low = math.MaxInt - w.Of(0, 0, 1, 2, 5, 30) - size
		case 4: // from the smallest int
			c.low = math.MinInt + w.Of(0, 0, 1, 2, 5, 30)
		}
		if c.low > math.MaxInt-size {
			c.low = math.MaxInt - size
		}
		c.high = c.low + size
		switch w.Pick(3, 2, 4, 1) {
		case 0:
			c.n = w.Range(1, 8)
		case 1:
			c.n = 0
		case 2:
			c.n = w.LogUpTo(1, 33)
		case 3:
			c.n = w.LogUpTo(1, 500)
		}
		if w.Chance(1, 40) {
			c.n = w.Of(math.MaxInt, 1<<31, 1<<32, 1<<32+1, 1<<31-1, math.MaxInt-1, 1<<62, 1000, 1<<16, 1<<20)
		}
		if c.n > 60 && size > 60 {
			c.n = 60
			if w.Chance(1, 40) {
				c.n = w.LogUpTo(60, 3000)
			}
		}
		if (focus == "C02" || focus == "C29") && w.Chance(1, 8) {
			c.invalid = true
			switch w.Int(4) {
			case 0:
				c.n = -1 - w.Int(3)
			case 1:
				c.high = c.low - 1 - w.Int(5)
			case 2:
				c.n = -1 - w.Int(3)
				c.high = c.low
			case 3:
				c.high = c.low - 1 - w.Int(5)
				c.n = -1 - w.Int(5)
			}
			w.Descf("%s(%d,%d,%d)", c.name(), c.low, c.high, c.n)
			return c
		}
	} else {
		c.high = size
	}
	if w.Chance(1, 2) {
		for i := w.Range(1, 6); i > 0; i-- {
			c.delays = append(c.delays, w.drawDelay())
		}
	}
	addSpecial := func(what int) {
		if size == 0 {
			return
		}
		s := special{at: c.low + w.Int(size), what: what}
		if what == bomb {
			s.kind = w.Int(bombKinds)
		}
		for _, x := range c.specials {
			if x.at == s.at {
				return
			}
		}
		c.specials = append(c.specials, s)
		sort.Slice(c.specials, func(i, j int) bool { return c.specials[i].at < c.specials[j].at })
	}
	if (focus == "C01" || focus == "C02" || focus == "C05") && !c.spec && c.hotKind() && w.Chance(1, 2) {
		for i := w.Pick(0, 4, 2, 1); i > 0; i-- {
			addSpecial(hot)
		}
	}
	switch focus {
	case "C03":
		if c.hotKind() && w.Chance(2, 3) {
			for i := w.Range(1, 3); i > 0; i-- {
				addSpecial(hot)
			}
		}
	case "C04":
		for i := w.Pick(0, 3, 3, 2, 1); i > 0; i-- {
			addSpecial(bomb)
		}
		if c.hotKind() && w.Chance(1, 2) {
			addSpecial(hot)
		}
	case "C29":
		if w.Chance(1, 3) {
			for i := w.Range(1, 2); i > 0; i-- {
				addSpecial(bomb)
			}
		}
		if c.hotKind() && w.Chance(1, 2) {
			for i := w.Range(1, 2); i > 0; i-- {
				addSpecial(hot)
			}
		}
	case "C02":
		if c.spec && w.Chance(1, 3) {
			addSpecial(hot)
		}
	case "C06", "C07":
		if w.Chance(3, 4) {
			for i := w.Pick(0, 3, 2, 1); i > 0; i-- {
				addSpecial(hot)
			}
		}
		if len(c.specials) > 0 && (focus == "C07" && w.Chance(3, 4) || w.Chance(1, 4)) {
			c.blocked = true
		}
	case "C08":
		for i := w.Pick(0, 3, 3, 2, 1); i > 0; i-- {
			addSpecial(bomb)
		}
		for i := w.Pick(2, 4, 2); i > 0; i-- {
			addSpecial(hot)
		}
		if len(c.specials) > 0 && c.specials[0].what == hot && w.Chance(1, 2) {
			c.blocked = true
		}
	}
	if c.spec && len(c.specials) == 0 && w.Chance(1, 6) {
		c.joinTrue = true
	}
	if focus == "C05" && size > 0 {
		n := size
		if c.f.rng {
			// make the number of batches divide the size
			k := w.Range(1, 12)
			if w.Chance(1, 80) {
				k = w.LogUpTo(12, 1200)
			}
			c.n = k
			size = k * w.Range(1, 5)
			if c.low > math.MaxInt-size {
				c.low = math.MaxInt - size
			}
			c.high = c.low + size
			var in []special
			for _, s := range c.specials {
				if s.at >= c.low && s.at < c.high {
					in = append(in, s)
				}
			}
			c.specials = in
			c.blocked = c.blocked && len(in) > 0
			n = k
		}
		if n <= 64 || w.Chance(1, 2) {
			if w.Chance(1, 2) {
				c.barrier = true
			} else {
				// function p[i] may wait for functions p[0..i-1]
				p := w.Perm(n)
				c.waits = make([][]int, n)
				switch w.Int(3) {
				case 0: // a chain
					for i := 1; i < n; i++ {
						c.waits[p[i]] = []int{p[i-1]}
					}
				case 1: // everybody waits for one
					for i := 1; i < n; i++ {
						c.waits[p[i]] = []int{p[0]}
					}
				default:
					for i := 1; i < n; i++ {
						for k := w.Int(3); k > 0; k-- {
							c.waits[p[i]] = append(c.waits[p[i]], p[w.Int(i)])
						}
					}
				}
			}
		}
	}
	w.Descf("%s low=%d high=%d n=%d specials(at,1 decisive/2 panic,kind)=%v blocked=%v barrier=%v waits=%v delays=%v", c.name(), c.low, c.high, c.n, c.specials, c.blocked, c.barrier, c.waits, c.delays)
	if depth == 0 && size > 0 && size <= 12 && w.Chance(1, 6) {
		c.nested = map[int]*parCall{}
		for i := w.Range(1, 2); i > 0; i-- {
			f := focus
			if f == "C04" || f == "C08" {
				f = "C01"
				if c.spec {
					f = "C06"
				}
			}
			c.nested[w.Int(size)] = w.drawPar(f, depth+1)
		}
	}
	return c
}

func planPar(focus string) func(w *W) func() {
	return func(w *W) func() {
		var calls []*parCall
		for i := w.Pick(0, 6, 2, 1); i > 0; i-- {
			calls = append(calls, w.drawPar(focus, 0))
		}
		together := len(calls) > 1 && w.Chance(1, 2)
		return func() {
			if together {
				var fs []func()
				for _, c := range calls {
					fs = append(fs, c.exec)
				}
				concurrently(fs...)
			} else {
				for _, c := range calls {
					c.exec()
				}
			}
			noLeak(focus)
		}
	}
}

func init() {
	for _, x := range []struct {
		id string
		q  int
	}{{"C01", 1500000}, {"C02", 1800000}, {"C03", 1600000}, {"C04", 1500000}, {"C05", 1400000}, {"C06", 1600000}, {"C07", 1600000}, {"C08", 1600000}} {
		loads := []workload{{"par", 3, planPar(x.id)}}
		if x.id == "C04" || x.id == "C08" {
			loads = append(loads, workload{"fold", 1, planFold(x.id)})
		}
		register(&property{id: x.id, quick: x.q, thorough: x.q * 40, loads: loads})
	}
}
