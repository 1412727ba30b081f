//go:build go1.23

package main

import (
	"fmt"

	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/zzsim/simrt"
)

// Package sequential: the same functions as package parallel, called by several
// goroutines at a time, each of which must not notice the others.

type seqCall struct {
	task *simrt.Task
	at   int      // where the next batch must begin
	over *special // the panic that ended the call
}

var seqForms []*form

func init() {
	add := func(name string, rng bool, kind, min int, call func(c *parCall)) {
		seqForms = append(seqForms, &form{name, false, rng, kind, min, call})
	}
	fl := func(c *parCall) func(l, h int) float64 {
		return func(l, h int) float64 { return float64(c.pack(l, h)) }
	}
	jf := func(c *parCall) func(x, y float64) float64 {
		return func(x, y float64) float64 { return float64(c.joinInt(int(x), int(y))) }
	}
	add("Do", false, kDo, 0, func(c *parCall) {
		f := make([]func(), c.high)
		for i := range f {
			f[i] = func() { c.bDo(i, i+1) }
		}
		sequential.Do(f...)
	})
	add("And", false, kAnd, 0, func(c *parCall) { c.gotBool = sequential.And(fns(c, c.bAnd)...) })
	add("Or", false, kOr, 0, func(c *parCall) { c.gotBool = sequential.Or(fns(c, c.bOr)...) })
	add("Reduce", false, kAny, 1, func(c *parCall) {
		f := fns(c, batchFn(c, c.anyVal))
		g := make([]func() interface{}, len(f))
		for i := range f {
			g[i] = f[i]
		}
		c.gotVal = sequential.Reduce(c.joinAny, g[0], g[1:]...)
	})
	add("ReduceInt", false, kInt, 1, func(c *parCall) {
		f := fns(c, batchFn(c, c.pack))
		c.gotVal = sequential.ReduceInt(c.joinInt, f[0], f[1:]...)
	})
	add("ReduceFloat64", false, kFloat, 1, func(c *parCall) {
		f := fns(c, batchFn(c, fl(c)))
		c.gotVal = sequential.ReduceFloat64(jf(c), f[0], f[1:]...)
	})
	add("ReduceString", false, kString, 1, func(c *parCall) {
		f := fns(c, batchFn(c, c.strVal))
		c.gotVal = sequential.ReduceString(c.joinStr, f[0], f[1:]...)
	})
	add("ReduceIntSum", false, kIntSum, 0, func(c *parCall) { c.gotVal = sequential.ReduceIntSum(fns(c, batchFn(c, sumTerm))...) })
	add("ReduceIntProduct", false, kIntProd, 0, func(c *parCall) { c.gotVal = sequential.ReduceIntProduct(fns(c, batchFn(c, prodTerm))...) })
	add("ReduceFloat64Sum", false, kFloatSum, 0, func(c *parCall) { c.gotVal = sequential.ReduceFloat64Sum(fns(c, batchFn(c, fsumTerm))...) })
	add("ReduceFloat64Product", false, kFloatProd, 0, func(c *parCall) { c.gotVal = sequential.ReduceFloat64Product(fns(c, batchFn(c, fprodTerm))...) })
	add("ReduceStringSum", false, kStringSum, 0, func(c *parCall) { c.gotVal = sequential.ReduceStringSum(fns(c, batchFn(c, ssumTerm))...) })

	add("Range", true, kDo, 0, func(c *parCall) { sequential.Range(c.low, c.high, c.n, c.bDo) })
	add("RangeAnd", true, kAnd, 0, func(c *parCall) { c.gotBool = sequential.RangeAnd(c.low, c.high, c.n, c.bAnd) })
	add("RangeOr", true, kOr, 0, func(c *parCall) { c.gotBool = sequential.RangeOr(c.low, c.high, c.n, c.bOr) })
	add("RangeReduce", true, kAny, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduce(c.low, c.high, c.n, batchFn(c, c.anyVal), c.joinAny)
	})
	add("RangeReduceInt", true, kInt, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceInt(c.low, c.high, c.n, batchFn(c, c.pack), c.joinInt)
	})
	add("RangeReduceFloat64", true, kFloat, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceFloat64(c.low, c.high, c.n, batchFn(c, fl(c)), jf(c))
	})
	add("RangeReduceString", true, kString, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceString(c.low, c.high, c.n, batchFn(c, c.strVal), c.joinStr)
	})
	add("RangeReduceIntSum", true, kIntSum, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceIntSum(c.low, c.high, c.n, batchFn(c, sumTerm))
	})
	add("RangeReduceIntProduct", true, kIntProd, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceIntProduct(c.low, c.high, c.n, batchFn(c, prodTerm))
	})
	add("RangeReduceFloat64Sum", true, kFloatSum, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceFloat64Sum(c.low, c.high, c.n, batchFn(c, fsumTerm))
	})
	add("RangeReduceFloat64Product", true, kFloatProd, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceFloat64Product(c.low, c.high, c.n, batchFn(c, fprodTerm))
	})
	add("RangeReduceStringSum", true, kStringSum, 0, func(c *parCall) {
		c.gotVal = sequential.RangeReduceStringSum(c.low, c.high, c.n, batchFn(c, ssumTerm))
	})
}

// enterSeq checks that a function is called where and when it should be.
func (c *parCall) enterSeq(rec *batchRec) {
	s := c.seq
	switch {
	case simrt.Current() != s.task:
		Fail("C29", "goroutine", "%s called the function for [%d,%d) in another goroutine", c.name(), rec.l, rec.h)
	case s.over != nil:
		Fail("C29", "went-on", "%s called the function for [%d,%d) after that for %d had panicked", c.name(), rec.l, rec.h, s.over.at)
	case len(c.recs) > 1 && !c.recs[len(c.recs)-2].ended:
		Fail("C29", "overlap", "%s called the function for [%d,%d) before the previous one had returned", c.name(), rec.l, rec.h)
	case rec.l != s.at || rec.h < rec.l || rec.h > c.high:
		Fail("C29", "order", "%s(%d,%d,%d) called the function for [%d,%d) when it was the turn of %d", c.name(), c.low, c.high, c.n, rec.l, rec.h, s.at)
	}
	s.at = rec.h
	s.over = c.first(rec.l, rec.h, true)
}

func (c *parCall) execSeq() {
	c.seq.task = simrt.Current()
	c.seq.at = c.low
	p, panicked := catch(func() { c.f.call(c) })
	c.returned = true
	where := fmt.Sprintf("%s [%d,%d)", c.name(), c.low, c.high)
	if c.f.rng {
		where = fmt.Sprintf("%s(%d,%d,%d)", c.name(), c.low, c.high, c.n)
	}
	if c.invalid {
		if !panicked {
			Fail("C29", "no-panic", "%s did not panic", where)
		}
		if len(c.recs) > 0 {
			Fail("C29", "invoked", "%s invoked the range function", where)
		}
		return
	}
	if c.f.rng && c.n > 0 && len(c.recs) > c.n {
		Fail("C29", "batches", "%s: %d batches", where, len(c.recs))
	}
	for _, r := range c.recs {
		if !r.ended || r.c.get() != r.l+1 {
			Fail("C29", "effects", "%s: effect of [%d,%d) lost", where, r.l, r.h)
		}
	}
	switch b := c.seq.over; {
	case b != nil && !panicked:
		Fail("C29", "swallowed", "%s returned although the function for index %d panicked", where, b.at)
	case b != nil:
		checkPanic("C29", where, p, b.at-c.low, b.kind)
	case panicked:
		Fail("C29", "panicked", "%s panicked with %q", where, oneLine(fmt.Sprint(p)))
	default:
		need := c.high
		if c.hotKind() && !c.f.rng {
			for _, x := range c.specials {
				if x.what == hot && x.at < need {
					need = x.at + 1 // decided: it may stop here
				}
			}
		}
		if c.seq.at < need {
			Fail("C29", "missed", "%s: [%d,%d) was never processed", where, c.seq.at, need)
		}
		c.checkValue(nil, where)
	}
}

func planSeq(w *W) func() {
	var callers [][]*parCall
	for i := w.Pick(0, 3, 3, 1); i > 0; i-- {
		var calls []*parCall
		for j := w.Pick(0, 4, 2, 1); j > 0; j-- {
			calls = append(calls, w.drawPar("C29", 0))
		}
		callers = append(callers, calls)
	}
	return func() {
		var fs []func()
		for _, calls := range callers {
			fs = append(fs, func() {
				for _, c := range calls {
					c.execSeq()
				}
			})
		}
		concurrently(fs...)
		noLeak("C29")
	}
}

func init() {
	register(&property{id: "C29", quick: 1500000, thorough: 60000000, loads: []workload{{"seq", 1, planSeq}}})
}
