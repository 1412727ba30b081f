//go:build go1.23

package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/exascience/pargo/zzsim/simrt"
)

// cell is a plain variable of the user: unordered conflicting accesses are races.
type cell struct{ v int }

func (c *cell) set(v int) { simrt.Touch(&c.v, true); c.v = v }
func (c *cell) get() int  { simrt.Touch(&c.v, false); return c.v }
func (c *cell) add(d int) int {
	simrt.Touch(&c.v, false)
	simrt.Yield()
	simrt.Touch(&c.v, true)
	c.v += d
	return c.v
}

// gate lets goroutines wait until it is opened.  With quiet set it orders
// nothing: it steers the schedule without hiding races.
type gate struct {
	open  bool
	quiet bool
	lot   simrt.Lot
	vc    simrt.VC
}

func (g *gate) wait(why string) {
	simrt.SyncPoint()
	for !g.open {
		g.lot.Park(why)
	}
	if !g.quiet {
		simrt.Acquire(g.vc)
	}
}

func (g *gate) set() {
	simrt.SyncPoint()
	if !g.quiet {
		simrt.Release(&g.vc)
	}
	g.open = true
	g.lot.WakeAll()
}

// barrier is passed once n goroutines have arrived.
type barrier struct {
	n, in int
	g     gate
}

func (b *barrier) arrive(why string) {
	simrt.SyncPoint()
	b.in++
	if !b.g.quiet {
		simrt.Release(&b.g.vc)
	}
	if b.in >= b.n {
		b.g.set()
	}
	b.g.wait(why)
}

// delay is how long a user function takes.
type delay struct {
	yields int
	sleep  time.Duration
	procs  int // change GOMAXPROCS meanwhile
}

func (w *W) drawDelay() (d delay) {
	switch w.Pick(10, 6, 2, 1) {
	case 1:
		d.yields = w.Range(1, 4)
	case 2:
		d.yields = w.Range(5, 60)
	case 3:
		d.sleep = time.Duration(w.Of(10, 100, 1000, 100000)) * time.Microsecond
		switch w.kind { // pipelines fix their limits beforehand
		case "par", "fold", "map", "sort":
			if w.Chance(1, 5) {
				d.procs = w.Of(1, 2, 3, 7, 32)
			}
		}
	}
	return
}

func (d delay) do() {
	if d.yields > 4 || d.sleep > 0 {
		simrt.Fault("slow user function")
	}
	for i := 0; i < d.yields; i++ {
		simrt.Yield()
	}
	if d.procs > 0 {
		simrt.Fault("GOMAXPROCS changed")
		simrt.GOMAXPROCS(d.procs)
	}
	if d.sleep > 0 {
		simrt.Sleep(d.sleep)
	}
}

// ---------------------------------------------------------------- panics

type userError struct{ s string }

func (e *userError) Error() string { return e.s }

type userRuntimeError struct{ s string }

func (e userRuntimeError) Error() string { return e.s }
func (e userRuntimeError) RuntimeError() {}

type userStringer struct{ s string }

func (e userStringer) String() string { return e.s }

const bombKinds = 4

// token is the text that identifies the k-th planted panic.
func token(k int) string { return fmt.Sprintf("<boom#%d#>", k) }

func bombValue(k, kind int) any {
	switch kind {
	case 1:
		return error(&userError{token(k)})
	case 2:
		return userRuntimeError{token(k)}
	case 3:
		return userStringer{token(k)}
	}
	return token(k)
}

// checkPanic compares a recovered panic with the expected one.
func checkPanic(prop, where string, got any, k, kind int) {
	s := fmt.Sprint(got)
	if !strings.Contains(s, token(k)) {
		Fail(prop, "wrong-panic", "%s: recovered %q, which does not contain the left-most panic %s", where, oneLine(s), token(k))
		return
	}
	rest := strings.ReplaceAll(s, token(k), "")
	if strings.Contains(rest, "<boom#") {
		Fail(prop, "wrong-panic", "%s: recovered %q, which contains other panics than the left-most %s", where, oneLine(s), token(k))
	}
	if kind == 1 || kind == 2 {
		if _, ok := got.(error); !ok {
			Fail(prop, "panic-kind", "%s: the panic was an error, but a %T surfaced", where, got)
		}
	}
	if kind == 2 {
		if _, ok := got.(runtime.Error); !ok {
			Fail(prop, "panic-kind", "%s: the panic was a runtime.Error, but a %T surfaced", where, got)
		}
	}
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// catch calls f and returns what it panicked with.
func catch(f func()) (p any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	f()
	return nil, false
}

// concurrently runs independent callers at the same time.
func concurrently(fs ...func()) {
	b := &barrier{n: len(fs)}
	simrt.Probe("concurrent independent callers")
	for i := 1; i < len(fs); i++ {
		simrt.Spawn(fmt.Sprintf("caller %d", i), func() { fs[i](); b.arrive("other callers") })
	}
	fs[0]()
	b.arrive("other callers")
}

// noLeak: once everything handed to the library has ended, no goroutine that the
// library started is left.
func noLeak(prop string) {
	simrt.Quiesce()
	for _, t := range simrt.S.LiveTasks() {
		if t.Lib {
			Fail(prop, "leak", "a goroutine started by the library is left over: %s blocked on %s", t.Name(), t.Blocked())
		}
	}
}
