//go:build go1.23

package main

import (
	"fmt"
	"math"
	stdsort "sort"

	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zzsim/simrt"
)

// Package sort: collections of the harness, whose elements are shadowed one by
// one, and the library's own slice types.

type elem struct{ key, tag int }

// coll is a user's collection; temp is the temporary copy of StableSort.
type coll struct {
	job  *sortJob
	temp bool
	e    []elem
	sh   *simrt.Cells
}

type sortJob struct {
	prop    string
	what    int // 0 Sort, 1 StableSort, 2 IsSorted, 3 Sort of a built-in slice, 4 StableSort of one, 5 xAreSorted
	builtin int
	n       int
	pattern int
	keys    []int
	bombAt  int
	bombK   int
	calls   int
	over    bool
	nan     bool
	slow    delay
}

func (c *coll) use(m string, write bool) {
	j := c.job
	if j.over {
		Fail(j.prop, "late", "%s was called after the call had ended", m)
	}
	if write && j.what == 2 {
		Fail(j.prop, "write", "%s was called by IsSorted", m)
	}
	j.calls++
	if j.calls == j.bombAt {
		simrt.Fault("panic in user collection")
		panic(bombValue(1, j.bombK))
	}
	if j.calls%997 == 5 {
		j.slow.do()
	}
}

func (c *coll) check(m string, i, lim int) bool {
	if i < 0 || i >= lim {
		Fail(c.job.prop, "bounds", "%s with index %d of %d", m, i, len(c.e))
		return false
	}
	return true
}

func (c *coll) Len() int { return len(c.e) }

func (c *coll) Less(i, j int) bool {
	c.use("Less", false)
	n := len(c.e)
	if !c.check("Less", i, n) || !c.check("Less", j, n) {
		return false
	}
	c.sh.Touch(i, false)
	c.sh.Touch(j, false)
	return c.e[i].key < c.e[j].key
}

func (c *coll) Swap(i, j int) {
	c.use("Swap", true)
	n := len(c.e)
	if !c.check("Swap", i, n) || !c.check("Swap", j, n) {
		return
	}
	c.sh.Touch(i, true)
	c.sh.Touch(j, true)
	c.e[i], c.e[j] = c.e[j], c.e[i]
}

func (c *coll) SequentialSort(i, j int) {
	c.use("SequentialSort", true)
	n := len(c.e)
	if i > j || !c.check("SequentialSort", i, n+1) || !c.check("SequentialSort", j, n+1) {
		Fail(c.job.prop, "bounds", "SequentialSort(%d,%d) of %d", i, j, n)
		return
	}
	c.sh.TouchAll(i, j, true)
	s := c.e[i:j]
	simrt.Yield()
	stdsort.SliceStable(s, func(a, b int) bool { return s[a].key < s[b].key })
	simrt.Yield()
	c.sh.TouchAll(i, j, true)
}

func (c *coll) NewTemp() sort.StableSorter {
	c.use("NewTemp", false)
	c.job.slow.do()
	t := &coll{job: c.job, temp: true, e: make([]elem, len(c.e)), sh: simrt.NewCells(len(c.e))}
	for i := range t.e {
		t.e[i].key = -1 << 60
	}
	return t
}

func (c *coll) Assign(source sort.StableSorter) func(i, j, n int) {
	c.use("Assign", false)
	src := source.(*coll)
	return func(i, j, n int) {
		c.use("assign", true)
		if n < 0 || i < 0 || j < 0 || i+n > len(c.e) || j+n > len(src.e) {
			Fail(c.job.prop, "bounds", "assign(%d,%d,%d) of %d", i, j, n, len(c.e))
			return
		}
		src.sh.TouchAll(j, j+n, false)
		c.sh.TouchAll(i, i+n, true)
		copy(c.e[i:i+n], src.e[j:j+n])
	}
}

func (w *W) drawKeys(n int) (keys []int, pattern int) {
	keys = make([]int, n)
	pattern = w.Pick(6, 2, 2, 1, 3, 4, 2, 2, 2, 2, 1, 1, 2)
	seed := uint64(w.Int(1 << 30))
	r := func(i, m int) int { return int(simrt.Mix(seed, uint64(i)) % uint64(m)) }
	switch pattern {
	case 0:
		for i := range keys {
			keys[i] = r(i, 1<<30)
		}
	case 1:
		for i := range keys {
			keys[i] = i
		}
	case 2:
		for i := range keys {
			keys[i] = n - i
		}
	case 3: // constant
	case 4:
		m := w.Of(2, 3, 10, 100)
		for i := range keys {
			keys[i] = r(i, m)
		}
	case 5: // sorted, with one descent
		step := w.Of(1, 2, 50)
		for i := range keys {
			keys[i] = i / step
		}
		if n > 1 {
			at := 1
			switch w.Int(4) {
			case 0:
				at = 1 + w.Int(n-1)
			case 1:
				at = 1 + w.Int(min(n-1, 12))
			case 2:
				at = n - 1 - w.Int(min(n-1, 12))
			case 3: // near a power-of-two split
				d := 1 << w.Range(1, 5)
				at = n*w.Range(1, d)/d + w.Range(-10, 10)
			}
			at = max(1, min(n-1, at))
			keys[at] = keys[at-1] - 1
			if w.Chance(1, 2) {
				for i := at + 1; i < n; i++ { // everything after stays in order
					keys[i] = max(keys[i], keys[i-1])
				}
			}
		}
	case 6: // organ pipe
		for i := range keys {
			keys[i] = min(i, n-i)
		}
	case 7: // blocks: the second part belongs before the first
		at := w.Int(n + 1)
		for i := range keys {
			keys[i] = (i + n - at) % max(n, 1)
		}
	case 8: // nearly sorted
		for i := range keys {
			keys[i] = i
		}
		for k := w.Range(1, 20); k > 0 && n > 0; k-- {
			i, j := w.Int(n), w.Int(n)
			keys[i], keys[j] = keys[j], keys[i]
		}
	case 9: // groups of equal elements
		k, m := w.Of(2, 2, 3, 4, 16, 64, 1024), w.Of(2, 3, 10, 1<<30)
		for i := range keys {
			keys[i] = r(i/k, m)
		}
	case 10: // saw teeth
		k := 1 + w.LogUpTo(1, max(n, 2))
		for i := range keys {
			keys[i] = i % k
		}
	case 11: // two sorted sequences that alternate
		k := w.Of(1, 2, 1024)
		for i := range keys {
			keys[i] = i / (2 * k)
			if i/k%2 == 1 {
				keys[i] += n / 2
			}
		}
	case 12: // sorted runs
		m := w.Of(10, 1000, 1<<20)
		for i := 0; i < n; {
			x := r(i, m)
			for l := 1 + r(i+n, 1<<w.Range(1, 14)); l > 0 && i < n; l-- {
				keys[i] = x
				x += r(i+2*n, 3)
				i++
			}
		}
	}
	return
}

func (w *W) drawSortJob(prop string) *sortJob {
	j := &sortJob{prop: prop}
	grain := 0x500
	switch prop {
	case "C09":
		j.what = 3 * w.Pick(3, 1)
		switch w.Pick(1, 3, 6, 3, 1) {
		case 0:
			j.n = w.Int(grain)
		case 1:
			j.n = grain + w.Range(0, 20)
		case 2:
			j.n = w.LogUpTo(grain, 4000)
		case 3:
			j.n = w.LogUpTo(2000, 12000)
		case 4:
			j.n = w.LogUpTo(8000, 30000)
			if w.Chance(1, 40) {
				j.n = w.LogUpTo(30000, 140000)
			}
		}
	case "C10":
		grain = 0x3000
		j.what = 1 + 3*w.Pick(4, 1)
		switch w.Pick(1, 3, 6, 3, 3) {
		case 0:
			j.n = w.LogUpTo(0, grain-1)
		case 1:
			j.n = grain + w.Range(0, 9)
		case 2:
			j.n = w.LogUpTo(grain, 26000)
		case 3:
			j.n = w.Range(24500, 49152)
		case 4:
			j.n = 49152 + w.LogUpTo(0, 30000)
			if w.Chance(1, 40) {
				j.n = 196600 + w.LogUpTo(0, 30000)
			}
		}
	case "C11":
		j.what = 2 + 3*w.Pick(2, 1)
		switch w.Pick(1, 4, 6, 2) {
		case 0:
			j.n = w.LogUpTo(0, grain-1)
		case 1:
			j.n = grain + w.Range(-2, 20)
		case 2:
			j.n = w.LogUpTo(grain, 6000)
		case 3:
			j.n = w.LogUpTo(3000, 24000)
			if w.Chance(1, 40) {
				j.n = w.LogUpTo(24000, 140000)
			}
		}
	}
	if j.what >= 3 {
		j.builtin = w.Int(3)
		if j.what == 4 && j.n > 30000 {
			j.n = 30000
		}
	}
	j.keys, j.pattern = w.drawKeys(j.n)
	if j.builtin == 1 && j.what >= 3 && w.Chance(1, 3) {
		j.nan = true
	}
	if j.what <= 2 && w.Chance(1, 8) {
		j.slow = w.drawDelay()
	}
	if j.what == 0 && w.Chance(1, 8) {
		j.bombAt = w.LogUpTo(1, 1+j.n*6)
		j.bombK = w.Int(bombKinds)
	}
	if j.what == 1 && w.Chance(1, 6) {
		// the first calls are SequentialSort, NewTemp and Assign
		j.bombAt = w.LogUpTo(1, 12)
		if w.Chance(1, 3) {
			j.bombAt = w.LogUpTo(1, 1+j.n*2)
		}
		j.bombK = w.Int(bombKinds)
	}
	if j.what == 2 && j.n >= grain && w.Chance(1, 12) {
		j.bombAt = w.LogUpTo(1, j.n)
		j.bombK = w.Int(bombKinds)
	}
	w.Descf("%s builtin=%d n=%d pattern=%d nan=%v panicAtCall=%d", []string{"Sort", "StableSort", "IsSorted", "Sort", "StableSort", "AreSorted"}[j.what], j.builtin, j.n, j.pattern, j.nan, j.bombAt)
	return j
}

func (j *sortJob) run() {
	if j.what >= 3 {
		j.runBuiltin()
		return
	}
	c := &coll{job: j, e: make([]elem, j.n), sh: simrt.NewCells(j.n)}
	for i, k := range j.keys {
		c.e[i] = elem{k, i}
	}
	c.sh.TouchAll(0, j.n, true)
	wantSorted := stdsort.SliceIsSorted(j.keys, func(a, b int) bool { return j.keys[a] < j.keys[b] })
	var got bool
	p, panicked := catch(func() {
		switch j.what {
		case 0:
			sort.Sort(c)
		case 1:
			sort.StableSort(c)
		case 2:
			got = sort.IsSorted(c)
		}
	})
	j.over = true
	bombed := j.bombAt > 0 && j.calls >= j.bombAt
	where := fmt.Sprintf("call %d on %d elements", j.what, j.n)
	switch {
	case panicked && !bombed:
		Fail(j.prop, "panicked", "%s panicked with %s", where, oneLine(fmt.Sprint(p)))
	case panicked:
		simrt.Probe("sort ended by a panic")
		checkPanic(j.prop, where, p, 1, j.bombK)
	case bombed && j.what != 2:
		Fail(j.prop, "swallowed", "%s: panic of the collection did not surface", where)
	case j.what == 2:
		if got != wantSorted && !bombed {
			Fail(j.prop, "answer", "IsSorted returned %v for %d elements, pattern %d", got, j.n, j.pattern)
		}
	default:
		j.checkSorted(c)
	}
	if j.what != 2 && wantSorted {
		simrt.Probe("sorting sorted data")
	}
	// the caller may use the collection at once
	c.sh.TouchAll(0, j.n, true)
	simrt.Quiesce()
}

func (j *sortJob) checkSorted(c *coll) {
	seen := make([]bool, j.n)
	c.sh.TouchAll(0, j.n, false)
	for i, e := range c.e {
		if e.tag < 0 || e.tag >= j.n || seen[e.tag] || j.keys[e.tag] != e.key {
			Fail(j.prop, "permutation", "element %d of %d is lost, duplicated or damaged after sorting", i, j.n)
			return
		}
		seen[e.tag] = true
		if i > 0 && e.key < c.e[i-1].key {
			Fail(j.prop, "order", "element %d of %d is less than its predecessor after sorting", i, j.n)
		}
		if j.what == 1 && i > 0 && e.key == c.e[i-1].key && e.tag < c.e[i-1].tag {
			Fail(j.prop, "stable", "elements %d and %d of %d were equal and changed places", i-1, i, j.n)
		}
	}
}

func bits(f float64) uint64 { return math.Float64bits(f) }

func (j *sortJob) runBuiltin() {
	n := j.n
	var got, want bool
	where := fmt.Sprintf("call %d on built-in slice %d of %d", j.what, j.builtin, n)
	do := func(s interface {
		sort.Sorter
		sort.StableSorter
	}, are func() bool) {
		p, panicked := catch(func() {
			switch j.what {
			case 3:
				sort.Sort(s)
			case 4:
				sort.StableSort(s)
			case 5:
				got = are()
			}
		})
		if panicked {
			Fail(j.prop, "panicked", "%s panicked with %s", where, oneLine(fmt.Sprint(p)))
		}
	}
	bad := -1
	switch j.builtin {
	case 0:
		s := append([]int(nil), j.keys...)
		ref := append([]int(nil), s...)
		want = stdsort.IntsAreSorted(ref)
		stdsort.Ints(ref)
		do(sort.IntSlice(s), func() bool { return sort.IntsAreSorted(s) })
		if j.what != 5 {
			for i := range s {
				if s[i] != ref[i] {
					bad = i
				}
			}
		}
		for i := range s {
			simrt.Touch(&s[i], true)
		}
	case 1:
		s := make([]float64, n)
		for i, k := range j.keys {
			s[i] = float64(k)
			if k == 0 && simrt.Mix(5, uint64(i))%2 == 0 {
				s[i] = math.Copysign(0, -1) // equal to 0, but can be told from it
			}
			if j.nan && simrt.Mix(7, uint64(i))%9 == 0 {
				s[i] = math.Float64frombits(math.Float64bits(math.NaN()) + uint64(i)<<8)
			}
		}
		ref := append([]float64(nil), s...)
		want = stdsort.Float64sAreSorted(ref)
		stdsort.Stable(stdsort.Float64Slice(ref))
		do(sort.Float64Slice(s), func() bool { return sort.Float64sAreSorted(s) })
		if j.what != 5 {
			for i := range s {
				if s[i] != ref[i] && !(s[i] != s[i] && ref[i] != ref[i]) {
					bad = i
				}
			}
			a, b := make([]uint64, n), make([]uint64, n)
			for i := range s {
				a[i], b[i] = math.Float64bits(s[i]), math.Float64bits(ref[i])
			}
			if j.what == 3 {
				stdsort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
				stdsort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			}
			for i := range a {
				if bad < 0 && a[i] != b[i] {
					if j.what == 3 {
						Fail(j.prop, "permutation", "%s: %016x is missing or there instead of another element after sorting", where, b[i])
					} else {
						Fail(j.prop, "stable", "%s: element %d is %016x instead of %016x, which is equal to it", where, i, a[i], b[i])
					}
					break
				}
			}
		}
		for i := range s {
			simrt.Touch(&s[i], true)
		}
	case 2:
		s := make([]string, n)
		for i, k := range j.keys {
			s[i] = fmt.Sprintf("%012d", k+1<<32)
		}
		ref := append([]string(nil), s...)
		want = stdsort.StringsAreSorted(ref)
		stdsort.Strings(ref)
		do(sort.StringSlice(s), func() bool { return sort.StringsAreSorted(s) })
		if j.what != 5 {
			for i := range s {
				if s[i] != ref[i] {
					bad = i
				}
			}
		}
		for i := range s {
			simrt.Touch(&s[i], true)
		}
	}
	if bad >= 0 {
		Fail(j.prop, "order", "%s: element %d is wrong after sorting (NaNs present: %v)", where, bad, j.nan)
	}
	if j.what == 5 && got != want {
		Fail(j.prop, "answer", "%s: returned %v (pattern %d, NaNs present: %v)", where, got, j.pattern, j.nan)
	}
	simrt.Quiesce()
}

func planSort(prop string) func(w *W) func() {
	return func(w *W) func() {
		jobs := []*sortJob{w.drawSortJob(prop)}
		if w.Chance(1, 10) {
			jobs = append(jobs, w.drawSortJob(prop))
		}
		size := 0
		for _, j := range jobs {
			size += j.n
		}
		w.hint = int64(2000 + size*40)
		w.maxSteps = int64(400000 + size*(size/1280+30)*60)
		return func() {
			if len(jobs) > 1 {
				concurrently(jobs[0].run, jobs[1].run)
			} else {
				jobs[0].run()
			}
			noLeak(prop)
		}
	}
}

func init() {
	for _, x := range []struct {
		id string
		q  int
	}{{"C09", 80000}, {"C10", 10000}, {"C11", 400000}} {
		register(&property{id: x.id, quick: x.q, thorough: x.q * 40, loads: []workload{{"sort", 1, planSort(x.id)}}})
	}
}
