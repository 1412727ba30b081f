//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zzsim/simrt"
)

// Programs that combine the packages: a tree of parallel calls, map operations,
// sorts and pipelines nested in one another.  Whoever starts something relies
// on its effects once it has returned.

const (
	cLeaf = iota
	cDo
	cRange
	cSum
	cSpec
	cPipe
	cMapRange
	cMapReduce
	cReduce
	cAnd
	cSpecDo
	cCompute
	cModify
	cWords
	cSort
	cStable
)

var comboNames = []string{"leaf", "parallel.Do", "parallel.Range", "parallel.RangeReduceIntSum", "speculative.RangeOr", "pipeline", "ParallelRange", "ParallelReduceIntSum",
	"parallel.ReduceString", "parallel.And", "speculative.Do", "LoadOrCompute", "Modify", "word count", "sort", "stable sort"}

type cnode struct {
	kind  int
	id    int
	kids  []*cnode
	n     int
	stage []int // pipelines: node kinds; the last one runs the kids
	words []int
	d     delay
	own   cell
	ran   int
	done  bool
	bomb  bool // panics instead of returning
	meet  bool // waits for the other parts of the meeting
	bkind int
}

type comboRun struct {
	prop   string
	w      *W
	ids    int
	m      *sync.Map
	splits int
	words  map[int]int
	bombs  bool // some parts may panic
	active int
	memo   *sync.Map // results of LoadOrCompute and Modify
	spec   bool
	wide   bool // many parts
	limit  int  // number of parts from which on there are only leaves
	meet   *barrier
}

func (r *comboRun) draw(depth int) *cnode {
	w := r.w
	n := &cnode{id: r.ids}
	r.ids++
	inner := 3
	if depth == 0 {
		inner = 40
	}
	if depth >= 3 || r.ids > r.limit {
		inner = 0
	}
	switch w.Pick(3, 2, 1, inner) {
	case 1:
		n.kind = cWords
		for i := w.Range(1, 4); i > 0; i-- {
			k := w.Int(4)
			n.words = append(n.words, k)
			r.words[k]++
		}
	case 2:
		n.kind = w.Of(cSort, cStable)
		n.n = w.Of(12, 0, 1, 100, 1300, 2600)
		if r.wide {
			n.n = w.Of(12, 0, 1, 40)
		}
	case 3:
		n.kind = cDo + w.Int(cModify-cDo+1)
		if r.wide && w.Chance(1, 3) {
			n.kind = []int{cDo, cReduce, cAnd, cSpecDo}[w.Int(4)] // may meet
		}
		if r.bombs && n.kind == cPipe {
			n.kind = cDo // a panic in a receiver ends the process
		}
	}
	if r.bombs && n.kind == cLeaf && w.Pick(1, 1) == 1 {
		n.bomb, n.bkind = true, w.Int(bombKinds)
	}
	r.spec = r.spec || n.kind == cSpec || n.kind == cSpecDo
	if n.kind >= cDo && n.kind <= cModify {
		k := w.Range(1, 4)
		if k < 2 && depth == 0 {
			k = 2
		}
		if r.wide && w.Chance(1, depth+1) {
			k = w.LogUpTo(4, 60)
		}
		for i := 0; i < k; i++ {
			n.kids = append(n.kids, r.draw(depth+1))
		}
		n.n = w.Of(0, 1, 2, 3, 5)
		if w.Chance(1, 4) {
			n.n = k
		}
		if n.kind == cPipe {
			for i := w.Range(1, 3); i > 0; i-- {
				n.stage = append(n.stage, w.Of(nPar, nOrd, nSeq, nLPar, nStrict))
			}
		}
	}
	n.d = w.drawDelay()
	return n
}

func (n *cnode) String() string {
	var b []string
	for _, k := range n.kids {
		b = append(b, k.String())
	}
	s := comboNames[n.kind]
	if n.meet {
		s += "*"
	}
	if n.bomb {
		s = fmt.Sprint("panic ", n.id)
	}
	switch n.kind {
	case cSort, cStable:
		s += fmt.Sprint(" ", n.n)
	case cWords:
		s += fmt.Sprint(n.words)
	case cPipe:
		for _, k := range n.stage {
			s += " " + nodeNames[k]
		}
	}
	if len(b) > 0 {
		s += "{" + strings.Join(b, ", ") + "}"
	}
	return s
}

// together returns parts that can all be running at the same moment, whatever
// the schedule: those of concurrent functions and batches, and of one of several
// that may be run one after the other.
func (r *comboRun) together(n *cnode) (l []*cnode) {
	all := false
	switch n.kind {
	case cDo, cReduce, cAnd, cSpecDo:
		all = true
	case cRange, cSum, cSpec:
		all = n.n == len(n.kids)
	case cPipe:
		all = n.n >= len(n.kids) && n.stage[len(n.stage)-1] == nPar
	}
	for _, k := range n.kids {
		l = append(l, r.together(k)...)
	}
	if len(n.kids) == 0 {
		return []*cnode{n}
	}
	if !all {
		return r.together(n.kids[r.w.Int(len(n.kids))])
	}
	return
}

func (r *comboRun) fail(n *cnode, format string, args ...any) {
	prop := r.prop
	Fail(prop, "combined", comboNames[n.kind]+": "+format, args...)
}

// winners returns the panics that may surface from a part: that of the left-most
// part that panics, or any within a traversal, which has no order.
func (n *cnode) winners() (ws []*cnode) {
	if n.bomb {
		return []*cnode{n}
	}
	for _, k := range n.kids {
		ws = append(ws, k.winners()...)
		if len(ws) > 0 && n.kind != cMapRange && n.kind != cMapReduce {
			break
		}
	}
	return
}

func (r *comboRun) exec(n *cnode) {
	r.active++
	defer func() { r.active-- }()
	n.ran++
	if n.ran > 1 {
		r.fail(n, "part %d was run twice", n.id)
		return
	}
	n.d.do()
	n.own.set(n.id)
	if n.meet {
		r.meet.arrive("the other parts")
	}
	want := 0
	for _, k := range n.kids {
		want += k.id
	}
	switch n.kind {
	case cDo:
		var fs []func()
		for _, k := range n.kids {
			fs = append(fs, func() { r.exec(k) })
		}
		parallel.Do(fs...)
	case cRange:
		parallel.Range(0, len(n.kids), n.n, func(l, h int) {
			for _, k := range n.kids[l:h] {
				r.exec(k)
			}
		})
	case cSum:
		got := parallel.RangeReduceIntSum(0, len(n.kids), n.n, func(l, h int) (s int) {
			for _, k := range n.kids[l:h] {
				r.exec(k)
				s += k.id
			}
			return
		})
		if got != want {
			r.fail(n, "the sum is %d instead of %d", got, want)
		}
	case cSpec:
		if speculative.RangeOr(0, len(n.kids), n.n, func(l, h int) bool {
			for _, k := range n.kids[l:h] {
				r.exec(k)
			}
			return false
		}) {
			r.fail(n, "the result is true")
		}
	case cPipe:
		r.pipe(n)
	case cMapRange, cMapReduce:
		m := sync.NewMap(n.n)
		for i, k := range n.kids {
			m.DeleteOrStore(mkey{i, uint64(i * 3)}, k)
		}
		if n.kind == cMapRange {
			m.ParallelRange(func(_, v any) { r.exec(v.(*cnode)) })
			break
		}
		got := m.ParallelReduceIntSum(func(x map[any]any) (s int) {
			for i := range n.kids {
				simrt.MR(0, x)
				if v, ok := x[mkey{i, uint64(i * 3)}]; ok {
					k := v.(*cnode)
					r.exec(k)
					s += k.id
				}
			}
			return
		})
		if got != want {
			r.fail(n, "the sum is %d instead of %d", got, want)
		}
	case cReduce:
		var fs []func() string
		want := ""
		for _, k := range n.kids {
			fs = append(fs, func() string { r.exec(k); return fmt.Sprint(k.id, ";") })
			want += fmt.Sprint(k.id, ";")
		}
		if got := parallel.ReduceString(func(x, y string) string { return x + y }, fs[0], fs[1:]...); got != want {
			r.fail(n, "the result is %q instead of %q", got, want)
		}
	case cAnd:
		var fs []func() bool
		for _, k := range n.kids {
			fs = append(fs, func() bool { r.exec(k); return true })
		}
		if !parallel.And(fs...) {
			r.fail(n, "the result is false")
		}
	case cSpecDo:
		var fs []func() bool
		for _, k := range n.kids {
			fs = append(fs, func() bool { r.exec(k); return false })
		}
		if speculative.Do(fs...) {
			r.fail(n, "the result is true")
		}
	case cCompute:
		v, loaded := r.memo.LoadOrCompute(mkey{n.id, uint64(n.id)}, func() any {
			for _, k := range n.kids {
				r.exec(k)
			}
			return want
		})
		if loaded || v != want {
			r.fail(n, "the result is %v, %v", v, loaded)
		}
	case cModify:
		// The parts must not use the same split: use a map of its own.
		m := sync.NewMap(1)
		v, ok := m.Modify(mkey{n.id, uint64(n.id)}, func(_ any, ok bool) (any, bool) {
			for _, k := range n.kids {
				r.exec(k)
			}
			return want, !ok
		})
		if v != want || !ok {
			r.fail(n, "the result is %v, %v", v, ok)
		}
	case cWords:
		for _, k := range n.words {
			r.m.Modify(mkey{k, uint64(k)}, func(v any, ok bool) (any, bool) {
				if !ok {
					v = &cell{}
				}
				v.(*cell).add(1)
				return v, true
			})
		}
	case cSort, cStable:
		x := make([]int, n.n)
		for i := range x {
			x[i] = int(simrt.Mix(uint64(n.id), uint64(i)) % 1000)
		}
		if n.kind == cSort {
			sort.Sort(sort.IntSlice(x))
		} else {
			sort.StableSort(sort.IntSlice(x))
		}
		for i := range x {
			simrt.Touch(&x[i], true)
			if i > 0 && x[i-1] > x[i] {
				r.fail(n, "not sorted")
				break
			}
		}
	}
	if n.bomb {
		simrt.Fault("panic in a nested part")
		panic(bombValue(n.id, n.bkind))
	}
	if ws := n.winners(); len(ws) > 0 {
		r.fail(n, "no panic surfaces, although part %d panics", ws[0].id)
	}
	for _, k := range n.kids {
		r.collect(n, k)
	}
	n.own.set(n.id + 1)
	n.done = true
}

// collect reads what a part that has ended has left behind.
func (r *comboRun) collect(n, k *cnode) {
	if k.ran != 1 || !k.done {
		r.fail(n, "part %d has not been run to its end when the call returns", k.id)
		return
	}
	k.own.get()
	for _, x := range k.kids {
		r.collect(k, x)
	}
}

func (r *comboRun) pipe(n *cnode) {
	var p pipeline.Pipeline
	p.Source(n.kids)
	if n.n > 0 {
		p.NofBatches(n.n)
	}
	var state cell
	count := 0
	ends := 0
	for i, kind := range n.stage {
		last := i == len(n.stage)-1
		rec := func(_ int, data any) any {
			if last {
				ks := data.([]*cnode)
				for i := range ks {
					simrt.Touch(&ks[i], false)
					r.exec(ks[i])
				}
			} else if kind != nPar && kind != nLPar && i == 0 {
				state.add(1)
			} else {
				simrt.Yield()
			}
			return data
		}
		fin := func() { ends++ }
		f := pipeline.ReceiveAndFinalize(rec, fin)
		switch kind {
		case nPar:
			p.Add(pipeline.Par(f, pipeline.Count(&count)))
		case nOrd:
			p.Add(pipeline.Ord(f))
		case nSeq:
			p.Add(pipeline.Seq(f))
		case nLPar:
			p.Add(pipeline.LimitedPar(2+i, f))
		case nStrict:
			p.Add(pipeline.StrictOrd(f))
		}
	}
	p.Run()
	if p.Err() != nil {
		r.fail(n, "the error is %v", p.Err())
	}
	if ends != len(n.stage) {
		r.fail(n, "%d of %d finalizers were called", ends, len(n.stage))
	}
	state.get()
}

func planCombo(prop string) func(w *W) func() {
	return func(w *W) func() {
		r := &comboRun{prop: prop, w: w, words: map[int]int{}, splits: w.Of(1, 2, 3, 8)}
		r.bombs = w.Pick(3, 1) == 1
		r.limit = 14
		if w.Chance(1, 20) {
			r.wide, r.limit = true, w.LogUpTo(14, 200)
			w.maxSteps *= 10
		}
		root := r.draw(0)
		if !r.bombs && w.Chance(2, 3) {
			l := r.together(root)
			for _, n := range l {
				n.meet = true
			}
			r.meet = &barrier{n: len(l), g: gate{quiet: w.Chance(1, 2)}}
			w.Descf("%d parts wait for one another", len(l))
		}
		w.Descf("map with %d splits; program: %s", r.splits, root)
		return func() {
			r.m = sync.NewMap(r.splits)
			r.memo = sync.NewMap(r.splits)
			if ws := root.winners(); len(ws) > 0 {
				p, panicked := catch(func() { r.exec(root) })
				if !panicked {
					return // reported already
				}
				if r.active > 0 && !r.spec {
					Fail(prop, "combined", "the panic surfaces while %d parts are still running", r.active)
				}
				k := ws[0]
				for _, x := range ws {
					if strings.Contains(fmt.Sprint(p), token(x.id)) {
						k = x
					}
				}
				checkPanic(prop, "nested calls", p, k.id, k.bkind)
				simrt.Quiesce()
				return
			}
			r.exec(root)
			r.collect(root, root)
			seen := 0
			r.m.Range(func(k, v any) bool {
				seen++
				if got := v.(*cell).get(); got != r.words[k.(mkey).id] {
					Fail(prop, "combined", "word %d was counted %d times instead of %d", k.(mkey).id, got, r.words[k.(mkey).id])
				}
				return true
			})
			if seen != len(r.words) {
				Fail(prop, "combined", "%d words were counted instead of %d", seen, len(r.words))
			}
			simrt.Quiesce()
		}
	}
}

func init() {
	var loads []workload
	for _, p := range []string{"C01", "C04", "C06", "C07", "C08"} {
		loads = append(loads, workload{"par " + p, 3, planPar(p)})
	}
	loads = append(loads, workload{"fold", 5, planFold("C15")})
	for _, p := range []string{"C12", "C13", "C14", "C16"} {
		loads = append(loads, workload{"map " + p, 3, planMap(p)})
	}
	for _, p := range []string{"C17", "C18", "C20", "C22", "C23", "C24", "C25", "C26", "C27"} {
		loads = append(loads, workload{"pipe " + p, 4, planPipe(p)})
	}
	loads = append(loads, workload{"combined", 16, planCombo("C30")}, workload{"sort C09", 1, planSort("C09")}, workload{"sort C11", 1, planSort("C11")})
	register(&property{id: "C28", quick: 900000, thorough: 900000 * 40, raceOnly: true, loads: loads})
	register(&property{id: "C30", quick: 1000000, thorough: 400000 * 60, loads: []workload{{"combined", 1, planCombo("C30")}}})
}
