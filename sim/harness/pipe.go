//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"time"

	"bufio"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zzsim/simrt"
	"github.com/exascience/pargo/zzsim/simsync"
)

// Package pipeline: random pipelines, run with faults, whose receivers,
// finalizers and sources keep a log that is checked against a model.

// static type of the batches at some point of a pipeline
const (
	tInts = iota
	tString
	tStrings
	tBytes
	tScalar
)

// filters
const (
	fProbe = iota
	fIdentity
	fNothing
	fFinalize
	fSize
	fSlice
	fCount
	fEvery
	fNotEvery
	fSome
	fNotAny
	fLimit
	fSkip
)

var filterNames = []string{"Probe", "Identity", "nil", "Finalize", "size", "Slice", "Count", "Every", "NotEvery", "Some", "NotAny", "Limit", "Skip"}

// what the receiver of a probe does with its batch
const (
	oSame = iota
	oMap
	oDrop
	oNil
	oEmpty
	oAppend
	oInPlace
)

var probeOps = []string{"", "map", "drop", "nil", "empty", "append", "inplace"}

type pentry struct {
	seq  int
	in   []int
	done bool
	c    cell
}

type pfilter struct {
	what    int
	op      int
	typ     int // of its input
	idx     int
	node    *pnode
	delays  []delay
	fin     bool // probes: with a finalizer
	slow    int  // 1 + the batch whose receiver takes an hour
	cancel  bool // cancelWhenKnown, cancelWhenReached
	n       int  // limit, skip
	thr     int  // predicate threshold
	setSize bool
	hasRecv bool

	log     []*pentry
	finRuns int
	evals   []bool
	result  bool
	count   int
	slice   any // pointer to the result
	pre     int // elements in it beforehand
	gotSize int
	sizeSet bool
	exp     map[int][]int // expected input by sequence number
	built   int
}

const (
	nOrd = iota
	nSeq
	nPar
	nLPar
	nStrict
	nUser
	nLimit
	nSkip
)

var nodeNames = []string{"Ord", "Seq", "Par", "LimitedPar", "StrictOrd", "user", "Limit", "Skip"}

type pnode struct {
	kind    int
	limit   int
	viaNew  bool
	mode    int // of a user-defined node
	filters []*pfilter
	cap     int // receivers at once, 0 unbounded
	ordered bool
	active  int
	finNow  int
	fin     bool
	state   cell
	meet    *barrier
	meetN   int
	met     int
}

func (n *pnode) name() string { return nodeNames[n.kind] }

// one planned cancellation or error
const (
	aCancel = iota
	aSetErr
	aCtx
)

const (
	atReceiver = iota
	atAgent
	atFetch
	atBegin
	atBeforeRun
	atFinalizer
	atMainAgent
	atPredicate
)

type paction struct {
	how    int
	at     int
	k      int
	twice  bool
	settle bool // let everything else go as far as it can afterwards
	d      delay
	err    error
	done   bool
}

const (
	sSlice = iota
	sArray
	sString
	sChan
	sScanner
	sBytes
	sFunc
	sFuncKnown
	sSingle
	sSingleScalar
	sUser
	sUserKnown
)

var sourceNames = []string{"slice", "array", "string", "chan", "Scanner", "BytesScanner", "Func", "Func with size", "SingletonChan of slices", "SingletonChan", "user-defined", "user-defined with size"}

type psource struct {
	kind    int
	n       int
	groups  []int // SingletonChan of slices: lengths
	buf     int
	short   int // user sources: largest batch, 0 no bound
	errAt   int // fetch with the error (1-based), 0 none
	errData bool
	err     error
	endless bool
	stall   bool // the sender stops sending without closing
	delays  []delay
	chunks  []int
	words   bool
	forms   lineForms
	elem    int  // 1 + index in elemTypes, or 0 for int
	tooLong bool // the last line is longer than a Scanner takes
	extra   int

	// log
	fetches   int
	asked     []int
	given     [][]int
	ended     bool
	errGiven  bool
	late      int
	later     int
	state     cell
	pos       int
	cur       any
	curN      int
	curErr    error
	backstop  int
	afterErr  int
	dataCalls int
}

type pipeRun struct {
	prop     string
	w        *W
	src      *psource
	nodes    []*pnode
	users    []*userNode
	chain    []*pfilter
	acts     []*paction
	nof      int
	inc      int
	max      int
	withCtx  int // 0 Run, 1 RunWithContext, 2 + deadline, 3 parent cancelled
	dl       time.Duration
	splitAdd bool
	again    bool
	twoSrc   bool
	typ      int
	poll     int

	p          *pipeline.Pipeline
	calls      int
	cancelled  bool
	settled    map[int]bool // after a cancellation: batches in progress
	cancelDone bool
	over       bool
	begun      bool
	setTrue    []error
	setCalls   int
	seenErr    error
	skipErr    bool
	ctxCancel  context.CancelFunc
	ctx        context.Context
	quit       chan struct{}
	procs      int
	first      any
	p0data     []any
	p0snap     [][]int
	stable     bool
	hasLimit   bool
	sentinel   []int
	maxBatches int
	finalErr   error
	errored    bool
}

func (r *pipeRun) fail(prop, what, format string, args ...any) {
	Fail(prop, what, format, args...)
}

// ---------------------------------------------------------------- data

func read(data any) []int {
	switch d := data.(type) {
	case nil:
		return nil
	case []int:
		x := make([]int, len(d))
		for i := range d {
			simrt.Touch(&d[i], false)
			x[i] = d[i]
		}
		return x
	case string:
		x := make([]int, len(d))
		for i := range x {
			x[i] = int(d[i]) - 33
		}
		return x
	case []string:
		x := make([]int, len(d))
		for i := range d {
			simrt.Touch(&d[i], false)
			x[i] = parseID(d[i])
		}
		return x
	case [][]byte:
		x := make([]int, len(d))
		for i := range d {
			simrt.Touch(&d[i], false)
			if len(d[i]) > 0 {
				simrt.Touch(&d[i][0], false)
			}
			x[i] = parseID(string(d[i]))
		}
		return x
	case int:
		return []int{d}
	}
	if v := reflect.ValueOf(data); v.Kind() == reflect.Slice {
		for _, t := range elemTypes {
			if t.slice == v.Type() {
				x := make([]int, v.Len())
				for i := range x {
					x[i] = t.dec(v.Index(i).Interface())
				}
				return x
			}
		}
	}
	return []int{-1 << 40}
}

type (
	namedInts []int
	record    struct {
		name string
		id   int
	}
)

// elemTypes: what else the elements of slices, arrays and channels can be.
var elemTypes = []struct {
	slice reflect.Type
	enc   func(i int) any
	dec   func(v any) int
}{
	{reflect.TypeOf([]string(nil)), func(i int) any { return lines.text(i) }, nil},
	{reflect.TypeOf([]float64(nil)), func(i int) any { return float64(i) }, func(v any) int { return int(v.(float64)) }},
	{reflect.TypeOf([]any(nil)), func(i int) any { return i }, func(v any) int {
		x, ok := v.(int)
		if !ok {
			return -1 << 42
		}
		return x
	}},
	{reflect.TypeOf([]record(nil)), func(i int) any { return record{strconv.Itoa(i), i} }, func(v any) int {
		x := v.(record)
		if x.name != strconv.Itoa(x.id) {
			return -1 << 42
		}
		return x.id
	}},
	{reflect.TypeOf(namedInts(nil)), func(i int) any { return i }, func(v any) int { return v.(int) }},
	{reflect.TypeOf([]uint32(nil)), func(i int) any { return uint32(i) }, func(v any) int { return int(v.(uint32)) }},
}

const tElem = 100 // + index in elemTypes

func (s *psource) typ() int {
	switch {
	case s.elem == 1:
		return tStrings
	case s.elem > 1:
		return tElem + s.elem - 1
	}
	return map[int]int{sString: tString, sScanner: tStrings, sBytes: tBytes, sSingleScalar: tScalar}[s.kind]
}

func elemSlice(k, n, c int, id func(i int) int) any {
	t := elemTypes[k]
	x := reflect.MakeSlice(t.slice, n, c)
	for i := 0; i < n; i++ {
		x.Index(i).Set(reflect.ValueOf(t.enc(id(i))))
	}
	return x.Interface()
}

func chanOf[T any](r *pipeRun, val func(i int) T) any {
	ch := make(chan T, r.src.buf)
	sendAll(r, ch, val)
	if r.src.extra > 0 {
		return (<-chan T)(ch)
	}
	return ch
}

func parseID(s string) int {
	v := lines.blank
	if s != "" {
		var err error
		if v, err = strconv.Atoi(strings.Trim(s, "x ")); err != nil {
			return -1 << 41
		}
	}
	if v >= 0 && v < 7000000 && s != lines.text(v) {
		return -1 << 41 // changed on the way
	}
	return v
}

// lineForms: what the lines of scanner sources look like.
type lineForms struct {
	blank  int // the line that is empty, or -1
	long   int // the line that is long, or -1
	length int
	spaces bool
}

var lines lineForms // of the current run

func (f lineForms) text(i int) string {
	switch {
	case i < 0:
		return "?"
	case i == f.blank:
		return ""
	case i == f.long:
		return strings.Repeat("x", f.length) + strconv.Itoa(i)
	case f.spaces && i%3 == 1:
		return strings.Repeat(" ", i%5) + strconv.Itoa(i) + " "
	}
	return strings.Repeat("x", i%4) + strconv.Itoa(i)
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// apply is what a probe with this operation makes of a batch.
func (f *pfilter) apply(seq int, in []int) []int {
	switch f.op {
	case oMap, oInPlace:
		out := make([]int, len(in))
		for i, v := range in {
			out[i] = v + 1000*(f.idx+1)
		}
		return out
	case oDrop:
		out := []int{}
		for _, v := range in {
			if simrt.Mix(uint64(f.idx), uint64(v))%3 != 0 {
				out = append(out, v)
			}
		}
		return out
	case oNil:
		if seq%3 == f.idx%3 {
			return nil
		}
	case oEmpty:
		if seq%2 == f.idx%2 {
			return []int{}
		}
	case oAppend:
		return append(append([]int(nil), in...), -1000*(f.idx+1)-seq)
	}
	return in
}

// transform does it to the real data.
func (f *pfilter) transform(seq int, data any, in []int) any {
	switch f.op {
	case oSame:
		return data
	case oInPlace:
		d, _ := data.([]int)
		for i := range d {
			simrt.Touch(&d[i], true)
			d[i] += 1000 * (f.idx + 1)
		}
		return data
	case oAppend:
		x := strconv.Itoa(-1000*(f.idx+1) - seq)
		switch d := data.(type) {
		case []string:
			if cap(d) > len(d) {
				simrt.Touch(&d[:len(d)+1][len(d)], true)
			}
			return append(d, x)
		case [][]byte:
			for _, l := range d {
				if cap(l) > len(l) {
					simrt.Touch(&l[:len(l)+1][len(l)], true)
				}
				_ = append(l, '!')
			}
			if cap(d) > len(d) {
				simrt.Touch(&d[:len(d)+1][len(d)], true)
			}
			return append(d, []byte(x))
		case nil:
			switch f.typ {
			case tStrings:
				return []string{x}
			case tBytes:
				return [][]byte{[]byte(x)}
			}
		}
		d, _ := data.([]int)
		if cap(d) > len(d) {
			simrt.Touch(&d[:len(d)+1][len(d)], true)
		}
		return append(d, -1000*(f.idx+1)-seq)
	case oNil:
		if seq%3 == f.idx%3 {
			return nil
		}
		return data
	}
	return append([]int{}, f.apply(seq, in)...)
}

func (f *pfilter) holds(in []int) bool {
	h := uint64(f.idx)
	for _, v := range in {
		h = simrt.Mix(h, uint64(v))
	}
	return int(h%8) < f.thr
}

// ---------------------------------------------------------------- actions

func (r *pipeRun) askErr(where string) error {
	before := r.seenErr
	e := r.p.Err()
	if e == nil {
		if before != nil {
			r.fail("C23", "changed", "Err returned nil in %s after it had returned %q", where, before)
		}
		return nil
	}
	if r.seenErr == nil {
		r.seenErr = e
	} else if r.seenErr != e {
		r.fail("C23", "changed", "Err returned %q in %s after it had returned %q", e, where, r.seenErr)
	}
	return e
}

func (r *pipeRun) perform(a *paction, where string) {
	if a.done {
		return
	}
	a.done = true
	n := 1
	if a.twice {
		n = 2
	}
	for i := 0; i < n; i++ {
		if a.how == aCtx && r.ctxCancel == nil || a.how != aCtx && !r.begun {
			return
		}
		r.cancelled = true
		switch a.how {
		case aCancel:
			simrt.Fault("Cancel " + where)
			r.p.Cancel()
		case aSetErr:
			simrt.Fault("SetErr " + where)
			r.errored = true
			r.setCalls++
			before := r.setTrue
			ok := r.p.SetErr(a.err)
			if ok {
				r.setTrue = append(r.setTrue, a.err)
				if len(r.setTrue) > 1 {
					r.fail("C23", "two-winners", "SetErr returned true twice, for %q and %q", r.setTrue[0], a.err)
				}
				if r.p.Context().Err() == nil {
					r.fail("C23", "not-cancelled", "the context was not cancelled when SetErr returned true")
				}
			}
			e := r.askErr(where)
			if e == nil {
				r.fail("C23", "lost", "Err returned nil after SetErr had returned %v", ok)
			} else if ok && e != a.err {
				r.fail("C23", "changed", "Err returned %q after SetErr(%q) had returned true", e, a.err)
			} else if !ok && len(before) > 0 && e != before[0] {
				r.fail("C23", "changed", "Err returned %q after SetErr(%q) had returned true", e, before[0])
			}
		case aCtx:
			simrt.Fault("context cancelled " + where)
			r.ctxCancel()
		}
		r.cancelDone = true
	}
	if a.settle && r.cancelDone {
		r.settle()
	}
}

// settle waits until everybody else has noticed the cancellation and remembers which
// batches are being processed by receivers that are running now.
func (r *pipeRun) settle() {
	simrt.Quiesce()
	if r.settled != nil {
		return
	}
	simrt.Probe("everything settled after a cancellation")
	r.settled = map[int]bool{}
	for _, f := range r.chain {
		for _, e := range f.log {
			if !e.done {
				r.settled[e.seq] = true
			}
		}
	}
}

func (r *pipeRun) trigger(at, k int, where string) {
	for _, a := range r.acts {
		if a.at == at && !a.done && (at == atFinalizer || at == atBegin || a.k == k) {
			r.perform(a, where)
		}
	}
}

// ---------------------------------------------------------------- filters

func (r *pipeRun) receive(f *pfilter, seq int, data any) any {
	n := f.node
	if n.fin {
		r.fail("C20", "late-receiver", "a receiver of a %s node was called for batch %d during or after a finalizer of the node", n.name(), seq)
	}
	if r.over && !r.errored {
		r.fail("C17", "late", "a receiver of a %s node was called for batch %d after Run had returned", n.name(), seq)
	}
	if r.settled != nil && !r.settled[seq] && n.kind != nUser {
		r.fail("C22", "started", "a receiver of a %s node was called for batch %d, which no receiver was processing when the pipeline was cancelled and everything else had come to rest", n.name(), seq)
	}
	n.active++
	if n.cap > 0 && n.active > n.cap {
		r.fail("C19", "overlap", "%d receiver calls at the same time in a %s node that allows %d", n.active, n.name(), n.cap)
		if n.ordered {
			r.fail("C18", "overlap", "%d receiver calls at the same time in a %s node", n.active, n.name())
		}
	}
	in := read(data)
	e := &pentry{seq: seq, in: in}
	k := len(f.log)
	f.log = append(f.log, e)
	if f == r.chain[0] && r.p0data != nil {
		r.p0data = append(r.p0data, data)
		r.p0snap = append(r.p0snap, in)
	}
	if n.ordered && seq != k {
		r.fail("C18", "order", "a receiver of an %s node got batch %d as its %dth batch", n.name(), seq, k)
		if r.cancelled {
			r.fail("C22", "order", "after a cancellation a receiver of an %s node got batch %d as its %dth batch", n.name(), seq, k)
		}
	}
	if n.cap == 1 {
		n.state.add(1)
	}
	e.c.set(1)
	r.calls++
	if len(f.delays) > 0 {
		f.delays[k%len(f.delays)].do()
	}
	if f.slow > 0 && seq == f.slow-1 {
		simrt.Fault("straggling batch")
		simrt.Sleep(time.Hour)
	}
	if n.meet != nil && f == n.filters[0] && k < n.meetN {
		simrt.Probe("batches of a node waited for one another")
		n.meet.arrive("the other batches of the node")
	}
	r.trigger(atReceiver, r.calls, "in a receiver")
	if r.poll > 0 && r.calls%r.poll == 0 {
		r.askErr("a receiver")
	}
	out := f.transform(seq, data, in)
	e.c.set(2)
	e.done = true
	n.active--
	return out
}

func (r *pipeRun) finalize(f *pfilter) {
	n := f.node
	n.fin = true
	f.finRuns++
	if f.finRuns > 1 {
		r.fail("C20", "twice", "a finalizer of a %s node was called twice", n.name())
	}
	if n.active > 0 {
		r.fail("C20", "early", "a finalizer of a %s node was called while a receiver of the node was running", n.name())
	}
	for _, g := range n.filters {
		for _, e := range g.log {
			e.c.get()
		}
	}
	if n.cap == 1 {
		n.state.add(1)
	}
	if len(f.delays) > 0 {
		f.delays[0].do()
	}
	if n.active > 0 {
		r.fail("C20", "early", "a finalizer of a %s node was called while a receiver of the node was running", n.name())
	}
	r.trigger(atFinalizer, 0, "in a finalizer")
}

// make turns a planned filter into a real one.
func (r *pipeRun) make(f *pfilter) pipeline.Filter {
	probe := func(data any) bool {
		in := read(data)
		v := f.holds(in)
		if len(f.delays) > 0 {
			f.delays[0].do()
		}
		f.evals = append(f.evals, v)
		decided := false
		switch f.what {
		case fEvery, fNotEvery:
			decided = !v
		default:
			decided = v
		}
		if decided && f.cancel {
			r.cancelled = true
		}
		return v
	}
	switch f.what {
	case fIdentity:
		return pipeline.Identity
	case fNothing:
		return func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
			return nil, nil
		}
	case fFinalize:
		return pipeline.Finalize(func() { r.finalize(f) })
	case fSize:
		return func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
			f.gotSize, f.sizeSet = *size, true
			return nil, nil
		}
	case fSlice:
		return pipeline.Slice(f.slice)
	case fCount:
		return pipeline.Count(&f.count)
	case fEvery:
		return pipeline.Every(&f.result, f.cancel, probe)
	case fNotEvery:
		return pipeline.NotEvery(&f.result, f.cancel, probe)
	case fSome:
		return pipeline.Some(&f.result, f.cancel, probe)
	case fNotAny:
		return pipeline.NotAny(&f.result, f.cancel, probe)
	}
	rec := func(seq int, data any) any { return r.receive(f, seq, data) }
	fin := func() { r.finalize(f) }
	if f.built == 1 { // the helpers of the package
		if f.fin {
			return pipeline.ReceiveAndFinalize(rec, fin)
		}
		return pipeline.Receive(rec)
	}
	return func(p *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
		if p != r.p {
			r.fail("C17", "pipeline", "a filter was handed another pipeline than its own")
		}
		if f.op == oDrop || f.op == oNil || f.op == oEmpty || f.op == oAppend {
			*size = -1
		}
		if !r.begun {
			r.begun = true
			for _, a := range r.acts {
				if a.at == atAgent {
					simrt.Spawn("agent", func() { a.d.do(); r.perform(a, "by another goroutine") })
				}
			}
		}
		r.trigger(atBegin, 0, "while the pipeline begins")
		if f.fin {
			return rec, fin
		}
		return rec, nil
	}
}

// userNode is a node implemented by a user.
type userNode struct {
	r          *pipeRun
	mode       int
	begun      bool
	ended      bool
	p          *pipeline.Pipeline
	wg         simsync.WaitGroup
	ch         chan func()
	filters    []pipeline.Filter
	receivers  []pipeline.Receiver
	finalizers []pipeline.Finalizer
}

const (
	uInline = iota // passes batches on at once
	uQueue         // by a goroutine of its own
	uSpawn         // by a goroutine for each batch
	uAbsent        // does not want to see them
)

func (u *userNode) TryMerge(pipeline.Node) bool { return false }
func (u *userNode) Begin(p *pipeline.Pipeline, _ int, size *int) bool {
	if u.begun {
		u.r.fail("C17", "node", "Begin of a user-defined node was called twice")
	}
	u.begun = true
	u.p = p
	if u.mode == uAbsent {
		simrt.Probe("a user-defined node that is not needed")
		return false
	}
	u.receivers, u.finalizers = pipeline.ComposeFilters(p, pipeline.Parallel, size, u.filters)
	if len(u.receivers)+len(u.finalizers) == 0 {
		u.mode = uAbsent
		return false
	}
	if u.mode == uQueue {
		simrt.Probe("a user-defined node with a goroutine of its own")
		u.ch = make(chan func())
		u.wg.Add(1)
		simrt.Spawn("user node", func() {
			defer u.wg.Done()
			for {
				c := simrt.RecvCase(u.ch)
				if simrt.SelectN(-1, false, simrt.RecvCase(p.Context().Done()), c) == 0 || !c.Ok {
					return
				}
				c.V()
			}
		})
	}
	return true
}
func (u *userNode) Feed(p *pipeline.Pipeline, index, seq int, data any) {
	if u.mode == uAbsent || u.ended || !u.begun || p != u.p {
		u.r.fail("C17", "node", "Feed of a user-defined node was called although Begin returned false, before Begin, after End, or by another pipeline")
		return
	}
	f := func() {
		for _, f := range u.receivers {
			data = f(seq, data)
		}
		p.FeedForward(index, seq, data)
	}
	switch u.mode {
	case uInline:
		f()
	case uQueue:
		simrt.SelectN(-1, false, simrt.RecvCase(p.Context().Done()), simrt.To(u.ch).Case(f))
	case uSpawn:
		simrt.Probe("a user-defined node with a goroutine for each batch")
		u.wg.Add(1)
		simrt.Spawn("user node", func() {
			defer u.wg.Done()
			if p.Context().Err() == nil {
				f()
			}
		})
	}
}
func (u *userNode) End() {
	if u.mode == uAbsent || u.ended || !u.begun {
		u.r.fail("C17", "node", "End of a user-defined node was called although Begin returned false, before Begin, or twice")
		return
	}
	u.ended = true
	if u.mode == uQueue {
		simrt.Close(-1, u.ch)
	}
	u.wg.Wait()
	for _, f := range u.finalizers {
		f()
	}
}

func (r *pipeRun) node(n *pnode) pipeline.Node {
	switch n.kind {
	case nLimit:
		return pipeline.Limit(n.filters[0].n, n.filters[0].cancel)
	case nSkip:
		return pipeline.Skip(n.filters[0].n)
	}
	var fs []pipeline.Filter
	for _, f := range n.filters {
		fs = append(fs, r.make(f))
	}
	switch n.kind {
	case nOrd:
		if n.viaNew {
			return pipeline.NewNode(pipeline.Ordered, fs...)
		}
		return pipeline.Ord(fs...)
	case nSeq:
		if n.viaNew {
			return pipeline.NewNode(pipeline.Sequential, fs...)
		}
		return pipeline.Seq(fs...)
	case nPar:
		if n.viaNew {
			return pipeline.NewNode(pipeline.Parallel, fs...)
		}
		return pipeline.Par(fs...)
	case nLPar:
		return pipeline.LimitedPar(n.limit, fs...)
	case nStrict:
		return pipeline.StrictOrd(fs...)
	}
	u := &userNode{r: r, mode: n.mode, filters: fs}
	if u.mode == uQueue {
		for _, n := range r.nodes {
			if n.kind == nStrict { // needs its batches in order
				u.mode = uSpawn
			}
		}
	}
	r.users = append(r.users, u)
	return u
}

// ---------------------------------------------------------------- sources

const endlessGuard = 60

// fetch is the heart of the sources that the harness implements.
func (s *psource) fetch(r *pipeRun, size int) (any, int, error) {
	s.state.add(1)
	s.fetches++
	s.asked = append(s.asked, size)
	if r.settled != nil {
		s.later++
		if s.later > 1 {
			r.fail("C22", "fetching", "the pipeline went on fetching after it had been cancelled and everything else had come to rest")
			s.endless = false
			s.n = s.pos
		}
	}
	if r.cancelDone {
		s.late++
		if s.late > 3 {
			r.fail("C22", "fetching", "the pipeline went on fetching (%d times) after it had been cancelled", s.late)
			s.endless = false
			s.n = s.pos
		}
	}
	if s.ended {
		r.fail("C27", "refetch", "Fetch was called again after it had returned 0")
		return nil, 0, s.curErr
	}
	if s.errGiven && len(s.given) > 0 {
		s.afterErr++
		r.fail("C23", "fetching", "Fetch was called again after the source had reported an error")
		s.ended = true
		return nil, 0, s.err
	}
	if len(s.delays) > 0 {
		s.delays[s.fetches%len(s.delays)].do()
	}
	r.trigger(atFetch, s.fetches, "in Fetch")
	if s.endless && s.fetches == endlessGuard {
		r.idleCheck()
		if !r.cancelled && !r.limitReached() {
			r.cancelled = true
			simrt.Fault("Cancel in Fetch")
			r.p.Cancel()
			r.cancelDone = true
		}
	}
	if size < 1 {
		r.fail("C27", "batch", "Fetch was called with size %d", size)
		size = 1
	}
	n := size
	if s.short > 0 && n > s.short {
		n = 1 + int(simrt.Mix(uint64(s.fetches), 99)%uint64(s.short))
	}
	if !s.endless && n > s.n-s.pos {
		n = s.n - s.pos
	}
	if s.endless && n > 8 {
		n = 8
	}
	if s.errAt == s.fetches {
		simrt.Fault("source error")
		s.errGiven = true
		r.errored = true
		s.curErr = s.err
		if !s.errData {
			n = 0
		}
	}
	if n == 0 {
		s.ended = true
		return nil, 0, s.curErr
	}
	d := make([]int, n)
	for i := range d {
		d[i] = s.pos + i
	}
	s.pos += n
	s.given = append(s.given, append([]int(nil), d...))
	return d, n, s.curErr
}

type userSource struct {
	s *psource
	r *pipeRun
}

func (u *userSource) Err() error { u.s.state.get(); return u.s.curErr }
func (u *userSource) Prepare(ctx context.Context) int {
	u.s.state.add(1)
	if u.s.kind == sUserKnown {
		return u.s.n
	}
	return -1
}
func (u *userSource) Fetch(n int) int {
	u.s.cur, u.s.curN, _ = u.s.fetch(u.r, n)
	return u.s.curN
}
func (u *userSource) Data() any {
	u.s.state.get()
	u.s.dataCalls++
	return u.s.cur
}

// chunkReader hands out text in pieces, with short reads.
type chunkReader struct {
	s    *psource
	r    *pipeRun
	text string
	k    int
	st   cell
}

func (c *chunkReader) Read(b []byte) (int, error) {
	c.st.add(1)
	s := c.s
	c.k++
	if len(s.delays) > 0 {
		s.delays[c.k%len(s.delays)].do()
	}
	n := len(c.text)
	if len(s.chunks) > 0 {
		if m := s.chunks[c.k%len(s.chunks)]; m < n {
			n = m
			simrt.Fault("short read")
		}
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, c.text[:n])
	c.text = c.text[n:]
	if s.tooLong && !s.errGiven && len(c.text) < tooLong-60000 {
		simrt.Fault("line too long")
		s.errGiven = true
		c.r.errored = true
	}
	if len(c.text) == 0 && (n == 0 || s.errData) {
		if s.errAt > 0 {
			simrt.Fault("read error")
			s.errGiven = true
			c.r.errored = true
			return n, s.err
		}
		return n, io.EOF
	}
	return n, nil
}

const tooLong = 70000 // bytes, more than the scanners take

// text renders the elements of scanner sources.
func (s *psource) text() string {
	var b strings.Builder
	for i := 0; i < s.n; i++ {
		b.WriteString(s.forms.text(i))
		if s.words {
			b.WriteString([]string{" ", "\n", "  "}[i%3])
		} else if i%5 == 4 {
			b.WriteString("\r\n")
		} else if i < s.n-1 || s.extra == 0 || i == s.forms.blank {
			b.WriteString("\n")
		}
	}
	if s.tooLong {
		if s.n > 0 {
			b.WriteString("\n")
		}
		b.WriteString(strings.Repeat("y", tooLong))
	}
	return b.String()
}

func sendAll[T any](r *pipeRun, ch chan T, val func(i int) T) {
	s := r.src
	simrt.Spawn("sender", func() {
		for i := 0; i < s.n || s.endless; i++ {
			if len(s.delays) > 0 {
				s.delays[i%len(s.delays)].do()
			}
			if s.endless && i == endlessGuard*2 {
				r.idleCheck()
				r.cancelled = true
				r.ctxCancel()
				r.cancelDone = true
			}
			if simrt.SelectN(-1, false, simrt.To(ch).Case(val(i)), simrt.RecvCase(r.quit)) == 1 {
				return
			}
			s.pos = i + 1
		}
		if s.stall {
			simrt.Fault("sender stalls")
			simrt.Quiesce()
			if !r.over {
				r.cancelled = true
				r.ctxCancel()
				r.cancelDone = true
			}
			return
		}
		simrt.Close(-1, ch)
	})
}

func (r *pipeRun) source() any {
	s := r.src
	lines = s.forms
	ints := func(n, extra int) []int {
		x := make([]int, n, n+extra)
		for i := range x {
			x[i] = i
		}
		return x
	}
	switch s.kind {
	case sSlice:
		if s.elem > 0 {
			x := reflect.ValueOf(elemSlice(s.elem-1, s.n+s.extra, s.n+s.extra, func(i int) int { return i }))
			return x.Slice(0, s.n).Interface()
		}
		if s.extra > 0 {
			x := ints(s.n+s.extra, 0)
			return x[:s.n]
		}
		return ints(s.n, 0)
	case sArray:
		if s.elem > 0 {
			t := elemTypes[s.elem-1]
			a := reflect.New(reflect.ArrayOf(s.n, t.slice.Elem())).Elem()
			for i := 0; i < s.n; i++ {
				a.Index(i).Set(reflect.ValueOf(t.enc(i)))
			}
			return a.Interface()
		}
		a := reflect.New(reflect.ArrayOf(s.n, reflect.TypeOf(0))).Elem()
		for i := 0; i < s.n; i++ {
			a.Index(i).SetInt(int64(i))
		}
		return a.Interface()
	case sString:
		b := make([]byte, s.n)
		for i := range b {
			b[i] = byte(33 + i)
		}
		return string(b)
	case sChan:
		switch s.elem {
		case 1:
			return chanOf(r, func(i int) string { return lines.text(i) })
		case 2:
			return chanOf(r, func(i int) float64 { return float64(i) })
		case 3:
			return chanOf(r, func(i int) any { return i })
		case 4:
			return chanOf(r, func(i int) record { return record{strconv.Itoa(i), i} })
		case 6:
			return chanOf(r, func(i int) uint32 { return uint32(i) })
		}
		ch := make(chan int, s.buf)
		sendAll(r, ch, func(i int) int { return i })
		if s.extra > 0 {
			return (<-chan int)(ch)
		}
		return ch
	case sSingle:
		ch := make(chan []int, s.buf)
		pos := 0
		sendAll(r, ch, func(i int) []int {
			g := make([]int, s.groups[i%len(s.groups)])
			for k := range g {
				g[k] = pos + k
			}
			pos += len(g)
			s.given = append(s.given, append([]int(nil), g...))
			return g
		})
		return pipeline.NewSingletonChan(ch)
	case sSingleScalar:
		ch := make(chan int, s.buf)
		sendAll(r, ch, func(i int) int { s.given = append(s.given, []int{i}); return i })
		return pipeline.NewSingletonChan(ch)
	case sScanner:
		x := pipeline.NewScanner(&chunkReader{s: s, r: r, text: s.text()})
		if s.words {
			x.Split(bufio.ScanWords)
		}
		return x
	case sBytes:
		x := pipeline.NewBytesScanner(&chunkReader{s: s, r: r, text: s.text()})
		x.Buffer(make([]byte, 16), 1<<16)
		if s.words {
			x.Split(bufio.ScanWords)
		}
		return x
	case sFunc, sFuncKnown:
		n := -1
		if s.kind == sFuncKnown {
			n = s.n
		}
		return pipeline.NewFunc(n, func(size int) (any, int, error) { return s.fetch(r, size) })
	}
	return &userSource{s, r}
}

func (s *psource) known() bool {
	switch s.kind {
	case sSlice, sArray, sString, sFuncKnown, sUserKnown:
		return true
	}
	return false
}

// logs says whether the harness itself sees what is fetched.
func (s *psource) logs() bool {
	return s.kind == sFunc || s.kind == sFuncKnown || s.kind == sUser || s.kind == sUserKnown
}

// elements of a finite source, in order
func (s *psource) elements() []int {
	n := s.n
	if s.kind == sSingle {
		n = 0
		for i := 0; i < s.n; i++ {
			n += s.groups[i%len(s.groups)]
		}
	}
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	return x
}

// wantBatches is the documented partition of a finite source that always
// delivers what it is asked for; nil if the defaults decide.
func (r *pipeRun) wantSizes() (sizes func(k int) int, ok bool) {
	s := r.src
	if s.kind == sSingle || s.kind == sSingleScalar || s.known() {
		return nil, false // NofBatches does not fix the sizes
	}
	if r.inc < 1 || r.max < 1 {
		return nil, false
	}
	return func(k int) int {
		if k+1 > r.max/r.inc {
			return r.max
		}
		return (k + 1) * r.inc
	}, true
}

func (r *pipeRun) wantBatches() ([][]int, bool) {
	s := r.src
	if s.kind == sSingle || s.kind == sSingleScalar {
		return s.given, true
	}
	f, ok := r.wantSizes()
	if !ok || s.endless {
		return nil, false
	}
	var bs [][]int
	e := s.elements()
	for k := 0; len(e) > 0; k++ {
		n := f(k)
		if n > len(e) {
			n = len(e)
		}
		bs = append(bs, e[:n])
		e = e[n:]
	}
	return bs, true
}

// ---------------------------------------------------------------- checks while it runs

// limitReached says whether a Limit has to cancel the run by now: everything
// fetched has been passed on.
func (r *pipeRun) limitReached() bool {
	for _, f := range r.chain {
		if f.what == fLimit && f.cancel && f.n >= 0 {
			return r.passed(f) >= f.n
		}
	}
	return false
}

// passed counts the elements that have been fetched and would enter f.
func (r *pipeRun) passed(f *pfilter) int {
	r.model(r.src.given)
	t := 0
	for _, x := range f.exp {
		t += len(x)
	}
	return t
}

// idleCheck waits until nothing else can happen; then every cancellation that
// is due must have taken place.
func (r *pipeRun) idleCheck() {
	simrt.Quiesce()
	if r.over {
		return
	}
	if r.src.logs() && !r.cancelled && r.limitReached() {
		r.cancelled = true
		if r.p.Context().Err() == nil {
			r.fail("C26", "no-cancel", "Limit has passed on all it may, but has not cancelled the pipeline")
			r.p.Cancel() // so that the run ends
		}
	}
	for _, f := range r.chain {
		if f.what >= fEvery && f.what <= fNotAny && f.cancel {
			want, decided := f.verdict()
			_ = want
			if decided && r.src.logs() && r.p.Context().Err() == nil {
				r.fail("C24", "no-cancel", "%s is decided, but has not cancelled the pipeline", filterNames[f.what])
				r.p.Cancel() // so that the run ends
			}
		}
	}
}

func (f *pfilter) verdict() (want, decided bool) {
	all, any := true, false
	for _, v := range f.evals {
		if v {
			any = true
		} else {
			all = false
		}
	}
	switch f.what {
	case fEvery:
		return all, !all
	case fNotEvery:
		return !all, !all
	case fSome:
		return any, any
	}
	return !any, any
}

// ---------------------------------------------------------------- model

// model computes what every filter must be given for the given source batches.
func (r *pipeRun) model(src [][]int) {
	cur := src
	for _, f := range r.chain {
		f.exp = map[int][]int{}
		seen := 0
		next := make([][]int, len(cur))
		for seq, in := range cur {
			f.exp[seq] = in
			out := in
			switch f.what {
			case fProbe:
				out = f.apply(seq, in)
			case fLimit:
				if f.n >= 0 {
					k := f.n - seen
					if k > len(in) {
						k = len(in)
					}
					out = in[:k]
					seen += k
				}
			case fSkip:
				if f.n < 0 {
					out = nil
				} else {
					k := f.n - seen
					if k > len(in) {
						k = len(in)
					}
					out = in[k:]
					seen += k
				}
			}
			next[seq] = out
		}
		cur = next
	}
}

func concat(bs [][]int) (x []int) {
	for _, b := range bs {
		x = append(x, b...)
	}
	return
}

func show(x []int) string {
	if len(x) > 20 {
		return fmt.Sprintf("%v... (%d)", x[:20], len(x))
	}
	return fmt.Sprint(x)
}

func (r *pipeRun) run() {
	if r.src.n >= 2000 {
		simrt.Probe("source of thousands of elements")
	}
	p := &pipeline.Pipeline{}
	r.p = p
	r.quit = make(chan struct{})
	if r.stable {
		r.p0data = []any{}
	}
	switch r.withCtx {
	case 1:
		r.ctx, r.ctxCancel = simrt.CtxWithCancel(context.Background())
	case 2:
		r.ctx, r.ctxCancel = simrt.CtxWithTimeout(context.Background(), r.dl)
	case 3:
		parent, pc := simrt.CtxWithCancel(context.Background())
		ctx, own := simrt.CtxWithCancel(simrt.CtxWithValue(parent, "k", 1))
		r.ctx, r.ctxCancel = ctx, func() { pc() }
		defer own()
	}
	if r.twoSrc {
		p.Source([]string{"other"})
	}
	p.Source(r.source())
	if r.nof > 0 {
		if got := p.NofBatches(r.nof); got != r.nof || p.NofBatches(0) != r.nof {
			r.fail("C27", "nof", "NofBatches(%d) returned %d, then %d", r.nof, got, p.NofBatches(0))
		}
	}
	if r.inc != 0 || r.max != 0 {
		p.SetVariableBatchSize(r.inc, r.max)
	}
	var ns []pipeline.Node
	for _, n := range r.nodes {
		x := r.node(n)
		if r.splitAdd {
			p.Add(x)
		} else {
			ns = append(ns, x)
		}
	}
	p.Add(ns...)
	for _, a := range r.acts {
		switch a.at {
		case atBeforeRun:
			r.perform(a, "before Run")
		case atMainAgent:
			simrt.Spawn("agent", func() { a.d.do(); r.perform(a, "by another goroutine") })
		}
	}
	if r.withCtx > 0 {
		p.RunWithContext(r.ctx, r.ctxCancel)
		if r.ctx.Err() != nil && !r.cancelled && !r.errored && !r.skipErr {
			if r.withCtx == 2 {
				r.cancelled = true
			} else if !r.mayLimitCancel() {
				prop := "C22"
				for _, f := range r.chain {
					if f.what >= fEvery && f.what <= fNotAny {
						prop = "C24"
					}
				}
				r.fail(prop, "spurious-cancel", "the pipeline was cancelled although nothing called for it")
				r.fail("C21", "spurious-cancel", "the pipeline was cancelled although nothing called for it")
			}
		}
	} else {
		p.Run()
	}
	r.over = true
	e := r.askErr("the caller after Run")
	full := e == nil && !r.cancelled && !r.mayLimitCancel()
	if e == nil {
		for _, u := range r.users {
			if u.begun && u.mode != uAbsent && !u.ended {
				r.fail("C20", "missing", "End of a user-defined node was not called")
			}
			if !u.begun {
				r.fail("C17", "node", "Begin of a user-defined node was not called")
			}
		}
		for _, n := range r.nodes {
			for _, f := range n.filters {
				if (f.what == fFinalize || f.what == fProbe && f.fin) && f.finRuns != 1 {
					r.fail("C20", "missing", "a finalizer of a %s node was called %d times", n.name(), f.finRuns)
				}
				for _, x := range f.log {
					if !x.done {
						r.fail("C17", "late", "Run returned while a receiver of a %s node was running", n.name())
						r.fail("C20", "late-receiver", "Run returned while a receiver of a %s node was running", n.name())
					} else {
						x.c.get()
					}
				}
			}
			if n.cap == 1 {
				n.state.get()
			}
		}
		if !r.cancelled {
			r.results(full)
		}
	}
	simrt.Close(-1, r.quit)
	if full && r.withCtx > 0 && r.ctx.Err() == nil {
		// nothing may be left over even if the context is never cancelled
		simrt.Quiesce()
		for _, t := range simrt.S.LiveTasks() {
			if t.Lib && r.ctx.Err() == nil {
				r.fail("C21", "leak", "a goroutine started by the pipeline is left over: %s blocked on %s, and nothing cancels the context", t.Name(), t.Blocked())
			}
		}
	}
	if r.ctxCancel != nil {
		r.ctxCancel()
	}
	simrt.Quiesce()
	leakProp := "C21"
	if !full {
		leakProp = "C22"
	}
	for _, t := range simrt.S.LiveTasks() {
		if t.Lib {
			r.fail(leakProp, "leak", "a goroutine started by the pipeline is left over: %s blocked on %s", t.Name(), t.Blocked())
			if !r.cancelled && e == nil {
				r.fail("C21", "leak", "a goroutine started by the pipeline is left over: %s blocked on %s", t.Name(), t.Blocked())
			}
		}
	}
	r.checkErr()
	r.check(full)
	if r.again {
		r.afterwards()
	}
}

// afterwards: an error stays, and a pipeline that has one does not run again.
func (r *pipeRun) afterwards() {
	e := r.p.Err()
	late := errors.New("set after the end")
	if ok := r.p.SetErr(late); ok != (e == nil) {
		r.fail("C23", "two-winners", "SetErr returned %v after the end of a pipeline whose Err is %v", ok, e)
	}
	if e == nil {
		e = late
	}
	if got := r.p.Err(); got != e {
		r.fail("C23", "changed", "Err is %v after SetErr, and not %v", got, e)
	}
	simrt.Probe("pipeline with an error is run again")
	n := r.src.fetches
	r.p.Run()
	simrt.Quiesce()
	if r.src.fetches != n {
		r.fail("C23", "fetched", "a pipeline with an error was run again and fetched")
	}
	if got := r.p.Err(); got != e {
		r.fail("C23", "changed", "Err is %v after running a pipeline with error %v again", got, e)
	}
}

func (r *pipeRun) mayLimitCancel() bool {
	for _, f := range r.chain {
		if f.what == fLimit && f.cancel && f.n >= 0 {
			k := len(r.src.elements())
			for _, g := range r.chain {
				if g.op == oAppend {
					k += r.src.n + 64
				}
			}
			if f.n == 0 || k >= f.n || r.src.endless {
				return true
			}
		}
	}
	return false
}

func (r *pipeRun) checkErr() {
	e := r.askErr("the caller in the end")
	switch {
	case len(r.setTrue) > 0:
		if e != r.setTrue[0] {
			r.fail("C23", "changed", "Err is %v in the end, although SetErr(%q) had returned true", e, r.setTrue[0])
		}
	case r.src.errGiven && !r.skipErr:
		if e != r.src.err {
			r.fail("C23", "lost", "Err is %v in the end, although the source failed with %q", e, r.src.err)
		}
	case r.skipErr:
		if e == nil {
			r.fail("C26", "no-error", "Err is nil although a negative Skip is part of the pipeline")
		}
	case r.setCalls > 0:
		r.fail("C23", "lost", "no SetErr call returned true, Err is %v", e)
	case e != nil:
		r.fail("C23", "unfounded", "Err is %q, although no error occurred", e)
		r.fail("C27", "unfounded", "Err is %q, although the source can be read to its end", e)
	}
}

// results checks what the filters of the package have delivered.
func (r *pipeRun) results(full bool) {
	for _, f := range r.chain {
		if f.what >= fEvery && f.what <= fNotAny {
			if want, _ := f.verdict(); f.result != want {
				r.fail("C24", "verdict", "%s in a %s node: the result is %v, the predicate's values were %v", filterNames[f.what], f.node.name(), f.result, f.evals)
			}
		}
	}
}

func (r *pipeRun) check(full bool) {
	s := r.src
	finite := !s.endless && !s.stall
	// what came out of the source
	var src [][]int
	have := false
	var p0 *pfilter
	for _, f := range r.chain {
		if f.what == fProbe {
			p0 = f
		}
		if f.what == fProbe || f.what == fLimit || f.what == fSkip {
			break
		}
	}
	want, wantOK := r.wantBatches()
	switch {
	case s.logs():
		src, have = s.given, true
	case p0 != nil:
		for _, e := range p0.log {
			for e.seq >= len(src) && e.seq < 1<<16 {
				src = append(src, nil)
			}
			if e.seq < 0 || e.seq >= len(src) {
				r.fail("C17", "unknown", "a receiver got a batch with number %d", e.seq)
				return
			}
			if src[e.seq] == nil {
				src[e.seq] = e.in
			}
		}
		have = true
	case wantOK:
		src, have = want, true
	}
	if full && have && p0 != nil {
		if finite {
			if all, got := s.elements(), concat(src); !same(all, got) {
				r.fail("C27", "elements", "%s source of %d elements delivered %s", sourceNames[s.kind], len(all), show(got))
				r.fail("C17", "lost", "the first receiver of a pipeline over a source of %d elements saw %s", len(all), show(got))
			}
		}
		if wantOK && !s.logs() {
			for k := range want {
				if k < len(src) && !same(want[k], src[k]) {
					r.fail("C27", "batch", "%s source of %d elements, %s: batch %d is %s instead of %s", sourceNames[s.kind], s.n, r.batching(), k, show(src[k]), show(want[k]))
					break
				}
			}
			if len(src) != len(want) {
				r.fail("C27", "batch", "%s source of %d elements, %s: %d batches instead of %d", sourceNames[s.kind], s.n, r.batching(), len(src), len(want))
			}
		} else if s.known() && !s.logs() {
			nof := r.p.NofBatches(0)
			if len(src) > nof {
				r.fail("C27", "batch", "%s source of %d elements: %d batches although NofBatches is %d", sourceNames[s.kind], s.n, len(src), nof)
			}
			for k, b := range src {
				if m := (s.n + nof - 1) / nof; len(b) > m {
					r.fail("C27", "batch", "%s source of %d elements, NofBatches %d: batch %d has %d elements, %d would do", sourceNames[s.kind], s.n, nof, k, len(b), m)
					break
				}
			}
		}
	}
	if s.logs() {
		r.checkAsked()
	}
	if !have {
		return
	}
	r.model(src)
	upstream, collected := false, false
	for _, f := range r.chain {
		if f.what == fLimit || f.what == fSkip {
			upstream = true
		}
		if f.what == fSlice || f.what == fCount {
			collected = true
		}
		if f.what != fProbe {
			continue
		}
		prop := "C17"
		if upstream {
			prop = "C26"
		}
		seen := map[int]bool{}
		for _, e := range f.log {
			if seen[e.seq] {
				r.fail("C17", "twice", "a receiver of a %s node got batch %d twice", f.node.name(), e.seq)
				if !full {
					r.fail("C22", "twice", "a receiver of a %s node got batch %d twice", f.node.name(), e.seq)
				}
			}
			seen[e.seq] = true
			x, ok := f.exp[e.seq]
			if !ok {
				r.fail("C17", "unknown", "a receiver of a %s node got batch %d, but %d were fetched", f.node.name(), e.seq, len(src))
			} else if !same(x, e.in) {
				r.fail(prop, "data", "filter %d (%s node) got %s as batch %d instead of %s", f.idx, f.node.name(), show(e.in), e.seq, show(x))
				if collected && full {
					r.fail("C25", "data", "filter %d (%s node) got %s as batch %d instead of %s", f.idx, f.node.name(), show(e.in), e.seq, show(x))
				}
				if f.node.ordered {
					r.fail("C18", "data", "filter %d (%s node) got %s as batch %d instead of %s", f.idx, f.node.name(), show(e.in), e.seq, show(x))
				}
			}
		}
		if full {
			for seq := range src {
				if !seen[seq] {
					r.fail("C17", "lost", "filter %d (%s node) never got batch %d of %d", f.idx, f.node.name(), seq, len(src))
					if upstream {
						r.fail("C26", "lost", "filter %d (%s node) never got batch %d of %d", f.idx, f.node.name(), seq, len(src))
					}
					if f.node.ordered {
						r.fail("C18", "lost", "filter %d (%s node) never got batch %d of %d", f.idx, f.node.name(), seq, len(src))
					}
					break
				}
			}
		}
	}
	for i, d := range r.p0data {
		if d != nil && !same(read(d), r.p0snap[i]) {
			r.fail("C27", "changed", "the contents of a fetched batch changed from %s to %s", show(r.p0snap[i]), show(read(d)))
		}
	}
	r.checkSizes()
	if !full {
		return
	}
	for _, f := range r.chain {
		switch f.what {
		case fSlice:
			r.checkSlice(f, len(src))
		case fCount:
			n := 0
			for _, x := range f.exp {
				n += len(x)
			}
			if f.count != n && r.prop != "C26" { // there, it may be that nothing is fetched at all
				r.fail("C25", "count", "Count in a %s node is %d for %d elements", f.node.name(), f.count, n)
			}
		case fEvery, fNotEvery, fSome, fNotAny:
			if len(f.evals) != len(src) {
				r.fail("C24", "batches", "the predicate of %s in a %s node was called for %d of %d batches", filterNames[f.what], f.node.name(), len(f.evals), len(src))
			}
		}
	}
}

func (r *pipeRun) batching() string {
	if r.src.known() {
		return fmt.Sprintf("NofBatches %d", r.nof)
	}
	return fmt.Sprintf("SetVariableBatchSize(%d,%d)", r.inc, r.max)
}

func (r *pipeRun) checkAsked() {
	f, ok := r.wantSizes()
	if !ok {
		if r.src.known() {
			nof := r.p.NofBatches(0)
			total := 0
			for k, n := range r.src.asked {
				if n > 1 && (n-1)*nof >= r.src.n {
					r.fail("C27", "batch", "fetch %d asked for %d elements of %d with %d batches", k, n, r.src.n, nof)
				}
				if total += n; k == nof-1 && total < r.src.n {
					r.fail("C27", "batch", "%d fetches asked for %d elements of %d with NofBatches %d", k+1, total, r.src.n, nof)
				}
			}
		}
		return
	}
	for k, n := range r.src.asked {
		if n != f(k) {
			r.fail("C27", "batch", "fetch %d asked for %d elements instead of %d with %s and %d elements", k, n, f(k), r.batching(), r.src.n)
		}
	}
}

func (r *pipeRun) checkSizes() {
	size := -1
	if r.src.known() {
		size = r.src.n
	}
	for _, f := range r.chain {
		switch f.what {
		case fProbe:
			if f.op == oDrop || f.op == oNil || f.op == oEmpty || f.op == oAppend {
				size = -1
			}
		case fLimit:
			if f.n == 0 {
				size = 0
			} else if f.n > 0 && size > f.n {
				size = f.n
			}
		case fSkip:
			if f.n < 0 {
				size = 0
			} else if size >= 0 {
				size -= f.n
				if size < 0 {
					size = 0
				}
			}
		case fSize:
			if f.sizeSet && f.gotSize != size && (f.gotSize >= 0 || size >= 0) {
				r.fail("C26", "size", "a filter was told the size %d instead of %d", f.gotSize, size)
			}
		}
	}
}

func (r *pipeRun) checkSlice(f *pfilter, nb int) {
	got := read(reflect.ValueOf(f.slice).Elem().Interface())
	if len(got) < f.pre {
		r.fail("C25", "slice", "Slice lost elements that its result had before")
		return
	}
	for i := 0; i < f.pre; i++ {
		if got[i] != 7000000+i {
			r.fail("C25", "slice", "Slice changed elements that its result had before")
			return
		}
	}
	got = got[f.pre:]
	var all []int
	byFirst := map[int]int{}
	for seq := 0; seq < nb; seq++ {
		b := f.exp[seq]
		all = append(all, b...)
		if len(b) > 0 {
			byFirst[b[0]] = seq
		}
	}
	if f.node.ordered {
		if !same(all, got) {
			r.fail("C25", "slice", "Slice in an %s node collected %s instead of %s", f.node.name(), show(got), show(all))
		}
		return
	}
	rest := got
	used := map[int]bool{}
	for len(rest) > 0 {
		seq, ok := byFirst[rest[0]]
		if !ok || used[seq] || len(rest) < len(f.exp[seq]) || !same(rest[:len(f.exp[seq])], f.exp[seq]) {
			r.fail("C25", "slice", "Slice in a %s node collected %s, which does not consist of the batches", f.node.name(), show(got))
			return
		}
		used[seq] = true
		rest = rest[len(f.exp[seq]):]
	}
	if len(used) != len(byFirst) {
		r.fail("C25", "slice", "Slice in a %s node collected %s, which lacks batches", f.node.name(), show(got))
	}
}

var errSource = errors.New("source failed")

// ---------------------------------------------------------------- plans

func planPipe(prop string) func(w *W) func() {
	return func(w *W) func() {
		w.maxSteps = 300000
		r := w.drawPipe(prop)
		return func() { r.run() }
	}
}

func (w *W) drawPipe(prop string) *pipeRun {
	r := &pipeRun{prop: prop, w: w, procs: w.procs}
	faults := false // cancellations or errors
	switch prop {
	case "C22", "C23":
		faults = true
	case "C18", "C20":
		faults = w.Chance(2, 5)
	case "C28":
		faults = w.Chance(1, 3)
	}
	errs := prop == "C23" || faults && w.Chance(1, 3)
	meet := prop == "C19" && w.Chance(1, 3)
	// source
	s := &psource{}
	r.src = s
	switch {
	case meet:
		s.kind = w.Of(sUser, sFunc, sUserKnown)
	case prop == "C23":
		s.kind = []int{sUser, sFunc, sUserKnown, sFuncKnown, sSlice, sScanner, sBytes, sChan}[w.Int(8)]
	case prop == "C27":
		s.kind = w.Int(12)
	default:
		s.kind = []int{sUser, sSlice, sFunc, sUserKnown, sSlice, sChan, sScanner, sArray, sString, sBytes, sFuncKnown, sSingle, sSingleScalar}[w.Int(13)]
	}
	s.n = w.LogUpTo(0, w.Of(6, 12, 24, 60))
	s.buf = w.Of(0, 1, 3)
	s.extra = w.Of(0, 2)
	if s.kind == sSingle {
		for i := w.Range(1, 4); i > 0; i-- {
			s.groups = append(s.groups, w.Int(4))
		}
	}
	if s.logs() {
		s.short = w.Of(0, 0, 1, 2, 5)
	}
	s.forms = lineForms{blank: -1, long: -1}
	if (s.kind == sSlice || s.kind == sArray || s.kind == sChan) && w.Chance(1, 4) {
		s.elem = 1 + w.Int(len(elemTypes))
		if s.kind == sChan && s.elem == 5 { // a channel has no named slice type
			s.elem = 0
		}
	}
	if s.kind == sScanner || s.kind == sBytes {
		s.words = w.Chance(1, 4)
		if !s.words {
			s.forms.spaces = w.Chance(1, 2)
			if w.Chance(1, 2) {
				s.forms.blank = w.Int(max(1, s.n))
			}
		}
		if w.Chance(1, 16) {
			s.forms.long, s.forms.length = w.Int(max(1, s.n)), w.LogUpTo(10, 60000)
		}
		if s.forms.length < 1000 && w.Chance(1, 2) {
			for i := w.Range(1, 3); i > 0; i-- {
				s.chunks = append(s.chunks, w.Of(1, 2, 3, 7, 20))
			}
		}
	}
	if w.Chance(1, 3) {
		for i := w.Range(1, 3); i > 0; i-- {
			s.delays = append(s.delays, w.drawDelay())
		}
	}
	big := !meet && w.Chance(1, 50)
	if big {
		s.n = w.LogUpTo(60, 160)
		if w.Chance(1, 8) {
			s.n = w.Range(160, 500)
		}
		w.maxSteps += int64(s.n * s.n * 100) // StrictOrd wakes all that wait
		if s.kind == sString {
			s.n = w.Range(60, 200)
		}
		s.delays, s.chunks = nil, nil
	}
	if meet && w.Chance(1, 60) {
		s.n = w.LogUpTo(60, 1500)
		s.delays = nil
		w.maxSteps += int64(s.n * s.n * 100)
	}
	huge := !meet && !faults && s.kind != sString && s.kind != sSingle && s.kind != sSingleScalar && w.Chance(1, 1000)
	// batches
	if !s.known() || w.Chance(1, 4) {
		r.inc = w.Of(1, 2, 3, 5, 10, 0, 1<<62)
		r.max = w.Of(4, 1, 2, 7, 30, 1000, 0, 1<<62+5)
	}
	if s.known() && w.Chance(3, 4) || w.Chance(1, 4) {
		r.nof = w.Of(3, 1, 2, 4, 5, 7, 12, 100)
	}
	if prop == "C17" || prop == "C18" || prop == "C19" || prop == "C20" || prop == "C21" || prop == "C25" || prop == "C22" {
		// several batches are what matters
		if !s.known() && w.Chance(3, 4) {
			r.inc, r.max = w.Of(1, 1, 2, 3), w.Of(1, 2, 4)
		}
		if s.n < 4 && w.Chance(2, 3) {
			s.n += 4
		}
	}
	if big && !huge && w.Chance(3, 4) {
		r.inc, r.max, r.nof = 1, 1, s.n
	}
	if huge { // batches of thousands of elements
		big = true
		s.n = w.Range(2000, 22000)
		s.delays, s.chunks, s.short = nil, nil, 0
		r.inc = w.Of(0, 0, 5000, 700, 1<<62)
		r.max = w.Of(0, 0, 8192, 5000, 1<<62+5)
		r.nof = w.Of(1, 0, 2, 3, 5)
		w.maxSteps += int64(s.n * 400)
	}
	long := !meet && !faults && !huge && s.kind != sString && w.Chance(1, 3000)
	if long { // thousands of batches
		big = true
		s.n = w.LogUpTo(1000, 3000)
		s.delays, s.chunks, s.short = nil, nil, 0
		r.inc, r.max, r.nof = 1, 1, s.n
		w.maxSteps += int64(s.n * s.n * 25)
	}
	// nodes
	nn := w.Pick(0, 4, 6, 6, 4, 2, 1)
	if prop == "C21" || prop == "C17" {
		nn = w.Pick(0, 2, 5, 6, 5, 4, 3)
	}
	if w.Chance(1, 100) {
		nn = w.Range(7, 16)
	}
	if huge || long {
		nn = w.Range(1, 2)
	}
	typ := s.typ()
	for i := 0; i < nn; i++ {
		r.addNode(typ, &typ, faults)
	}
	r.require(prop, &typ)
	r.ensureProbe()
	k := 0
	for _, n := range r.nodes {
		for _, f := range n.filters {
			f.idx = k
			k++
			r.chain = append(r.chain, f)
		}
	}
	// typ may have changed on the way: fill in results of Slice
	r.finishTypes()
	// faults
	if errs && w.Chance(1, 2) && (s.logs() || s.kind == sScanner || s.kind == sBytes) {
		s.errAt = w.Range(1, 5)
		s.errData = w.Chance(1, 2)
		s.err = errSource
		if !s.logs() && len(s.chunks) == 0 && w.Chance(1, 4) {
			s.tooLong, s.errData, s.err = true, false, bufio.ErrTooLong
		}
	}
	if faults {
		r.withCtx = w.Of(0, 1, 1, 2, 3)
		if r.withCtx == 2 {
			r.dl = time.Duration(w.Of(0, 1, 100, 1000, 50000, 1000000)) * time.Microsecond
		}
		na := w.Pick(1, 5, 3, 2)
		if prop == "C22" && na == 0 {
			na = 1
		}
		if prop == "C23" && s.errAt == 0 && w.Chance(9, 10) {
			na = w.Range(1, 3)
		}
		for i := 0; i < na; i++ {
			r.addAction(errs, i)
		}
		if (prop == "C22" || prop == "C18" || prop == "C20") && w.Chance(2, 5) {
			switch {
			case s.logs() && !s.known():
				s.endless = true
				s.errAt = 0
			case s.kind == sChan || s.kind == sSingle || s.kind == sSingleScalar:
				if r.withCtx == 0 {
					r.withCtx = 1
				}
				if w.Chance(1, 2) {
					s.endless = true
				} else {
					s.stall = true
				}
			}
		}
		if prop == "C23" {
			r.poll = w.Of(1, 2, 3)
		}
	} else if w.Chance(1, 4) {
		r.withCtx = w.Of(1, 3)
	}
	if (prop == "C26" || prop == "C24") && s.logs() && !s.known() && r.cancels() && w.Chance(1, 2) {
		s.endless = true
	}
	if s.endless {
		w.maxSteps += 100 * endlessGuard * endlessGuard
		// keep the batches small
		if r.inc < 1 || r.inc > 10 {
			r.inc = 2
		}
		if r.max < 1 || r.max > 10 {
			r.max = 4
		}
	}
	if meet {
		r.setupMeeting()
	}
	r.splitAdd = w.Chance(1, 4)
	r.twoSrc = w.Chance(1, 12)
	r.again = prop == "C23" && w.Chance(1, 4)
	r.stable = prop == "C27" && !r.has(oInPlace)
	r.describe()
	return r
}

func (r *pipeRun) has(op int) bool {
	for _, n := range r.nodes {
		for _, f := range n.filters {
			if f.what == fProbe && f.op == op {
				return true
			}
		}
	}
	return false
}

func (r *pipeRun) cancels() bool {
	for _, f := range r.chain {
		if f.cancel {
			return true
		}
	}
	return false
}

func (r *pipeRun) newNode(kind int) *pnode {
	w := r.w
	n := &pnode{kind: kind}
	switch kind {
	case nOrd, nStrict:
		n.cap, n.ordered = 1, true
	case nSeq:
		n.cap = 1
	case nLPar:
		n.limit = w.Of(2, 3, 1, 4, 0)
		if w.Chance(1, 10) {
			n.limit = w.LogUpTo(4, 40)
			if w.Chance(1, 10) {
				n.limit = w.LogUpTo(40, 700)
				w.maxSteps += int64(n.limit * 2000)
			}
		}
		n.cap = n.limit
		if n.cap == 0 { // "a reasonable default"
			n.cap = 4 * r.procs
		}
	}
	n.viaNew = w.Chance(1, 6)
	if kind == nUser {
		n.mode = w.Int(3)
	}
	return n
}

func (r *pipeRun) addNode(typ int, out *int, faults bool) {
	w := r.w
	limits := 0
	switch r.prop {
	case "C26":
		limits = 6
	case "C25", "C24", "C28", "C20", "C18":
		limits = 1
	}
	if typ == tScalar {
		limits = 0
	}
	var kind int
	if r.prop == "C21" {
		kind = w.Pick(4, 5, 6, 5, 7, 3, limits, limits)
	} else {
		kind = w.Pick(4, 5, 6, 5, 4, 2, limits, limits)
	}
	n := r.newNode(kind)
	r.nodes = append(r.nodes, n)
	if kind == nLimit || kind == nSkip {
		f := &pfilter{what: fLimit, node: n, n: r.drawCount()}
		if kind == nSkip {
			f.what = fSkip
			if f.n < 0 {
				r.skipErr = true
			}
		} else {
			f.cancel = w.Chance(1, 4)
		}
		n.ordered, n.cap = true, 1
		n.filters = []*pfilter{f}
		return
	}
	nf := w.Pick(1, 6, 4, 2)
	if nf == 0 && w.Chance(1, 2) {
		nf = 1
	}
	if w.Chance(1, 300) {
		nf = w.LogUpTo(4, 30)
	}
	noReceivers := w.Chance(1, 6)
	for i := 0; i < nf; i++ {
		r.addFilter(n, out, noReceivers)
	}
}

func (r *pipeRun) drawCount() int {
	w := r.w
	e := len(r.src.elements())
	switch w.Pick(6, 2, 1, 1, 1, 1) {
	case 1:
		return e
	case 2:
		return 0
	case 3:
		return e + w.Range(1, 3)
	case 4:
		return -1
	case 5:
		if e > 0 {
			return e - 1
		}
		return 1
	}
	return w.Range(1, e+1)
}

func (r *pipeRun) addFilter(n *pnode, typ *int, noReceivers bool) *pfilter {
	w := r.w
	f := &pfilter{node: n}
	n.filters = append(n.filters, f)
	if noReceivers {
		f.what = []int{fIdentity, fNothing, fFinalize, fSize}[w.Int(4)]
		return f
	}
	coll, verd, size := 1, 1, 1
	switch r.prop {
	case "C24":
		verd = 4
	case "C25":
		coll = 5
	case "C26":
		size = 3
		coll = 2
	}
	switch w.Pick(12, 2, verd, coll, size) {
	case 1:
		f.what = []int{fIdentity, fNothing, fFinalize}[w.Int(3)]
	case 2:
		f.what = fEvery + w.Int(4)
		r.drawVerdict(f)
	case 3:
		f.what = fSlice
		if w.Chance(1, 2) {
			f.what = fCount
		}
		if *typ == tScalar || f.what == fSlice && *typ == tString {
			f.what = fProbe
		}
		f.pre = w.Of(0, 0, 1, 3)
	case 4:
		f.what = fSize
	}
	if f.what == fProbe {
		r.drawProbe(f, typ)
	}
	return f
}

func (r *pipeRun) drawVerdict(f *pfilter) {
	w := r.w
	f.thr = w.Of(0, 1, 4, 7, 8)
	f.cancel = r.prop == "C24" && w.Chance(1, 3)
	f.result = w.Chance(1, 2)
	if w.Chance(1, 4) {
		f.delays = append(f.delays, w.drawDelay())
	}
}

func (r *pipeRun) drawProbe(f *pfilter, typ *int) {
	w := r.w
	f.fin = w.Chance(1, 3) || r.prop == "C20" && w.Chance(1, 2)
	f.built = w.Int(2)
	if w.Chance(1, 2) {
		for i := w.Range(1, 4); i > 0; i-- {
			f.delays = append(f.delays, w.drawDelay())
		}
	}
	ops := w.Pick(10, 2, 2, 1, 1, 2, 1)
	if *typ != tInts && (ops == oAppend && *typ != tStrings && *typ != tBytes || ops == oInPlace) {
		ops = oMap
	}
	if *typ == tScalar && ops == oNil {
		ops = oMap
	}
	if w.Chance(1, 5) {
		f.slow = 1 + w.Pick(4, 1, 1)
	}
	f.op = ops
	if ops != oSame && ops != oNil && ops != oAppend {
		*typ = tInts
	}
	if ops == oDrop || ops == oNil || ops == oEmpty || ops == oAppend {
		f.built = 0
	}
}

// require adds what a property is about if it is missing.
func (r *pipeRun) require(prop string, typ *int) {
	w := r.w
	count := func(ok func(f *pfilter) bool) int {
		k := 0
		for _, n := range r.nodes {
			for _, f := range n.filters {
				if ok(f) {
					k++
				}
			}
		}
		return k
	}
	kinds := func(ks ...int) bool {
		for _, n := range r.nodes {
			for _, k := range ks {
				if n.kind == k {
					return true
				}
			}
		}
		return false
	}
	lastUsable := func() *pnode {
		if k := len(r.nodes); k > 0 && r.nodes[k-1].kind < nLimit && w.Chance(1, 2) {
			return r.nodes[k-1]
		}
		n := r.newNode(w.Pick(3, 3, 4, 3, 2))
		r.nodes = append(r.nodes, n)
		return n
	}
	probe := func(n *pnode) {
		f := &pfilter{node: n}
		r.drawProbe(f, typ)
		n.filters = append(n.filters, f)
	}
	switch prop {
	case "C18":
		if !kinds(nOrd, nStrict) {
			n := r.newNode(w.Of(nOrd, nStrict))
			r.nodes = append(r.nodes, n)
			probe(n)
		}
	case "C21":
		if !kinds(nStrict) && w.Chance(1, 3) {
			n := r.newNode(nStrict)
			r.nodes = append(r.nodes, n)
			probe(n)
		}
	case "C24":
		if count(func(f *pfilter) bool { return f.what >= fEvery && f.what <= fNotAny }) == 0 {
			n := lastUsable()
			f := &pfilter{node: n, what: fEvery + w.Int(4)}
			r.drawVerdict(f)
			n.filters = append(n.filters, f)
		}
	case "C25":
		if count(func(f *pfilter) bool { return f.what == fSlice || f.what == fCount }) == 0 {
			n := lastUsable()
			if *typ == tScalar || *typ == tString {
				f := &pfilter{node: n}
				r.drawProbe(f, typ)
				if f.op == oSame || f.op == oNil {
					f.op, f.built = oMap, 0
				}
				*typ = tInts
				n.filters = append(n.filters, f)
			}
			n.filters = append(n.filters, &pfilter{node: n, what: fSlice + w.Int(2), pre: w.Of(0, 2)})
		}
	case "C26":
		if *typ != tScalar && count(func(f *pfilter) bool { return f.what == fLimit || f.what == fSkip }) == 0 {
			n := r.newNode(nLimit + w.Int(2))
			f := &pfilter{what: fLimit, node: n, n: r.drawCount()}
			if n.kind == nSkip {
				f.what = fSkip
				if f.n < 0 {
					r.skipErr = true
				}
			} else {
				f.cancel = w.Chance(1, 4)
			}
			n.ordered, n.cap = true, 1
			n.filters = []*pfilter{f}
			r.nodes = append(r.nodes, n)
		}
		if r.nodes[len(r.nodes)-1].kind >= nLimit {
			n := r.newNode(w.Pick(3, 3, 4, 3, 2))
			r.nodes = append(r.nodes, n)
			probe(n)
		}
	}
}

// ensureProbe puts a plain probe in front, so that the batches are known, and
// makes sure that there is one that is told about the start of the run.
func (r *pipeRun) ensureProbe() {
	w := r.w
	for _, n := range r.nodes {
		for _, f := range n.filters {
			if f.what == fProbe && f.built == 0 {
				return
			}
			if f.what == fLimit || f.what == fSkip {
				goto add
			}
		}
	}
add:
	if w.Chance(1, 8) && len(r.nodes) > 0 && r.nodes[0].kind >= nLimit && r.prop == "C26" {
		return
	}
	var n *pnode
	if len(r.nodes) > 0 && r.nodes[0].kind < nLimit {
		n = r.nodes[0]
	} else {
		n = r.newNode(w.Pick(2, 3, 3, 3, 2))
		r.nodes = append([]*pnode{n}, r.nodes...)
	}
	f := &pfilter{node: n, fin: w.Chance(1, 3)}
	n.filters = append([]*pfilter{f}, n.filters...)
}

func (r *pipeRun) finishTypes() {
	typ := r.src.typ()
	for _, f := range r.chain {
		switch f.what {
		case fProbe:
			if typ != tInts && (f.op == oAppend && typ != tStrings && typ != tBytes || f.op == oInPlace) || typ == tScalar && f.op == oNil {
				f.op = oMap
				f.built = 0
			}
			f.typ = typ
			if f.op != oSame && f.op != oNil && f.op != oAppend {
				typ = tInts
			}
			f.hasRecv = true
		case fSlice, fCount:
			if typ == tScalar || f.what == fSlice && typ == tString {
				f.what = fSize
				continue
			}
			if f.what == fCount {
				f.count = f.pre * 11 // whatever was there must not matter
				continue
			}
			switch typ {
			case tInts:
				x := make([]int, 0, f.pre*2)
				for i := 0; i < f.pre; i++ {
					x = append(x, 7000000+i)
				}
				f.slice = &x
			case tStrings:
				x := []string{}
				for i := 0; i < f.pre; i++ {
					x = append(x, strconv.Itoa(7000000+i))
				}
				f.slice = &x
			case tBytes:
				x := [][]byte{}
				for i := 0; i < f.pre; i++ {
					x = append(x, []byte(strconv.Itoa(7000000+i)))
				}
				f.slice = &x
			default:
				if typ > tElem {
					x := reflect.New(elemTypes[typ-tElem].slice)
					x.Elem().Set(reflect.ValueOf(elemSlice(typ-tElem, f.pre, f.pre*2, func(i int) int { return 7000000 + i })))
					f.slice = x.Interface()
				}
			}
		}
	}
}

func (r *pipeRun) addAction(errs bool, i int) {
	w := r.w
	a := &paction{err: fmt.Errorf("user error %d", i)}
	a.how = w.Pick(3, 0, 2)
	if errs {
		a.how = w.Pick(1, 5, 1)
	}
	if r.withCtx == 0 && a.how == aCtx {
		a.how = aCancel
	}
	ats := []int{atReceiver, atReceiver, atAgent, atAgent}
	if r.src.logs() {
		ats = append(ats, atFetch)
	}
	ats = append(ats, atFinalizer, atBegin)
	if a.how == aCtx {
		ats = append(ats, atBeforeRun, atMainAgent, atMainAgent)
	}
	a.at = ats[w.Int(len(ats))]
	a.k = w.LogUpTo(1, 30)
	a.d = w.drawDelay()
	if w.Chance(1, 2) {
		a.d.yields = w.LogUpTo(0, 400)
	}
	a.twice = w.Chance(1, 5)
	a.settle = w.Chance(1, 3)
	r.acts = append(r.acts, a)
}

// setupMeeting lets the batches of one node wait for one another.
func (r *pipeRun) setupMeeting() {
	w := r.w
	s := r.src
	s.short, s.endless, s.stall, s.errAt = 1, false, false, 0
	if s.n < 2 {
		s.n = 2 + w.Int(6)
	}
	for _, n := range r.nodes {
		if (n.kind == nPar || n.kind == nLPar && n.limit > 1) && len(n.filters) > 0 && n.filters[0].what == fProbe {
			m := s.n
			if m > 60 && n.kind == nLPar && w.Chance(1, 2) {
				n.limit = w.LogUpTo(20, m)
				n.cap = n.limit
			}
			if n.kind == nLPar && m > n.cap {
				m = n.cap
			}
			n.meetN = m
			n.meet = &barrier{n: m}
			return
		}
	}
}

func (r *pipeRun) describe() {
	w := r.w
	s := r.src
	w.Descf("source %s n=%d groups=%v short=%d errAt=%d errData=%v endless=%v stall=%v buf=%d delays=%v chunks=%v words=%v lines=%v elements=%d too long=%v", sourceNames[s.kind], s.n, s.groups, s.short, s.errAt, s.errData, s.endless, s.stall, s.buf, s.delays, s.chunks, s.words, s.forms, s.elem, s.tooLong)
	w.Descf("NofBatches=%d SetVariableBatchSize=(%d,%d) run=%d (0 Run, 1 RunWithContext, 2 deadline %v, 3 parent) GOMAXPROCS=%d", r.nof, r.inc, r.max, r.withCtx, r.dl, r.procs)
	for i, n := range r.nodes {
		var fs []string
		for _, f := range n.filters {
			x := fmt.Sprintf("%d:%s", f.idx, filterNames[f.what])
			switch f.what {
			case fProbe:
				x += "[" + probeOps[f.op]
				if f.fin {
					x += " +finalizer"
				}
				x += "]"
			case fLimit, fSkip:
				x += fmt.Sprintf("(%d,%v)", f.n, f.cancel)
			case fEvery, fNotEvery, fSome, fNotAny:
				x += fmt.Sprintf("(thr %d/8, cancel %v)", f.thr, f.cancel)
			}
			if len(f.delays) > 0 {
				x += fmt.Sprint(f.delays)
			}
			if f.slow > 0 {
				x += fmt.Sprintf("(batch %d straggles)", f.slow-1)
			}
			fs = append(fs, x)
		}
		m := ""
		if n.meet != nil {
			m = fmt.Sprintf(" (first %d batches wait for one another)", n.meetN)
		}
		l := ""
		if n.kind == nLPar {
			l = fmt.Sprintf("(limit %d)", n.limit)
		}
		if n.kind == nUser {
			l = []string{"(inline)", "(own goroutine)", "(goroutine per batch)"}[n.mode]
		}
		w.Descf("node %d: %s%s %s%s", i, n.name(), l, strings.Join(fs, ", "), m)
	}
	for _, a := range r.acts {
		w.Descf("action: %s at %s k=%d delay=%v twice=%v settle=%v", []string{"Cancel", "SetErr", "context"}[a.how],
			[]string{"receiver call", "agent", "fetch", "begin", "before Run", "finalizer", "outside agent", "predicate"}[a.at], a.k, a.d, a.twice, a.settle)
	}
}

func init() {
	for _, x := range []struct {
		id string
		q  int
	}{{"C17", 900000}, {"C18", 900000}, {"C19", 900000}, {"C20", 900000}, {"C21", 900000}, {"C22", 1000000}, {"C23", 1000000},
		{"C24", 800000}, {"C25", 800000}, {"C26", 900000}, {"C27", 900000}} {
		loads := []workload{{"pipe", 12, planPipe(x.id)}}
		if x.id == "C17" || x.id == "C21" {
			loads = append(loads, workload{"combined", 1, planCombo(x.id)})
		}
		register(&property{id: x.id, quick: x.q, thorough: x.q * 40, loads: loads})
	}
}
