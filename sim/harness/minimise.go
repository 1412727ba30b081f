//go:build go1.23

package main

import (
	"encoding/json"
	"os"
	"runtime/debug"
	"time"

	"github.com/exascience/pargo/zzsim/simrt"
)

// minimise shrinks the run in the given replay file, rewriting the file with
// every improvement.
func minimise(path string) {
	debug.SetGCPercent(200)
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var doc replayDoc
	if err := json.Unmarshal(b, &doc); err != nil {
		die("%v", err)
	}
	p := properties[doc.Property]
	m := &minimiser{p: p, class: doc.Class, path: path, orig: doc.Original, end: time.Now().Add(35 * time.Second)}
	r := runOne(doc.Spec)
	if !m.same(r) {
		return
	}
	m.cur = runSpec{Prop: p.id, Seed: doc.Spec.Seed, FixPlan: true, Draws: r.Draws, FixSched: true, Devs: r.Devs}
	if r2 := runOne(m.cur); !m.same(r2) {
		return
	}
	m.save()
	m.shrinkPlan()
	m.shrinkSched()
	m.save()
}

type minimiser struct {
	p      *property
	class  string
	path   string
	orig   runSpec
	cur    runSpec
	leaked int
	end    time.Time
	tries  int
}

func (m *minimiser) over() bool {
	return time.Now().After(m.end) || m.leaked > 200000
}

func (m *minimiser) same(r *Result) bool {
	m.leaked += r.Leaked
	f := relevant(m.p, r.Fails)
	return f != nil && f.Class == m.class
}

func (m *minimiser) save() {
	r := runOne(m.cur)
	if d := docOf(m.p, m.cur, r); d != nil && d.Class == m.class {
		d.Original = m.orig
		writeJSON(m.path, d)
	}
}

// tryPlan looks for a schedule that breaks the property with the given plan.
func (m *minimiser) tryPlan(draws []int) bool {
	m.tries++
	for k := 0; k < 40 && !m.over(); k++ {
		spec := runSpec{Prop: m.p.id, Seed: m.cur.Seed, FixPlan: true, Draws: draws}
		switch k {
		case 0:
			spec.FixSched, spec.Devs = true, m.cur.Devs
		case 1:
			spec.FixSched = true
		default:
			spec.SchedSeed = simrt.Mix(uint64(m.tries), uint64(k)) | 1
		}
		r := runOne(spec)
		if m.same(r) && !less(m.cur.Draws, r.Draws) {
			d := r.Draws
			for len(d) > 0 && d[len(d)-1] == 0 {
				d = d[:len(d)-1]
			}
			m.cur = runSpec{Prop: m.p.id, Seed: m.cur.Seed, FixPlan: true, Draws: d, FixSched: true, Devs: r.Devs}
			return true
		}
	}
	return false
}

func weight(x []int) (n, s int) {
	for _, v := range x {
		if v != 0 {
			n++
		}
		s += v
	}
	return
}

func less(a, b []int) bool {
	an, as := weight(a)
	bn, bs := weight(b)
	if an != bn {
		return an < bn
	}
	return as <= bs
}

func (m *minimiser) shrinkPlan() {
	planEnd := time.Now().Add(22 * time.Second)
	saved := time.Now()
	over := func() bool { return m.over() || time.Now().After(planEnd) }
	for pass := 0; pass < 6 && !over(); pass++ {
		improved := false
		// truncate, then zero chunks, then lower single values
		for size := len(m.cur.Draws); size >= 1 && !over(); size /= 2 {
			for at := len(m.cur.Draws) - size; at >= 0 && !over(); at -= size {
				if at+size > len(m.cur.Draws) {
					continue
				}
				n, _ := weight(m.cur.Draws[at : at+size])
				if n == 0 {
					continue
				}
				d := append([]int(nil), m.cur.Draws...)
				for i := at; i < at+size; i++ {
					d[i] = 0
				}
				ok := m.tryPlan(d)
				if !ok && size <= 4 && !over() {
					// removing shifts the later choices
					d = append(append([]int(nil), m.cur.Draws[:at]...), m.cur.Draws[at+size:]...)
					ok = m.tryPlan(d)
				}
				improved = improved || ok
			}
		}
		for i := 0; i < len(m.cur.Draws) && !over(); i++ {
			v := m.cur.Draws[i]
			if v <= 1 {
				continue
			}
			for _, nv := range []int{1, v / 2, v - 1} {
				if nv >= v || nv < 1 {
					continue
				}
				d := append([]int(nil), m.cur.Draws...)
				d[i] = nv
				if m.tryPlan(d) {
					improved = true
					break
				}
				if over() || i >= len(m.cur.Draws) {
					break
				}
			}
		}
		if time.Since(saved) > 3*time.Second {
			m.save()
			saved = time.Now()
		}
		if !improved {
			break
		}
	}
	m.save()
}

func (m *minimiser) shrinkSched() {
	try := func(devs []simrt.Deviation) bool {
		spec := m.cur
		spec.Devs = devs
		r := runOne(spec)
		if m.same(r) && len(r.Devs) < len(m.cur.Devs) {
			m.cur.Devs = r.Devs
			return true
		}
		return false
	}
	try(nil)
	for pass := 0; pass < 4 && !m.over(); pass++ {
		n := len(m.cur.Devs)
		for size := n; size >= 1; size /= 2 {
			for at := len(m.cur.Devs) - size; at >= 0; at -= size {
				if m.over() {
					return
				}
				if at+size > len(m.cur.Devs) {
					continue
				}
				try(append(append([]simrt.Deviation(nil), m.cur.Devs[:at]...), m.cur.Devs[at+size:]...))
			}
		}
		if len(m.cur.Devs) == n {
			break
		}
	}
}
