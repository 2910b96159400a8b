package main

import (
	"time"

	"verif.local/rt"
)

// minimizer shrinks a failing spec: first calls and objects, then the schedule.
type minimizer struct {
	p     *prop
	class string
	until time.Time
	tries int
	last  *Viol
	test  func(*Spec) *Viol
}

func (m *minimizer) fails(sp *Spec) bool {
	if time.Now().After(m.until) {
		return false
	}
	m.tries++
	v := m.test(sp)
	if v != nil && v.Class == m.class {
		m.last = v
		return true
	}
	return false
}

// ref is the position of one call.
type ref struct{ p, c, i, s int }

func refs(sp *Spec) []ref {
	var r []ref
	add := func(p, c int, l []Op) {
		for i := range l {
			r = append(r, ref{p, c, i, -1})
		}
	}
	for p := range sp.Phases {
		add(p, 0, sp.Phases[p].Seq)
		for c := range sp.Phases[p].Cl {
			add(p, c+1, sp.Phases[p].Cl[c])
		}
	}
	return r
}

func subRefs(sp *Spec) []ref {
	var r []ref
	add := func(p, c int, l []Op) {
		for i := range l {
			for s := range l[i].Sub {
				r = append(r, ref{p, c, i, s})
			}
		}
	}
	for p := range sp.Phases {
		add(p, 0, sp.Phases[p].Seq)
		for c := range sp.Phases[p].Cl {
			add(p, c+1, sp.Phases[p].Cl[c])
		}
	}
	return r
}

// without returns sp without the calls in drop.
func without(sp *Spec, drop map[ref]bool) *Spec {
	t := cloneSpec(sp)
	cut := func(p, c int, l []Op) []Op {
		var k []Op
		for i := range l {
			if drop[ref{p, c, i, -1}] {
				continue
			}
			var sub []Op
			for s := range l[i].Sub {
				if !drop[ref{p, c, i, s}] {
					sub = append(sub, l[i].Sub[s])
				}
			}
			l[i].Sub = sub
			k = append(k, l[i])
		}
		return k
	}
	for p := range t.Phases {
		t.Phases[p].Seq = cut(p, 0, t.Phases[p].Seq)
		for c := range t.Phases[p].Cl {
			t.Phases[p].Cl[c] = cut(p, c+1, t.Phases[p].Cl[c])
		}
	}
	return t
}

func tidy(sp *Spec) *Spec {
	t := cloneSpec(sp)
	var ps []Phase
	used := map[int]bool{}
	see := func(l []Op) {
		for i := range l {
			used[l[i].O] = true
		}
	}
	for _, ph := range t.Phases {
		var cl [][]Op
		for _, c := range ph.Cl {
			if len(c) > 0 {
				cl = append(cl, c)
				see(c)
			}
		}
		ph.Cl = cl
		see(ph.Seq)
		if len(ph.Seq) > 0 || len(ph.Cl) > 0 {
			ps = append(ps, ph)
		}
	}
	t.Phases = ps
	for i := range t.Objs {
		if !used[i] {
			t.Objs[i] = ObjCfg{Kind: "none"}
		}
	}
	return t
}

// variants are schedules to try a smaller workload with.
func variants(sp *Spec, k int) []*Spec {
	l := []*Spec{sp}
	conc := false
	for _, ph := range sp.Phases {
		conc = conc || len(ph.Cl) > 1
	}
	if !conc {
		return l
	}
	for i := 0; i < k; i++ {
		t := cloneSpec(sp)
		g := &gen{RNG: rt.NewRNG(rt.Mix(sp.Cfg.Policy.Seed, uint64(i)))}
		c := g.sim(countOps(sp))
		c.StepCap, c.OpCap, c.FairAfter = sp.Cfg.StepCap, sp.Cfg.OpCap, sp.Cfg.FairAfter
		c.RandSeed, c.RandMode, c.MapSeed = sp.Cfg.RandSeed, sp.Cfg.RandMode, sp.Cfg.MapSeed
		c.ClockBase, c.ClockMode = sp.Cfg.ClockBase, sp.Cfg.ClockMode
		t.Cfg = c
		l = append(l, t)
	}
	return l
}

// ddmin removes as many of n elements as it can.
func ddmin(n int, try func(keep []int) bool) []int {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	for sz := (n + 1) / 2; sz >= 1; {
		any := false
		for at := len(keep); at > 0; {
			lo := at - sz
			if lo < 0 {
				lo = 0
			}
			c := append(append([]int(nil), keep[:lo]...), keep[at:]...)
			if len(c) < len(keep) && try(c) {
				keep = c
				any = true
			}
			at = lo
			if at > len(keep) {
				at = len(keep)
			}
		}
		if !any || sz > 1 {
			if sz == 1 {
				break
			}
			sz /= 2
		}
	}
	return keep
}

func (m *minimizer) shrinkOps(sp *Spec, get func(*Spec) []ref, k int) *Spec {
	best := sp
	all := get(sp)
	ddmin(len(all), func(keep []int) bool {
		drop := map[ref]bool{}
		for _, r := range all {
			drop[r] = true
		}
		for _, i := range keep {
			delete(drop, all[i])
		}
		t := without(sp, drop)
		t.Cfg = best.Cfg
		for _, v := range variants(t, k) {
			if m.fails(v) {
				best = v
				return true
			}
		}
		return false
	})
	return best
}

func (m *minimizer) run(sp *Spec) *Spec {
	best := cloneSpec(sp)
	k := 6
	if m.p.race {
		k = 3
	}
	for round := 0; round < 3; round++ {
		n := len(refs(best)) + len(subRefs(best))
		best = m.shrinkOps(best, refs, k)
		best = m.shrinkOps(best, subRefs, k)
		if t := tidy(best); m.fails(t) {
			best = t
		}
		if len(refs(best))+len(subRefs(best)) == n {
			break
		}
	}
	// calmer surroundings
	for _, f := range []func(*Spec){
		func(s *Spec) { s.Cfg.RandMode, s.Cfg.ClockMode = 0, 0 },
		func(s *Spec) { s.Cfg.Policy.StallP = 0 },
		func(s *Spec) { s.Cfg.ClockBase = 0 },
	} {
		t := cloneSpec(best)
		f(t)
		if m.fails(t) {
			best = t
		}
	}
	return best
}

// schedule turns the schedule into an explicit trace and drops what is not needed.
func (m *minimizer) schedule(sp *Spec) *Spec {
	_, o := execute(cloneSpec(sp), true)
	if o.TraceCut {
		return sp
	}
	ex := cloneSpec(sp)
	ex.Cfg.Policy = rt.Policy{Kind: "explicit", Seed: sp.Cfg.Policy.Seed, Trace: o.Trace}
	if !m.fails(ex) {
		return sp
	}
	full := ex.Cfg.Policy.Trace
	best := ex
	if len(full) > 4000 {
		return ex
	}
	ddmin(len(full), func(keep []int) bool {
		t := cloneSpec(ex)
		t.Cfg.Policy.Trace = nil
		for _, i := range keep {
			t.Cfg.Policy.Trace = append(t.Cfg.Policy.Trace, full[i])
		}
		if m.fails(t) {
			best = t
			return true
		}
		return false
	})
	return best
}
