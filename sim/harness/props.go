package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif.local/rt"
)

// prop is one checked property.
type prop struct {
	id       string
	race     bool
	quick    int // runs
	thorough int
	gen      func(g *gen, sp *Spec)
	check    func(h *Hist, o *rt.Outcome, sp *Spec) *Viol
	rule     string
	seqOK    bool // runs count as non-trivial without contention
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// linAll is the standard check: everything completes and every object's
// history has a serial explanation.
func linAll(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	for i := range h.Objs {
		if v := objCheck(h, sp, i); v != nil {
			return v
		}
	}
	return checkNew(h)
}

func objCheck(h *Hist, sp *Spec, i int) *Viol {
	switch h.Objs[i].cfg.Kind {
	case "none":
		return nil
	case "avl", "rb", "skip":
		return contCheck(h, sp, i)
	case "res":
		return resCheck(h, sp, i)
	}
	if v := linObj(h, i); v != nil {
		return v
	}
	return sections(h, i)
}

// checkNew checks objects that a client constructed and used by itself.
func checkNew(h *Hist) *Viol {
	for c := range h.Clients {
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Op.K != "new" {
				continue
			}
			if e.Res.Err != "" {
				return &Viol{Class: "construct", Msg: fmt.Sprintf("constructing %s with a valid configuration failed: %s", objStr(e.Op.C), e.Res.Err)}
			}
			h2 := &Hist{Objs: []*Obj{{cfg: e.Op.C}}, Clients: [][]Ev{nil}}
			ph := Phase{}
			for j := range e.Op.Sub {
				h2.Clients[0] = append(h2.Clients[0], Ev{Op: &e.Op.Sub[j], Res: e.Res.Sub[j], Call: uint64(2*j + 1), Ret: uint64(2*j + 2), Done: true})
				ph.Seq = append(ph.Seq, e.Op.Sub[j])
			}
			if v := objCheck(h2, &Spec{Phases: []Phase{ph}}, 0); v != nil {
				return v
			}
		}
	}
	return nil
}

// kindsGen makes a workload on one object of one of the kinds.
func kindsGen(kinds ...string) func(g *gen, sp *Spec) {
	return func(g *gen, sp *Spec) {
		sp.Objs = []ObjCfg{g.obj(kinds[g.Intn(len(kinds))])}
		k := g.client(&sp.Objs[0], 0)
		if hugeKinds[sp.Objs[0].Kind] && g.Chance(1.0/hugeRate) {
			g.huge(k, sp)
			return
		}
		g.workload(k, sp)
	}
}

// hugeRate is the number of runs per stream of tens of thousands of values.
const hugeRate = 10000

var hugeKinds = map[string]bool{"mean": true, "moment": true, "std": true, "skew": true, "kurt": true, "ewma": true, "ewmm": true, "ewmstd": true,
	"ewmcov": true, "ewmcorr": true, "cov": true, "corr": true, "autocov": true, "autocorr": true, "max": true, "min": true,
	"quantile": true, "median": true, "iqr": true, "hmedian": true}

// ---- containers ----

func contCheck(h *Hist, sp *Spec, o int) *Viol {
	var s []float64
	at := make([]int, len(h.Clients))
	var bad *Viol
	step := func(c int) {
		e := &h.Clients[c][at[c]]
		at[c]++
		if e.Op.O != o || bad != nil {
			return
		}
		fail := func(want string) {
			show := s
			if len(show) > 24 {
				show = show[:24]
			}
			bad = &Viol{Class: "container", Msg: fmt.Sprintf("client %d: %s on %s returned %s, want %s (size %d, smallest values %v)",
				e.Client, opStr(e.Op), objStr(h.Objs[o].cfg), resStr(&e.Res), want, len(s), show)}
		}
		switch e.Op.K {
		case "add":
			x := float64(e.Op.X[0])
			i := sort.SearchFloat64s(s, x)
			s = append(s, 0)
			copy(s[i+1:], s[i:])
			s[i] = x
		case "remove":
			x := float64(e.Op.X[0])
			i := sort.SearchFloat64s(s, x)
			if i < len(s) && s[i] == x {
				s = append(s[:i], s[i+1:]...)
			}
		case "clear":
			s = nil
		case "size":
			if e.Res.N != len(s) {
				fail(fmt.Sprint(len(s)))
			}
		case "rank":
			if w := sort.SearchFloat64s(s, float64(e.Op.X[0])); e.Res.N != w {
				fail(fmt.Sprint(w))
			}
		case "select":
			k := e.Op.I[0]
			if k < 0 || k >= len(s) {
				if !e.Res.Nil {
					fail("nothing")
				}
			} else if e.Res.Nil || e.Res.V != s[k] {
				fail(fmt.Sprint(s[k]))
			}
		}
	}
	for p := range sp.Phases {
		for range sp.Phases[p].Seq {
			step(0)
		}
		for c := range sp.Phases[p].Cl {
			for range sp.Phases[p].Cl[c] {
				step(c + 1)
			}
		}
	}
	return bad
}

// contOps makes exclusive operations on a container; size is tracked so that
// selections hit.
type contGen struct {
	g    *gen
	k    *client
	vals []F
}

func (c *contGen) write() Op {
	g := c.g
	o := c.k.o
	f := g.F()
	switch {
	case f < 0.6 || len(c.vals) == 0 && f < 0.9:
		x := c.k.st[0].next()
		c.vals = append(c.vals, x)
		return Op{K: "add", O: o, X: []F{x}}
	case f < 0.9:
		i := g.Intn(len(c.vals))
		x := c.vals[i]
		c.vals[i] = c.vals[len(c.vals)-1]
		c.vals = c.vals[:len(c.vals)-1]
		return Op{K: "remove", O: o, X: []F{x}}
	case f < 0.985:
		return Op{K: "remove", O: o, X: []F{c.k.st[0].next() + F(g.pickI(0, 0, 1))/2}}
	}
	if g.Chance(0.3) {
		c.vals = nil
		return Op{K: "clear", O: o}
	}
	x := c.k.st[0].next()
	c.vals = append(c.vals, x)
	return Op{K: "add", O: o, X: []F{x}}
}

func (c *contGen) read() Op {
	g := c.g
	o := c.k.o
	switch g.Intn(6) {
	case 0:
		return Op{K: "size", O: o}
	case 1, 2:
		if len(c.vals) > 0 && g.Chance(0.6) {
			return Op{K: "rank", O: o, X: []F{c.vals[g.Intn(len(c.vals))]}}
		}
		return Op{K: "rank", O: o, X: []F{c.k.st[0].next()}}
	}
	n := len(c.vals)
	return Op{K: "select", O: o, I: []int{g.rng(-1, n+1)}}
}

func containerGen(g *gen, sp *Spec) {
	sp.Objs = []ObjCfg{g.obj(contKinds[g.Intn(3)])}
	c := &contGen{g: g, k: g.client(&sp.Objs[0], 0)}
	nph := g.rng(1, 5)
	if g.Chance(1.0/40000) && sp.Objs[0].Level == 0 && sp.Objs[0].Prob == 0 && !sp.Objs[0].HasRand {
		sp.Scen = "huge"
		var ph Phase
		for n := g.pickI(33000, 66000); n > 0; n-- {
			x := c.k.st[0].next()
			c.vals = append(c.vals, x)
			ph.Seq = append(ph.Seq, Op{K: "add", X: []F{x}})
			if g.Chance(0.0005) {
				ph.Seq = append(ph.Seq, c.read())
			}
		}
		for i := 0; i < 300; i++ {
			ph.Seq = append(ph.Seq, c.write(), c.read())
		}
		sp.Phases = append(sp.Phases, ph)
		nph = 0
	}
	size := g.pickI(4, 10, 10, 30, 30, 80, 200)
	if g.big && g.Chance(0.1) {
		size = 2000
	}
	for p := 0; p < nph; p++ {
		var ph Phase
		n := g.rng(1, size)
		for i := 0; i < n; i++ {
			ph.Seq = append(ph.Seq, c.write())
			if g.Chance(0.4) {
				ph.Seq = append(ph.Seq, c.read())
			}
		}
		if g.Chance(0.7) {
			for r := g.rng(2, 4); r > 0; r-- {
				var l []Op
				for i := g.rng(1, 6); i > 0; i-- {
					if g.Chance(0.08) {
						l = append(l, Op{K: "string", O: 0})
					}
					l = append(l, c.read())
				}
				ph.Cl = append(ph.Cl, l)
			}
		}
		sp.Phases = append(sp.Phases, ph)
	}
	// finally look at everything
	var fin []Op
	for i := -1; i <= len(c.vals)+1 && i < 60; i++ {
		fin = append(fin, Op{K: "select", I: []int{i}})
	}
	for i := 0; i < len(c.vals) && i < 30; i++ {
		fin = append(fin, Op{K: "rank", X: []F{c.vals[i]}})
	}
	fin = append(fin, Op{K: "size"})
	sp.Phases = append(sp.Phases, Phase{Seq: fin})
}

// ---- reservoirs ----

func resCheck(h *Hist, sp *Spec, o int) *Viol {
	size := h.Objs[o].cfg.Size
	type push struct{ call, ret uint64 }
	pushes := map[int]push{}
	var all []*Ev
	for c := range h.Clients {
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Op.O != o {
				continue
			}
			switch e.Op.K {
			case "push":
				pushes[e.Op.I[0]] = push{e.Call, e.Ret}
			case "sample":
				all = append(all, e)
			}
		}
	}
	var calls, rets []uint64
	for _, p := range pushes {
		calls = append(calls, p.call)
		rets = append(rets, p.ret)
	}
	sort.Slice(calls, func(i, j int) bool { return calls[i] < calls[j] })
	sort.Slice(rets, func(i, j int) bool { return rets[i] < rets[j] })
	before := func(s []uint64, t uint64) int { return sort.Search(len(s), func(i int) bool { return s[i] >= t }) }
	for _, e := range all {
		fail := func(f string, a ...interface{}) *Viol {
			return &Viol{Class: "sample", Msg: fmt.Sprintf("client %d: sample of a reservoir of size %d returned %v: ", e.Client, size, e.Res.L) + fmt.Sprintf(f, a...)}
		}
		lo := minInt(size, before(rets, e.Call)) // pushes certainly done
		hi := minInt(size, before(calls, e.Ret)) // pushes possibly done
		if n := len(e.Res.L); n < lo || n > hi {
			return fail("it holds %d items, want between %d and %d", n, lo, hi)
		}
		seen := map[int]bool{}
		for _, x := range e.Res.L {
			if seen[x] {
				return fail("push %d appears twice", x)
			}
			seen[x] = true
			p, ok := pushes[x]
			if !ok {
				return fail("item %d was never pushed", x)
			}
			if p.call > e.Ret {
				return fail("item %d had not been pushed yet", x)
			}
		}
		if before(calls, e.Ret) <= size {
			for x, p := range pushes {
				if p.ret < e.Call && !seen[x] {
					return fail("only %d pushes were made but push %d is missing", before(calls, e.Ret), x)
				}
			}
		}
		// what had been evicted never comes back
		for _, f := range all {
			if f.Ret >= e.Call {
				continue
			}
			was := map[int]bool{}
			for _, x := range f.Res.L {
				was[x] = true
			}
			for _, x := range e.Res.L {
				if !was[x] && pushes[x].ret < f.Call {
					return fail("item %d was absent from an earlier sample %v although it had been pushed before", x, f.Res.L)
				}
			}
		}
	}
	return nil
}

// resSample is the share of samples among the calls on a reservoir.
func (sp *Spec) resSample() float64 {
	if sp.Objs[0].Size > 20 {
		return 0.04
	}
	return 0.3
}

func reservoirGen(g *gen, sp *Spec) {
	sp.Objs = []ObjCfg{g.obj("res")}
	size := sp.Objs[0].Size
	id := 0
	push := func() Op { id++; return Op{K: "push", I: []int{id}} }
	sample := func() Op { return Op{K: "sample", S: g.pickI(0, 0, 1, 2)} }
	nph := g.rng(1, 3)
	if g.Chance(1.0 / 60000) {
		sp.Scen = "huge"
		var ph Phase
		for n := g.pickI(33000, 66000); n > 0; n-- {
			ph.Seq = append(ph.Seq, push())
			if g.Chance(0.0005) {
				ph.Seq = append(ph.Seq, sample())
			}
		}
		sp.Phases = append(sp.Phases, ph)
		nph = 1
	}
	for p := 0; p < nph; p++ {
		var ph Phase
		for n := g.Intn(size + 3); n > 0; n-- {
			ph.Seq = append(ph.Seq, push())
			if g.Chance(0.1) {
				ph.Seq = append(ph.Seq, sample())
			}
		}
		for c := g.rng(2, 4); c > 0; c-- {
			var l []Op
			for n := g.rng(1, minInt(size, 12)+4); n > 0; n-- {
				if g.Chance(sp.resSample()) {
					l = append(l, sample())
				} else {
					l = append(l, push())
				}
			}
			ph.Cl = append(ph.Cl, l)
		}
		sp.Phases = append(sp.Phases, ph)
	}
	sp.Phases = append(sp.Phases, Phase{Seq: []Op{sample(), sample(), push(), sample()}})
}

// ---- everything (C01, C02, C19) ----

var allKinds = append(append(append([]string{}, uniKinds...), jointKinds...), "agg", "jagg", "shared", "jshared", "ashared", "res", "quantile", "core")

// section makes a lock section on a core or quantile.
func (k *client) section(write, nested bool) Op {
	g := k.g
	op := Op{K: "rlock", O: k.o}
	if write {
		op.K = "lock"
	}
	c := k.c
	if c.Kind == "shared" || c.Kind == "jshared" || c.Kind == "ashared" {
		c = sharedCore(c)
	}
	push := write && k.c.Kind != "ashared" // those are fed with pairs
	for n := g.rng(1, 5); n > 0; n-- {
		var s Op
		switch {
		case g.Chance(0.15):
			s = Op{K: "pause", D: uint64(1 + g.Intn(g.pickI(5, 60, 600)))}
		case g.Chance(0.05):
			b, ok := k.badOp()
			if !ok || b.K == "push" && !write {
				continue
			}
			b.M = 0
			if c.Kind != "quantile" && !nested {
				b.K = "u" + b.K
			}
			s = b
		case push && g.Chance(0.65):
			s = Op{K: "upush", O: k.o, X: k.vals(), S: k.scrib()}
		case push && g.Chance(0.1):
			s = Op{K: "uclear", O: k.o}
		case c.Kind == "quantile":
			s = Op{K: "value", O: k.o, Q: k.q()}
		case nested:
			s = k.coreRead(c, "")
		default:
			s = k.coreRead(c, "u")
		}
		op.Sub = append(op.Sub, s)
	}
	return op
}

func lockable(kind string) bool {
	return kind == "core" || kind == "jcore" || kind == "shared" || kind == "jshared" || kind == "ashared"
}

// newOp constructs and uses another object inside a client.
func (g *gen) newOp() Op {
	kind := g.pick("mean", "moment", "std", "skew", "kurt", "ewma", "ewmm", "autocov", "autocorr", "max", "min", "quantile", "median", "iqr", "hmedian", "core", "cov", "corr", "ewmcov", "jcore", "avl", "rb", "skip", "shared", "jshared")
	c := g.obj(kind)
	if kind == "moment" && g.Chance(0.3) {
		c.K = g.rng(7, 12)
	}
	op := Op{K: "new", C: &c}
	k := g.client(&c, 0)
	if orderKind(kind) && (kind == "avl" || kind == "rb" || kind == "skip") {
		cg := &contGen{g: g, k: k}
		for i := g.rng(1, 6); i > 0; i-- {
			op.Sub = append(op.Sub, cg.write(), cg.read())
		}
		return op
	}
	if c.K > 6 {
		for j := range k.st {
			k.st[j].mode = 2
		}
	}
	for i := g.rng(1, 5); i > 0; i-- {
		op.Sub = append(op.Sub, k.push())
	}
	op.Sub = append(op.Sub, k.read())
	return op
}

func manyGen(maxObj int, secs, news bool) func(g *gen, sp *Spec) {
	return func(g *gen, sp *Spec) {
		n := g.rng(1, maxObj)
		if maxObj >= 4 {
			n = g.rng(2, maxObj)
		}
		same := g.Chance(0.3) // several objects of one kind
		kind := allKinds[g.Intn(len(allKinds))]
		for len(sp.Objs) < n {
			if !same {
				kind = allKinds[g.Intn(len(allKinds))]
			}
			c := ObjCfg{Kind: kind}
			if (kind == "agg" || kind == "jagg") && g.Chance(0.6) {
				g.members(&c, g.rng(1, 2))
			} else {
				c = g.obj(kind)
			}
			if hasConfig(kind) && g.Chance(0.04) {
				c.NoInit = true
			}
			sp.Objs = append(sp.Objs, c)
		}
		rej := 0.0 // share of calls that must be rejected
		if g.Chance(0.4) {
			rej = []float64{0.05, 0.15, 0.4}[g.Intn(3)]
		}
		ks := make([]*client, n)
		for i := range ks {
			ks[i] = g.client(&sp.Objs[i], i)
			ks[i].str = true
		}
		id := 0
		one := func(k *client, read bool) Op {
			if g.Chance(rej) {
				if op, ok := k.badOp(); ok && g.Chance(0.9) {
					return op
				}
				if g.Chance(0.3) {
					return Op{K: "bad", I: []int{g.Intn(len(badCalls))}, Bad: true}
				}
			}
			if secs && lockable(k.c.Kind) && g.Chance(0.25) {
				if read {
					return k.section(false, false)
				}
				return k.section(true, false)
			}
			if read {
				return k.read()
			}
			op := k.push()
			if k.c.Kind == "res" {
				id++
				op.I = []int{id}
			}
			return op
		}
		nph := g.rng(1, 2)
		for p := 0; p < nph; p++ {
			var ph Phase
			for i := g.Intn(8 * n); i > 0; i-- {
				ph.Seq = append(ph.Seq, one(ks[g.Intn(n)], g.Chance(0.2)))
			}
			ncl := g.rng(2, 5)
			pin := g.Chance(0.3) // each client its own object
			for c := 0; c < ncl; c++ {
				var l []Op
				for i := g.rng(2, 7); i > 0; i-- {
					k := ks[g.Intn(n)]
					if pin {
						k = ks[c%n]
					}
					f := g.F()
					switch {
					case news && f < 0.12:
						l = append(l, g.newOp())
					case f < 0.2 && hasClear(k.c):
						l = append(l, k.clear())
					case f < 0.25:
						l = append(l, g.pause())
					default:
						l = append(l, one(k, f > 0.65))
					}
				}
				ph.Cl = append(ph.Cl, l)
			}
			sp.Phases = append(sp.Phases, ph)
		}
		var fin []Op
		for _, k := range ks {
			fin = append(fin, k.read(), k.read())
		}
		sp.Phases = append(sp.Phases, Phase{Seq: fin})
	}
}

// raceContainers: containers are documented for exclusive writes, concurrent reads.
func raceGen(g *gen, sp *Spec) {
	if g.Chance(0.15) {
		containerGen(g, sp)
		return
	}
	manyGen(4, true, true)(g, sp)
}

func liveGen(g *gen, sp *Spec) {
	if g.Chance(0.08) {
		containerGen(g, sp)
		return
	}
	manyGen(3, true, true)(g, sp)
}

// ---- C11 ----

func twinGen(g *gen, sp *Spec) {
	kinds := append(append([]string{}, allKinds...), contKinds...)
	kind := kinds[g.Intn(len(kinds))]
	for kind == "res" {
		kind = kinds[g.Intn(len(kinds))]
	}
	cont := kind == "avl" || kind == "rb" || kind == "skip"
	c := g.obj(kind)
	sp.Objs = []ObjCfg{c, *cloneCfg(&c)}
	k := g.client(&sp.Objs[0], 0)
	cg := &contGen{g: g, k: k}
	var ph Phase
	n := g.rng(0, 40)
	for i := 0; i < n; i++ {
		if cont {
			ph.Seq = append(ph.Seq, cg.write(), cg.read())
		} else if g.Chance(0.7) {
			ph.Seq = append(ph.Seq, k.push())
		} else if g.Chance(0.85) {
			ph.Seq = append(ph.Seq, k.read())
		} else {
			ph.Seq = append(ph.Seq, k.clear())
		}
	}
	if !cont && g.Chance(0.5) {
		for x := g.rng(1, 3); x > 0; x-- {
			ph.Cl = append(ph.Cl, k.ops(g.rng(1, 5), 0.6, 0.1))
		}
	}
	sp.Phases = append(sp.Phases, ph)
	// the clearing phase: nothing but clears and reads, at least one clear
	var cl Phase
	if cont || g.Chance(0.4) {
		for x := g.rng(1, 3); x > 0; x-- {
			cl.Seq = append(cl.Seq, k.clear())
			if g.Chance(0.3) {
				cl.Seq = append(cl.Seq, k.read())
			}
		}
	} else {
		cl.Cl = append(cl.Cl, []Op{k.clear()})
		for x := g.rng(1, 3); x > 0; x-- {
			cl.Cl = append(cl.Cl, k.ops(g.rng(1, 3), 0, 0.4))
		}
	}
	sp.Phases = append(sp.Phases, cl)
	var suf Phase
	cg.vals = nil
	m := g.rng(1, 25)
	if k.c.W > 0 {
		m += k.c.W
	}
	add := func(op Op) {
		suf.Seq = append(suf.Seq, op)
		t := op
		t.O = 1
		suf.Seq = append(suf.Seq, t)
	}
	if g.Chance(0.5) && !cont {
		add(k.read())
	}
	for i := 0; i < m; i++ {
		if cont {
			add(cg.write())
			add(cg.read())
			continue
		}
		add(k.push())
		if g.Chance(0.5) {
			add(k.read())
		}
		if g.Chance(0.03) {
			add(k.clear())
		}
	}
	add(k.read())
	sp.Phases = append(sp.Phases, suf)
}

func cloneCfg(c *ObjCfg) *ObjCfg {
	s := cloneSpec(&Spec{Objs: []ObjCfg{*c}})
	return &s.Objs[0]
}

func twinCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	evs := h.Clients[0]
	n := 0
	for p := 0; p < len(sp.Phases)-1; p++ {
		n += len(sp.Phases[p].Seq)
	}
	evs = evs[n:]
	for i := 0; i+1 < len(evs); i++ {
		a, b := &evs[i], &evs[i+1]
		if a.Op.O != 0 || b.Op.O != 1 || a.Op.K != b.Op.K {
			continue // minimised away
		}
		if d := diffRes(&a.Res, &b.Res); d != "" {
			return &Viol{Class: "clear", Msg: fmt.Sprintf("%s: call %d after Clear, %s: the cleared object returned %s, a new one %s", objStr(h.Objs[0].cfg), i/2, opStr(a.Op), resStr(&a.Res), resStr(&b.Res))}
		}
		i++
	}
	return nil
}

func sameF(a, b float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= 1e-12*(math.Abs(a)+math.Abs(b))
}

func diffRes(a, b *Res) string {
	if (a.Err == "") != (b.Err == "") || !sameF(a.V, b.V) || a.N != b.N || a.Nil != b.Nil || len(a.Vs) != len(b.Vs) {
		return "differs"
	}
	for k, v := range a.Vs {
		w, ok := b.Vs[k]
		if !ok || !sameF(v, w) {
			return "differs"
		}
	}
	return ""
}

// ---- C12 ----

func secGen(g *gen, sp *Spec) {
	kind := g.pick("core", "jcore", "core", "jcore", "shared", "jshared", "ashared", "quantile", "quantile")
	sp.Objs = []ObjCfg{g.obj(kind)}
	c := &sp.Objs[0]
	k := g.client(c, 0)
	// nested: ordinary readings inside the read lock. With writers around they
	// can deadlock (a known finding); that shape has a scenario of its own.
	sp.Scen = "sections"
	nested := false
	switch {
	case kind == "quantile" && g.Chance(0.5), kind != "quantile" && g.Chance(0.12):
		sp.Scen, nested = "readers", true
	case kind == "quantile", g.Chance(0.06):
		sp.Scen, nested = "nested", true
	}
	var pro []Op
	for n := g.Intn(2*minInt(c.W, 6) + 6); n > 0; n-- {
		pro = append(pro, k.push())
	}
	nph := g.rng(1, 2)
	for p := 0; p < nph; p++ {
		ph := Phase{Seq: k.allReads(1)}
		if p == 0 {
			ph.Seq = pro
		}
		ncl := g.rng(2, 4)
		for x := 0; x < ncl; x++ {
			var l []Op
			for n := g.rng(1, 4); n > 0; n-- {
				f := g.F()
				switch {
				case sp.Scen == "readers":
					if f < 0.6 {
						l = append(l, k.section(false, g.Chance(0.7)))
					} else {
						l = append(l, k.read())
					}
				case f < 0.3:
					l = append(l, k.section(false, nested))
				case f < 0.6 && kind != "quantile":
					l = append(l, k.section(true, false))
				case f < 0.8:
					l = append(l, k.push())
				case f < 0.85:
					l = append(l, k.clear())
				default:
					l = append(l, k.read())
				}
			}
			ph.Cl = append(ph.Cl, l)
		}
		sp.Phases = append(sp.Phases, ph)
	}
	sp.Phases = append(sp.Phases, Phase{Seq: k.allReads(3)})
}

// knownNested tells whether a deadlock has exactly the shape of the recorded
// finding: callers that hold the read lock block in an ordinary reading on the
// same lock behind a waiting writer, and everybody else waits for that lock.
func knownNested(o *rt.Outcome) bool {
	lock := uint32(0)
	nested, writer := false, false
	for _, w := range o.Waits {
		if w.Kind == "join" {
			continue
		}
		if !strings.HasPrefix(w.Kind, "RWMutex.") || w.Obj == 0 {
			return false
		}
		if lock == 0 {
			lock = w.Obj
		}
		if w.Obj != lock {
			return false
		}
		switch w.Kind {
		case "RWMutex.RLock":
			if inSec[w.Task] != 0 {
				if w.Locks != 1 {
					return false
				}
				nested = true
			} else if w.Locks != 0 {
				return false
			}
		case "RWMutex.Lock(readers)":
			writer = true
			if w.Locks != 0 {
				return false
			}
		default:
			if w.Locks != 0 {
				return false
			}
		}
	}
	return nested && writer
}

func secCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if o.Kind == "deadlock" && sp.Scen == "nested" && knownNested(o) {
		return &Viol{Class: "known", Known: "read-lock-reentry", Msg: "an ordinary read inside a read-lock section waits for a writer that waits for the section"}
	}
	return linAll(h, o, sp)
}

// ---- C13, C14 ----

func aggGen(mocks int) func(g *gen, sp *Spec) {
	return func(g *gen, sp *Spec) {
		c := ObjCfg{Kind: g.pick("agg", "agg", "jagg")}
		g.members(&c, mocks)
		if mocks == 2 {
			fails := false
			for i := range c.Members {
				fails = fails || c.Members[i].FailM > 0 || c.Members[i].VFailM > 0
			}
			if !fails && g.Chance(0.9) {
				m := ObjCfg{Kind: "mock", Name: "mockZ", Vars: 2, FailM: 2, FailR: 1}
				if c.Kind == "jagg" {
					m.Kind = "jmock"
				}
				c.Members = append(c.Members, m)
			}
		}
		sp.Objs = []ObjCfg{c}
		k := g.client(&sp.Objs[0], 0)
		g.workload(k, sp)
	}
}

// ---- C17 ----

// badOp is a call on an object that cannot be served.
func (k *client) badOp() (Op, bool) {
	g := k.g
	op := Op{O: k.o, Bad: true}
	c := k.c
	switch c.Kind {
	case "cov", "corr", "ewmcov", "ewmcorr", "jcore", "jagg", "jshared", "ashared":
		nv := vars(c)
		if c.Kind == "ashared" {
			nv = 2
		}
		if c.Kind != "jcore" && c.Kind != "jshared" && c.Kind != "ashared" || g.Chance(0.4) {
			if c.Kind == "jagg" && len(c.Members) == 0 {
				return op, false // takes anything
			}
			for i := range c.Members {
				if c.Members[i].Kind == "jmock" {
					return op, false
				}
			}
			n := g.pickI(0, 1, 2, 3, 4, nv+1)
			if n == nv {
				n = nv - 1
			}
			op.K = "push"
			if c.Kind != "ashared" {
				op.M = k.member()
			}
			for i := 0; i < n; i++ {
				op.X = append(op.X, F(g.rng(-9, 9)))
			}
			return op, true
		}
		if c.Kind == "jshared" || c.Kind == "ashared" {
			c = sharedCore(c)
		}
		switch g.Intn(7) {
		case 0:
			op.K, op.I = "mean", []int{g.pickI(-1, nv, nv+3)}
		case 1:
			op.K, op.I = "sum", []int{}
		case 2: // too short
			op.K, op.I = "sum", append([]int{}, c.Tuples[0][1:]...)
		case 3: // too long
			op.K, op.I = "sum", append([]int{0}, c.Tuples[0]...)
		case 4: // negative, with the hash of a tracked one
			t := append([]int{}, c.Tuples[0]...)
			t[0]++
			t[1] -= 31
			op.K, op.I = "sum", t
		case 5:
			t := append([]int{}, c.Tuples[0]...)
			t[g.Intn(len(t))] = -1
			op.K, op.I = "sum", t
		default:
			t := make([]int, nv)
			for j := range t {
				t[j] = 7
			}
			op.K, op.I = "sum", t
		}
		return op, true
	case "core", "shared":
		m := maxSum(c)
		if c.Kind == "shared" {
			m = maxSum(sharedCore(c))
		}
		if m < 0 {
			m = 0
		}
		op.K, op.I = "sum", []int{g.pickI(0, -1, m+1, m+7, -100)}
		return op, true
	case "quantile":
		op.K = "value"
		op.Q = F([]float64{0, 1, -0.5, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), 1 + 1e-12, -1e-12}[g.Intn(9)])
		return op, true
	}
	return op, false
}

func rejectGen(g *gen, sp *Spec) {
	kinds := []string{"cov", "corr", "ewmcov", "ewmcorr", "jcore", "jcore", "jshared", "ashared", "jagg", "core", "shared", "quantile", "quantile",
		"mean", "std", "autocov", "max", "median", "iqr", "hmedian", "ewma", "agg"}
	sp.Objs = []ObjCfg{g.obj(kinds[g.Intn(len(kinds))])}
	if g.Chance(0.5) { // a metric that was never initialised
		u := g.obj(g.pick("mean", "moment", "std", "skew", "kurt", "ewma", "ewmm", "ewmstd", "cov", "corr", "ewmcov", "ewmcorr", "autocov", "autocorr"))
		u.NoInit = true
		sp.Objs = append(sp.Objs, u)
	}
	k := g.client(&sp.Objs[0], 0)
	if g.Chance(0.7) {
		g.short(k, sp)
	} else {
		g.long(k, sp)
	}
	var u *client
	if len(sp.Objs) > 1 {
		u = g.client(&sp.Objs[1], 1)
	}
	extra := func() Op {
		f := g.F()
		if u != nil && f < 0.35 {
			switch g.Intn(5) {
			case 0, 1:
				return u.push()
			case 2, 3:
				return u.read()
			}
			return u.clear()
		}
		if f < 0.8 {
			if op, ok := k.badOp(); ok {
				return op
			}
		}
		return Op{K: "bad", I: []int{g.Intn(len(badCalls))}, Bad: true}
	}
	p := []float64{0.1, 0.4, 1}[g.Intn(3)]
	splice := func(l []Op) []Op {
		if len(l) > 40 && p > 0.1 {
			p = 0.1
		}
		var m []Op
		for _, op := range l {
			if g.Chance(p) {
				m = append(m, extra())
			}
			m = append(m, op)
		}
		if g.Chance(p) {
			m = append(m, extra())
		}
		return m
	}
	for i := range sp.Phases {
		sp.Phases[i].Seq = splice(sp.Phases[i].Seq)
		for j := range sp.Phases[i].Cl {
			sp.Phases[i].Cl[j] = splice(sp.Phases[i].Cl[j])
		}
	}
	if g.Chance(0.3) { // a reading of an empty object must fail, too
		sp.Phases = append([]Phase{{Seq: append(k.allReads(2), extra())}}, sp.Phases...)
	}
}

// ---- C18 ----

func memGen(g *gen, sp *Spec) {
	kind := g.pick("cov", "corr", "ewmcov", "ewmcorr", "jcore", "jcore", "jcore", "jshared", "jshared", "jagg", "agg", "core", "core", "shared",
		"quantile", "median", "iqr", "mean", "std", "ewma", "ewmm", "moment", "autocov", "autocorr", "res", "skew", "kurt")
	if kind == "res" {
		reservoirGen(g, sp)
		return
	}
	sp.Objs = []ObjCfg{g.obj(kind)}
	sp.Objs[0].Scrib = 1
	for i := range sp.Objs[0].Members {
		sp.Objs[0].Members[i].Scrib = g.Intn(2)
	}
	k := g.client(&sp.Objs[0], 0)
	k.scr = true
	g.workload(k, sp)
}

// ---- C19 ----

func indepGen(g *gen, sp *Spec) {
	manyGen(5, false, true)(g, sp)
	// containers are used by one client each
}

// ---- C20 ----

func sharedGen(g *gen, sp *Spec) {
	sp.Objs = []ObjCfg{g.obj(g.pick("shared", "shared", "jshared", "jshared", "jshared", "ashared"))}
	for i := range sp.Objs[0].Members {
		if g.Chance(0.12) { // had a core of its own before
			sp.Objs[0].Members[i].Pre = g.rng(1, 6)
		}
	}
	k := g.client(&sp.Objs[0], 0)
	g.workload(k, sp)
}

func init() {
	short := "a run is one seeded spec (object configuration, calls of each client, schedule policy, stalls, clock and random streams) executed in the simulator; it counts as distinct and non-trivial when its interleaving hash (who acquired and released which lock, in which order) was not seen before and at least one call was preempted or contended"
	register(&prop{id: "C01", quick: 480000, thorough: 4800000, gen: liveGen, rule: short,
		check: func(h *Hist, o *rt.Outcome, sp *Spec) *Viol { return basic(h, o) }})
	register(&prop{id: "C02", quick: 60000, thorough: 600000, race: true, gen: raceGen, rule: short,
		check: func(h *Hist, o *rt.Outcome, sp *Spec) *Viol { return basic(h, o) }})
	register(&prop{id: "C03", quick: 240000, thorough: 2400000, rule: short, check: linAll,
		gen: kindsGen("mean", "moment", "std", "skew", "kurt", "core", "core")})
	register(&prop{id: "C04", quick: 160000, thorough: 1600000, rule: short, check: linAll,
		gen: func(g *gen, sp *Spec) {
			if g.Chance(0.2) {
				c := g.obj(g.pick("core", "jcore"))
				c.W, c.Decay, c.Global = 0, g.decay(), false
				sp.Objs = []ObjCfg{c}
				g.workload(g.client(&sp.Objs[0], 0), sp)
				return
			}
			kindsGen("ewma", "ewmm", "ewmstd", "ewmcov", "ewmcorr")(g, sp)
		}})
	register(&prop{id: "C05", quick: 120000, thorough: 1200000, rule: short, check: linAll,
		gen: kindsGen("cov", "corr", "jcore", "jcore", "jcore")})
	register(&prop{id: "C06", quick: 100000, thorough: 1000000, rule: short, check: linAll,
		gen: kindsGen("autocov", "autocov", "autocorr", "autocorr", "ashared")})
	register(&prop{id: "C07", quick: 320000, thorough: 3200000, rule: short, check: linAll,
		gen: kindsGen("max", "min")})
	register(&prop{id: "C08", quick: 240000, thorough: 2400000, rule: short, check: linAll,
		gen: kindsGen("quantile", "quantile", "median", "iqr")})
	register(&prop{id: "C09", quick: 240000, thorough: 2400000, rule: short, check: linAll,
		gen: kindsGen("hmedian")})
	register(&prop{id: "C10", quick: 480000, thorough: 4800000, rule: short, check: linAll, gen: containerGen})
	register(&prop{id: "C11", quick: 320000, thorough: 3200000, rule: short, check: twinCheck, gen: twinGen})
	register(&prop{id: "C12", quick: 400000, thorough: 4000000, rule: short, check: secCheck, gen: secGen})
	register(&prop{id: "C13", quick: 80000, thorough: 800000, rule: short, check: linAll, gen: aggGen(1)})
	register(&prop{id: "C14", quick: 60000, thorough: 600000, rule: short, check: linAll, gen: aggGen(2)})
	register(&prop{id: "C15", quick: 500000, thorough: 8000000, rule: short, check: linAll, gen: reservoirGen})
	register(&prop{id: "C17", quick: 200000, thorough: 2000000, rule: short, check: linAll, gen: rejectGen})
	register(&prop{id: "C18", quick: 140000, thorough: 1400000, rule: short, check: linAll, gen: memGen})
	register(&prop{id: "C19", quick: 320000, thorough: 3200000, rule: short, check: linAll, gen: indepGen})
	register(&prop{id: "C20", quick: 140000, thorough: 1400000, rule: short, check: linAll, gen: sharedGen})
}
