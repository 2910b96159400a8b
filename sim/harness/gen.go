package main

import (
	"math"

	"verif.local/rt"
)

// gen makes random specs. Everything comes from one seed.
type gen struct {
	*rt.RNG
	big bool // thorough tier: larger runs now and then
}

func (g *gen) pick(s ...string) string { return s[g.Intn(len(s))] }
func (g *gen) pickI(s ...int) int      { return s[g.Intn(len(s))] }
func (g *gen) rng(a, b int) int        { return a + g.Intn(b-a+1) }

// sim draws the schedule policy, the faults and the seeds of a run.
func (g *gen) sim(estOps int) rt.Config {
	c := rt.Config{RandSeed: g.U64(), MapSeed: g.U64(), ClockBase: int64(g.U64() >> 3)}
	p := &c.Policy
	p.Seed = g.U64()
	p.Est = uint64(estOps)*120 + 100
	ps := []float64{0.5, 0.3, 0.1, 0.03, 0.01, 0.003}
	switch g.Intn(10) {
	case 0, 1, 2:
		p.Kind, p.P = "rand", ps[g.Intn(len(ps))]
		if g.Chance(0.3) {
			p.SyncP = 0.2
		}
	case 3, 4:
		p.Kind, p.SyncP, p.OpP = "sync", []float64{0.1, 0.3, 0.6}[g.Intn(3)], 0.3
		if g.Chance(0.4) {
			p.P = 0.01
		}
	case 5:
		p.Kind = "burst"
	case 6:
		p.Kind, p.Depth = "lockstep", g.pickI(0, 0, 1, 2, 5)
	case 7, 8:
		p.Kind, p.Depth = "pct", g.rng(1, 5)
	default:
		p.Kind, p.OpP, p.P = "rand", 0.5, 0.002
	}
	if g.Chance(0.3) {
		p.StallP = []float64{0.02, 0.1, 0.3}[g.Intn(3)]
		p.StallN = []uint64{20, 300, 5000}[g.Intn(3)]
	}
	c.ClockMode = g.pickI(0, 0, 1, 2)
	c.RandMode = g.pickI(0, 0, 0, 1, 2, 3)
	return c
}

// ---- values ----

// stream is a source of values of one flavour.
type vstream struct {
	g     *gen
	mode  int
	i     int
	order bool // values for order statistics: extremes allowed
	off   float64
	scale float64
	far   float64
}

func (g *gen) stream(order bool) *vstream {
	s := &vstream{g: g, order: order}
	if order {
		s.mode = g.pickI(0, 0, 1, 2, 3, 4, 5, 6, 7, 8)
	} else {
		s.mode = g.pickI(0, 1, 2, 2, 3, 4, 5, 6, 9)
	}
	s.off = float64(g.rng(-50, 50))
	s.far = []float64{100, 100, 1e4, 1e6, -1e8}[g.Intn(5)]
	s.scale = 1
	if s.mode != 9 && g.Chance(0.12) { // everything scales exactly with a power of two
		s.scale = math.Ldexp(1, g.pickI(-40, -30, -20, -10, 20, 30))
	}
	return s
}

func (s *vstream) next() F {
	g := s.g
	s.i++
	var v float64
	switch s.mode {
	case 0:
		v = float64(g.rng(-5, 5))
	case 1:
		v = float64(g.rng(-100, 100)) / 10
	case 2:
		v = g.F()*2 - 1
	case 3:
		v = s.off + float64(s.i)*0.5
	case 4:
		v = s.off - float64(s.i)*0.25
	case 5:
		v = float64(g.pickI(-1, 1, 1, 3))
	case 6:
		v = (g.F() - 0.5) * 10
		if g.Chance(0.1) {
			v *= 20
		}
	case 7:
		switch g.Intn(12) {
		case 0:
			v = math.Inf(1)
		case 1:
			v = math.Inf(-1)
		case 2:
			v = 1e300
		case 3:
			v = -1e300
		case 4:
			v = 5e-324
		default:
			v = float64(g.rng(-3, 3))
		}
	case 8: // saw teeth
		v = float64((s.i*7)%g.pickI(5, 5, 5, 9)) + s.off
	case 9:
		v = s.far + g.F() // far from zero
	}
	if s.mode != 7 {
		v *= s.scale
	}
	return F(v)
}

// ---- objects ----

func (g *gen) window() int {
	switch g.Intn(10) {
	case 0, 1, 2:
		return 0
	case 3:
		return 1
	case 4:
		return 2
	case 5:
		return 3
	case 6:
		return g.rng(4, 6)
	case 7:
		return g.rng(7, 9)
	case 8:
		if g.Chance(0.2) {
			return g.rng(21, 70)
		}
		return g.rng(10, 20)
	}
	return g.rng(3, 5)
}

func (g *gen) decay() F {
	if g.Chance(0.3) {
		return F(0.001 + 0.998*g.F())
	}
	if g.Chance(0.05) {
		return F([]float64{0.99995, 0.999999, 1.0 / (1 << 13), 1.0 / (1 << 20), 1 - 1.0/(1<<30)}[g.Intn(5)])
	}
	return F([]float64{0.5, 0.25, 0.1, 0.9, 0.01, 0.3, 0.99}[g.Intn(7)])
}

// order draws the order of a moment.
func (g *gen) order() int {
	if g.Chance(0.08) {
		if g.Chance(0.1) {
			return g.rng(11, 20)
		}
		return g.rng(7, 10)
	}
	return g.pickI(1, 2, 2, 3, 3, 4, 4, 5, 6)
}

func (g *gen) tuples(nv int) [][]int {
	var ts [][]int
	deg := 4
	if nv == 2 && g.Chance(0.08) {
		deg = 6
		if g.Chance(0.3) {
			deg = 9
		}
	}
	for n := g.rng(1, 3); len(ts) < n; {
		t := make([]int, nv)
		sum := 0
		for j := range t {
			t[j] = g.pickI(0, 1, 1, 2, 0, 3)
			if deg > 4 && g.Chance(0.3) {
				t[j] = g.rng(3, 4)
			}
			if deg > 6 {
				t[j] = g.pickI(0, 1, 1, 2, 7, 8)
			}
			if nv > 2 && t[j] > 2 {
				t[j] = 2
			}
			sum += t[j]
		}
		if sum == 0 || sum > deg {
			continue
		}
		ts = append(ts, t)
	}
	return ts
}

func (g *gen) skipCfg(c *ObjCfg) {
	if g.Chance(0.4) {
		c.Level = g.pickI(1, 2, 3, 5, 12, 20, 64)
	}
	if g.Chance(0.4) {
		c.Prob = F([]float64{0.5, 0.25, 0.9, 0.1, 0.01, 0.99}[g.Intn(6)])
	}
	if g.Chance(0.5) {
		c.HasRand, c.RandS, c.RandM = true, g.U64(), g.Intn(4)
	}
}

var uniKinds = []string{"mean", "moment", "std", "skew", "kurt", "ewma", "ewmm", "ewmstd", "autocov", "autocorr", "max", "min", "quantile", "median", "iqr", "hmedian", "core"}
var jointKinds = []string{"cov", "corr", "ewmcov", "ewmcorr", "jcore"}
var contKinds = []string{"avl", "rb", "skip"}

// obj draws a configuration of a kind.
func (g *gen) obj(kind string) ObjCfg {
	c := ObjCfg{Kind: kind}
	switch kind {
	case "mean", "std", "skew", "kurt", "cov", "corr", "max", "min", "hmedian":
		c.W = g.window()
	case "moment":
		c.W = g.window()
		c.K = g.order()
	case "ewma", "ewmstd", "ewmcov", "ewmcorr":
		c.Decay = g.decay()
	case "ewmm":
		c.Decay = g.decay()
		c.K = g.order()
	case "autocov", "autocorr":
		c.W = g.window()
		c.Lag = g.pickI(0, 1, 1, 2, 3, 4, 5, 7)
		if g.Chance(0.1) {
			c.Lag = g.rng(6, 33)
			if g.Chance(0.1) {
				c.Lag = g.rng(34, 140)
			}
		}
	case "quantile", "median", "iqr":
		c.W = g.window()
		c.Impl = g.Intn(3)
		c.Interp = g.Intn(5)
		if c.Impl == 2 {
			g.skipCfg(&c)
		}
	case "core":
		if g.Chance(0.25) {
			c.Decay = g.decay()
		} else {
			c.W = g.window()
		}
		for _, k := range []int{1, 2, 3, 4, 5, 6} {
			if g.Chance(0.35) {
				c.Sums = append(c.Sums, k)
			}
		}
		if g.Chance(0.06) {
			c.Sums = append(c.Sums, g.rng(7, 10))
		}
	case "jcore":
		if g.Chance(0.25) {
			c.Decay = g.decay()
		} else {
			c.W = g.window()
		}
		nv := g.pickI(2, 2, 2, 3)
		if g.Chance(0.05) {
			nv = 4
		}
		c.Tuples = g.tuples(nv)
		if g.Chance(0.3) {
			c.Vars = nv
		}
	case "skip":
		g.skipCfg(&c)
	case "res":
		c.Size = g.pickI(1, 2, 3, 5, 8, 16)
		if g.Chance(0.1) {
			c.Size = g.pickI(0, 0, 31, 64, 100, 257)
		}
	case "agg", "jagg":
		g.members(&c, 0)
	case "shared":
		g.shared(&c)
	case "jshared":
		g.jshared(&c)
	case "ashared":
		g.ashared(&c)
	}
	if c.W == 0 && g.Chance(0.4) {
		c.Global = true
	}
	return c
}

// members fills an aggregate; mocks: 0 none, 1 healthy ones too, 2 failing ones.
func (g *gen) members(c *ObjCfg, mocks int) {
	n := g.rng(2, 5)
	if g.Chance(0.1) {
		n = 1
	}
	many := mocks > 0 && g.Chance(0.04)
	if many {
		n = g.rng(6, 20)
	} else if g.Chance(0.01) {
		n = 0
	}
	used := map[string]bool{}
	w := g.window()
	nv := 2
	for len(c.Members) < n {
		var m ObjCfg
		if mocks > 0 && (many && g.Chance(0.9) || g.Chance(0.6)) {
			m = ObjCfg{Kind: "mock", Name: "mock" + string(rune('A'+len(c.Members))), Vars: nv}
			if c.Kind == "jagg" {
				m.Kind = "jmock"
			}
			if g.Chance(0.4) {
				m.Slow = []uint64{3, 40, 500}[g.Intn(3)]
				if g.Chance(0.1) { // milliseconds to a quarter of an hour
					m.Slow = []uint64{20_000, 10_000_000, 4_000_000_000}[g.Intn(3)]
				}
			}
			if mocks == 2 {
				if g.Chance(0.6) {
					m.FailM = g.rng(1, 4)
					m.FailR = g.Intn(m.FailM)
				}
				if g.Chance(0.6) {
					m.VFailM = g.rng(2, 4)
					m.VFailR = g.Intn(m.VFailM)
				}
			}
		} else if c.Kind == "jagg" {
			m = g.obj(g.pick("cov", "corr", "ewmcov", "ewmcorr"))
		} else {
			m = g.obj(g.pick("mean", "moment", "std", "ewma", "ewmm", "autocov", "max", "min", "median", "iqr", "hmedian", "skew", "kurt", "autocorr", "ewmstd"))
		}
		if g.Chance(0.7) && m.W > 0 {
			m.W = w
		}
		m.Global = false
		// keys must differ: the same description would mean the same entry
		key := objStr(&ObjCfg{Kind: m.Kind, K: m.K, W: m.W, Decay: m.Decay, Lag: m.Lag}) + m.Name
		if used[key] {
			continue
		}
		used[key] = true
		c.Members = append(c.Members, m)
	}
}

func (g *gen) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (g *gen) shared(c *ObjCfg) {
	n := g.rng(2, 4)
	w := g.window()
	d := g.decay()
	ewm := g.Chance(0.3)
	for len(c.Members) < n {
		var m ObjCfg
		if ewm {
			m = g.obj(g.pick("ewma", "ewmm", "ewmstd"))
			m.Decay = d
		} else {
			m = g.obj(g.pick("mean", "moment", "std", "skew", "kurt", "core"))
			m.W = w
			m.Decay = 0
			m.Global = w == 0 && m.Global
		}
		c.Members = append(c.Members, m)
	}
	c.W = w
	c.Order = g.perm(n)
	c.Nest = g.Intn(4)
}

func (g *gen) jshared(c *ObjCfg) {
	n := g.rng(2, 4)
	w := g.window()
	d := g.decay()
	ewm := g.Chance(0.3)
	nv := 2
	if !ewm && g.Chance(0.25) {
		nv = 3
	}
	for len(c.Members) < n {
		var m ObjCfg
		switch {
		case ewm:
			m = g.obj(g.pick("ewmcov", "ewmcorr"))
			m.Decay = d
		case nv == 3:
			m = ObjCfg{Kind: "jcore", Tuples: g.tuples(3), W: w}
		default:
			m = g.obj(g.pick("cov", "corr", "jcore", "jcore"))
			m.W, m.Decay = w, 0
			m.Global = w == 0 && m.Global
			if m.Kind == "jcore" {
				m.Tuples = g.tuples(2)
				m.Vars = 0
			}
		}
		c.Members = append(c.Members, m)
	}
	c.W = w
	c.Order = g.perm(n)
	c.Nest = g.Intn(4)
}

func (g *gen) ashared(c *ObjCfg) {
	c.W = g.window()
	c.Lag = g.pickI(0, 1, 1, 2, 3, 5)
	c.Members = []ObjCfg{{Kind: g.pick("autocov", "autocorr"), W: c.W, Lag: c.Lag}}
	for n := g.rng(0, 3); n > 0; n-- {
		m := ObjCfg{Kind: g.pick("autocov", "autocorr", "cov", "corr", "jcore"), W: c.W}
		switch m.Kind {
		case "autocov", "autocorr":
			m.Lag = c.Lag
		case "jcore":
			m.Tuples = g.tuples(2)
		}
		c.Members = append(c.Members, m)
	}
	c.Order = g.perm(len(c.Members))
	c.Nest = g.Intn(4)
}

func orderKind(k string) bool {
	switch k {
	case "max", "min", "quantile", "median", "iqr", "hmedian", "avl", "rb", "skip":
		return true
	}
	return false
}

// ---- calls ----

type client struct {
	g    *gen
	c    *ObjCfg
	o    int
	st   []*vstream
	scr  bool
	str  bool // String() and Config() calls too
	strP float64
}

func (g *gen) client(c *ObjCfg, o int) *client {
	k := &client{g: g, c: c, o: o}
	s := g.stream(orderKind(c.Kind))
	for j := 0; j < vars(c); j++ {
		if j > 0 && g.Chance(0.5) {
			s = g.stream(false)
		}
		k.st = append(k.st, s)
	}
	return k
}

func (k *client) vals() []F {
	x := make([]F, len(k.st))
	for j := range x {
		x[j] = k.st[j].next()
	}
	return x
}

func (k *client) scrib() int {
	if k.scr && k.g.Chance(0.8) {
		return k.g.rng(1, 3)
	}
	return 0
}

func (k *client) member() int {
	if k.c.Kind == "shared" || k.c.Kind == "jshared" || k.c.Kind == "ashared" {
		return k.g.Intn(len(k.c.Members) + 1)
	}
	return 0
}

func (k *client) push() Op {
	op := Op{K: "push", O: k.o, X: k.vals(), M: k.member(), S: k.scrib()}
	if k.c.Kind == "res" {
		op.X = nil
	}
	return op
}

func (k *client) clear() Op { return Op{K: "clear", O: k.o, M: k.member()} }

var dyadics = []float64{0.5, 0.25, 0.75, 0.125, 0.875, 0.0625, 0.9375, 0.375}

func (k *client) q() F {
	g := k.g
	switch g.Intn(6) {
	case 0:
		return F(0.01 + 0.98*g.F())
	case 1:
		return F([]float64{0.1, 0.2, 0.3, 0.9, 0.95, 0.99, 0.01, 1.0 / 3, 1e-9, 1 - 1e-9, 5e-324, 1e-17, 1 - 1.0/(1<<53)}[g.Intn(13)])
	}
	return F(dyadics[g.Intn(len(dyadics))])
}

// coreRead is a reading of a core; unlocked accessors start with u.
func (k *client) coreRead(c *ObjCfg, u string) Op {
	g := k.g
	op := Op{O: k.o, S: k.scrib()}
	switch g.Intn(4) {
	case 0:
		op.K = u + "count"
	case 1:
		op.K = u + "mean"
		if c.Kind == "jcore" {
			op.I = []int{g.Intn(vars(c))}
		}
	default:
		op.K = u + "sum"
		if c.Kind == "jcore" {
			if len(c.Tuples) == 0 {
				op.K = u + "count"
				break
			}
			t := c.Tuples[g.Intn(len(c.Tuples))]
			for _, e := range t {
				if g.Chance(0.3) {
					e = g.Intn(e + 1)
				}
				op.I = append(op.I, e)
			}
		} else if m := maxSum(c); m > 0 {
			op.I = []int{g.rng(1, m)}
		} else {
			op.K = u + "mean"
		}
	}
	return op
}

func (k *client) read() Op {
	g := k.g
	if k.str && g.Chance(math.Max(0.15, k.strP)) {
		switch k.c.Kind {
		case "core", "jcore", "agg", "jagg", "shared", "jshared", "ashared", "res":
		default:
			if hasConfig(k.c.Kind) && g.Chance(0.5) {
				return Op{K: "config", O: k.o, S: k.scrib()}
			}
			return Op{K: "string", O: k.o}
		}
	}
	switch k.c.Kind {
	case "core", "jcore":
		return k.coreRead(k.c, "")
	case "quantile":
		return Op{K: "value", O: k.o, Q: k.q()}
	case "agg", "jagg":
		return Op{K: "values", O: k.o, S: k.scrib()}
	case "shared", "jshared", "ashared":
		m := k.member()
		if m > 0 && k.c.Members[m-1].Kind != "core" && k.c.Members[m-1].Kind != "jcore" {
			return Op{K: "value", O: k.o, M: m}
		}
		return k.coreRead(sharedCore(k.c), "")
	case "res":
		return Op{K: "sample", O: k.o, S: k.scrib()}
	case "avl", "rb", "skip":
		switch g.Intn(6) {
		case 0:
			return Op{K: "size", O: k.o}
		case 1, 2:
			return Op{K: "rank", O: k.o, X: k.vals()}
		}
		return Op{K: "select", O: k.o, I: []int{g.rng(-1, 8)}}
	}
	return Op{K: "value", O: k.o}
}

func hasClear(c *ObjCfg) bool { return c.Kind != "res" }

// ops makes n calls with the given shares of pushes and clears.
func (k *client) ops(n int, pp, pc float64) []Op {
	var l []Op
	for i := 0; i < n; i++ {
		f := k.g.F()
		switch {
		case f < pp:
			l = append(l, k.push())
		case f < pp+pc && hasClear(k.c):
			l = append(l, k.clear())
		default:
			l = append(l, k.read())
		}
	}
	return l
}

// allReads reads everything an object offers, once.
func (k *client) allReads(n int) []Op {
	var l []Op
	for i := 0; i < n; i++ {
		l = append(l, k.read())
	}
	return l
}

func (g *gen) pause() Op { return Op{K: "sleep", D: uint64(1 + g.Intn(g.pickI(10, 100, 1000)))} }

// short is a workload with several writers on one object.
func (g *gen) short(k *client, sp *Spec) {
	pp := []float64{0.4, 0.55, 0.7}[g.Intn(3)]
	pc := []float64{0, 0.08, 0.2}[g.Intn(3)]
	w := k.c.W
	nph := g.rng(1, 3)
	for p := 0; p < nph; p++ {
		var ph Phase
		if p == 0 && g.Chance(0.7) {
			n := g.Intn(2*minInt(w, 10) + 4)
			for i := 0; i < n; i++ {
				ph.Seq = append(ph.Seq, k.push())
			}
		}
		if p > 0 {
			ph.Seq = k.allReads(2)
			if g.Chance(0.2) && hasClear(k.c) {
				ph.Seq = append(ph.Seq, k.clear())
			}
		}
		ncl := g.rng(2, 4)
		for c := 0; c < ncl; c++ {
			n := g.rng(2, 6)
			if ncl == 4 {
				n = g.rng(2, 4)
			}
			ops := k.ops(n, pp, pc)
			if g.Chance(0.1) {
				ops = append([]Op{g.pause()}, ops...)
			}
			ph.Cl = append(ph.Cl, ops)
		}
		sp.Phases = append(sp.Phases, ph)
	}
	fin := k.allReads(2)
	for i := g.Intn(4); i > 0; i-- {
		fin = append(fin, k.push(), k.read())
	}
	sp.Phases = append(sp.Phases, Phase{Seq: fin})
}

// long is one writer with many pushes and some readers.
func (g *gen) long(k *client, sp *Spec) {
	n := g.rng(10, 120)
	switch g.Intn(12) {
	case 0, 1, 2:
		n = g.rng(120, 400)
	case 3:
		n = g.rng(400, 1200)
		if g.big || g.Chance(0.1) {
			n = g.rng(1000, 5000)
		}
	}
	if k.c.Kind == "jcore" || k.c.Kind == "jshared" || k.c.Kind == "ashared" || k.c.Kind == "agg" || k.c.Kind == "jagg" {
		n = n/3 + 5
	}
	if k.c.W > 0 && g.Chance(0.15) {
		k.c.W = g.rng(10, 10+n/2)
		if n >= 1000 {
			k.c.W = g.rng(n/2, n)
		}
		if k.c.Kind == "shared" || k.c.Kind == "jshared" || k.c.Kind == "ashared" {
			for i := range k.c.Members {
				k.c.Members[i].W = k.c.W
			}
		}
	}
	pr := []float64{0.02, 0.15, 0.4}[g.Intn(3)]
	if n > 300 {
		pr = 0.02
	}
	pc := 0.0
	if g.Chance(0.4) && hasClear(k.c) {
		pc = 2.5 / float64(n)
	}
	var w []Op
	for i := 0; i < n; i++ {
		w = append(w, k.push())
		if g.Chance(pr) {
			w = append(w, k.read())
		}
		if g.Chance(pc) {
			w = append(w, k.clear())
		}
	}
	nr := g.pickI(0, 1, 2, 3)
	cl := [][]Op{w}
	for r := 0; r < nr; r++ {
		m := g.rng(3, 10)
		var l []Op
		for i := 0; i < m; i++ {
			if g.Chance(0.5) {
				l = append(l, Op{K: "sleep", D: uint64(1 + g.Intn(n*60))})
			}
			l = append(l, k.read())
		}
		cl = append(cl, l)
	}
	if nr == 0 {
		sp.Phases = append(sp.Phases, Phase{Seq: w})
	} else {
		sp.Phases = append(sp.Phases, Phase{Cl: cl})
	}
	sp.Phases = append(sp.Phases, Phase{Seq: k.allReads(3)})
}

// huge is a stream (and perhaps a window or a lag) beyond 2^15 or 2^16 values.
func (g *gen) huge(k *client, sp *Spec) {
	sp.Scen = "huge"
	c := k.c
	edge := func() int { return g.pickI(1<<15, 1<<16) + g.rng(-2, 2) }
	n := g.pickI(33000, 66500)
	c.K = minInt(c.K, 6)
	if c.Kind == "quantile" || c.Kind == "median" || c.Kind == "iqr" {
		c.Impl = g.Intn(2)
		n = g.pickI(33000, 33000, 66500)
	}
	if c.W > 0 {
		c.W = g.rng(1<<14, 1<<16)
		if g.Chance(0.7) {
			c.W = edge()
			n = c.W + g.rng(100, 1000)
		}
	}
	if c.Lag > 0 && g.Chance(0.7) {
		c.Lag = edge()
		n = c.Lag + g.rng(100, 1000)
		c.W = g.pickI(0, 0, 1, 5, 70)
	}
	c.Global = c.Global && c.W == 0
	if g.Chance(0.5) {
		k.st[0].mode = g.pickI(3, 4)
	}
	at := map[int]bool{}
	for _, i := range []int{1 << 15, 1 << 16, c.W, c.Lag, n} {
		for j := -1; j < 2; j++ {
			at[i+j] = at[i+j] || g.Chance(0.6)
		}
	}
	for i := 0; i < 4; i++ {
		at[g.Intn(n)] = true
	}
	clear := -1
	if g.Chance(0.2) {
		clear = g.Intn(n)
	}
	var w []Op
	for i := 0; i < n; i++ {
		w = append(w, k.push())
		if at[i+1] {
			w = append(w, k.read())
		}
		if i == clear {
			w = append(w, k.clear(), k.push(), k.read())
		}
	}
	sp.Phases = append(sp.Phases, Phase{Seq: append(w, k.allReads(3)...)})
}

// medium is several writers with barriers in between.
func (g *gen) medium(k *client, sp *Spec) {
	nph := g.rng(2, 6)
	for p := 0; p < nph; p++ {
		var ph Phase
		ph.Seq = k.allReads(1)
		ncl := g.rng(2, 5)
		for c := 0; c < ncl; c++ {
			ph.Cl = append(ph.Cl, k.ops(g.rng(1, 5), 0.6, 0.05))
		}
		sp.Phases = append(sp.Phases, ph)
	}
	sp.Phases = append(sp.Phases, Phase{Seq: k.allReads(3)})
}

func countOps(sp *Spec) int {
	n, _ := workSize(sp)
	return n
}

// budget gives a run far more steps than its work needs on any correct
// implementation of a similar kind: exceeding it means that something spins.
func budget(sp *Spec, c *rt.Config) {
	n, subs := workSize(sp)
	per := uint64(3000)
	for i := range sp.Objs {
		if k := callCost(&sp.Objs[i]); k > per {
			per = k
		}
	}
	// a call may walk all that is retained: a skip list of one level does
	if sp.Scen != "huge" {
		per += 80 * uint64(n+subs)
	}
	c.StepCap = 2_000_000 + uint64(n+subs)*per
	c.OpCap = c.StepCap / 2
	c.FairAfter = c.StepCap / 2
}

// callCost is a generous bound for the steps of one call.
func callCost(o *ObjCfg) uint64 {
	c := uint64(3000)
	for _, t := range o.Tuples {
		pairs := uint64(1)
		for _, e := range t {
			if e > 0 {
				pairs *= uint64((e + 1) * (e + 2) / 2)
			}
		}
		c += 400 * (pairs + 1) * uint64(len(t)+1)
	}
	for _, k := range o.Sums {
		if k > 0 {
			c += 300 * uint64(k) * uint64(k)
		}
	}
	c += 300 * uint64(o.K) * uint64(o.K)
	for i := range o.Members {
		c += callCost(&o.Members[i])
	}
	return c
}

// workSize counts the calls of a run, and those inside sections.
func workSize(sp *Spec) (n, subs int) {
	count := func(ops []Op) {
		n += len(ops)
		for i := range ops {
			subs += len(ops[i].Sub)
		}
	}
	for _, p := range sp.Phases {
		count(p.Seq)
		for _, c := range p.Cl {
			count(c)
		}
	}
	return
}

// workload draws one of the shapes for object 0.
func (g *gen) workload(k *client, sp *Spec) {
	switch g.Intn(10) {
	case 0, 1, 2, 3, 4:
		sp.Scen = "short"
		g.short(k, sp)
	case 5, 6, 7:
		sp.Scen = "long"
		g.long(k, sp)
	default:
		sp.Scen = "medium"
		g.medium(k, sp)
	}
}
