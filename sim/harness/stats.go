package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/alexander-yu/stream/sample"

	"verif.local/rt"
)

// ---- C16: uniform sampling ----

// trials runs many independent reservoirs and counts which pushes they keep.
// I: size, pushes, trials, pushers per reservoir, reservoirs side by side, sampling in between.
// L: per item (or per bin) counts, then per pair counts, then cross counts.
func trials(op *Op, r *Res) {
	size, n, t, conc, two, peek := op.I[0], op.I[1], op.I[2], op.I[3], op.I[4], op.I[5]
	nb := bins(n)
	r.L = make([]int, nb+nb*nb+nb*nb)
	one, pair, cross := r.L[:nb], r.L[nb:nb+nb*nb], r.L[nb+nb*nb:]
	bin := func(x int) int { return x * nb / n }
	for i := 0; i < t; i++ {
		var rs []*sample.Reservoir
		for k := 0; k <= two; k++ {
			rs = append(rs, &sample.Reservoir{Size: size})
		}
		feed := func(from, to int) {
			for x := from; x < to; x++ {
				for _, s := range rs {
					s.Push(x)
					if peek > 0 && x%peek == 0 {
						s.Sample()
					}
				}
			}
		}
		if conc <= 1 {
			feed(0, n)
		} else {
			var toks []rt.Token
			for c := 0; c < conc; c++ {
				c := c
				toks = append(toks, rt.GoTask(func() { feed(c*n/conc, (c+1)*n/conc) }))
			}
			for _, k := range toks {
				rt.Join(k)
			}
		}
		var first []int
		for k, s := range rs {
			l := s.Sample()
			if len(l) != minInt(size, n) {
				r.Note = fmt.Sprintf("a reservoir of size %d holds %d items after %d pushes", size, len(l), n)
				return
			}
			var xs []int
			for _, v := range l {
				xs = append(xs, v.(int))
			}
			if k == 0 {
				first = xs
				for a := range xs {
					one[bin(xs[a])]++
					for b := range xs {
						if a != b {
							pair[bin(xs[a])*nb+bin(xs[b])]++
						}
					}
				}
			} else {
				for _, a := range first {
					for _, b := range xs {
						cross[bin(a)*nb+bin(b)]++
					}
				}
			}
		}
	}
}

func bins(n int) int {
	if n <= 24 {
		return n
	}
	return 12
}

// far tells whether a sum of t independent trials, each in [0,m] with mean mu,
// is out of the question (Hoeffding's bound below 1e-14).
func far(got, t int, m, mu float64) bool {
	p := mu / m
	q := float64(got) / (float64(t) * m)
	if p >= 1-1e-12 {
		return q < 1-1e-12
	}
	if p <= 1e-12 {
		return got != 0
	}
	if q > 1 {
		return true
	}
	kl := 0.0
	if q > 0 {
		kl += q * math.Log(q/p)
	}
	if q < 1 {
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	return float64(t)*kl > 33
}

func uniformCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	for c := range h.Clients {
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Op.K != "trials" {
				continue
			}
			size, n, t, two := e.Op.I[0], e.Op.I[1], e.Op.I[2], e.Op.I[4]
			nb := bins(n)
			cnt := make([]int, nb)
			for x := 0; x < n; x++ {
				cnt[x*nb/n]++
			}
			L := e.Res.L
			k := float64(minInt(size, n))
			N := float64(n)
			fail := func(what string, got int, mu float64) *Viol {
				return &Viol{Class: "uniform", Msg: fmt.Sprintf("reservoirs of size %d after %d pushes (%d trials, %d pushers, %d reservoirs): %s were kept %d times, expected about %.1f",
					size, n, t, e.Op.I[3], two+1, what, got, mu)}
			}
			name := func(b int) string {
				if nb == n {
					return fmt.Sprintf("push %d", b+1)
				}
				return fmt.Sprintf("pushes of the %d-th of %d parts", b+1, nb)
			}
			for b := 0; b < nb; b++ {
				mu := k / N * float64(cnt[b])
				// memberships are negatively associated: the bound for independent ones holds
				if far(L[b], t*cnt[b], 1, k/N) {
					return fail(name(b), L[b], mu*float64(t))
				}
				for d := 0; d < nb; d++ {
					x := float64(cnt[b]) * float64(cnt[d])
					if d == b {
						x = float64(cnt[b]) * float64(cnt[b]-1)
					}
					mu := 0.0
					if n > 1 {
						mu = x * k / N * (k - 1) / (N - 1)
					}
					if x > 0 && far(L[nb+b*nb+d], t, math.Min(x, k*k), mu) {
						return fail("pairs ("+name(b)+", "+name(d)+")", L[nb+b*nb+d], mu*float64(t))
					}
					if two > 0 {
						x := float64(cnt[b]) * float64(cnt[d])
						mu := x * (k / N) * (k / N)
						if far(L[nb+nb*nb+b*nb+d], t, math.Min(x, k*k), mu) {
							return fail("joint samples of two reservoirs ("+name(b)+", "+name(d)+")", L[nb+nb*nb+b*nb+d], mu*float64(t))
						}
					}
				}
			}
		}
	}
	return nil
}

func uniformGen(g *gen, sp *Spec) {
	sp.Scen = "uniform"
	size := g.pickI(1, 1, 2, 2, 3, 4, 6)
	n := size + g.rng(1, 10)
	t := 4000
	if g.Chance(0.15) {
		n = g.pickI(40, 100, 300)
		size = g.pickI(1, 3, 10, 30)
		t = 120000 / n
	}
	if g.Chance(0.06) {
		n = g.pickI(1100, 2500, 5000)
		size = g.pickI(5, 10, 20)
		t = 300000 / n
		if g.big {
			n *= g.pickI(1, 4, 16)
			t *= 2
		}
	}
	sp.Objs = []ObjCfg{{Kind: "none"}}
	var ph Phase
	ncl := g.pickI(0, 0, 2)
	mk := func() Op {
		conc := g.pickI(1, 1, 2, 3)
		if conc > 1 {
			t = t / 2
		}
		return Op{K: "trials", I: []int{size, n, t, conc, g.pickI(0, 0, 1), g.pickI(0, 0, 2, 3)}}
	}
	if ncl == 0 {
		ph.Seq = []Op{mk()}
	}
	for c := 0; c < ncl; c++ {
		ph.Cl = append(ph.Cl, []Op{mk()})
	}
	sp.Phases = []Phase{ph}
	sp.P = map[string]int{"fair": 1, "steps": 400_000_000}
}

// ---- C21: work per operation ----

// growth feeds a fresh object and counts the steps of every call by the
// magnitude of the retained values.
// I: pattern, pushes. L: per bucket push count, push sum, push max, read count, read sum, read max.
func growth(op *Op, r *Res) {
	ob, err := build(op.C)
	if err != nil {
		r.Note = "construction failed: " + err.Error()
		return
	}
	g := &gen{RNG: rt.NewRNG(op.D)}
	pat, n := op.I[0], op.I[1]
	c := op.C
	cont := c.Kind == "avl" || c.Kind == "rb" || c.Kind == "skip"
	nv := vars(c)
	k := g.client(c, 0)
	r.L = make([]int, 6*32)
	var res Res
	measure := func(o *Op, ret int, read bool) {
		a := rt.Now()
		res = Res{}
		ob.do(o, &res)
		d := int(rt.Now() - a - 1)
		b := bits.Len(uint(ret))
		if !log2Kind(c.Kind) {
			b = bits.Len(uint(r.N))
		}
		at := b * 6
		if read {
			at += 3
		}
		r.L[at]++
		r.L[at+1] += d
		if d > r.L[at+2] {
			r.L[at+2] = d
		}
	}
	var held []F
	for i := 0; i < n; i++ {
		r.N = i
		x := make([]F, nv)
		for j := range x {
			x[j] = pattern(g, pat, i, n)
		}
		ret := i
		if c.W > 0 && ret > c.W {
			ret = c.W
		}
		if cont {
			ret = len(held)
			if c.Size > 0 && len(held) >= c.Size { // as a window would
				measure(&Op{K: "remove", X: []F{held[0]}}, ret, false)
				held = held[1:]
			}
			measure(&Op{K: "add", X: x}, ret, false)
			held = append(held, x[0])
			if i%7 == 0 {
				measure(&Op{K: "select", I: []int{g.Intn(len(held))}}, ret, true)
				measure(&Op{K: "rank", X: []F{held[g.Intn(len(held))]}}, ret, true)
			}
			continue
		}
		measure(&Op{K: "push", X: x}, ret, false)
		if i%5 == 0 {
			o := k.read()
			measure(&o, ret, true)
		}
	}
	r.N = n
}

func pattern(g *gen, pat, i, n int) F {
	switch pat {
	case 0:
		return F(g.F() * 100)
	case 1:
		return F(i)
	case 2:
		return F(n - i)
	case 3:
		return 7
	case 4: // ends inwards
		if i%2 == 0 {
			return F(i)
		}
		return F(2*n - i)
	case 5:
		return F(g.rng(0, 3))
	case 6: // saw teeth
		return F(i % 64)
	}
	return F(i/2) * F(1-2*(i%2))
}

func log2Kind(kind string) bool {
	switch kind {
	case "avl", "rb", "skip", "quantile", "median", "iqr", "hmedian":
		return true
	}
	return false
}

func growthCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	type avgs struct {
		c   *ObjCfg
		avg [2]float64
	}
	var all []avgs
	for c := range h.Clients {
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Op.K != "growth" {
				continue
			}
			L := e.Res.L
			cfg := e.Op.C
			what := [2]string{"push", "read"}
			if cfg.Kind == "avl" || cfg.Kind == "rb" || cfg.Kind == "skip" {
				what = [2]string{"add/remove", "select/rank"}
			}
			var a avgs
			a.c = cfg
			for k := 0; k < 2; k++ {
				get := func(b int) (cnt, sum, max float64) {
					return float64(L[b*6+3*k]), float64(L[b*6+3*k+1]), float64(L[b*6+3*k+2])
				}
				fail := func(b0, b int, f0, f float64, kind string) *Viol {
					return &Viol{Class: "growth", Msg: fmt.Sprintf("%s, value pattern %d: the %s number of steps of a %s is %.0f at around %d and %.0f at around %d (%s)",
						objStr(cfg), e.Op.I[0], kind, what[k], f0, 1<<(b0-1), f, 1<<(b-1),
						map[bool]string{true: "retained values", false: "values pushed"}[log2Kind(cfg.Kind)])}
				}
				var n, s float64
				base := -1
				var f0 float64
				for b := 5; b < 32; b++ {
					cnt, sum, max := get(b)
					if cnt < 4 {
						continue
					}
					n += cnt
					s += sum
					if log2Kind(cfg.Kind) {
						worst := cfg.Kind != "skip" && cfg.Impl != 2
						f, kind := max, "largest"
						if !worst {
							f, kind = sum/cnt, "average"
						}
						if base < 0 || f > f0*float64(b+1)/float64(base+1) && b < 7 {
							base, f0 = b, f
						}
						if f > 6*f0*float64(b+1)/float64(base+1)+100 {
							return fail(base, b, f0, f, kind)
						}
					} else {
						f := sum / cnt
						if base < 0 || f > f0 && b < 7 {
							base, f0 = b, f
						}
						if f > 4*f0+30 {
							return fail(base, b, f0, f, "average")
						}
					}
				}
				if n > 0 {
					a.avg[k] = s / n
				}
			}
			all = append(all, a)
		}
	}
	// windows of different size cost the same on average
	for i := range all {
		for j := range all {
			x, y := all[i], all[j]
			if log2Kind(x.c.Kind) || x.c.Kind != y.c.Kind || x.c.W == 0 || y.c.W <= x.c.W {
				continue
			}
			for k := 0; k < 2; k++ {
				if x.avg[k] > 0 && y.avg[k] > 4*x.avg[k]+30 {
					return &Viol{Class: "growth", Msg: fmt.Sprintf("%s: on average %.0f steps per call with window %d, %.0f with window %d", objStr(x.c), x.avg[k], x.c.W, y.avg[k], y.c.W)}
				}
			}
		}
	}
	return nil
}

func growthGen(g *gen, sp *Spec) {
	sp.Scen = "growth"
	kind := g.pick("avl", "rb", "skip", "quantile", "quantile", "quantile", "median", "iqr", "hmedian", "hmedian",
		"mean", "moment", "std", "skew", "kurt", "ewma", "ewmm", "cov", "corr", "core", "jcore", "autocov", "autocorr", "max", "min", "max", "min")
	n := g.pickI(1024, 2048, 2048, 4096)
	if g.big {
		n *= g.pickI(1, 2, 8)
	}
	c := g.obj(kind)
	c.Global, c.HasRand, c.Level, c.Prob = false, false, 0, 0
	c.Lag = minInt(c.Lag, 33) // the measured pushes come after the lag has filled
	pat := g.Intn(8)
	seed := g.U64()
	sp.Objs = []ObjCfg{{Kind: "none"}}
	if kind == "avl" || kind == "rb" || kind == "skip" {
		c.Size = g.pickI(0, n/2, n/4)
	}
	ws := []int{g.pickI(0, n/2, n)}
	if !log2Kind(kind) {
		ws = []int{8, n / 4}
		if g.Chance(0.3) {
			ws = []int{0}
		}
	}
	if c.Decay != 0 {
		ws = []int{0}
	}
	var ph Phase
	for _, w := range ws {
		d := cloneCfg(&c)
		d.W = w
		ph.Seq = append(ph.Seq, Op{K: "growth", C: d, I: []int{pat, n}, D: seed})
	}
	sp.Phases = []Phase{ph}
	sp.P = map[string]int{"fair": 1, "steps": 400_000_000}
}

func init() {
	rule16 := "a run is one seeded spec (reservoir size, pushes, pushers, schedule, fair random stream) with thousands of reservoirs; it counts as distinct when its execution hash was not seen before, and is non-trivial when pushes exceed the size"
	register(&prop{id: "C16", quick: 6000, thorough: 60000, rule: rule16, check: uniformCheck, gen: uniformGen, seqOK: true})
	rule21 := "a run is one seeded spec (object configuration, order of values, random stream) whose calls are measured in executed statements; it counts as distinct when its execution hash was not seen before, and is non-trivial with at least 1024 pushes"
	register(&prop{id: "C21", quick: 16000, thorough: 160000, rule: rule21, check: growthCheck, gen: growthGen, seqOK: true})
}
