package main

import (
	heapops "container/heap"
	"fmt"
	"math"
	"sort"

	"github.com/alexander-yu/stream/quantile/heap"

	"verif.local/rt"
)

// ---- C24: the indexed heap ----

// twoHeaps is a pair of heaps with items that move between them; items are
// known by the number of the push that made them.
type twoHeaps struct {
	h     [2]*heap.Heap
	items map[int]*heap.Item
	in    map[int]bool
}

// heapKey is what the comparison of a heap looks at: the value, its band of
// width four, or its magnitude.
func heapKey(k int) func(float64) float64 {
	switch k / 2 {
	case 1:
		return func(x float64) float64 { return math.Floor(x / 4) }
	case 2:
		return math.Abs
	}
	return func(x float64) float64 { return x }
}

func buildHeaps(c *ObjCfg) *Obj {
	t := &twoHeaps{items: map[int]*heap.Item{}, in: map[int]bool{}}
	key := heapKey(c.K)
	cmp := [2]func(float64, float64) bool{
		func(a, b float64) bool { return key(a) < key(b) },
		func(a, b float64) bool { return key(a) > key(b) },
	}
	for i := range t.h {
		vals := []float64{}
		for j, v := range c.Sums {
			if j%2 == i {
				vals = append(vals, float64(v))
			}
		}
		t.h[i] = heap.New([]string{"a", "b"}[i], vals, cmp[(i+c.K)%2])
	}
	return &Obj{cfg: c, do: t.do}
}

func (t *twoHeaps) do(op *Op, r *Res) {
	h := t.h[op.I[0]]
	switch op.K {
	case "hpush":
		it := &heap.Item{Val: float64(op.X[0])}
		t.items[op.I[1]], t.in[op.I[1]] = it, true
		heapops.Push(h, it)
	case "hpop", "hmove":
		if h.Len() == 0 {
			r.Nil = true
			return
		}
		it := heapops.Pop(h).(*heap.Item)
		r.V, r.N = it.Val, -1
		for i := range t.items {
			if t.items[i] == it {
				r.N = i
				t.in[i] = op.K == "hmove"
			}
		}
		if op.K == "hmove" {
			heapops.Push(t.h[op.I[1]], it)
		}
	case "hback":
		it := t.items[op.I[1]]
		if it == nil || t.in[op.I[1]] {
			r.Nil = true // not out of a heap: no such call
			return
		}
		t.in[op.I[1]] = true
		if len(op.X) > 0 {
			it.Val = float64(op.X[0])
		}
		heapops.Push(h, it)
	case "hupd", "hrem":
		// the heap an item is in is known from the item
		it := t.items[op.I[1]]
		if !t.in[op.I[1]] {
			r.Nil = true // not in a heap: no such call
			return
		}
		h := t.h[0]
		if it.HeapID == "b" {
			h = t.h[1]
		}
		if op.K == "hupd" {
			h.Update(it, float64(op.X[0]))
		} else {
			t.in[op.I[1]] = false
			h.Remove(it)
		}
	case "hpeek":
		if h.Len() == 0 {
			r.Nil = true
			return
		}
		r.V = h.Peek()
	case "hlen":
		r.N = h.Len()
	case "hvals":
		vs := append([]float64(nil), h.Values()...)
		r.Vs = map[string]float64{}
		sort.Float64s(vs)
		for i, v := range vs {
			r.Vs[fmt.Sprint(i)] = v
		}
		if op.S > 0 {
			vs := h.Values()
			for i := range vs {
				vs[i] = -1e9
			}
		}
	default:
		panic("harness: bad op " + op.K)
	}
}

type heapModel struct {
	val  map[int]float64 // per item
	in   map[int]int     // heap, or -1
	init [2][]float64
	cfg  *ObjCfg
}

func (m *heapModel) vals(h int) []float64 {
	v := append([]float64(nil), m.init[h]...)
	for i := range m.val {
		if m.in[i] == h {
			v = append(v, m.val[i])
		}
	}
	sort.Float64s(v)
	return v
}

// top is the value of an extreme key, isTop whether a value has that key.
func (m *heapModel) top(v []float64, h int) float64 {
	key := heapKey(m.cfg.K)
	t := v[0]
	for _, x := range v {
		if (h+m.cfg.K)%2 == 0 && key(x) < key(t) || (h+m.cfg.K)%2 == 1 && key(x) > key(t) {
			t = x
		}
	}
	return t
}

func (m *heapModel) isTop(v []float64, h int, x float64) bool {
	key := heapKey(m.cfg.K)
	_, in := dropVal(v, x)
	return in && key(x) == key(m.top(v, h))
}

func dropVal(s []float64, x float64) ([]float64, bool) {
	for i := range s {
		if s[i] == x {
			return append(s[:i:i], s[i+1:]...), true
		}
	}
	return s, false
}

func heapCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	m := &heapModel{cfg: h.Objs[0].cfg, val: map[int]float64{}, in: map[int]int{}}
	for j, v := range m.cfg.Sums {
		m.init[j%2] = append(m.init[j%2], float64(v))
	}
	at := make([]int, len(h.Clients))
	var bad *Viol
	step := func(c int) {
		e := &h.Clients[c][at[c]]
		at[c]++
		if bad != nil || e.Op.K == "sleep" {
			return
		}
		q := e.Op.I[0]
		vs := m.vals(q)
		fail := func(want string) {
			bad = &Viol{Class: "heap", Msg: fmt.Sprintf("client %d: %s returned %s, want %s (that heap holds %v)", e.Client, opStr(e.Op), resStr(&e.Res), want, vs)}
		}
		switch e.Op.K {
		case "hpush":
			m.val[e.Op.I[1]], m.in[e.Op.I[1]] = float64(e.Op.X[0]), q
		case "hpop", "hmove":
			if len(vs) == 0 {
				if !e.Res.Nil {
					fail("nothing")
				}
				return
			}
			if e.Res.Nil || !m.isTop(vs, q, e.Res.V) {
				fail(fmt.Sprint(m.top(vs, q)))
				return
			}
			to := -1
			if e.Op.K == "hmove" {
				to = e.Op.I[1]
			}
			if i := e.Res.N; i >= 0 {
				if m.in[i] != q || m.val[i] != e.Res.V {
					fail("an item of this heap")
					return
				}
				m.in[i] = to
				return
			}
			var ok bool
			if m.init[q], ok = dropVal(m.init[q], e.Res.V); !ok {
				fail("an item of this heap")
			}
			if to >= 0 {
				m.init[to] = append(m.init[to], e.Res.V)
			}
		case "hback":
			if e.Res.Nil {
				return
			}
			m.in[e.Op.I[1]] = q
			if len(e.Op.X) > 0 {
				m.val[e.Op.I[1]] = float64(e.Op.X[0])
			}
		case "hupd":
			if e.Res.Nil {
				return
			}
			m.val[e.Op.I[1]] = float64(e.Op.X[0])
		case "hrem":
			if e.Res.Nil {
				return
			}
			m.in[e.Op.I[1]] = -1
		case "hpeek":
			if len(vs) == 0 {
				if !e.Res.Nil {
					fail("nothing")
				}
			} else if e.Res.Nil || !m.isTop(vs, q, e.Res.V) {
				fail(fmt.Sprint(m.top(vs, q)))
			}
		case "hlen":
			if e.Res.N != len(vs) {
				fail(fmt.Sprint(len(vs)))
			}
		case "hvals":
			if len(e.Res.Vs) != len(vs) {
				fail("exactly the values held")
				return
			}
			for i := range vs {
				if e.Res.Vs[fmt.Sprint(i)] != vs[i] {
					fail("exactly the values held")
					return
				}
			}
		}
	}
	for p := range sp.Phases {
		for range sp.Phases[p].Seq {
			step(0)
		}
		for c := range sp.Phases[p].Cl {
			for range sp.Phases[p].Cl[c] {
				step(c + 1)
			}
		}
	}
	return bad
}

// heapGen makes operations by handle. Pops and moves only occur with distinct values:
// with ties the item that comes out would not be known beforehand.
func heapGen(g *gen, sp *Spec) {
	c := ObjCfg{Kind: "heap", K: g.Intn(2)}
	if g.Chance(0.3) { // an order in which different values are equal
		c.K += 2 * g.rng(1, 2)
	}
	if g.Chance(0.4) {
		for n := g.rng(1, 14); n > 0; n-- {
			c.Sums = append(c.Sums, g.rng(-6, 6))
		}
	}
	if g.Chance(0.001) {
		for n := g.rng(200, 3000); n > 0; n-- {
			c.Sums = append(c.Sums, g.rng(-2000, 2000))
		}
	}
	sp.Objs = []ObjCfg{c}
	st := g.stream(true)
	live := []int{}
	next := 0
	var out []int // items taken out of their heap
	var unique float64 = 1
	pops := g.Chance(0.5) // pops and moves: then values are distinct, so that items are known
	val := func() F {
		if !pops {
			return st.next()
		}
		unique++
		v := math.Round(float64(st.next()))
		if math.IsInf(v, 0) || math.Abs(v) > 1e6 {
			v = float64(g.rng(-3, 3))
		}
		return F(v + unique/4096)
	}
	// model of the generator: where each live item is
	vals := map[int]float64{}
	where := map[int]int{}
	initial := [2][]float64{}
	for j, v := range c.Sums {
		initial[j%2] = append(initial[j%2], float64(v))
	}
	popTop := func(h, to int) {
		m := (h + c.K) % 2 // 0: smallest first
		best, bi := 0.0, -2
		for _, v := range initial[h] {
			if bi == -2 || m == 0 && v < best || m == 1 && v > best {
				best, bi = v, -1
			}
		}
		for _, i := range live {
			if where[i] == h && (bi == -2 || m == 0 && vals[i] < best || m == 1 && vals[i] > best) {
				best, bi = vals[i], i
			}
		}
		switch {
		case bi == -1:
			initial[h], _ = dropVal(initial[h], best)
			if to >= 0 {
				initial[to] = append(initial[to], best)
			}
		case bi >= 0 && to >= 0:
			where[bi] = to
		case bi >= 0:
			for k := range live {
				if live[k] == bi {
					live = append(live[:k], live[k+1:]...)
					out = append(out, bi)
					break
				}
			}
		}
	}
	write := func() Op {
		f := g.F()
		h := g.Intn(2)
		switch {
		case pops && f < 0.12:
			popTop(h, -1)
			return Op{K: "hpop", I: []int{h}}
		case pops && f < 0.3:
			to := 1 - h
			if g.Chance(0.25) {
				to = h
			}
			popTop(h, to)
			return Op{K: "hmove", I: []int{h, to}}
		case f < 0.38 && len(out) > 0:
			k := g.Intn(len(out))
			i := out[k]
			out = append(out[:k], out[k+1:]...)
			live = append(live, i)
			where[i] = h
			op := Op{K: "hback", I: []int{h, i}}
			if g.Chance(0.5) {
				v := val()
				vals[i], op.X = float64(v), []F{v}
			}
			return op
		case f < 0.5 && len(live) > 0:
			i := live[g.Intn(len(live))]
			v := val()
			vals[i] = float64(v)
			return Op{K: "hupd", I: []int{0, i}, X: []F{v}}
		case f < 0.68 && len(live) > 0:
			k := g.Intn(len(live))
			i := live[k]
			live = append(live[:k], live[k+1:]...)
			out = append(out, i)
			return Op{K: "hrem", I: []int{0, i}}
		}
		v := val()
		vals[next], where[next] = float64(v), h
		live = append(live, next)
		next++
		return Op{K: "hpush", I: []int{h, next - 1}, X: []F{v}}
	}
	read := func() Op {
		h := g.Intn(2)
		switch g.Intn(6) {
		case 0:
			return Op{K: "hlen", I: []int{h}}
		case 1:
			return Op{K: "hvals", I: []int{h}, S: g.Intn(2)}
		}
		return Op{K: "hpeek", I: []int{h}}
	}
	for nph := g.rng(1, 4); nph > 0; nph-- {
		var ph Phase
		for n := g.rng(1, g.pickI(8, 30, 100)); n > 0; n-- {
			ph.Seq = append(ph.Seq, write())
			if g.Chance(0.5) {
				ph.Seq = append(ph.Seq, read())
			}
		}
		if g.Chance(0.6) {
			for r := g.rng(2, 3); r > 0; r-- {
				var l []Op
				for n := g.rng(1, 5); n > 0; n-- {
					l = append(l, read())
				}
				ph.Cl = append(ph.Cl, l)
			}
		}
		sp.Phases = append(sp.Phases, ph)
	}
	var fin []Op
	for h := 0; h < 2; h++ {
		fin = append(fin, Op{K: "hvals", I: []int{h}}, Op{K: "hlen", I: []int{h}}, Op{K: "hpeek", I: []int{h}})
	}
	if pops { // draining gives everything in order
		for n := len(live) + len(c.Sums) + 2; n > 0; n-- {
			fin = append(fin, Op{K: "hpop", I: []int{g.Intn(2)}})
		}
	}
	sp.Phases = append(sp.Phases, Phase{Seq: fin})
}

// ---- C25: nothing outlives the call that started it ----

type mockIv struct {
	k        byte // p, v, c
	from, to uint64
}

//go:norace
func (m *mock) begin(k byte) int {
	m.log = append(m.log, mockIv{k: k, from: rt.Now()})
	return len(m.log) - 1
}

//go:norace
func (m *mock) end(i int) { m.log[i].to = rt.Now() }

func outliveCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	if o.Leaked > 0 {
		return &Viol{Class: "leak", Msg: fmt.Sprintf("%d goroutine(s) started by the library never finish", o.Leaked)}
	}
	for x, ob := range h.Objs {
		for _, m := range ob.mocks {
			for _, iv := range m.log {
				ok := false
				for c := range h.Clients {
					for i := range h.Clients[c] {
						e := &h.Clients[c][i]
						if e.Op.O != x {
							continue
						}
						k := map[string]byte{"push": 'p', "values": 'v', "clear": 'c'}[e.Op.K]
						if k == iv.k && e.Call <= iv.from && iv.to <= e.Ret {
							ok = true
						}
					}
				}
				if !ok {
					return &Viol{Class: "outlive", Msg: fmt.Sprintf("wrapped metric %s of %s: its %s ran from %d to %d, inside no call of that kind on the aggregate (it outlived the call that started it)",
						m.c.Name, objStr(ob.cfg), map[byte]string{'p': "Push", 'v': "Value", 'c': "Clear"}[iv.k], iv.from, iv.to)}
				}
			}
		}
	}
	return nil
}

func init() {
	register(&prop{id: "C24", quick: 400000, thorough: 4000000, gen: heapGen, check: heapCheck,
		rule: "a run is one seeded spec (initial values, operations by handle, concurrent readers, schedule) executed in the simulator; it counts as distinct when its execution hash was not seen before", seqOK: true})
	register(&prop{id: "C25", quick: 80000, thorough: 800000, gen: aggGen(2), check: outliveCheck,
		rule: "a run is one seeded spec (aggregate of real, slow and failing metrics, calls of each client, schedule policy, stalls) executed in the simulator; it counts as distinct and non-trivial when its interleaving hash was not seen before and at least one call was preempted or contended"})
}

// ---- C23: descriptions for life ----

// otherCfg changes what a metric of this configuration is: its kind or one of
// its parameters.
func (g *gen) otherCfg(c *ObjCfg) ObjCfg {
	d := *cloneCfg(c)
	swap := map[string][]string{
		"mean": {"std", "skew", "kurt"}, "std": {"mean", "skew", "kurt"}, "skew": {"mean", "std", "kurt"}, "kurt": {"mean", "std", "skew"},
		"cov": {"corr"}, "corr": {"cov"}, "autocov": {"autocorr"}, "autocorr": {"autocov"}, "max": {"min", "hmedian"}, "min": {"max", "hmedian"},
		"hmedian": {"max", "min"}, "median": {"iqr"}, "iqr": {"median"}, "ewma": {"ewmstd"}, "ewmstd": {"ewma"},
		"ewmcov": {"ewmcorr"}, "ewmcorr": {"ewmcov"}, "quantile": {"median", "iqr"},
	}
	if l := swap[c.Kind]; l != nil && g.Chance(0.3) {
		d.Kind = g.pick(l...)
		return d
	}
	for n := 0; n < 100; n++ {
		switch g.Intn(5) {
		case 0:
			if c.K != 0 {
				d.K = g.order()
			}
		case 1:
			if c.Kind == "autocov" || c.Kind == "autocorr" {
				d.Lag = g.rng(0, 12)
			}
		case 2:
			if c.Kind == "quantile" {
				d.Interp = g.Intn(5)
			}
		default:
			if near := c.Decay * (1 + F([]float64{1e-2, 1e-4, 1e-7, 1e-12}[g.Intn(4)])); c.Decay != 0 && near < 1 && g.Chance(0.4) {
				d.Decay = near
			} else if c.Decay != 0 {
				d.Decay = g.decay()
			} else if g.Chance(0.2) {
				d.W, d.Global = c.W+1, false
			} else {
				d.W, d.Global = g.window(), false
			}
		}
		if d.K != c.K || d.Lag != c.Lag || d.Interp != c.Interp || d.Decay != c.Decay || d.W != c.W {
			return d
		}
	}
	d.Decay, d.W = 0.4375*(1+c.Decay)/2, c.W
	if c.Decay == 0 {
		d.Decay, d.W, d.Global = 0, c.W+1, false
	}
	return d
}

func describeGen(g *gen, sp *Spec) {
	var kinds []string
	for _, k := range append(append([]string{}, uniKinds...), jointKinds...) {
		if k != "core" && k != "jcore" {
			kinds = append(kinds, k)
		}
	}
	c := g.obj(g.pick(kinds...))
	if hasConfig(c.Kind) && g.Chance(0.05) {
		c.NoInit = true
	}
	t := *cloneCfg(&c)
	if t.W == 0 && g.Chance(0.5) {
		t.Global = !t.Global // the constructors of global metrics are those with a window of 0
	}
	sp.Scen = "describe"
	sp.Objs = []ObjCfg{c, t, g.otherCfg(&c)}
	var ks []*client
	for o := range sp.Objs {
		k := g.client(&sp.Objs[o], o)
		k.str, k.strP = true, 0.5
		ks = append(ks, k)
	}
	one := func() Op {
		if g.Chance(0.06) {
			return Op{K: "good", I: []int{g.Intn(len(goodCalls))}}
		}
		k := ks[g.Intn(len(ks))]
		if k.c.NoInit {
			return Op{K: g.pick("string", "config"), O: k.o, S: g.Intn(3)}
		}
		return k.ops(1, 0.35, 0.08)[0]
	}
	for p := g.rng(1, 3); p > 0; p-- {
		var ph Phase
		for n := g.rng(0, 30); n > 0; n-- {
			ph.Seq = append(ph.Seq, one())
		}
		for n := g.rng(2, 5); n > 0; n-- {
			var l []Op
			for m := g.rng(2, 8); m > 0; m-- {
				l = append(l, one())
			}
			ph.Cl = append(ph.Cl, l)
		}
		sp.Phases = append(sp.Phases, ph)
	}
	var fin []Op
	for o := range sp.Objs {
		fin = append(fin, Op{K: "string", O: o})
		if hasConfig(sp.Objs[o].Kind) {
			fin = append(fin, Op{K: "config", O: o})
		}
	}
	sp.Phases = append(sp.Phases, Phase{Seq: fin})
}

func describeCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	var first [3]*Ev
	for c := range h.Clients {
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Op.K == "good" && e.Res.Err != "" {
				return &Viol{Class: "construct", Msg: fmt.Sprintf("client %d: %s: a valid construction failed: %s", c, opStr(e.Op), e.Res.Err)}
			}
			if e.Op.K != "string" {
				continue
			}
			x := e.Op.O
			if e.Res.Str == "" {
				return &Viol{Class: "string", Msg: fmt.Sprintf("client %d: the description of %s is empty", c, objStr(h.Objs[x].cfg))}
			}
			if first[x] == nil {
				first[x] = e
			}
			if s := first[x].Res.Str; e.Res.Str != s {
				return &Viol{Class: "string", Msg: fmt.Sprintf("client %d: the description of %s is %q, another call on it returned %q", c, objStr(h.Objs[x].cfg), e.Res.Str, s)}
			}
		}
	}
	str := func(x int) string {
		if x >= len(h.Objs) || first[x] == nil {
			return ""
		}
		return first[x].Res.Str
	}
	if a, b := str(0), str(1); a != "" && b != "" && a != b {
		return &Viol{Class: "string", Msg: fmt.Sprintf("two metrics %s describe themselves as %q and %q", objStr(h.Objs[0].cfg), a, b)}
	}
	if a, b := str(0), str(2); a != "" && a == b {
		return &Viol{Class: "string", Msg: fmt.Sprintf("%s and %s both describe themselves as %q", objStr(h.Objs[0].cfg), objStr(h.Objs[2].cfg), a)}
	}
	if len(h.Objs) < 2 {
		return nil
	}
	if a, b := h.Objs[0].sig, h.Objs[1].sig; a != b {
		return &Viol{Class: "config", Msg: fmt.Sprintf("two metrics %s have the configs %s and %s", objStr(h.Objs[0].cfg), a, b)}
	}
	return nil
}

func init() {
	register(&prop{id: "C23", quick: 240000, thorough: 2400000, gen: describeGen, check: describeCheck,
		rule: "a run is one seeded spec (a metric, a twin and one that differs in kind or one parameter, their calls, schedule policy, stalls) executed in the simulator; it counts as distinct and non-trivial when its interleaving hash was not seen before and at least one call was preempted or contended"})
}
