package main

import (
	"fmt"
	"reflect"
	"strings"

	"verif.local/rt"
)

// ---- C26: memory held ----

// reachable is the number of bytes reachable from the roots and from the
// package level variables of the code under test. Backing arrays count with
// their capacity; what belongs to the simulator does not count.
func reachable(roots ...interface{}) int {
	type key struct {
		p uintptr
		t reflect.Type
	}
	seen := map[key]bool{}
	total := 0
	var todo []reflect.Value
	inner := func(v reflect.Value) {
		if plainType(v.Type()) {
			return
		}
		todo = append(todo, v)
	}
	for _, r := range append(append([]interface{}{}, roots...), rt.Roots...) {
		todo = append(todo, reflect.ValueOf(r))
	}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || simType(v.Type().Elem()) {
				continue
			}
			k := key{v.Pointer(), v.Type()}
			if seen[k] {
				continue
			}
			seen[k] = true
			total += int(v.Type().Elem().Size())
			inner(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				continue
			}
			e := v.Elem()
			if simType(e.Type()) {
				continue
			}
			if e.Kind() != reflect.Ptr && e.Kind() != reflect.Map && e.Kind() != reflect.Chan && e.Kind() != reflect.Func {
				total += int(e.Type().Size())
			}
			inner(e)
		case reflect.Slice:
			if v.IsNil() || v.Cap() == 0 {
				continue
			}
			k := key{v.Pointer(), v.Type()}
			if seen[k] {
				continue
			}
			seen[k] = true
			total += v.Cap() * int(v.Type().Elem().Size())
			if !plainType(v.Type().Elem()) {
				w := v.Slice(0, v.Cap())
				for i := 0; i < w.Len(); i++ {
					inner(w.Index(i))
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				inner(v.Index(i))
			}
		case reflect.String:
			total += v.Len()
		case reflect.Map:
			if v.IsNil() {
				continue
			}
			k := key{v.Pointer(), v.Type()}
			if seen[k] {
				continue
			}
			seen[k] = true
			total += 48 + v.Len()*int(v.Type().Key().Size()+v.Type().Elem().Size()+2)
			if !plainType(v.Type().Key()) || !plainType(v.Type().Elem()) {
				for it := v.MapRange(); it.Next(); {
					inner(it.Key())
					inner(it.Value())
				}
			}
		case reflect.Chan:
			if !v.IsNil() {
				total += 96 + v.Cap()*int(v.Type().Elem().Size())
			}
		case reflect.Struct:
			if simType(v.Type()) {
				continue
			}
			for i := 0; i < v.NumField(); i++ {
				inner(v.Field(i))
			}
		}
	}
	return total
}

func simType(t reflect.Type) bool { return strings.HasPrefix(t.PkgPath(), "verif.local/rt") }

var plainTypes = map[reflect.Type]bool{}

// plainType tells whether values of a type lead to no further memory.
func plainType(t reflect.Type) bool {
	if r, ok := plainTypes[t]; ok {
		return r
	}
	r := false
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.String, reflect.Map, reflect.Chan:
	case reflect.Array:
		r = plainType(t.Elem())
	case reflect.Struct:
		r = true
		for i := 0; i < t.NumField() && !simType(t); i++ {
			r = r && plainType(t.Field(i).Type)
		}
	default:
		r = true
	}
	plainTypes[t] = r
	return r
}

// space feeds a fresh object and measures the memory it holds between segments.
// I: pattern, segments, pushes per segment, pushers, clears (0 never, 1 after
// every segment, 2 now and then), reads per ten pushes.
// L: for each segment the pushes (or items held) since the last clear, and the bytes held.
func space(op *Op, r *Res) {
	c := op.C
	g := &gen{RNG: rt.NewRNG(op.D)}
	pat, segs, per, conc, clears, reads := op.I[0], op.I[1], op.I[2], op.I[3], op.I[4], op.I[5]
	ob, err := build(c)
	if err != nil {
		r.Note = "construction failed: " + err.Error()
		return
	}
	r.L = append(r.L, 0, reachable(ob.root))
	nv := vars(c)
	n := 0
	var held []F
	cont := c.Kind == "avl" || c.Kind == "rb" || c.Kind == "skip"
	feed := func(g *gen, from, to int) {
		k := g.client(c, 0)
		var res Res
		for i := from; i < to; i++ {
			x := make([]F, nv)
			for j := range x {
				x[j] = pattern(g, pat, i, segs*per)
			}
			if cont {
				if c.Size > 0 && len(held) >= c.Size {
					at := g.Intn(len(held))
					ob.do(&Op{K: "remove", X: []F{held[at]}}, &res)
					held[at] = held[len(held)-1]
					held = held[:len(held)-1]
				}
				ob.do(&Op{K: "add", X: x}, &res)
				held = append(held, x[0])
			} else if c.Kind == "res" {
				ob.do(&Op{K: "push", I: []int{i}}, &res)
			} else {
				ob.do(&Op{K: "push", X: x}, &res)
			}
			if g.Intn(10) < reads {
				o := k.read()
				res = Res{}
				ob.do(&o, &res)
			}
		}
	}
	for s := 0; s < segs; s++ {
		from, to := s*per, (s+1)*per
		if conc <= 1 || cont {
			feed(g, from, to)
		} else {
			var toks []rt.Token
			for c := 0; c < conc; c++ {
				c := c
				g2 := &gen{RNG: rt.NewRNG(g.U64())}
				toks = append(toks, rt.GoTask(func() { feed(g2, from+c*per/conc, from+(c+1)*per/conc) }))
			}
			for _, k := range toks {
				rt.Join(k)
			}
		}
		n += per
		size := n
		if cont {
			size = len(held)
		}
		r.L = append(r.L, size, reachable(ob.root))
		if clears == 1 || clears == 2 && g.Chance(0.2) {
			ob.do(&Op{K: "clear"}, &Res{})
			n, held = 0, nil
		}
	}
}

// keepsAll tells whether an object retains everything pushed since it was cleared.
func keepsAll(c *ObjCfg) bool {
	switch c.Kind {
	case "quantile", "median", "iqr", "hmedian":
		return c.W == 0
	case "avl", "rb", "skip":
		return c.Size == 0
	case "agg", "jagg":
		for i := range c.Members {
			if keepsAll(&c.Members[i]) {
				return true
			}
		}
	}
	return false
}

// holds is the largest number of values (and lags) an object may retain for good.
func holds(c *ObjCfg) int {
	w := max(c.W, c.Size) + c.Lag
	for i := range c.Members {
		w = max(w, holds(&c.Members[i]))
	}
	return w
}

func spaceCheck(h *Hist, o *rt.Outcome, sp *Spec) *Viol {
	if v := basic(h, o); v != nil {
		return v
	}
	for cl := range h.Clients {
		for i := range h.Clients[cl] {
			e := &h.Clients[cl][i]
			if e.Op.K != "space" {
				continue
			}
			L, cfg := e.Res.L, e.Op.C
			per, clears := e.Op.I[2], e.Op.I[4]
			fail := func(at int, what string, ref int) *Viol {
				return &Viol{Class: "space", Msg: fmt.Sprintf("%s, value pattern %d, %d pushers: after %d pushes (%d since the last clear) it holds %d bytes, %s %d bytes",
					objStr(cfg), e.Op.I[0], e.Op.I[3], per*(at/2), L[at], L[at+1], what, ref)}
			}
			if keepsAll(cfg) && clears != 1 {
				// linear in the values retained; room of earlier values may be kept
				most := 0
				for at := 2; at+1 < len(L); at += 2 {
					most = max(most, L[at])
					if ref := L[3]; L[at+1] > 3*ref*(most/per+1)+512 {
						return fail(at, fmt.Sprintf("and after its first %d pushes held", per), ref)
					}
				}
				continue
			}
			// the size of the window (or of the values between clears) bounds everything
			ref, warm := L[1], 2*holds(cfg)+64
			for at := 2; at+1 < len(L); at += 2 {
				if at <= 4 || per*(at/2) <= warm+per {
					ref = max(ref, L[at+1])
				} else if most := slackFor(cfg, ref); L[at+1] > most {
					return fail(at, "while up to its first fillings it held at most", ref)
				}
			}
		}
	}
	return nil
}

// slackFor is what an object may hold that held ref bytes up to its first fillings.
func slackFor(c *ObjCfg, ref int) int {
	if c.Kind == "res" { // always the same once it is full
		return ref + ref/4 + 64
	}
	return 3*ref + 512
}

func spaceGen(g *gen, sp *Spec) {
	sp.Scen = "space"
	kinds := append(append(append([]string{"quantile", "hmedian", "max", "min", "res", "agg", "jagg", "shared", "jshared", "ashared", "autocorr", "autocov", "quantile", "hmedian", "max", "min"},
		uniKinds...), jointKinds...), contKinds...)
	c := g.obj(kinds[g.Intn(len(kinds))])
	c.Scrib = 0
	if c.Kind == "avl" || c.Kind == "rb" || c.Kind == "skip" {
		c.Size = g.pickI(0, 8, 16, 50)
	}
	segs, per := g.rng(20, 40), g.pickI(40, 64, 100)
	if g.big {
		per *= g.pickI(1, 4, 8)
	}
	sp.Objs = []ObjCfg{{Kind: "none"}}
	clears := g.pickI(0, 0, 1, 1, 2)
	if c.Kind == "res" {
		clears = 0
	}
	op := Op{K: "space", C: &c, I: []int{g.Intn(8), segs, per, g.pickI(1, 1, 2, 3), clears, g.pickI(0, 1, 3)}, D: g.U64()}
	sp.Phases = []Phase{{Seq: []Op{op}}}
	sp.P = map[string]int{"fair": 1, "steps": 400_000_000}
}

func init() {
	rule := "a run is one seeded spec (object configuration, order of values, pushers, clears, schedule) that measures the memory held between segments; it counts as distinct when its execution hash was not seen before"
	register(&prop{id: "C26", quick: 8000, thorough: 80000, rule: rule, check: spaceCheck, gen: spaceGen, seqOK: true})
}
