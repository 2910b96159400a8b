package main

import (
	"fmt"
	"math"
	"sort"

	"verif.local/rt"
)

// lin decides whether the history of one object is linearizable with respect
// to its reference model. A configuration is how far each client has got plus
// an abstract state; matching readings are applied greedily (they change
// nothing, so this loses no solution), mutators are branched over.
type lin struct {
	cfg     *ObjCfg
	core    *ObjCfg // shared: the core behind it
	names   []string
	b       *bounds
	r       int
	ordered bool
	chain   bool
	nodes   map[uint64]*node
	ops     [][]*Ev
	why     string
	peak    int
	states  int
}

const frontierCap = 6000

func isMut(op *Op) bool {
	if op.Bad {
		return false
	}
	switch op.K {
	case "push", "clear", "upush", "uclear":
		return true
	case "lock", "rlock":
		for i := range op.Sub {
			if isMut(&op.Sub[i]) {
				return true
			}
		}
	}
	return false
}

// collect gathers the calls on one object and the bounds of its values.
func collect(h *Hist, o int) ([][]*Ev, *bounds) {
	var ops [][]*Ev
	nv := vars(h.Objs[o].cfg)
	b := &bounds{M: make([]float64, nv), S: make([]float64, nv)}
	lo, hi := make([]float64, nv), make([]float64, nv)
	seen := false
	var addX func(op *Op)
	addX = func(op *Op) {
		if (op.K == "push" || op.K == "upush") && !op.Bad && len(op.X) == nv {
			b.T++
			for j, f := range op.X {
				x := float64(f)
				if a := math.Abs(x); a > b.M[j] {
					b.M[j] = a
				}
				if !seen || x < lo[j] {
					lo[j] = x
				}
				if !seen || x > hi[j] {
					hi[j] = x
				}
			}
			seen = true
		}
		for i := range op.Sub {
			addX(&op.Sub[i])
		}
	}
	for c := range h.Clients {
		var l []*Ev
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Op.O != o || e.Op.K == "sleep" || e.Op.K == "new" || e.Op.K == "bad" || e.Op.K == "good" {
				continue
			}
			l = append(l, e)
			addX(e.Op)
		}
		if len(l) > 0 {
			ops = append(ops, l)
		}
	}
	for j := range lo {
		b.S[j] = hi[j] - lo[j]
	}
	return ops, b
}

func newLin(h *Hist, o int) *lin {
	l := &lin{cfg: h.Objs[o].cfg, names: h.Objs[o].names, nodes: map[uint64]*node{}}
	l.ops, l.b = collect(h, o)
	l.r, l.ordered = retention(l.cfg)
	if l.cfg.Kind == "shared" || l.cfg.Kind == "jshared" || l.cfg.Kind == "ashared" {
		l.core = sharedCore(l.cfg)
	}
	l.chain = l.ordered && (l.r == 0 || l.r > 64)
	return l
}

func (l *lin) root() *node { return l.intern(&node{}) }

// intern identifies states that no later reading can tell apart.
func (l *lin) intern(n *node) *node {
	k := n.h
	if l.ordered && !l.chain {
		k = 77
		p := n
		for i := 0; i < l.r && i < n.n; i++ {
			k = rt.Mix(k, nodeHash(5, p.x))
			p = p.parent
		}
	}
	k = rt.Mix(k, uint64(minInt(n.n, 1)))
	if !l.ordered || l.chain || n.n <= l.r {
		k = rt.Mix(k, uint64(n.n))
	}
	if m, ok := l.nodes[k]; ok {
		return m
	}
	l.nodes[k] = n
	l.states++
	return n
}

func (l *lin) push(n *node, xs []F) *node {
	x := floats(xs)
	m := &node{parent: n, x: x, n: n.n + 1, mh: mockStep(n.mh, x)}
	if l.ordered {
		m.h = rt.Mix(n.h, nodeHash(3, x))
	} else {
		m.h = n.h + nodeHash(4, x)
	}
	return l.intern(m)
}

// apply runs a mutator on a state; ok is false when its results are impossible.
func (l *lin) apply(n *node, op *Op, r *Res) (*node, bool, string) {
	switch op.K {
	case "push", "upush":
		if ok, why := pushOK(l.cfg, op, r); !ok {
			return nil, false, why
		}
		if l.cfg.NoInit {
			return n, true, ""
		}
		return l.push(n, op.X), true, ""
	case "clear", "uclear":
		return l.root(), true, ""
	}
	return l.sect(n, op, r)
}

func (l *lin) sect(n *node, op *Op, r *Res) (*node, bool, string) {
	for i := range op.Sub {
		s := &op.Sub[i]
		if s.K == "pause" {
			continue
		}
		if isMut(s) {
			m, ok, why := l.apply(n, s, &r.Sub[i])
			if !ok {
				return nil, false, why
			}
			n = m
			continue
		}
		if s.Bad {
			if r.Sub[i].Err == "" {
				return nil, false, "an error from " + opStr(s)
			}
			continue
		}
		if ok, why := l.readOK(n, s, &r.Sub[i]); !ok {
			return nil, false, opStr(s) + " = " + why
		}
	}
	return n, true, ""
}

type config struct {
	at []int
	n  *node
}

func (l *lin) key(c *config) string {
	b := make([]byte, 0, 4*len(c.at)+8)
	for _, a := range c.at {
		b = append(b, byte(a), byte(a>>8), byte(a>>16))
	}
	return fmt.Sprintf("%s%p", b, c.n)
}

const (
	linOK = iota
	linBad
	linUnknown
)

// check searches for a linearization.
func (l *lin) check() (int, *Viol) {
	nc := len(l.ops)
	if nc == 0 {
		return linOK, nil
	}
	total := 0
	for _, o := range l.ops {
		total += len(o)
	}
	front := []*config{{at: make([]int, nc), n: l.root()}}
	var best *config
	bestN := -1
	var bestWhy string
	for {
		next := map[string]*config{}
		for _, c := range front {
			// earliest return among the calls not yet placed
			why := ""
			for again := true; again; {
				again = false
				ret := l.minRet(c)
				for i := range l.ops {
					for c.at[i] < len(l.ops[i]) {
						e := l.ops[i][c.at[i]]
						if isMut(e.Op) || e.Call > ret {
							break
						}
						var ok bool
						var w string
						measure = len(front) == 1 && l.alone(c, i)
						if e.Op.K == "lock" || e.Op.K == "rlock" {
							_, ok, w = l.sect(c.n, e.Op, &e.Res)
						} else {
							ok, w = l.readOK(c.n, e.Op, &e.Res)
						}
						if !ok {
							why += fmt.Sprintf("  client %d: %s returned %s, the model says %s\n", e.Client, opStr(e.Op), resStr(&e.Res), w)
							break
						}
						c.at[i]++
						again = true
						ret = l.minRet(c)
					}
				}
				if again {
					why = ""
				}
			}
			done := 0
			for i := range l.ops {
				done += c.at[i]
			}
			if done == total {
				return linOK, nil
			}
			ret := l.minRet(c)
			for i := range l.ops {
				if c.at[i] == len(l.ops[i]) {
					continue
				}
				e := l.ops[i][c.at[i]]
				if !isMut(e.Op) || e.Call > ret {
					continue
				}
				n, ok, w := l.apply(c.n, e.Op, &e.Res)
				if !ok {
					why += fmt.Sprintf("  client %d: %s returned %s, the model says %s\n", e.Client, opStr(e.Op), resStr(&e.Res), w)
					continue
				}
				d := &config{at: append([]int(nil), c.at...), n: n}
				d.at[i]++
				next[l.key(d)] = d
			}
			if done > bestN {
				bestN, best, bestWhy = done, c, why
			}
		}
		if len(next) == 0 {
			break
		}
		if len(next) > l.peak {
			l.peak = len(next)
		}
		if len(next) > frontierCap {
			return linUnknown, nil
		}
		front = front[:0]
		for _, c := range next {
			front = append(front, c)
		}
		if len(front) > 1 {
			sort.Slice(front, func(i, j int) bool {
				for k := range front[i].at {
					if front[i].at[k] != front[j].at[k] {
						return front[i].at[k] > front[j].at[k]
					}
				}
				return front[i].n.h < front[j].n.h
			})
		}
	}
	msg := fmt.Sprintf("no serial order consistent with real time explains the results on %s after %d of %d calls (values since the last clear, latest last: %s):\n%s",
		objStr(l.cfg), bestN, total, l.showState(best.n), bestWhy)
	return linBad, &Viol{Class: "history", Msg: msg}
}

// alone tells whether no call of another client overlaps the next one of i.
func (l *lin) alone(c *config, i int) bool {
	e := l.ops[i][c.at[i]]
	for j := range l.ops {
		if j != i && c.at[j] < len(l.ops[j]) && l.ops[j][c.at[j]].Call < e.Ret {
			return false
		}
	}
	return true
}

func (l *lin) minRet(c *config) uint64 {
	ret := uint64(math.MaxUint64)
	for i := range l.ops {
		if c.at[i] < len(l.ops[i]) && l.ops[i][c.at[i]].Ret < ret {
			ret = l.ops[i][c.at[i]].Ret
		}
	}
	return ret
}

func (l *lin) showState(n *node) string {
	rows := n.tail(0)
	s := fmt.Sprintf("%d: ", len(rows))
	if len(rows) > 12 {
		rows = rows[len(rows)-12:]
		s += "... "
	}
	for _, r := range rows {
		if len(r) == 1 {
			s += fmt.Sprint(r[0], " ")
		} else {
			s += fmt.Sprint(r, " ")
		}
	}
	return s
}

func objStr(c *ObjCfg) string {
	s := c.Kind + "{"
	if c.K != 0 {
		s += fmt.Sprintf("k:%d ", c.K)
	}
	if c.Decay != 0 {
		s += fmt.Sprintf("decay:%v ", float64(c.Decay))
	} else {
		s += fmt.Sprintf("window:%d ", c.W)
	}
	if c.Kind == "autocov" || c.Kind == "autocorr" {
		s += fmt.Sprintf("lag:%d ", c.Lag)
	}
	if c.Kind == "quantile" || c.Kind == "median" || c.Kind == "iqr" {
		s += fmt.Sprintf("impl:%d interpolation:%d ", c.Impl, c.Interp)
	}
	if len(c.Sums) > 0 {
		s += fmt.Sprintf("sums:%v ", c.Sums)
	}
	if len(c.Tuples) > 0 {
		s += fmt.Sprintf("tuples:%v ", c.Tuples)
	}
	for i := range c.Members {
		s += objStr(&c.Members[i]) + " "
	}
	if len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s + "}"
}

// linStats accumulates over runs.
type linStats struct {
	Checked, Unknown int
	Peak, States     int
}

var ls linStats

// linObj checks one object of a history.
func linObj(h *Hist, o int) *Viol {
	l := newLin(h, o)
	ls.Checked++
	v, viol := l.check()
	if l.peak > ls.Peak {
		ls.Peak = l.peak
	}
	ls.States += l.states
	if v == linUnknown {
		ls.Unknown++
		return nil
	}
	return viol
}

// sections checks that other callers wait while a lock section is held.
func sections(h *Hist, o int) *Viol {
	ops, _ := collect(h, o)
	var all []*Ev
	for _, l := range ops {
		all = append(all, l...)
	}
	for _, s := range all {
		if s.Op.K != "lock" && s.Op.K != "rlock" {
			continue
		}
		for _, e := range all {
			if e == s || e.Client == s.Client || e.Op.K == "string" || e.Op.K == "config" || e.Op.Bad {
				continue
			}
			if !isMut(e.Op) && s.Op.K == "rlock" {
				continue
			}
			from, to := e.Call, e.Ret
			if to < s.Res.T2 && from > s.Res.T1 {
				return &Viol{Class: "section", Msg: fmt.Sprintf("client %d: %s ran from %d to %d, all of it while client %d held the %s section from %d to %d on %s",
					e.Client, opStr(e.Op), from, to, s.Client, s.Op.K, s.Res.T1, s.Res.T2, objStr(h.Objs[o].cfg))}
			}
			// two sections never overlap when one of them is exclusive
			if (e.Op.K == "lock" || e.Op.K == "rlock") && (e.Op.K == "lock" || s.Op.K == "lock") &&
				e.Res.T1 < s.Res.T2 && s.Res.T1 < e.Res.T2 {
				return &Viol{Class: "section", Msg: fmt.Sprintf("client %d and client %d held the lock of %s at the same time", e.Client, s.Client, objStr(h.Objs[o].cfg))}
			}
		}
	}
	return nil
}
