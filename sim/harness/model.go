package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif.local/rt"
)

// The reference models: what a metric must report for a sequence of pushes
// since its last Clear. They are batch formulas over the retained values.

// node is an abstract state: a sequence of pushes since the last clear.
type node struct {
	parent *node
	x      []float64
	n      int // pushes since the last clear
	h      uint64
	memo   map[memoKey]exp
	mh     uint64
	sorted map[int][]float64
	pairs  *node // the sequence of (value, lagged value) pairs
}

type memoKey struct {
	m int
	k string
	q float64
	i string
}

const (
	eVal = iota // a number in [lo,hi] (or alternatives)
	eErr        // an error
	eAny        // undefined: anything
)

type exp struct {
	t      int
	lo, hi float64
	alt    []exp
	why    string
	sym    bool
}

func (e exp) String() string {
	switch e.t {
	case eErr:
		return "error (" + e.why + ")"
	case eAny:
		return "anything"
	}
	if e.alt != nil {
		return fmt.Sprintf("one of %v", e.alt)
	}
	if e.lo == e.hi {
		return fmt.Sprint(e.lo)
	}
	return fmt.Sprintf("%v (within [%v, %v])", (e.lo+e.hi)/2, e.lo, e.hi)
}

func (e exp) match(r *Res) bool {
	switch e.t {
	case eAny:
		return true
	case eErr:
		return r.Err != ""
	}
	if r.Err != "" {
		return false
	}
	return e.has(r.V)
}

func (e exp) has(v float64) bool {
	if e.alt != nil {
		for _, a := range e.alt {
			if a.has(v) {
				return true
			}
		}
		return false
	}
	return v >= e.lo && v <= e.hi // false for NaN
}

// slackMax is how much of the tolerance correct code uses, measured on readings
// whose place in the serial order is beyond doubt.
var (
	slackMax float64
	measure  bool
)

func (e exp) slack(v float64) {
	if measure && e.t == eVal && e.sym && e.hi > e.lo {
		c := (e.lo + e.hi) / 2
		r := math.Abs(v-c) / ((e.hi - e.lo) / 2)
		if r > slackMax && r <= 1 {
			slackMax = r
		}
	}
}

func exact(v float64) exp       { return exp{t: eVal, lo: v, hi: v} }
func around(v, tol float64) exp { return exp{t: eVal, lo: v - tol, hi: v + tol, sym: true} }
func anyval() exp               { return exp{t: eAny} }
func wantErr(why string) exp    { return exp{t: eErr, why: why} }
func within(lo, hi float64) exp { return exp{t: eVal, lo: lo, hi: hi} }
func oneOf(alt ...exp) exp      { return exp{t: eVal, alt: alt} }

// relTol allows for other orders of evaluation, denormals included.
func relTol(a, b float64) float64 { return 1e-12*(math.Abs(a)+math.Abs(b)) + 1e-322 }
func isInf(x float64) bool        { return math.IsInf(x, 0) }
func finite(x float64) bool       { return !math.IsInf(x, 0) && x == x }

// bounds hold for every value ever pushed to an object in a run.
type bounds struct {
	T    int       // pushes
	M, S []float64 // per variable: largest magnitude, spread
}

// retention tells how much of the past determines future answers: the last r
// pushes (0: all of them), and whether their order matters.
func retention(c *ObjCfg) (r int, ordered bool) {
	switch c.Kind {
	case "ewma", "ewmm", "ewmstd", "ewmcov", "ewmcorr", "mock", "jmock":
		return 0, true
	case "autocov", "autocorr":
		if c.W > 0 {
			return c.W + c.Lag, true
		}
		return 0, true
	case "agg", "jagg", "shared", "jshared":
		for i := range c.Members {
			a, o := retention(&c.Members[i])
			if i == 0 {
				r, ordered = a, o
				continue
			}
			if a == 0 || r == 0 {
				r = 0
			} else if a > r {
				r = a
			}
			ordered = ordered || o
		}
		return r, ordered
	case "ashared":
		return retention(&ObjCfg{Kind: "autocov", W: c.W, Lag: c.Lag})
	case "core", "jcore":
		if c.Decay != 0 {
			return 0, true
		}
	}
	return c.W, c.W > 0
}

// tail returns the last k pushes (all for k <= 0), oldest first.
func (n *node) tail(k int) [][]float64 {
	if k <= 0 || k > n.n {
		k = n.n
	}
	out := make([][]float64, k)
	p := n
	for i := k - 1; i >= 0; i-- {
		out[i] = p.x
		p = p.parent
	}
	return out
}

func column(rows [][]float64, j int) []float64 {
	c := make([]float64, len(rows))
	for i := range rows {
		c[i] = rows[i][j]
	}
	return c
}

// ---- batch statistics ----

func ksum(xs []float64) float64 {
	s, c := 0.0, 0.0
	for _, x := range xs {
		t := s + x
		if math.Abs(s) >= math.Abs(x) {
			c += (s - t) + x
		} else {
			c += (x - t) + s
		}
		s = t
	}
	return s + c
}

func ipow(x float64, k int) float64 {
	r := 1.0
	for i := 0; i < k; i++ {
		r *= x
	}
	return r
}

// weights for n pushes, oldest first.
func weights(n int, d float64) []float64 {
	w := make([]float64, n)
	for j := 0; j < n; j++ { // j pushes ago
		w[n-1-j] = d * math.Pow(1-d, float64(j))
	}
	if n > 0 {
		w[0] = math.Pow(1-d, float64(n-1))
	}
	return w
}

// stats over rows with exponents t; w nil means weight 1 each.
type batch struct {
	rows  [][]float64
	w     []float64
	means []float64
	b     *bounds
	nmax  int
}

func newBatch(rows [][]float64, vars int, w []float64, b *bounds, nmax int) *batch {
	s := &batch{rows: rows, w: w, b: b, nmax: nmax, means: make([]float64, vars)}
	for j := 0; j < vars; j++ {
		t := make([]float64, len(rows))
		for i := range rows {
			t[i] = rows[i][j]
			if w != nil {
				t[i] *= w[i]
			}
		}
		s.means[j] = ksum(t)
		if w == nil && len(rows) > 0 {
			s.means[j] /= float64(len(rows))
		}
	}
	return s
}

func (s *batch) mean(j int) exp {
	return around(s.means[j], s.meanTol(j))
}

func (s *batch) meanTol(j int) float64 {
	return 1e-15*float64(s.b.T+10)*(s.b.M[j]) + 1e-300
}

// sum is sum over rows of prod (x_j - mean_j)^t_j, with a tolerance for the
// rounding of the incremental formulas.
func (s *batch) sum(t []int) (v, tol float64) {
	terms := make([]float64, len(s.rows))
	for i, r := range s.rows {
		p := 1.0
		for j, e := range t {
			p *= ipow(r[j]-s.means[j], e)
		}
		if s.w != nil {
			p *= s.w[i]
		}
		terms[i] = p
	}
	v = ksum(terms)
	prod, add := 1.0, 0.0
	spread := make([]float64, len(t))
	for j, e := range t {
		spread[j] = s.b.S[j] + s.meanTol(j)
		prod *= ipow(2*spread[j], e)
	}
	// relative error of the deviations, through the mean
	for j, e := range t {
		if e > 0 {
			rest := 1.0
			for l, f := range t {
				if l == j {
					f--
				}
				rest *= ipow(2*spread[l], f)
			}
			add += float64(e) * s.b.M[j] * rest
		}
	}
	n := float64(s.nmax)
	if s.w != nil {
		n = 1
	}
	tol = 1e-14*float64(s.b.T+10)*n*(prod+add) + 1e-300
	return
}

// sqrtRange is [sqrt(v-tol), sqrt(v+tol)], for a variance.
func sqrtRange(v, tol float64) exp {
	lo := v - tol
	if lo < 0 {
		lo = 0
	}
	hi := v + tol
	if hi < 0 {
		hi = 0
	}
	return within(math.Sqrt(lo)*(1-1e-14), math.Sqrt(hi)*(1+1e-14))
}

func ratio(num, ntol, den, dtol float64) exp {
	if den <= 4*dtol || den <= 0 {
		return anyval()
	}
	a := (num - ntol) / (den - dtol)
	b := (num - ntol) / (den + dtol)
	c := (num + ntol) / (den - dtol)
	d := (num + ntol) / (den + dtol)
	lo := math.Min(math.Min(a, b), math.Min(c, d))
	hi := math.Max(math.Max(a, b), math.Max(c, d))
	m := 1e-13 * (math.Abs(lo) + math.Abs(hi))
	return within(lo-m, hi+m)
}

func (s *batch) corr() exp {
	v, t := s.sum([]int{1, 1})
	a, ta := s.sum([]int{2, 0})
	b, tb := s.sum([]int{0, 2})
	if a <= 8*ta || b <= 8*tb {
		return anyval()
	}
	lo := math.Sqrt((a - ta) * (b - tb))
	hi := math.Sqrt((a + ta) * (b + tb))
	return ratio(v, t, (lo+hi)/2, (hi-lo)/2)
}

// powRatio is f(v2) = c * vk / v2^e with v2 in [v2-t2, v2+t2].
func powRatio(c, vk, tk, v2, t2, e float64) exp {
	if v2 <= 8*t2 || v2 <= 0 {
		return anyval()
	}
	lo, hi := math.Pow(v2-t2, e), math.Pow(v2+t2, e)
	r := ratio(vk, tk, (lo+hi)/2, (hi-lo)/2)
	if r.t != eVal {
		return r
	}
	m := 1e-12 * (math.Abs(r.lo) + math.Abs(r.hi)) * math.Abs(c)
	a, b := r.lo*c, r.hi*c
	return within(math.Min(a, b)-m, math.Max(a, b)+m)
}

// ---- order statistics ----

// qval evaluates a quantile at a raw index.
func qval(a []float64, raw float64, interp int) exp {
	n := len(a)
	if raw < 0 {
		raw = 0
	}
	if raw > float64(n-1) {
		raw = float64(n - 1)
	}
	i := int(math.Floor(raw))
	d := raw - float64(i)
	if d == 0 {
		return exact(a[i])
	}
	lo, hi := a[i], a[i+1]
	switch interp {
	case 0:
		if isInf(lo) || isInf(hi) {
			return anyval()
		}
		return around((1-d)*lo+d*hi, relTol(lo, hi))
	case 1:
		return exact(lo)
	case 2:
		return exact(hi)
	case 3:
		switch {
		case d < 0.5:
			return exact(lo)
		case d > 0.5:
			return exact(hi)
		case i%2 == 0:
			return exact(lo)
		}
		return exact(hi)
	}
	return mid(lo, hi)
}

func mid(lo, hi float64) exp {
	m := (lo + hi) / 2
	if m != m || !finite(lo) || !finite(hi) {
		if lo == hi {
			return exact(lo)
		}
		return anyval()
	}
	if math.IsInf(lo+hi, 0) {
		return anyval()
	}
	return around(m, relTol(lo, hi))
}

// dyadic tells whether q*(n-1) is computed without rounding.
func dyadic(q float64) bool { return q*4096 == math.Trunc(q*4096) }

func quantileExp(a []float64, q float64, interp int) exp {
	if !(q > 0 && q < 1) {
		return wantErr("quantile outside (0,1)")
	}
	if len(a) == 0 {
		return wantErr("no values")
	}
	raw := q * float64(len(a)-1)
	e := qval(a, raw, interp)
	if dyadic(q) {
		return e
	}
	near := math.Abs(raw*2-math.Round(raw*2)) < 1e-8
	if !near {
		return e
	}
	// the index cannot be told from its neighbour after rounding
	var alt []exp
	var ends []float64
	for _, d := range []float64{-1e-8, 0, 1e-8, math.Round(raw*2)/2 - raw} {
		f := qval(a, raw+d, interp)
		if f.t != eVal {
			return f
		}
		alt = append(alt, f)
		ends = append(ends, f.lo, f.hi)
	}
	if interp == 0 {
		sort.Float64s(ends)
		lo, hi := ends[0], ends[len(ends)-1]
		if !finite(lo) || !finite(hi) {
			return anyval()
		}
		return within(lo-1e-7*math.Abs(lo), hi+1e-7*math.Abs(hi))
	}
	return oneOf(alt...)
}

func sortedCopy(xs []float64) []float64 {
	a := append([]float64(nil), xs...)
	sort.Float64s(a)
	return a
}

// ---- expectations ----

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// expect is what the metric described by c must report for op in state n.
func expect(c *ObjCfg, n *node, op *Op, b *bounds) exp {
	if c.NoInit {
		return wantErr("not initialised")
	}
	switch c.Kind {
	case "mock", "jmock":
		if mockReadFails(c, n.n) {
			return wantErr("<" + c.Name + ">")
		}
		return exact(mockVal(n.n, n.mh))
	case "max", "min":
		if n.n == 0 {
			return wantErr("no values")
		}
		rows := n.tail(c.W)
		v := rows[0][0]
		for _, r := range rows {
			if (c.Kind == "max" && r[0] > v) || (c.Kind == "min" && r[0] < v) {
				v = r[0]
			}
		}
		return exact(v)
	case "quantile", "median", "iqr", "hmedian":
		if n.n == 0 && (op.Q == 0 || (op.Q > 0 && op.Q < 1)) {
			return wantErr("no values")
		}
		a, ok := n.sorted[c.W]
		if !ok {
			a = sortedCopy(column(n.tail(c.W), 0))
			if n.sorted == nil {
				n.sorted = map[int][]float64{}
			}
			n.sorted[c.W] = a
		}
		switch c.Kind {
		case "quantile":
			return quantileExp(a, float64(op.Q), c.Interp)
		case "iqr":
			x, y := quantileExp(a, 0.25, 4), quantileExp(a, 0.75, 4)
			if x.t != eVal || y.t != eVal {
				return anyval()
			}
			v := (y.lo+y.hi)/2 - (x.lo+x.hi)/2
			if !finite(v) {
				return anyval()
			}
			return around(v, 2*relTol(x.lo, y.hi))
		}
		return quantileExp(a, 0.5, 4)
	}
	if strings.HasPrefix(c.Kind, "auto") {
		pairs := n.n - c.Lag
		if pairs <= 0 {
			return wantErr("fewer than lag+1 values")
		}
		w := c.W
		if w > 0 && pairs > w {
			pairs = w
		}
		xs := n.tail(pairs + c.Lag)
		rows := make([][]float64, pairs)
		for i := range rows {
			rows[i] = []float64{xs[i+c.Lag][0], xs[i][0]}
		}
		bb := &bounds{T: b.T, M: []float64{b.M[0], b.M[0]}, S: []float64{b.S[0], b.S[0]}}
		s := newBatch(rows, 2, nil, bb, maxCount(c.W, b.T))
		if pairs < 2 {
			return anyval()
		}
		if c.Kind == "autocov" {
			v, t := s.sum([]int{1, 1})
			d := float64(pairs - 1)
			return around(v/d, t/d)
		}
		return s.corr()
	}
	return momentExp(c, n, op, b)
}

func maxCount(w, t int) int {
	if w > 0 && w < t {
		return w
	}
	return t
}

func vars(c *ObjCfg) int {
	switch c.Kind {
	case "cov", "corr", "ewmcov", "ewmcorr":
		return 2
	case "jcore":
		if c.Vars > 0 {
			return c.Vars
		}
		return len(c.Tuples[0])
	case "jmock":
		return c.Vars
	case "jagg", "jshared":
		if len(c.Members) == 0 {
			return 2
		}
		return vars(&c.Members[0])
	}
	return 1
}

// maxSum is the highest power a univariate core tracks.
func maxSum(c *ObjCfg) int {
	k := -1
	for _, s := range c.Sums {
		if s > k {
			k = s
		}
	}
	return k
}

func tracked(c *ObjCfg, t []int) bool {
	if len(t) != vars(c) {
		return false
	}
	for _, e := range t {
		if e < 0 {
			return false
		}
	}
	for _, u := range c.Tuples {
		ok := true
		for j := range t {
			if t[j] > u[j] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func momentExp(c *ObjCfg, n *node, op *Op, b *bounds) exp {
	kind := c.Kind
	rows := n.tail(c.W)
	if c.Decay != 0 {
		rows = n.tail(0)
	}
	cnt := len(rows)
	rk := op.K
	if len(rk) > 1 && rk[0] == 'u' {
		rk = rk[1:]
	}
	if kind == "core" || kind == "jcore" {
		if rk == "count" {
			return exact(float64(cnt))
		}
		if rk == "sum" && kind == "core" && (op.I[0] <= 0 || op.I[0] > maxSum(c)) {
			return wantErr("untracked power sum")
		}
		if rk == "sum" && kind == "jcore" && !tracked(c, op.I) {
			return wantErr("untracked power sum")
		}
		if rk == "mean" && kind == "jcore" && (op.I[0] < 0 || op.I[0] >= vars(c)) {
			return wantErr("untracked variable")
		}
	}
	if cnt == 0 {
		return wantErr("no values")
	}
	var w []float64
	if c.Decay != 0 {
		w = weights(cnt, float64(c.Decay))
	}
	s := newBatch(rows, vars(c), w, b, maxCount(c.W, b.T))
	d := float64(cnt - 1)
	switch kind {
	case "mean", "ewma":
		return s.mean(0)
	case "moment":
		if cnt < 2 {
			return anyval()
		}
		v, t := s.sum([]int{c.K})
		return around(v/d, t/d)
	case "ewmm":
		v, t := s.sum([]int{c.K})
		return around(v, t)
	case "std":
		if cnt < 2 {
			return anyval()
		}
		v, t := s.sum([]int{2})
		return sqrtRange(v/d, t/d)
	case "ewmstd":
		v, t := s.sum([]int{2})
		return sqrtRange(v, t)
	case "skew":
		if cnt < 3 {
			return anyval()
		}
		f := float64(cnt)
		v2, t2 := s.sum([]int{2})
		v3, t3 := s.sum([]int{3})
		return powRatio(math.Sqrt(f*(f-1))/(f-2), v3/f, t3/f, v2/f, t2/f, 1.5)
	case "kurt":
		if cnt < 2 {
			return anyval()
		}
		f := float64(cnt)
		v2, t2 := s.sum([]int{2})
		v4, t4 := s.sum([]int{4})
		e := powRatio(1, v4/f, t4/f, v2/f, t2/f, 2)
		if e.t == eVal {
			e.lo -= 3 + 1e-14
			e.hi -= 3 - 1e-14
		}
		return e
	case "cov":
		if cnt < 2 {
			return anyval()
		}
		v, t := s.sum([]int{1, 1})
		return around(v/d, t/d)
	case "ewmcov":
		v, t := s.sum([]int{1, 1})
		return around(v, t)
	case "corr", "ewmcorr":
		return s.corr()
	case "core":
		switch rk {
		case "mean":
			return s.mean(0)
		case "sum":
			v, t := s.sum([]int{op.I[0]})
			return around(v, t)
		}
	case "jcore":
		switch rk {
		case "mean":
			return s.mean(op.I[0])
		case "sum":
			zero := true
			for _, e := range op.I {
				if e != 0 {
					zero = false
				}
			}
			if zero {
				return anyval()
			}
			v, t := s.sum(op.I)
			return around(v, t)
		}
	}
	panic("harness: no model for " + kind + "." + op.K)
}

// ---- whole objects ----

// sharedCore is the configuration of the core behind a shared object.
func sharedCore(c *ObjCfg) *ObjCfg {
	k := &ObjCfg{Kind: "core", W: c.Members[0].W, Decay: c.Members[0].Decay}
	if c.Kind == "jshared" || c.Kind == "ashared" {
		k.Kind = "jcore"
	}
	if c.Kind == "ashared" {
		k.W = c.W
	}
	for i := range c.Members {
		m := &c.Members[i]
		switch m.Kind {
		case "moment", "ewmm":
			k.Sums = append(k.Sums, m.K)
		case "std", "ewmstd":
			k.Sums = append(k.Sums, 2)
		case "skew":
			k.Sums = append(k.Sums, 2, 3)
		case "kurt":
			k.Sums = append(k.Sums, 2, 4)
		case "core":
			k.Sums = append(k.Sums, m.Sums...)
		case "cov", "ewmcov", "autocov":
			k.Tuples = append(k.Tuples, []int{1, 1})
		case "corr", "ewmcorr", "autocorr":
			k.Tuples = append(k.Tuples, []int{1, 1}, []int{2, 0}, []int{0, 2})
		case "jcore":
			k.Tuples = append(k.Tuples, m.Tuples...)
		}
	}
	k.Vars = vars(c)
	if c.Kind == "ashared" {
		k.Vars = 2
	}
	return k
}

func tupleKey(t []int) string {
	if len(t) == 0 {
		return ""
	}
	return fmt.Sprint(t)
}

// expectMemo evaluates (and remembers) one reading of member m.
func expectMemo(c *ObjCfg, m int, n *node, op *Op, b *bounds) exp {
	key := memoKey{m, op.K, float64(op.Q), tupleKey(op.I)}
	if e, ok := n.memo[key]; ok {
		return e
	}
	e := expect(c, n, op, b)
	if n.memo == nil {
		n.memo = map[memoKey]exp{}
	}
	n.memo[key] = e
	return e
}

var valueOp = Op{K: "value"}

// pairNode is the state of a core that is fed with pairs (x_t, x_(t-lag)).
func pairNode(c *ObjCfg, n *node) *node {
	if n.pairs != nil {
		return n.pairs
	}
	p := &node{}
	if k := n.n - c.Lag; k > 0 {
		if c.W > 0 && k > c.W {
			k = c.W
		}
		xs := n.tail(k + c.Lag)
		for i := 0; i < k; i++ {
			p = &node{parent: p, x: []float64{xs[i+c.Lag][0], xs[i][0]}, n: p.n + 1}
		}
	}
	n.pairs = p
	return p
}

// readOK tells whether a reading may return r in state n.
func (l *lin) readOK(n *node, op *Op, r *Res) (bool, string) {
	c := l.cfg
	if op.Bad || op.K == "string" || op.K == "config" {
		return true, "" // the executor checks that an error came back
	}
	switch c.Kind {
	case "agg", "jagg":
		return l.valuesOK(n, op, r)
	case "ashared":
		mc, m := l.core, n
		if op.M > 0 && c.Members[op.M-1].Kind != "jcore" {
			mc = &c.Members[op.M-1]
		}
		bb := l.b
		if !strings.HasPrefix(mc.Kind, "auto") {
			m = pairNode(c, n)
			bb = &bounds{T: l.b.T, M: []float64{l.b.M[0], l.b.M[0]}, S: []float64{l.b.S[0], l.b.S[0]}}
		}
		return l.matchRes(expectMemo(mc, op.M, m, op, bb), op, r)
	case "shared", "jshared":
		mc := l.core
		if op.M > 0 {
			mc = &c.Members[op.M-1]
			if mc.Kind == "core" || mc.Kind == "jcore" {
				mc = l.core
			}
		}
		e := expectMemo(mc, op.M, n, op, l.b)
		return l.matchRes(e, op, r)
	}
	e := expectMemo(c, 0, n, op, l.b)
	return l.matchRes(e, op, r)
}

func (l *lin) matchRes(e exp, op *Op, r *Res) (bool, string) {
	if strings.HasSuffix(op.K, "count") {
		if e.lo != float64(r.N) {
			return false, e.String()
		}
		return true, ""
	}
	if !e.match(r) {
		return false, e.String()
	}
	if r.Err == "" {
		e.slack(r.V)
	}
	return true, ""
}

func (l *lin) valuesOK(n *node, op *Op, r *Res) (bool, string) {
	c := l.cfg
	var fails []string
	soft := false
	want := map[string]exp{}
	desc := ""
	for i := range c.Members {
		e := expectMemo(&c.Members[i], i+1, n, &valueOp, l.b)
		if e.t == eErr {
			if strings.HasPrefix(e.why, "<") {
				fails = append(fails, e.why)
			} else {
				fails = append(fails, "")
			}
		}
		if e.t == eAny {
			soft = true
		}
		want[l.names[i]] = e
		desc += l.names[i] + ": " + e.String() + "; "
	}
	if len(fails) > 0 {
		if r.Err == "" {
			return false, desc
		}
		if len(r.Vs) > 0 {
			return false, desc + " (an error and values were returned)"
		}
		for _, f := range fails {
			if !strings.Contains(r.Err, f) {
				return false, desc + " (the error of " + f + " is missing)"
			}
		}
		return true, ""
	}
	if r.Err != "" {
		if soft && !strings.Contains(r.Err, "failure of <") {
			return true, ""
		}
		return false, desc
	}
	if len(r.Vs) != len(want) {
		return false, desc
	}
	for k, e := range want {
		v, ok := r.Vs[k]
		if !ok {
			return false, desc
		}
		if e.t == eVal {
			if !e.has(v) {
				return false, desc
			}
			e.slack(v)
		}
	}
	return true, ""
}

// pushOK checks what a push returned (it does not depend on the state).
func pushOK(c *ObjCfg, op *Op, r *Res) (bool, string) {
	if c.NoInit {
		return r.Err != "", "error (not initialised)"
	}
	var fails []string
	for i := range c.Members {
		m := &c.Members[i]
		if (m.Kind == "mock" || m.Kind == "jmock") && mockPushFails(m, float64(op.X[0])) {
			fails = append(fails, m.Name)
		}
	}
	if (c.Kind == "mock" || c.Kind == "jmock") && mockPushFails(c, float64(op.X[0])) {
		fails = append(fails, c.Name)
	}
	if len(fails) == 0 {
		return r.Err == "", "no error"
	}
	for _, f := range fails {
		if !strings.Contains(r.Err, "push failure of <"+f+">") {
			return false, fmt.Sprintf("an error that includes those of %v", fails)
		}
	}
	return true, ""
}

func nodeHash(op uint64, x []float64) uint64 {
	h := op
	for _, v := range x {
		h = rt.Mix(h, fbits(v))
	}
	return h
}
