package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"

	"verif.local/rt"
	"verif.local/rt/vrand"
)

func fbits(x float64) uint64 {
	if x != x {
		return 0x7ff8000000000001
	}
	return math.Float64bits(x)
}

// Obj is a live object under test.
type Obj struct {
	cfg   *ObjCfg
	do    func(op *Op, r *Res)
	mocks []*mock
	names []string    // aggregates: the key of each member
	root  interface{} // what the object's memory is reachable from
	sig   string
	note  string // what the constructor did to its arguments
}

type uniMetric interface {
	Push(float64) error
	Value() (float64, error)
	Clear()
	String() string
}

type jointMetric interface {
	Push(...float64) error
	Value() (float64, error)
	Clear()
	String() string
}

func setErr(r *Res, err error) {
	if err != nil {
		r.Err = "!" + err.Error()
	}
}

func setV(r *Res, v float64, err error) {
	if err != nil {
		setErr(r, err)
		return
	}
	r.V = v
}

// ---- mocks: the simulated metrics of an aggregate ----

// mock is deliberately not safe for concurrent use.
type mock struct {
	c   *ObjCfg
	n   int
	h   uint64
	log []mockIv
}

func mockStep(h uint64, xs []float64) uint64 {
	for _, x := range xs {
		h = rt.Mix(h, fbits(x))
	}
	return rt.Mix(h, uint64(len(xs)))
}

func mockVal(n int, h uint64) float64 { return float64(n%4096)*(1<<24) + float64(h&0xffffff) }

func mockPushFails(c *ObjCfg, x float64) bool {
	return c.FailM > 0 && ((int(math.Floor(x))%c.FailM)+c.FailM)%c.FailM == c.FailR
}

func mockReadFails(c *ObjCfg, n int) bool { return c.VFailM > 0 && n%c.VFailM == c.VFailR }

func (m *mock) slow() {
	rt.Y()
	if m.c.Slow > 0 {
		rt.SleepSteps(m.c.Slow)
	}
	rt.Y()
}

func (m *mock) push(xs []float64) error {
	defer m.end(m.begin('p'))
	n, h := m.n, m.h
	m.slow()
	m.n = n + 1
	rt.Y()
	m.h = mockStep(h, xs)
	rt.Y()
	if len(xs) > 0 && mockPushFails(m.c, xs[0]) {
		return errors.New("push failure of <" + m.c.Name + ">")
	}
	return nil
}

func (m *mock) Value() (float64, error) {
	defer m.end(m.begin('v'))
	n := m.n
	m.slow()
	h := m.h
	if mockReadFails(m.c, n) {
		return 0, errors.New("read failure of <" + m.c.Name + ">")
	}
	return mockVal(n, h), nil
}

func (m *mock) Clear() {
	defer m.end(m.begin('c'))
	m.slow()
	m.n = 0
	rt.Y()
	m.h = 0
}

func (m *mock) String() string { return m.c.Name }

type umock struct{ mock }

func (m *umock) Push(x float64) error { return m.push([]float64{x}) }

type jmock struct{ mock }

func (m *jmock) Push(xs ...float64) error { return m.push(xs) }

// ---- construction ----

func skipOpts(c *ObjCfg) []order.Option {
	var o []order.Option
	if c.Level > 0 {
		o = append(o, skiplist.MaxLevelOption(c.Level))
	}
	if c.Prob != 0 {
		o = append(o, skiplist.ProbabilityOption(float64(c.Prob)))
	}
	if c.HasRand {
		o = append(o, skiplist.RandOption(vrand.New(rt.NewSimSource(c.RandS, c.RandM))))
	}
	return o
}

// quantOpts returns the options in a slice that has room to spare, and a check
// that nobody wrote to it.
func quantOpts(c *ObjCfg, interp bool) ([]quantile.Option, func() string, func()) {
	var oo []order.Option
	if c.Impl == 2 {
		oo = skipOpts(c)
	}
	sentinelHit := false
	sentinel := func(*quantile.Quantile) error { sentinelHit = true; return nil }
	buf := make([]quantile.Option, 0, 6)
	if c.Impl > 0 || c.Scrib > 0 {
		buf = append(buf, quantile.ImplOption(quantile.Impl(c.Impl), oo...))
	}
	if interp && (c.Interp > 0 || c.Scrib > 0) {
		buf = append(buf, quantile.InterpolationOption(quantile.Interpolation(c.Interp)))
	}
	n := len(buf)
	full := buf[:cap(buf)]
	for i := n; i < len(full); i++ {
		full[i] = sentinel
	}
	ptrs := make([]uintptr, len(full))
	for i := range full {
		ptrs[i] = reflect.ValueOf(full[i]).Pointer()
	}
	check := func() string {
		for i := range full {
			if full[i] == nil || reflect.ValueOf(full[i]).Pointer() != ptrs[i] {
				return fmt.Sprintf("the constructor overwrote element %d of the caller's option array (the caller passed %d options)", i, n)
			}
		}
		if sentinelHit {
			return "the constructor called an option that was not passed"
		}
		return ""
	}
	scrib := func() {
		bad := quantile.Option(func(*quantile.Quantile) error { return errors.New("stale option used") })
		for i := range full {
			full[i] = bad
		}
		for i := range oo {
			oo[i] = func(order.Statistic) error { return errors.New("stale option used") }
		}
	}
	return buf, check, scrib
}

func mcfg(c *ObjCfg) *moment.CoreConfig {
	k := &moment.CoreConfig{}
	w := c.W
	if c.Decay != 0 {
		d := float64(c.Decay)
		k.Decay = &d
		w = 0
	}
	k.Window = &w
	if c.Sums != nil {
		k.Sums = moment.SumsConfig{}
		for _, s := range c.Sums {
			k.Sums[s] = true
		}
	}
	return k
}

func mcfgSig(k *moment.CoreConfig) string {
	s := fmt.Sprintf("sums=%v(nil:%v)", map[int]bool(k.Sums), k.Sums == nil)
	if k.Window != nil {
		s += fmt.Sprint(" window=", *k.Window)
	}
	if k.Decay != nil {
		s += fmt.Sprint(" decay=", *k.Decay)
	}
	return s
}

func mcfgScrib(k *moment.CoreConfig) {
	if k.Sums != nil {
		for s := range k.Sums {
			delete(k.Sums, s)
		}
		k.Sums[1] = true
	}
	if k.Window != nil {
		*k.Window = 1
	}
	if k.Decay != nil {
		*k.Decay = 0.9375
	}
}

func jcfg(c *ObjCfg) *joint.CoreConfig {
	k := &joint.CoreConfig{}
	w := c.W
	if c.Decay != 0 {
		d := float64(c.Decay)
		k.Decay = &d
		w = 0
	}
	k.Window = &w
	if c.Vars > 0 {
		v := c.Vars
		k.Vars = &v
	}
	if c.Tuples != nil {
		k.Sums = joint.SumsConfig{}
		for _, t := range c.Tuples {
			k.Sums = append(k.Sums, append(joint.Tuple{}, t...))
		}
	}
	return k
}

func jcfgSig(k *joint.CoreConfig) string {
	s := fmt.Sprintf("sums=%v(nil:%v)", k.Sums, k.Sums == nil)
	if k.Window != nil {
		s += fmt.Sprint(" window=", *k.Window)
	}
	if k.Decay != nil {
		s += fmt.Sprint(" decay=", *k.Decay)
	}
	if k.Vars != nil {
		s += fmt.Sprint(" vars=", *k.Vars)
	}
	return s
}

func jcfgScrib(k *joint.CoreConfig) {
	for i := range k.Sums {
		for j := range k.Sums[i] {
			k.Sums[i][j] = 1
		}
		k.Sums[i] = joint.Tuple{1, 1}
	}
	if k.Window != nil {
		*k.Window = 1
	}
	if k.Decay != nil {
		*k.Decay = 0.9375
	}
	if k.Vars != nil {
		*k.Vars = 2
	}
}

func momentMetric(c *ObjCfg) (interface {
	uniMetric
	moment.CoreWrapper
}, bool) {
	d := float64(c.Decay)
	g := c.Global && c.W == 0
	switch c.Kind {
	case "mean":
		if g {
			return moment.NewGlobalMean(), true
		}
		return moment.NewMean(c.W), true
	case "moment":
		if g {
			return moment.NewGlobal(c.K), true
		}
		return moment.New(c.K, c.W), true
	case "std":
		if g {
			return moment.NewGlobalStd(), true
		}
		return moment.NewStd(c.W), true
	case "skew":
		if g {
			return moment.NewGlobalSkewness(), true
		}
		return moment.NewSkewness(c.W), true
	case "kurt":
		if g {
			return moment.NewGlobalKurtosis(), true
		}
		return moment.NewKurtosis(c.W), true
	case "ewma":
		return moment.NewEWMA(d), true
	case "ewmm":
		return moment.NewEWMMoment(c.K, d), true
	case "ewmstd":
		return moment.NewEWMStd(d), true
	}
	return nil, false
}

func jMetric(c *ObjCfg) (interface {
	jointMetric
	joint.CoreWrapper
}, bool) {
	d := float64(c.Decay)
	g := c.Global && c.W == 0
	switch c.Kind {
	case "cov":
		if g {
			return joint.NewGlobalCov(), true
		}
		return joint.NewCov(c.W), true
	case "corr":
		if g {
			return joint.NewGlobalCorr(), true
		}
		return joint.NewCorr(c.W), true
	case "ewmcov":
		return joint.NewEWMCov(d), true
	case "ewmcorr":
		return joint.NewEWMCorr(d), true
	}
	return nil, false
}

// univariate builds a metric with Push(x) and Value().
func univariate(c *ObjCfg) (uniMetric, error) {
	if m, ok := momentMetric(c); ok {
		if c.NoInit {
			return m, nil
		}
		if c.Scrib > 0 {
			// a config handed out by a metric belongs to the caller
			before := mcfgSig(m.Config())
			mcfgScrib(m.Config())
			if s := mcfgSig(m.Config()); s != before {
				return nil, fmt.Errorf("changing the config that %v returned changed the metric: %s, was %s", m, s, before)
			}
			k := m.Config()
			core, err := moment.NewCore(k)
			if err != nil {
				return nil, err
			}
			m.SetCore(core)
			mcfgScrib(k)
			return m, nil
		}
		return m, moment.Init(m)
	}
	switch c.Kind {
	case "autocov", "autocorr":
		var m interface {
			uniMetric
			joint.CoreWrapper
		}
		var err error
		switch {
		case c.Kind == "autocov" && c.Global && c.W == 0:
			m, err = joint.NewGlobalAutocov(c.Lag)
		case c.Kind == "autocov":
			m, err = joint.NewAutocov(c.Lag, c.W)
		case c.Global && c.W == 0:
			m, err = joint.NewGlobalAutocorr(c.Lag)
		default:
			m, err = joint.NewAutocorr(c.Lag, c.W)
		}
		if err != nil {
			return nil, err
		}
		if c.NoInit {
			return m, nil
		}
		if c.Scrib > 0 {
			before := jcfgSig(m.Config())
			jcfgScrib(m.Config())
			if s := jcfgSig(m.Config()); s != before {
				return nil, fmt.Errorf("changing the config that %v returned changed the metric: %s, was %s", m, s, before)
			}
			k := m.Config()
			core, err := joint.NewCore(k)
			if err != nil {
				return nil, err
			}
			m.SetCore(core)
			jcfgScrib(k)
			return m, nil
		}
		return m, joint.Init(m)
	case "max":
		if c.Global && c.W == 0 {
			return minmax.NewGlobalMax(), nil
		}
		return minmax.NewMax(c.W)
	case "min":
		if c.Global && c.W == 0 {
			return minmax.NewGlobalMin(), nil
		}
		return minmax.NewMin(c.W)
	case "hmedian":
		if c.Global && c.W == 0 {
			return quantile.NewGlobalHeapMedian(), nil
		}
		return quantile.NewHeapMedian(c.W)
	case "median", "iqr":
		o, check, scrib := quantOpts(c, false)
		var m uniMetric
		var err error
		switch {
		case c.Kind == "median" && c.Global && c.W == 0:
			m, err = quantile.NewGlobalMedian(o...)
		case c.Kind == "median":
			m, err = quantile.NewMedian(c.W, o...)
		case c.Global && c.W == 0:
			m, err = quantile.NewGlobalIQR(o...)
		default:
			m, err = quantile.NewIQR(c.W, o...)
		}
		if err != nil {
			return nil, err
		}
		if s := check(); s != "" && c.Scrib > 0 {
			return nil, errors.New(s)
		}
		if c.Scrib > 0 {
			scrib()
		}
		return m, nil
	case "mock":
		return &umock{mock{c: c}}, nil
	}
	return nil, fmt.Errorf("unknown univariate kind %q", c.Kind)
}

// preUse gives a metric a core of its own and uses it a little.
func preUse(n int, init func() error, push func(float64) error) error {
	if n == 0 {
		return nil
	}
	if err := init(); err != nil {
		return err
	}
	for i := 1; i < n; i++ {
		if err := push(float64(7*i%5) - 100); err != nil {
			return err
		}
	}
	return nil
}

func pairs(m jointMetric) func(float64) error {
	return func(x float64) error { return m.Push(x, 3-x*x) }
}

func jvariate(c *ObjCfg) (jointMetric, error) {
	if m, ok := jMetric(c); ok {
		if c.NoInit {
			return m, nil
		}
		if c.Scrib > 0 {
			before := jcfgSig(m.Config())
			jcfgScrib(m.Config())
			if s := jcfgSig(m.Config()); s != before {
				return nil, fmt.Errorf("changing the config that %v returned changed the metric: %s, was %s", m, s, before)
			}
			k := m.Config()
			core, err := joint.NewCore(k)
			if err != nil {
				return nil, err
			}
			m.SetCore(core)
			jcfgScrib(k)
			return m, nil
		}
		return m, joint.Init(m)
	}
	if c.Kind == "jmock" {
		return &jmock{mock{c: c}}, nil
	}
	return nil, fmt.Errorf("unknown joint kind %q", c.Kind)
}

func isUni(kind string) bool {
	switch kind {
	case "mean", "moment", "std", "skew", "kurt", "ewma", "ewmm", "ewmstd", "autocov", "autocorr", "max", "min", "hmedian", "median", "iqr", "mock":
		return true
	}
	return false
}

func isJoint(kind string) bool {
	switch kind {
	case "cov", "corr", "ewmcov", "ewmcorr", "jmock":
		return true
	}
	return false
}

type container interface {
	Add(float64)
	Remove(float64)
	Size() int
	Select(int) order.Node
	Rank(float64) int
	Clear()
	String() string
}

func build(c *ObjCfg) (*Obj, error) {
	ob := &Obj{cfg: c}
	switch {
	case isUni(c.Kind):
		m, err := univariate(c)
		if err != nil {
			return nil, err
		}
		sig, _ := cfgSig(m, false)
		ob.root, ob.sig = m, sig
		ob.do = func(op *Op, r *Res) {
			if op.K == "config" {
				doConfig(m, c, sig, op, r)
				return
			}
			doUni(m, op, r)
		}
		return ob, nil
	case isJoint(c.Kind):
		m, err := jvariate(c)
		if err != nil {
			return nil, err
		}
		sig, _ := cfgSig(m, false)
		ob.root, ob.sig = m, sig
		ob.do = func(op *Op, r *Res) {
			if op.K == "config" {
				doConfig(m, c, sig, op, r)
				return
			}
			doJoint(m, op, r)
		}
		return ob, nil
	}
	switch c.Kind {
	case "core":
		k := mcfg(c)
		before := mcfgSig(k)
		core, err := moment.NewCore(k)
		if err != nil {
			return nil, err
		}
		if s := mcfgSig(k); c.Scrib > 0 && s != before {
			return nil, fmt.Errorf("NewCore changed the caller's config: %s, was %s", s, before)
		}
		if c.Scrib > 0 {
			mcfgScrib(k)
		}
		ob.root = core
		ob.do = func(op *Op, r *Res) { doCore(core, op, r) }
	case "jcore":
		k := jcfg(c)
		before := jcfgSig(k)
		core, err := joint.NewCore(k)
		if err != nil {
			return nil, err
		}
		if s := jcfgSig(k); c.Scrib > 0 && s != before {
			return nil, fmt.Errorf("NewCore changed the caller's config: %s, was %s", s, before)
		}
		if c.Scrib > 0 {
			jcfgScrib(k)
		}
		ob.root = core
		ob.do = func(op *Op, r *Res) { doJCore(core, op, r) }
	case "quantile":
		o, check, scrib := quantOpts(c, true)
		var q *quantile.Quantile
		var err error
		if c.Global && c.W == 0 {
			q, err = quantile.NewGlobalQuantile(o...)
		} else {
			q, err = quantile.New(c.W, o...)
		}
		if err != nil {
			return nil, err
		}
		if s := check(); s != "" && c.Scrib > 0 {
			return nil, errors.New(s)
		}
		if c.Scrib > 0 {
			scrib()
		}
		ob.root = q
		ob.do = func(op *Op, r *Res) { doQuantile(q, op, r) }
	case "avl":
		t := &avl.Tree{}
		ob.root = t
		ob.do = func(op *Op, r *Res) { doCont(t, op, r) }
	case "rb":
		t := &rb.Tree{}
		ob.root = t
		ob.do = func(op *Op, r *Res) { doCont(t, op, r) }
	case "skip":
		o := skipOpts(c)
		t, err := skiplist.New(o...)
		if err != nil {
			return nil, err
		}
		ob.root = t
		ob.do = func(op *Op, r *Res) { doCont(t, op, r) }
	case "agg":
		var ms []stream.SimpleMetric
		for i := range c.Members {
			m, err := univariate(&c.Members[i])
			if err != nil {
				return nil, err
			}
			ms = append(ms, m)
			if k, ok := interface{}(m).(*umock); ok {
				ob.mocks = append(ob.mocks, &k.mock)
			} else if k, ok := interface{}(m).(*jmock); ok {
				ob.mocks = append(ob.mocks, &k.mock)
			}
			ob.names = append(ob.names, m.String())
		}
		a := aggregate.NewSimpleAggregateMetric(ms...)
		ob.root = a
		if c.Scrib > 0 {
			for i := range ms {
				ms[i] = nil
			}
		}
		ob.do = func(op *Op, r *Res) {
			switch op.K {
			case "push":
				setErr(r, a.Push(float64(op.X[0])))
			case "values":
				v, err := a.Values()
				setVals(op, r, v, err)
			case "clear":
				a.Clear()
			default:
				panic("harness: bad op " + op.K)
			}
		}
	case "jagg":
		var ms []stream.SimpleJointMetric
		for i := range c.Members {
			m, err := jvariate(&c.Members[i])
			if err != nil {
				return nil, err
			}
			ms = append(ms, m)
			if k, ok := interface{}(m).(*umock); ok {
				ob.mocks = append(ob.mocks, &k.mock)
			} else if k, ok := interface{}(m).(*jmock); ok {
				ob.mocks = append(ob.mocks, &k.mock)
			}
			ob.names = append(ob.names, m.String())
		}
		a := aggregate.NewSimpleJointAggregateMetric(ms...)
		ob.root = a
		if c.Scrib > 0 {
			for i := range ms {
				ms[i] = nil
			}
		}
		ob.do = func(op *Op, r *Res) {
			switch op.K {
			case "push":
				pushSlice(op, r, a.Push)
			case "values":
				v, err := a.Values()
				setVals(op, r, v, err)
			case "clear":
				a.Clear()
			default:
				panic("harness: bad op " + op.K)
			}
		}
	case "shared":
		var ws []moment.CoreWrapper
		var ms []uniMetric
		var cs []*moment.CoreConfig
		for i := range c.Members {
			m, ok := momentMetric(&c.Members[i])
			if !ok {
				if c.Members[i].Kind == "core" {
					ws, ms = append(ws, nil), append(ms, nil)
					cs = append(cs, mcfg(&c.Members[i]))
					continue
				}
				return nil, fmt.Errorf("cannot share a core with %q", c.Members[i].Kind)
			}
			if err := preUse(c.Members[i].Pre, func() error { return moment.Init(m) }, m.Push); err != nil {
				return nil, err
			}
			ws, ms = append(ws, m), append(ms, m)
			cs = append(cs, m.Config())
		}
		ordered := make([]*moment.CoreConfig, len(cs))
		sigs := make([]string, len(cs))
		for i, j := range c.Order {
			ordered[i] = cs[j]
		}
		for i := range cs {
			sigs[i] = mcfgSig(cs[i])
		}
		k, err := mergeAll(c.Nest, ordered, func(a ...*moment.CoreConfig) (*moment.CoreConfig, error) { return moment.MergeConfigs(a...) })
		if err != nil {
			return nil, err
		}
		core, err := moment.NewCore(k)
		if err != nil {
			return nil, err
		}
		for i := range cs {
			if s := mcfgSig(cs[i]); c.Scrib > 0 && s != sigs[i] {
				return nil, fmt.Errorf("merging changed the caller's config: %s, was %s", s, sigs[i])
			}
		}
		if c.Scrib > 0 {
			for i := range cs {
				mcfgScrib(cs[i])
			}
			mcfgScrib(k)
		}
		for i := range ws {
			if ws[i] != nil {
				ws[i].SetCore(core)
			}
		}
		ob.root = []interface{}{core, ms}
		ob.do = func(op *Op, r *Res) {
			if op.M > 0 && ms[op.M-1] != nil {
				doUni(ms[op.M-1], op, r)
			} else {
				doCore(core, op, r)
			}
		}
	case "jshared":
		var ws []joint.CoreWrapper
		var ms []jointMetric
		var cs []*joint.CoreConfig
		for i := range c.Members {
			m, ok := jMetric(&c.Members[i])
			if !ok {
				if c.Members[i].Kind == "jcore" {
					ws, ms = append(ws, nil), append(ms, nil)
					cs = append(cs, jcfg(&c.Members[i]))
					continue
				}
				return nil, fmt.Errorf("cannot share a core with %q", c.Members[i].Kind)
			}
			if err := preUse(c.Members[i].Pre, func() error { return joint.Init(m) }, pairs(m)); err != nil {
				return nil, err
			}
			ws, ms = append(ws, m), append(ms, m)
			cs = append(cs, m.Config())
		}
		ordered := make([]*joint.CoreConfig, len(cs))
		sigs := make([]string, len(cs))
		for i, j := range c.Order {
			ordered[i] = cs[j]
		}
		for i := range cs {
			sigs[i] = jcfgSig(cs[i])
		}
		k, err := mergeAll(c.Nest, ordered, func(a ...*joint.CoreConfig) (*joint.CoreConfig, error) { return joint.MergeConfigs(a...) })
		if err != nil {
			return nil, err
		}
		core, err := joint.NewCore(k)
		if err != nil {
			return nil, err
		}
		for i := range cs {
			if s := jcfgSig(cs[i]); c.Scrib > 0 && s != sigs[i] {
				return nil, fmt.Errorf("merging changed the caller's config: %s, was %s", s, sigs[i])
			}
		}
		if c.Scrib > 0 {
			for i := range cs {
				jcfgScrib(cs[i])
			}
			jcfgScrib(k)
		}
		for i := range ws {
			if ws[i] != nil {
				ws[i].SetCore(core)
			}
		}
		ob.root = []interface{}{core, ms}
		ob.do = func(op *Op, r *Res) {
			if op.M > 0 && ms[op.M-1] != nil {
				doJoint(ms[op.M-1], op, r)
			} else {
				doJCore(core, op, r)
			}
		}
	case "ashared":
		// an autocovariance or autocorrelation feeds a core of pairs that other
		// metrics (and the caller) read
		var ws []joint.CoreWrapper
		var ms []uniMetric // those with Push(x)
		var js []jointMetric
		var cs []*joint.CoreConfig
		for i := range c.Members {
			m := c.Members[i]
			switch m.Kind {
			case "autocov", "autocorr":
				m.NoInit = true
				u, err := univariate(&m)
				if err != nil {
					return nil, err
				}
				if err := preUse(m.Pre, func() error { return joint.Init(u.(joint.CoreWrapper)) }, u.Push); err != nil {
					return nil, err
				}
				if m.Pre > 0 {
					u.Clear() // the lag history is the metric's own
				}
				ws, ms, js = append(ws, u.(joint.CoreWrapper)), append(ms, u), append(js, nil)
				cs = append(cs, u.(joint.CoreWrapper).Config())
			case "jcore":
				ws, ms, js = append(ws, nil), append(ms, nil), append(js, nil)
				cs = append(cs, jcfg(&m))
			default:
				j, ok := jMetric(&m)
				if !ok {
					return nil, fmt.Errorf("cannot share a core with %q", m.Kind)
				}
				if err := preUse(m.Pre, func() error { return joint.Init(j) }, pairs(j)); err != nil {
					return nil, err
				}
				ws, ms, js = append(ws, j), append(ms, nil), append(js, j)
				cs = append(cs, j.Config())
			}
		}
		ordered := make([]*joint.CoreConfig, len(cs))
		for i, j := range c.Order {
			ordered[i] = cs[j]
		}
		k, err := mergeAll(c.Nest, ordered, func(a ...*joint.CoreConfig) (*joint.CoreConfig, error) { return joint.MergeConfigs(a...) })
		if err != nil {
			return nil, err
		}
		core, err := joint.NewCore(k)
		if err != nil {
			return nil, err
		}
		for i := range ws {
			if ws[i] != nil {
				ws[i].SetCore(core)
			}
		}
		ob.root = []interface{}{core, ms, js}
		ob.do = func(op *Op, r *Res) {
			switch {
			case op.K == "push" && !op.Bad || op.K == "clear":
				doUni(ms[0], op, r)
			case op.M > 0 && ms[op.M-1] != nil:
				doUni(ms[op.M-1], op, r)
			case op.M > 0 && js[op.M-1] != nil:
				doJoint(js[op.M-1], op, r)
			default:
				doJCore(core, op, r)
			}
		}
	case "res":
		s := &sample.Reservoir{Size: c.Size}
		ob.root = s
		ob.do = func(op *Op, r *Res) {
			switch op.K {
			case "push":
				s.Push(op.I[0])
			case "sample":
				l := s.Sample()
				r.L = make([]int, 0, len(l))
				for _, x := range l {
					k, ok := x.(int)
					if !ok {
						k = math.MinInt32
					}
					r.L = append(r.L, k)
				}
				if op.S > 0 {
					for i := range l {
						l[i] = -999999
					}
					if op.S > 1 {
						l = append(l, -888888)
					}
				}
			default:
				panic("harness: bad op " + op.K)
			}
		}
	case "heap":
		return buildHeaps(c), nil
	case "none":
		ob.do = func(op *Op, r *Res) { panic("harness: bad op " + op.K) }
	default:
		return nil, fmt.Errorf("unknown kind %q", c.Kind)
	}
	return ob, nil
}

// mergeAll merges configs at once (0), folding from the left (1), from the
// right (2) or as a balanced tree (3).
func mergeAll[T any](nest int, c []T, merge func(...T) (T, error)) (T, error) {
	var zero T
	if len(c) <= 2 || nest == 0 {
		return merge(c...)
	}
	switch nest {
	case 1:
		a := c[0]
		for _, b := range c[1:] {
			m, err := merge(a, b)
			if err != nil {
				return zero, err
			}
			a = m
		}
		return a, nil
	case 2:
		a := c[len(c)-1]
		for i := len(c) - 2; i >= 0; i-- {
			m, err := merge(c[i], a)
			if err != nil {
				return zero, err
			}
			a = m
		}
		return a, nil
	}
	l, err := mergeAll(nest, c[:len(c)/2], merge)
	if err != nil {
		return zero, err
	}
	r, err := mergeAll(nest, c[len(c)/2:], merge)
	if err != nil {
		return zero, err
	}
	return merge(l, r)
}

// ---- calls ----

// cfgSig describes the config that a metric hands out, and (scrib) overwrites it.
func cfgSig(m interface{}, scrib bool) (string, bool) {
	switch m := m.(type) {
	case moment.CoreWrapper:
		k := m.Config()
		s := mcfgSig(k)
		if scrib {
			mcfgScrib(k)
		}
		return s, true
	case joint.CoreWrapper:
		k := m.Config()
		s := jcfgSig(k)
		if scrib {
			jcfgScrib(k)
		}
		return s, true
	}
	return "", false
}

// doConfig asks a metric for its config, which never changes.
func doConfig(m interface{}, c *ObjCfg, sig string, op *Op, r *Res) {
	s, ok := cfgSig(m, op.S > 0)
	if ok && s != sig {
		r.Note = fmt.Sprintf("the config of %s changed from %s to %s", objStr(c), sig, s)
	}
	if i, ok := m.(interface{ IsSetCore() bool }); ok && i.IsSetCore() == c.NoInit {
		r.Note = fmt.Sprintf("IsSetCore of %s (initialised: %v) returned %v", objStr(c), !c.NoInit, c.NoInit)
	}
}

func hasConfig(kind string) bool {
	switch kind {
	case "mean", "moment", "std", "skew", "kurt", "ewma", "ewmm", "ewmstd", "autocov", "autocorr", "cov", "corr", "ewmcov", "ewmcorr":
		return true
	}
	return false
}

func setVals(op *Op, r *Res, v map[string]float64, err error) {
	setErr(r, err)
	if err != nil {
		if len(v) > 0 {
			r.Vs = map[string]float64{}
			for k, x := range v {
				r.Vs[k] = x
			}
		}
		return
	}
	r.Vs = map[string]float64{}
	for k, x := range v {
		r.Vs[k] = x
	}
	if op.S > 0 && v != nil {
		for k := range v {
			v[k] = -12345.678
		}
		v["scribble"] = 1
	}
}

// pushSlice passes a caller's slice, looks whether the callee wrote to it, and
// (op.S) reuses it for something else afterwards.
func pushSlice(op *Op, r *Res, push func(...float64) error) {
	n := len(op.X)
	buf := make([]float64, n+3)
	for i := range op.X {
		buf[i] = float64(op.X[i])
	}
	for i := n; i < len(buf); i++ {
		buf[i] = 77.25 + float64(i)
	}
	arg := buf[:n]
	setErr(r, push(arg...))
	for i := range buf {
		want := 77.25 + float64(i)
		if i < n {
			want = float64(op.X[i])
		}
		if fbits(buf[i]) != fbits(want) {
			r.Note = fmt.Sprintf("the call changed element %d of the caller's slice from %v to %v", i, want, buf[i])
		}
	}
	if op.S > 0 {
		for i := range buf {
			buf[i] = -4321.5 * float64(i+op.S)
		}
	}
}

func intsOf(op *Op, r *Res, f func(...int) (float64, error)) {
	n := len(op.I)
	buf := make([]int, n+2)
	copy(buf, op.I)
	v, err := f(buf[:n]...)
	setV(r, v, err)
	for i := range op.I {
		if buf[i] != op.I[i] {
			r.Note = fmt.Sprintf("the call changed element %d of the caller's slice", i)
		}
	}
	if op.S > 0 {
		for i := range buf {
			buf[i] = 99
		}
	}
}

func doUni(m uniMetric, op *Op, r *Res) {
	switch op.K {
	case "push":
		setErr(r, m.Push(float64(op.X[0])))
	case "value":
		v, err := m.Value()
		setV(r, v, err)
	case "clear":
		m.Clear()
	case "string":
		r.Str = m.String()
	default:
		panic("harness: bad op " + op.K)
	}
}

func doJoint(m jointMetric, op *Op, r *Res) {
	switch op.K {
	case "push":
		pushSlice(op, r, m.Push)
	case "value":
		v, err := m.Value()
		setV(r, v, err)
	case "clear":
		m.Clear()
	case "string":
		r.Str = m.String()
	default:
		panic("harness: bad op " + op.K)
	}
}

func doCore(m *moment.Core, op *Op, r *Res) {
	switch op.K {
	case "push":
		setErr(r, m.Push(float64(op.X[0])))
	case "count":
		r.N = m.Count()
	case "mean":
		v, err := m.Mean()
		setV(r, v, err)
	case "sum":
		v, err := m.Sum(op.I[0])
		setV(r, v, err)
	case "clear":
		m.Clear()
	case "upush":
		setErr(r, m.UnsafePush(float64(op.X[0])))
	case "ucount":
		r.N = m.UnsafeCount()
	case "umean":
		v, err := m.UnsafeMean()
		setV(r, v, err)
	case "usum":
		v, err := m.UnsafeSum(op.I[0])
		setV(r, v, err)
	case "uclear":
		m.UnsafeClear()
	case "lock":
		section(op, r, m.Lock, m.Unlock, func(o *Op, r *Res) { doCore(m, o, r) })
	case "rlock":
		section(op, r, m.RLock, m.RUnlock, func(o *Op, r *Res) { doCore(m, o, r) })
	default:
		panic("harness: bad op " + op.K)
	}
}

func doJCore(m *joint.Core, op *Op, r *Res) {
	switch op.K {
	case "push":
		pushSlice(op, r, m.Push)
	case "count":
		r.N = m.Count()
	case "mean":
		v, err := m.Mean(op.I[0])
		setV(r, v, err)
	case "sum":
		intsOf(op, r, m.Sum)
	case "clear":
		m.Clear()
	case "upush":
		pushSlice(op, r, m.UnsafePush)
	case "ucount":
		r.N = m.UnsafeCount()
	case "umean":
		v, err := m.UnsafeMean(op.I[0])
		setV(r, v, err)
	case "usum":
		intsOf(op, r, m.UnsafeSum)
	case "uclear":
		m.UnsafeClear()
	case "lock":
		section(op, r, m.Lock, m.Unlock, func(o *Op, r *Res) { doJCore(m, o, r) })
	case "rlock":
		section(op, r, m.RLock, m.RUnlock, func(o *Op, r *Res) { doJCore(m, o, r) })
	default:
		panic("harness: bad op " + op.K)
	}
}

func doQuantile(m *quantile.Quantile, op *Op, r *Res) {
	switch op.K {
	case "push":
		setErr(r, m.Push(float64(op.X[0])))
	case "value":
		v, err := m.Value(float64(op.Q))
		setV(r, v, err)
	case "clear":
		m.Clear()
	case "string":
		r.Str = m.String()
	case "rlock":
		section(op, r, m.RLock, m.RUnlock, func(o *Op, r *Res) { doQuantile(m, o, r) })
	default:
		panic("harness: bad op " + op.K)
	}
}

func doCont(t container, op *Op, r *Res) {
	switch op.K {
	case "add":
		t.Add(float64(op.X[0]))
	case "remove":
		t.Remove(float64(op.X[0]))
	case "size":
		r.N = t.Size()
	case "select":
		n := t.Select(op.I[0])
		if n == nil || reflect.ValueOf(n).IsNil() {
			r.Nil = true
		} else {
			r.V = n.Value()
		}
	case "rank":
		r.N = t.Rank(float64(op.X[0]))
	case "clear":
		t.Clear()
	case "string":
		_ = t.String()
	default:
		panic("harness: bad op " + op.K)
	}
}

// inSec[task] is the object (index+1) whose lock section the task is in while
// it makes an ordinary (locking) call.
var inSec [rt.MaxTasks]int

// section runs the calls between lock and unlock as one composite call.
func section(op *Op, r *Res, lock, unlock func(), do func(*Op, *Res)) {
	r.Sub = make([]Res, len(op.Sub))
	lock()
	r.T1 = rt.Now()
	for i := range op.Sub {
		o := &op.Sub[i]
		if o.K == "pause" {
			rt.SleepSteps(o.D)
			continue
		}
		rt.Y()
		enterSec(op, o)
		do(o, &r.Sub[i])
		leaveSec()
		if n := r.Sub[i].Note; n != "" {
			r.Note = n
		}
	}
	r.T2 = rt.Now()
	unlock()
}

//go:norace
func enterSec(sec, o *Op) {
	if sec.K == "rlock" && o.K[0] != 'u' {
		inSec[rt.Self()] = sec.O + 1
	}
}

//go:norace
func leaveSec() { inSec[rt.Self()] = 0 }
