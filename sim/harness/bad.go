package main

import (
	"fmt"
	"math"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

// badCalls are constructions that must be refused with an error.
var badCalls []badCall

type badCall struct {
	name string
	f    func() error
}

func bad(name string, f func() error) { badCalls = append(badCalls, badCall{name, f}) }

func minit(m moment.CoreWrapper) error { return moment.Init(m) }

func autoInit(m joint.CoreWrapper, err error) error {
	if err != nil {
		return err
	}
	return joint.Init(m)
}

func ip(v int) *int         { return stream.IntPtr(v) }
func fp(v float64) *float64 { return stream.FloatPtr(v) }

func qopt(window int, o ...quantile.Option) error {
	_, err := quantile.New(window, o...)
	return err
}

func sopt(o ...order.Option) error {
	_, err := skiplist.New(o...)
	return err
}

func mcore(c moment.CoreConfig) error {
	_, err := moment.NewCore(&c)
	return err
}

func jcore(c joint.CoreConfig) error {
	_, err := joint.NewCore(&c)
	return err
}

// mmerge merges and builds: the error may come from either.
func mmerge(cs ...*moment.CoreConfig) error {
	c, err := moment.MergeConfigs(cs...)
	if err != nil {
		return err
	}
	_, err = moment.NewCore(c)
	return err
}

func jmerge(cs ...*joint.CoreConfig) error {
	c, err := joint.MergeConfigs(cs...)
	if err != nil {
		return err
	}
	_, err = joint.NewCore(c)
	return err
}

func init() {
	for _, w := range []int{-1, -7, math.MinInt32} {
		w := w
		bad("moment.NewMean(negative)", func() error { return minit(moment.NewMean(w)) })
		bad("moment.New(2,negative)", func() error { return minit(moment.New(2, w)) })
		bad("moment.NewStd(negative)", func() error { return minit(moment.NewStd(w)) })
		bad("moment.NewSkewness(negative)", func() error { return minit(moment.NewSkewness(w)) })
		bad("moment.NewKurtosis(negative)", func() error { return minit(moment.NewKurtosis(w)) })
		bad("joint.NewCov(negative)", func() error { return joint.Init(joint.NewCov(w)) })
		bad("joint.NewCorr(negative)", func() error { return joint.Init(joint.NewCorr(w)) })
		bad("joint.NewAutocov(lag negative)", func() error { return autoInit(joint.NewAutocov(w, 3)) })
		bad("joint.NewAutocorr(lag negative)", func() error { return autoInit(joint.NewAutocorr(w, 3)) })
		bad("joint.NewGlobalAutocov(negative)", func() error { return autoInit(joint.NewGlobalAutocov(w)) })
		bad("joint.NewGlobalAutocorr(negative)", func() error { return autoInit(joint.NewGlobalAutocorr(w)) })
		bad("joint.NewAutocov(window negative)", func() error { return autoInit(joint.NewAutocov(2, w)) })
		bad("joint.NewAutocorr(window negative)", func() error { return autoInit(joint.NewAutocorr(2, w)) })
		bad("minmax.NewMax(negative)", func() error { _, err := minmax.NewMax(w); return err })
		bad("minmax.NewMin(negative)", func() error { _, err := minmax.NewMin(w); return err })
		bad("quantile.New(negative)", func() error { return qopt(w) })
		bad("quantile.NewMedian(negative)", func() error { _, err := quantile.NewMedian(w); return err })
		bad("quantile.NewIQR(negative)", func() error { _, err := quantile.NewIQR(w); return err })
		bad("quantile.NewHeapMedian(negative)", func() error { _, err := quantile.NewHeapMedian(w); return err })
		bad("moment.NewCore(window negative)", func() error { return mcore(moment.CoreConfig{Window: ip(w)}) })
		bad("joint.NewCore(window negative)", func() error {
			return jcore(joint.CoreConfig{Window: ip(w), Sums: joint.SumsConfig{{1, 1}}})
		})
	}
	for _, d := range []float64{0, 1, -0.25, 1.5, math.Inf(1), math.Inf(-1), math.NaN(), -1e-300, 1 + 1e-15} {
		d := d
		bad("moment.NewEWMA(decay)", func() error { return minit(moment.NewEWMA(d)) })
		bad("moment.NewEWMMoment(decay)", func() error { return minit(moment.NewEWMMoment(2, d)) })
		bad("moment.NewEWMStd(decay)", func() error { return minit(moment.NewEWMStd(d)) })
		bad("joint.NewEWMCov(decay)", func() error { return joint.Init(joint.NewEWMCov(d)) })
		bad("joint.NewEWMCorr(decay)", func() error { return joint.Init(joint.NewEWMCorr(d)) })
		bad("skiplist.ProbabilityOption", func() error { return sopt(skiplist.ProbabilityOption(d)) })
		bad("quantile.ImplOption(SkipList, bad probability)", func() error {
			return qopt(3, quantile.ImplOption(quantile.SkipList, skiplist.ProbabilityOption(d)))
		})
		bad("moment.NewCore(decay)", func() error { return mcore(moment.CoreConfig{Window: ip(0), Decay: fp(d)}) })
		bad("joint.NewCore(decay)", func() error {
			return jcore(joint.CoreConfig{Window: ip(0), Decay: fp(d), Sums: joint.SumsConfig{{1, 1}}})
		})
		bad("joint.MergeConfigs(decay)", func() error {
			return jmerge(&joint.CoreConfig{Window: ip(0), Decay: fp(d), Vars: ip(2)}, &joint.CoreConfig{Window: ip(0), Sums: joint.SumsConfig{{1, 1}}})
		})
		bad("moment.MergeConfigs(decay)", func() error {
			return mmerge(&moment.CoreConfig{Window: ip(0), Decay: fp(d)}, &moment.CoreConfig{Window: ip(0), Sums: moment.SumsConfig{2: true}})
		})
	}
	for _, k := range []int{0, -1, -3} {
		k := k
		bad("moment.New(k<=0)", func() error { return minit(moment.New(k, 3)) })
		bad("moment.NewGlobal(k<=0)", func() error { return minit(moment.NewGlobal(k)) })
		bad("moment.NewEWMMoment(k<=0)", func() error { return minit(moment.NewEWMMoment(k, 0.5)) })
		bad("moment.NewCore(k<=0)", func() error {
			return mcore(moment.CoreConfig{Window: ip(3), Sums: moment.SumsConfig{2: true, k: true}})
		})
		bad("moment.MergeConfigs(k<=0)", func() error {
			return mmerge(&moment.CoreConfig{Window: ip(3), Sums: moment.SumsConfig{k: true}}, &moment.CoreConfig{Window: ip(3), Sums: moment.SumsConfig{2: true}})
		})
	}
	for _, l := range []int{0, -1, 65, 1000} {
		l := l
		bad("skiplist.MaxLevelOption", func() error { return sopt(skiplist.MaxLevelOption(l)) })
		bad("quantile.ImplOption(SkipList, bad level)", func() error {
			_, err := quantile.NewMedian(3, quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(l)))
			return err
		})
	}
	for _, i := range []int{-1, 3, 17} {
		i := i
		bad("quantile.ImplOption(invalid)", func() error { return qopt(3, quantile.ImplOption(quantile.Impl(i))) })
		bad("quantile.NewIQR(ImplOption invalid)", func() error {
			_, err := quantile.NewIQR(3, quantile.ImplOption(quantile.Impl(i)))
			return err
		})
	}
	for _, i := range []int{-1, 5, 99} {
		i := i
		bad("quantile.InterpolationOption(invalid)", func() error { return qopt(3, quantile.InterpolationOption(quantile.Interpolation(i))) })
	}
	bad("moment.NewCore(no window)", func() error { return mcore(moment.CoreConfig{Sums: moment.SumsConfig{2: true}}) })
	for _, w := range []int{1, 2, 3, 64} {
		w := w
		bad("moment.NewCore(decay with window)", func() error { return mcore(moment.CoreConfig{Window: ip(w), Decay: fp(0.5)}) })
		bad("joint.NewCore(decay with window)", func() error {
			return jcore(joint.CoreConfig{Window: ip(w), Decay: fp(0.5), Sums: joint.SumsConfig{{1, 1}}})
		})
		bad("moment.MergeConfigs(EWMA and a windowed mean)", func() error {
			return mmerge(moment.NewEWMA(0.5).Config(), moment.NewMean(w).Config())
		})
		bad("moment.MergeConfigs(a windowed std and EWMStd)", func() error {
			return mmerge(moment.NewStd(w).Config(), moment.NewEWMStd(0.25).Config())
		})
		bad("joint.MergeConfigs(EWMCov and a windowed Cov)", func() error {
			return jmerge(joint.NewEWMCov(0.5).Config(), joint.NewCov(w).Config())
		})
		bad("joint.MergeConfigs(a windowed Corr and EWMCorr)", func() error {
			return jmerge(joint.NewCorr(w).Config(), joint.NewEWMCorr(0.75).Config())
		})
		bad("moment.MergeConfigs(global and windowed)", func() error {
			return mmerge(moment.NewGlobalMean().Config(), moment.NewStd(w).Config())
		})
		bad("joint.MergeConfigs(windowed and global)", func() error {
			return jmerge(joint.NewCorr(w).Config(), joint.NewGlobalCov().Config())
		})
		bad("joint.MergeConfigs(differing windows, third)", func() error {
			return jmerge(&joint.CoreConfig{Vars: ip(2)}, joint.NewCov(w).Config(), joint.NewCov(w+1).Config())
		})
	}
	for _, d := range [][2]float64{{0.5, math.Nextafter(0.5, 1)}, {0.001, 0.0010000001}, {1 - 1e-9, 1 - 2e-9}, {1e-12, 2e-12}, {0.5, 0.5005}, {0.25, 0.75}} {
		a, b := d[0], d[1]
		bad(fmt.Sprintf("moment.MergeConfigs(decays %v and %v)", a, b), func() error {
			return mmerge(moment.NewEWMStd(a).Config(), moment.NewEWMMoment(3, b).Config())
		})
		bad(fmt.Sprintf("joint.MergeConfigs(decays %v and %v)", b, a), func() error {
			return jmerge(joint.NewEWMCov(b).Config(), joint.NewEWMCorr(a).Config())
		})
	}
	for _, w := range [][2]int{{0, 1}, {1, 0}, {1, 2}, {256, 257}, {1, 65537}, {0, 65536}, {7, 15}} {
		a, b := w[0], w[1]
		bad(fmt.Sprintf("moment.MergeConfigs(windows %d and %d)", a, b), func() error {
			return mmerge(moment.NewStd(a).Config(), moment.NewKurtosis(a).Config(), moment.New(3, b).Config())
		})
		bad(fmt.Sprintf("joint.MergeConfigs(windows %d and %d)", a, b), func() error {
			return jmerge(joint.NewCov(a).Config(), joint.NewCorr(b).Config())
		})
	}
	bad("moment.MergeConfigs()", func() error { return mmerge() })
	bad("moment.MergeConfigs(differing windows)", func() error {
		return mmerge(&moment.CoreConfig{Window: ip(3)}, &moment.CoreConfig{Window: ip(4)})
	})
	bad("moment.MergeConfigs(differing decays)", func() error {
		return mmerge(&moment.CoreConfig{Window: ip(0), Decay: fp(0.5)}, &moment.CoreConfig{Window: ip(0), Decay: fp(0.25)})
	})
	bad("moment.MergeConfigs(differing windows, third)", func() error {
		return mmerge(&moment.CoreConfig{}, &moment.CoreConfig{Window: ip(3)}, &moment.CoreConfig{Window: ip(4)})
	})
	bad("joint.NewCore(no window)", func() error { return jcore(joint.CoreConfig{Sums: joint.SumsConfig{{1, 1}}}) })
	bad("joint.NewCore(nothing)", func() error { return jcore(joint.CoreConfig{Window: ip(3)}) })
	bad("joint.NewCore(vars 1)", func() error { return jcore(joint.CoreConfig{Window: ip(3), Vars: ip(1)}) })
	bad("joint.NewCore(vars 0)", func() error { return jcore(joint.CoreConfig{Window: ip(3), Vars: ip(0)}) })
	bad("joint.NewCore(vars negative)", func() error { return jcore(joint.CoreConfig{Window: ip(3), Vars: ip(-2)}) })
	for _, t := range []joint.SumsConfig{
		{{1}}, {{}}, {{1, 1}, {1, 1, 1}}, {{1, 1, 1}, {1, 1}}, {{0, 1, 1}, {1, 1}}, {{1, 1}, {0, 1, 1}},
		{{1, -1}}, {{-1, 2}}, {{1, 1}, {0, -2}}, {{0, 0}}, {{1, 1}, {0, 0}}, {{1, 1}, {2}}, {{0, 0, 0}}, {{1, 0, 2}, {2, 1}}, {{2, 1}, {1, 0, 2}},
	} {
		t := t
		cp := func() joint.SumsConfig {
			c := joint.SumsConfig{}
			for _, x := range t {
				c = append(c, append(joint.Tuple{}, x...))
			}
			return c
		}
		bad("joint.NewCore(bad tuples)", func() error { return jcore(joint.CoreConfig{Window: ip(3), Sums: cp()}) })
		if len(t) == 2 && len(t[0]) != len(t[1]) && len(t[0]) > 1 && len(t[1]) > 1 {
			bad("joint.MergeConfigs(bad tuples in two configs)", func() error {
				c := cp()
				return jmerge(&joint.CoreConfig{Window: ip(3), Sums: c[:1:1]}, &joint.CoreConfig{Window: ip(3), Sums: c[1:]})
			})
			bad("joint.MergeConfigs(bad tuples in the second config)", func() error {
				return jmerge(&joint.CoreConfig{Window: ip(3), Sums: joint.SumsConfig{append(joint.Tuple{}, t[0]...)}}, &joint.CoreConfig{Window: ip(3), Sums: cp()})
			})
		}
	}
	bad("joint.NewCore(tuple length not vars)", func() error {
		return jcore(joint.CoreConfig{Window: ip(3), Vars: ip(3), Sums: joint.SumsConfig{{1, 1}}})
	})
	bad("joint.MergeConfigs(tuple length not vars)", func() error {
		return jmerge(&joint.CoreConfig{Window: ip(3), Vars: ip(3)}, &joint.CoreConfig{Window: ip(3), Sums: joint.SumsConfig{{1, 1}}})
	})
	bad("joint.MergeConfigs()", func() error { return jmerge() })
	bad("joint.MergeConfigs(differing windows)", func() error {
		return jmerge(&joint.CoreConfig{Window: ip(3), Sums: joint.SumsConfig{{1, 1}}}, &joint.CoreConfig{Window: ip(4), Sums: joint.SumsConfig{{1, 1}}})
	})
	bad("joint.MergeConfigs(differing vars)", func() error {
		return jmerge(&joint.CoreConfig{Window: ip(3), Vars: ip(2)}, &joint.CoreConfig{Window: ip(3), Vars: ip(3)})
	})
	bad("joint.MergeConfigs(differing decays)", func() error {
		return jmerge(&joint.CoreConfig{Window: ip(0), Decay: fp(0.5), Sums: joint.SumsConfig{{1, 1}}}, &joint.CoreConfig{Window: ip(0), Decay: fp(0.25), Sums: joint.SumsConfig{{1, 1}}})
	})
}

// goodCalls are constructions at the borders of what is documented as valid:
// they must succeed.
var goodCalls []badCall

func good(name string, f func() error) { goodCalls = append(goodCalls, badCall{name, f}) }

// made turns a result and an error into the error.
func made[T any](_ T, err error) error { return err }

func init() {
	eps := math.Nextafter(1, 0)
	for _, d := range []float64{math.SmallestNonzeroFloat64, 1e-300, 1e-9, 1e-4, 0.0625, 0.3333333333333333, 0.5, 0.95, 0.9999, 0.99995, 1 - 1e-9, eps} {
		d := d
		n := fmt.Sprintf("(decay %v)", d)
		good("moment.NewEWMA"+n, func() error { return minit(moment.NewEWMA(d)) })
		good("moment.NewEWMMoment"+n, func() error { return minit(moment.NewEWMMoment(3, d)) })
		good("moment.NewEWMStd"+n, func() error { return minit(moment.NewEWMStd(d)) })
		good("joint.NewEWMCov"+n, func() error { return joint.Init(joint.NewEWMCov(d)) })
		good("joint.NewEWMCorr"+n, func() error { return joint.Init(joint.NewEWMCorr(d)) })
		good("moment.NewCore"+n, func() error { return mcore(moment.CoreConfig{Window: ip(0), Decay: fp(d)}) })
		good("joint.NewCore"+n, func() error {
			return jcore(joint.CoreConfig{Window: ip(0), Decay: fp(d), Sums: joint.SumsConfig{{1, 1}}})
		})
		good("moment.MergeConfigs"+n, func() error {
			return mmerge(moment.NewEWMA(d).Config(), moment.NewEWMStd(d).Config(), moment.NewEWMMoment(4, d).Config())
		})
		good("joint.MergeConfigs"+n, func() error {
			return jmerge(joint.NewEWMCov(d).Config(), joint.NewEWMCorr(d).Config())
		})
		good("skiplist.ProbabilityOption"+n, func() error { return sopt(skiplist.ProbabilityOption(d)) })
		good("quantile.ImplOption, probability"+n, func() error {
			return qopt(3, quantile.ImplOption(quantile.SkipList, skiplist.ProbabilityOption(d)))
		})
	}
	for _, w := range []int{0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 255, 256, 257, 1000, 1023, 1024, 1025, 4096} {
		w := w
		n := fmt.Sprintf("(window %d)", w)
		good("moment.NewMean"+n, func() error { return minit(moment.NewMean(w)) })
		good("moment.New"+n, func() error { return minit(moment.New(3, w)) })
		good("moment.NewStd"+n, func() error { return minit(moment.NewStd(w)) })
		good("moment.NewSkewness"+n, func() error { return minit(moment.NewSkewness(w)) })
		good("moment.NewKurtosis"+n, func() error { return minit(moment.NewKurtosis(w)) })
		good("moment.NewCore, no sums"+n, func() error { return mcore(moment.CoreConfig{Window: ip(w)}) })
		good("moment.MergeConfigs"+n, func() error {
			return mmerge(moment.NewKurtosis(w).Config(), moment.NewMean(w).Config(), moment.New(7, w).Config())
		})
		good("joint.NewCov"+n, func() error { return joint.Init(joint.NewCov(w)) })
		good("joint.NewCorr"+n, func() error { return joint.Init(joint.NewCorr(w)) })
		good("joint.MergeConfigs"+n, func() error {
			return jmerge(joint.NewCov(w).Config(), joint.NewCorr(w).Config(), &joint.CoreConfig{Vars: ip(2)})
		})
		good("joint.NewCore, no sums"+n, func() error { return jcore(joint.CoreConfig{Window: ip(w), Vars: ip(3)}) })
		good("minmax.NewMax"+n, func() error { return made(minmax.NewMax(w)) })
		good("minmax.NewMin"+n, func() error { return made(minmax.NewMin(w)) })
		good("quantile.New"+n, func() error { return qopt(w) })
		good("quantile.NewMedian"+n, func() error { return made(quantile.NewMedian(w, quantile.ImplOption(quantile.RedBlack))) })
		good("quantile.NewIQR"+n, func() error { return made(quantile.NewIQR(w, quantile.ImplOption(quantile.SkipList))) })
		good("quantile.NewHeapMedian"+n, func() error { return made(quantile.NewHeapMedian(w)) })
		for _, l := range []int{0, 1, 2, 40, 256, 1025} {
			if w > 300 && l > 300 {
				continue
			}
			l := l
			n := fmt.Sprintf("(lag %d, window %d)", l, w)
			good("joint.NewAutocov"+n, func() error { return autoInit(joint.NewAutocov(l, w)) })
			good("joint.NewAutocorr"+n, func() error { return autoInit(joint.NewAutocorr(l, w)) })
		}
	}
	for k := 1; k <= 24; k++ {
		k := k
		n := fmt.Sprintf("(order %d)", k)
		good("moment.New"+n, func() error { return minit(moment.New(k, 3)) })
		good("moment.NewGlobal"+n, func() error { return minit(moment.NewGlobal(k)) })
		good("moment.NewEWMMoment"+n, func() error { return minit(moment.NewEWMMoment(k, 0.25)) })
		good("moment.NewCore"+n, func() error {
			return mcore(moment.CoreConfig{Window: ip(2), Sums: moment.SumsConfig{k: true, 1: true}})
		})
	}
	for l := 1; l <= 64; l++ {
		l := l
		n := fmt.Sprintf("(level %d)", l)
		good("skiplist.MaxLevelOption"+n, func() error { return sopt(skiplist.MaxLevelOption(l)) })
		good("quantile.ImplOption, maximum level"+n, func() error {
			return made(quantile.NewMedian(3, quantile.ImplOption(quantile.SkipList, skiplist.MaxLevelOption(l))))
		})
	}
	for i := 0; i < 15; i++ {
		impl := []quantile.Impl{quantile.AVL, quantile.RedBlack, quantile.SkipList}[i%3]
		in := []quantile.Interpolation{quantile.Linear, quantile.Lower, quantile.Higher, quantile.Nearest, quantile.Midpoint}[i/3]
		good(fmt.Sprintf("quantile.New(%v, %v)", impl, in), func() error {
			return qopt(3, quantile.ImplOption(impl), quantile.InterpolationOption(in))
		})
	}
	for _, t := range []joint.SumsConfig{
		{{1, 1}}, {{0, 1}}, {{1, 0}}, {{2, 0}, {0, 2}}, {{1, 1}, {1, 1}}, {{3, 2}, {1, 1}}, {{1, 1}, {3, 2}}, {{0, 0, 1}}, {{1, 1, 1}, {2, 0, 1}},
		{{0, 1, 0, 2}}, {{1, 1, 1, 1, 1}}, {{8, 0}, {0, 8}}, {{4, 4}},
	} {
		t := t
		cp := func() joint.SumsConfig {
			c := joint.SumsConfig{}
			for _, x := range t {
				c = append(c, append(joint.Tuple{}, x...))
			}
			return c
		}
		n := fmt.Sprint(t)
		v := len(t[0])
		good("joint.NewCore"+n, func() error { return jcore(joint.CoreConfig{Window: ip(3), Sums: cp()}) })
		good("joint.NewCore with vars"+n, func() error { return jcore(joint.CoreConfig{Window: ip(3), Vars: ip(v), Sums: cp()}) })
		good("joint.NewCore with decay"+n, func() error {
			return jcore(joint.CoreConfig{Window: ip(0), Decay: fp(0.5), Sums: cp()})
		})
		good("joint.MergeConfigs"+n, func() error {
			return jmerge(&joint.CoreConfig{Window: ip(3), Sums: cp()}, &joint.CoreConfig{Vars: ip(v)}, &joint.CoreConfig{Window: ip(3), Sums: cp()[:1]})
		})
	}
}
