package rt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// ---- clock ----

const tick = 250 // nanoseconds of simulated time per statement

//go:norace
func nowNano() int64 {
	if !active {
		return 1600000000_000000000
	}
	st.ClockReads++
	switch cfg.ClockMode {
	case 1:
		if clkG.Chance(0.3) {
			st.ClockJumps++
			clkOff += int64(clkG.U64()>>20) - int64(clkG.U64()>>20)
		}
	case 2:
		return cfg.ClockBase
	}
	return cfg.ClockBase + int64(steps+jump)*tick + clkOff
}

// TimeNow replaces time.Now.
func TimeNow() time.Time { return time.Unix(0, nowNano()) }

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil replaces time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep replaces time.Sleep.
func TimeSleep(d time.Duration) {
	if d < 0 {
		d = 0
	}
	SleepSteps(uint64(d)/tick + 1)
}

// Timer replaces time.Timer: a task that sleeps and then delivers the time or
// calls the function. Like a timer of the runtime it is no goroutine of its own
// while it waits.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	k    Token
	gen  uint64
	live bool
}

func (t *Timer) start(d time.Duration) {
	t.gen++
	t.live = true
	gen := t.gen
	t.k = Spawn()
	markTimer(t.k, 1)
	go runTask(t.k, func() {
		TimeSleep(d)
		if !t.fire(gen) {
			return
		}
		if t.f != nil {
			markTimer(t.k, 0)
			t.f()
			return
		}
		Select(true, SendCase[time.Time](t.c)(TimeNow()))
	})
	Started(t.k)
}

//go:norace
func (t *Timer) fire(gen uint64) bool {
	if t.gen != gen || !t.live {
		return false
	}
	t.live = false
	return true
}

//go:norace
func markTimer(k Token, kind int8) {
	if k.t != nil {
		k.t.timer = kind
	}
}

//go:norace
func (t *Timer) stop() bool {
	was := t.live
	t.live = false
	t.gen++
	kill(t.k)
	return was
}

// Stop replaces (*time.Timer).Stop.
func (t *Timer) Stop() bool {
	was := t.stop()
	if t.c != nil {
		Select(true, RecvCase[time.Time](t.c)) // no stale value after Stop, as of Go 1.23
	}
	return was
}

// Reset replaces (*time.Timer).Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// TimeNewTimer replaces time.NewTimer.
func TimeNewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// TimeAfterFunc replaces time.AfterFunc.
func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// TimeAfter replaces time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	k   Token
	gen uint64
}

func (t *Ticker) start(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.gen++
	gen := t.gen
	t.k = Spawn()
	markTimer(t.k, 2)
	go runTask(t.k, func() {
		for {
			TimeSleep(d)
			if !t.is(gen) {
				return
			}
			Select(true, SendCase[time.Time](t.c)(TimeNow()))
		}
	})
	Started(t.k)
}

//go:norace
func (t *Ticker) is(gen uint64) bool { return t.gen == gen }

//go:norace
func (t *Ticker) end() {
	t.gen++
	kill(t.k)
}

// Stop replaces (*time.Ticker).Stop.
func (t *Ticker) Stop() { t.end() }

// Reset replaces (*time.Ticker).Reset.
func (t *Ticker) Reset(d time.Duration) {
	t.end()
	t.start(d)
}

// TimeNewTicker replaces time.NewTicker.
func TimeNewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

// TimeTick replaces time.Tick.
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

// ---- randomness ----

// RandU64 draws from the simulated global random stream.
//
//go:norace
func RandU64() uint64 {
	if randG == nil {
		randG = NewRNG(1)
	}
	st.RandDraws++
	return extreme(randG, cfg.RandMode)
}

//go:norace
func extreme(g *RNG, mode int) uint64 {
	switch mode {
	case 1: // mostly the smallest values
		if g.Intn(4) != 0 {
			st.RandExtreme++
			return 0
		}
	case 2: // mostly values near the top
		if g.Intn(4) != 0 {
			st.RandExtreme++
			return ^uint64(0) - (uint64(1)<<40)*uint64(1+g.Intn(1000))
		}
	case 3: // a mixture of both ends
		switch g.Intn(4) {
		case 0:
			st.RandExtreme++
			return 0
		case 1:
			st.RandExtreme++
			return ^uint64(0) - (uint64(1)<<40)*uint64(1+g.Intn(1000))
		}
	}
	return g.U64()
}

// SimSource is a rand.Source64 under simulator control. Like the sources of
// math/rand it is not safe for concurrent use, and its state is ordinary
// memory, so a -race build notices when it is shared without a lock.
type SimSource struct {
	g    RNG
	mode int
}

// NewSimSource makes a source.
func NewSimSource(seed uint64, mode int) *SimSource {
	return &SimSource{g: RNG{s: seed}, mode: mode}
}

func (s *SimSource) Uint64() uint64 {
	s.g.s++
	return extreme(&s.g, s.mode)
}
func (s *SimSource) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *SimSource) Seed(seed int64) { s.g.s = uint64(seed) }

// ---- map iteration ----

// MapIt walks a map in an order chosen by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapRange starts an iteration.
func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	n := len(it.keys)
	for i := n - 1; i > 0; i-- {
		j := mapPick(i + 1)
		it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
	}
	return it
}

//go:norace
func mapPick(n int) int {
	if mapG == nil {
		return n - 1
	}
	st.MapShuffles++
	return mapG.Intn(n)
}

func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []int:
		sort.Ints(x)
		return
	case []string:
		sort.Strings(x)
		return
	case []uint64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	case []float64:
		sort.Float64s(x)
		return
	}
	if len(ks) == 0 {
		return
	}
	switch reflect.TypeOf(ks[0]) {
	case nil:
	default:
		switch reflect.TypeOf(ks[0]).Kind() {
		case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
			// addresses carry no reproducible order: leave as is
		}
	}
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
}

// Next advances; entries removed meanwhile are skipped.
func (it *MapIt[K, V]) Next() bool {
	for it.i < len(it.keys) {
		it.i++
		if _, ok := it.m[it.keys[it.i-1]]; ok {
			return true
		}
	}
	return false
}

// K is the current key.
func (it *MapIt[K, V]) K() K { return it.keys[it.i-1] }

// V is the current value.
func (it *MapIt[K, V]) V() V { return it.m[it.keys[it.i-1]] }

// MapRangeK starts "for k := range m".
func MapRangeK[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K) {
	var k K
	return MapRange[M, K, V](m), k
}

// MapRangeKV starts "for k, v := range m".
func MapRangeKV[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return MapRange[M, K, V](m), k, v
}

// NextK advances into k.
func (it *MapIt[K, V]) NextK(k *K) bool {
	if !it.Next() {
		return false
	}
	*k = it.K()
	return true
}

// NextKV advances into k and v.
func (it *MapIt[K, V]) NextKV(k *K, v *V) bool {
	if !it.Next() {
		return false
	}
	*k, *v = it.K(), it.V()
	return true
}
