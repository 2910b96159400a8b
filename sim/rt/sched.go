// Package rt is the simulator: it owns every scheduling decision, the clock and
// the randomness of the program under test. Tasks are real goroutines of which
// exactly one holds the token at any moment; the token only moves where the
// seeded policy (or an explicit trace) says so.
//
// Everything here is go:norace and hands the token over with race events
// disabled, so that in a -race build the only happens-before edges are those
// the simulated synchronisation primitives announce.
package rt

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// MaxTasks bounds the number of tasks alive in one run.
const MaxTasks = 256

const (
	stFree = iota
	stRunnable
	stBlocked
	stSleeping
	stDone
	stEmbryo // spawned, its go statement has not executed yet
)

type task struct {
	id        int
	gate      chan struct{}
	state     int8
	waitAddr  unsafe.Pointer
	waitKind  string
	waitObj   uint32
	prio      int64
	wake      uint64
	acc       uint64
	startedAt uint64
	opStart   uint64
	inOp      bool
	locks     int
	joinAddr  int64
	chw       *waiter
	killed    bool
	timer     int8 // 1: waits for a timer to fire, 2: for a ticker
}

// Dev is one scheduling decision: at step S the current task is (optionally)
// stalled for D steps and task T runs next.
type Dev struct {
	S uint64 `json:"s"`
	T int    `json:"t"`
	D uint64 `json:"d,omitempty"`
}

// Policy describes how the scheduler chooses.
type Policy struct {
	Kind   string  `json:"kind"` // rand, pct, burst, lockstep, sync, ops, explicit
	Seed   uint64  `json:"seed,omitempty"`
	P      float64 `json:"p,omitempty"`      // switch probability per step
	SyncP  float64 `json:"syncp,omitempty"`  // switch probability at synchronisation points
	OpP    float64 `json:"opp,omitempty"`    // switch probability at call boundaries
	Depth  int     `json:"depth,omitempty"`  // pct: number of priority change points
	Est    uint64  `json:"est,omitempty"`    // pct: estimated run length
	StallP float64 `json:"stallp,omitempty"` // probability that a switch stalls the task left
	StallN uint64  `json:"stalln,omitempty"` // longest stall
	Trace  []Dev   `json:"trace,omitempty"`
}

// Config is everything a run depends on besides the workload.
type Config struct {
	Policy    Policy `json:"policy"`
	RandSeed  uint64 `json:"rand"`
	RandMode  int    `json:"randmode,omitempty"`
	MapSeed   uint64 `json:"map,omitempty"`
	ClockBase int64  `json:"clock,omitempty"`
	ClockMode int    `json:"clockmode,omitempty"` // 0 steady, 1 jumps, 2 frozen
	StepCap   uint64 `json:"stepcap,omitempty"`
	OpCap     uint64 `json:"opcap,omitempty"`
	FairAfter uint64 `json:"fairafter,omitempty"`
	Record    bool   `json:"-"`
}

// Stats counts what actually happened.
type Stats struct {
	Steps        uint64
	VTime        uint64
	Switches     uint64
	PreemptInOp  uint64
	PreemptLock  uint64
	Stalls       uint64
	StallsInLock uint64
	Contended    uint64
	WriterWaits  uint64
	Yields       uint64
	ClockJumps   uint64
	ClockReads   uint64
	RandDraws    uint64
	RandExtreme  uint64
	MapShuffles  uint64
	Spawned      uint64
	ChanOps      uint64
}

// Outcome of a run.
type Outcome struct {
	Kind     string // ok, deadlock, panic, steps, opsteps
	Msg      string
	Stack    string
	Stats    Stats
	Trace    []Dev
	TraceCut bool
	IHash    uint64
	THash    uint64
	Leaked   int
	Waits    []Wait
}

// Wait describes a task that waits when a run ends in a deadlock.
type Wait struct {
	Task  int
	Kind  string
	Obj   uint32
	Locks int
}

const never = ^uint64(0)

var (
	steps    uint64
	nextEvt  uint64 = never
	decideAt uint64 = never
	jump     uint64
	active   bool
	runID    uint32
	cur      *task
	tasks    [MaxTasks]*task
	ntasks   int
	nextObj  uint32
	cfg      Config
	pol      *RNG
	randG    *RNG
	mapG     *RNG
	clkG     *RNG
	clkOff   int64
	trIdx    int
	pctLeft  int
	pctLow   int64
	pctNext  uint64
	fair     bool
	st       Stats
	ihash    uint64
	thash    uint64
	out      Outcome
	doneCh   chan struct{}
	trace    []Dev
	ntrace   int
	traceCut bool
	freeIDs  int
	resets   *resetNode
)

type resetNode struct {
	pkg  int
	idx  int
	f    func()
	next *resetNode
}

// Roots are pointers to the package level variables of the code under test.
var Roots []interface{}

// OnRoot registers a package level variable.
func OnRoot(p interface{}) { Roots = append(Roots, p) }

var resetPkgs = map[string]int{}

// OnReset registers a function that puts package level state back to its
// initial value; all of them run before every run, package by package in
// initialisation order and by index within one.
func OnReset(pkg string, idx int, f func()) {
	p, ok := resetPkgs[pkg]
	if !ok {
		p = len(resetPkgs)
		resetPkgs[pkg] = p
	}
	n := &resetNode{pkg: p, idx: idx, f: f}
	at := &resets
	for *at != nil && ((*at).pkg < p || ((*at).pkg == p && (*at).idx <= idx)) {
		at = &(*at).next
	}
	n.next = *at
	*at = n
}

// Y is the yield point put before every statement.
//
//go:norace
func Y() {
	steps++
	if steps >= nextEvt {
		slow()
	}
}

//go:norace
func slow() {
	if !active {
		nextEvt = never
		return
	}
	checkCaps()
	if steps >= decideAt {
		decide()
	}
	setNext()
}

//go:norace
func setNext() {
	nextEvt = steps + 8192
	if decideAt < nextEvt {
		nextEvt = decideAt
	}
	if !fair && nextEvt > cfg.FairAfter+1 {
		nextEvt = cfg.FairAfter + 1
	}
	if nextEvt <= steps {
		nextEvt = steps + 1
	}
}

//go:norace
func checkCaps() {
	if !fair && steps > cfg.FairAfter {
		fair = true
		decideAt = steps + 1
	}
	if steps > cfg.StepCap {
		abort("steps", "run exceeded its step budget: "+describe())
	}
	if cur != nil && cur.inOp && accOf(cur)-cur.opStart > cfg.OpCap {
		abort("opsteps", "a call exceeded its step budget: "+describe())
	}
}

//go:norace
func accOf(t *task) uint64 {
	if t == cur {
		return t.acc + (steps - t.startedAt)
	}
	return t.acc
}

//go:norace
func runnable(t *task) bool {
	if t == nil {
		return false
	}
	if t.state == stSleeping && (fair || steps+jump >= t.wake) {
		t.state = stRunnable
	}
	return t.state == stRunnable
}

//go:norace
func addTrace(s uint64, t int, d uint64) {
	if !cfg.Record {
		return
	}
	if ntrace == len(trace) {
		if ntrace >= 1<<20 {
			traceCut = true
			return
		}
		nt := make([]Dev, 2*len(trace)+256)
		for i := 0; i < ntrace; i++ {
			nt[i] = trace[i]
		}
		trace = nt
	}
	trace[ntrace] = Dev{s, t, d}
	ntrace++
}

// gap draws the distance to the next preemption.
//
//go:norace
func gap() uint64 {
	if fair {
		return 97
	}
	switch cfg.Policy.Kind {
	case "rand", "sync":
		p := cfg.Policy.P
		if p <= 0 {
			return never
		}
		if p >= 1 {
			return 1
		}
		g := math.Log(1-pol.F()) / math.Log(1-p)
		if g > 1e15 {
			return never
		}
		return 1 + uint64(g)
	case "burst":
		switch pol.Intn(4) {
		case 0:
			return 1 + uint64(pol.Intn(3))
		case 1:
			return 1 + uint64(pol.Intn(30))
		case 2:
			return 10 + uint64(pol.Intn(200))
		default:
			return 200 + uint64(pol.Intn(3000))
		}
	case "lockstep":
		return 1 + uint64(pol.Intn(cfg.Policy.Depth+1))
	}
	return never
}

//go:norace
func pctGap() {
	pctNext = never
	if pctLeft > 0 {
		pctNext = steps + 1 + pol.U64()%(2*cfg.Policy.Est/uint64(cfg.Policy.Depth+1)+2)
	}
}

//go:norace
func rearm() {
	if cfg.Policy.Kind == "explicit" && !fair {
		for trIdx < len(cfg.Policy.Trace) && cfg.Policy.Trace[trIdx].S <= steps {
			trIdx++
		}
		decideAt = never
		if trIdx < len(cfg.Policy.Trace) {
			decideAt = cfg.Policy.Trace[trIdx].S
		}
	} else if cfg.Policy.Kind == "pct" && !fair {
		decideAt = pctNext
	} else {
		g := gap()
		if g == never {
			decideAt = never
		} else {
			decideAt = steps + g
		}
	}
	setNext()
}

var candBuf [MaxTasks]*task

// choose picks a runnable task; forced means the current one cannot continue.
//
//go:norace
func choose(forced bool) *task {
	cand := &candBuf
	n := 0
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t == nil || (forced && t == cur) {
			continue
		}
		if runnable(t) {
			cand[n] = t
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return cand[0]
	}
	if fair {
		return rr(cand, n)
	}
	switch cfg.Policy.Kind {
	case "pct":
		b := cand[0]
		for i := 1; i < n; i++ {
			if cand[i].prio > b.prio {
				b = cand[i]
			}
		}
		return b
	case "lockstep":
		return rr(cand, n)
	case "explicit":
		return rr(cand, n)
	}
	if !forced {
		// prefer a task other than the current one
		k := pol.Intn(n)
		if cand[k] == cur {
			k = (k + 1 + pol.Intn(n-1)) % n
		}
		return cand[k]
	}
	return cand[pol.Intn(n)]
}

//go:norace
func rr(cand *[MaxTasks]*task, n int) *task {
	for i := 0; i < n; i++ {
		if cand[i].id > cur.id {
			return cand[i]
		}
	}
	return cand[0]
}

// decide is a voluntary decision point.
//
//go:norace
func decide() {
	explicit := cfg.Policy.Kind == "explicit" && !fair
	if explicit {
		tr := cfg.Policy.Trace
		for trIdx < len(tr) && tr[trIdx].S < steps {
			trIdx++
		}
		if trIdx < len(tr) && tr[trIdx].S == steps {
			d := tr[trIdx]
			trIdx++
			if d.T >= 0 && d.T < MaxTasks && d.T < ntasks && tasks[d.T] != nil && tasks[d.T] != cur && runnable(tasks[d.T]) {
				rearm()
				if d.D > 0 {
					stall(d.D)
				}
				switchTo(tasks[d.T], d.D)
				return
			}
		}
		rearm()
		return
	}
	if cfg.Policy.Kind == "pct" && !fair && steps >= pctNext {
		pctLeft--
		pctLow--
		cur.prio = pctLow
		pctGap()
	}
	nx := choose(false)
	var d uint64
	if nx != nil && nx != cur && !fair && cfg.Policy.StallP > 0 && pol.Chance(cfg.Policy.StallP) {
		d = 1 + pol.U64()%cfg.Policy.StallN
	}
	rearm()
	if nx == nil || nx == cur {
		return
	}
	if d > 0 {
		stall(d)
	}
	switchTo(nx, d)
}

//go:norace
func stall(d uint64) {
	cur.state = stSleeping
	cur.wake = steps + jump + d
	st.Stalls++
	if cur.locks > 0 {
		st.StallsInLock++
	}
}

//go:norace
func switchTo(nx *task, d uint64) {
	me := cur
	addTrace(steps, nx.id, d)
	st.Switches++
	if me.inOp && me.state != stBlocked && me.state != stDone {
		st.PreemptInOp++
		if me.locks > 0 {
			st.PreemptLock++
		}
	}
	transfer(me, nx)
	raceReleaseMerge(unsafe.Pointer(&endSync))
	raceDisable()
	nx.gate <- struct{}{}
	<-me.gate
	raceEnable()
	if me.killed {
		runtime.Goexit()
	}
}

//go:norace
func transfer(me, nx *task) {
	me.acc += steps - me.startedAt
	nx.startedAt = steps
	cur = nx
	thash = Mix(thash, steps<<8|uint64(nx.id))
}

// forced is called when the current task cannot continue (blocked, sleeping,
// done) or gives way. It returns when the task is scheduled again, or at once
// for a finished task.
//
//go:norace
func forced(park bool) {
	steps++
	checkCaps()
	var nx *task
	if cfg.Policy.Kind == "explicit" && !fair {
		tr := cfg.Policy.Trace
		for trIdx < len(tr) && tr[trIdx].S < steps {
			trIdx++
		}
		if trIdx < len(tr) && tr[trIdx].S == steps {
			d := tr[trIdx]
			trIdx++
			if d.T >= 0 && d.T < ntasks && tasks[d.T] != nil && runnable(tasks[d.T]) {
				nx = tasks[d.T]
			}
		}
		rearm()
	}
	if nx == nil {
		nx = choose(true)
	}
	if nx == nil && cur.state == stRunnable {
		return // gave way to nobody
	}
	if nx == nil {
		// nobody else can run: let simulated time pass to the next sleeper
		var w *task
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if t != nil && t.state == stSleeping && (w == nil || t.wake < w.wake) &&
				!(t.timer == 2 && tasks[0].state == stDone) {
				w = t
			}
		}
		if w != nil {
			if w.wake > steps+jump {
				jump = w.wake - steps
			}
			w.state = stRunnable
			nx = w
		}
	}
	if nx == nil {
		if tasks[0].state == stDone {
			finish("ok", "")
		} else {
			out.Waits = waits()
			finish("deadlock", describe())
		}
		if park {
			parkForever()
		}
		return
	}
	if nx == cur {
		return
	}
	me := cur
	addTrace(steps, nx.id, 0)
	st.Switches++
	transfer(me, nx)
	if nextEvt <= steps {
		setNext()
	}
	raceReleaseMerge(unsafe.Pointer(&endSync))
	raceDisable()
	nx.gate <- struct{}{}
	if park {
		<-me.gate
	}
	raceEnable()
	if me.killed {
		runtime.Goexit()
	}
}

// kill ends a timer that has not fired.
//
//go:norace
func kill(k Token) {
	t := k.t
	if t == nil || t == cur || !active || t.killed || t.timer == 0 || t.state == stDone {
		return
	}
	t.killed = true
	t.state = stDone
	t.gate <- struct{}{}
}

//go:norace
func parkForever() {
	raceDisable()
	c := make(chan struct{})
	<-c
}

//go:norace
func finish(kind, msg string) {
	if !active {
		return
	}
	active = false
	nextEvt = never
	out.Kind = kind
	out.Msg = msg
	for i := 0; i < ntasks; i++ {
		if tasks[i] != nil && tasks[i].state != stDone && tasks[i].timer == 0 {
			out.Leaked++
		}
	}
	st.Steps = steps
	st.VTime = steps + jump
	out.Stats = st
	out.IHash = ihash
	out.THash = thash
	raceReleaseMerge(unsafe.Pointer(&endSync))
	doneCh <- struct{}{}
}

// endSync orders everything a run did before what Run's caller does next: for
// the race detector, every task releases it when it is switched out, and only
// Run acquires it.
var endSync uint32

//go:norace
func abort(kind, msg string) {
	finish(kind, msg)
	parkForever()
}

//go:norace
func describe() string {
	s := ""
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t == nil || t.state == stDone {
			continue
		}
		what := "running"
		switch t.state {
		case stBlocked:
			what = "waiting for " + t.waitKind
		case stSleeping:
			what = "stalled"
		}
		s += fmt.Sprintf("[task %d %s, %d locks held, %d steps in call] ", t.id, what, t.locks, accOf(t)-t.opStart)
	}
	return s
}

//go:norace
func waits() []Wait {
	var w []Wait
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t != nil && t.state == stBlocked {
			w = append(w, Wait{t.id, t.waitKind, t.waitObj, t.locks})
		}
	}
	return w
}

// Active tells whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Now is the global event number: a total order over the run.
//
//go:norace
func Now() uint64 {
	steps++
	return steps
}

// TaskOf is the id of a spawned task.
//
//go:norace
func TaskOf(k Token) int {
	if k.t == nil {
		return -1
	}
	return k.t.id
}

// Self is the current task.
//
//go:norace
func Self() int { return cur.id }

// Cost adds the n elements a copy moved to the step count.
//
//go:norace
func Cost(n int) int {
	steps += uint64(n)
	return n
}

// CostS adds the length of a slice a library function walks to the step count.
func CostS[S ~[]E, E any](s S) S {
	Cost(len(s))
	return s
}

// BeginOp and EndOp bracket one call of a client; EndOp returns the number of
// steps the call executed.
//
//go:norace
func BeginOp() {
	cur.inOp = true
	cur.opStart = accOf(cur)
}

//go:norace
func EndOp() uint64 {
	cur.inOp = false
	return accOf(cur) - cur.opStart
}

// OpPoint is a decision point between calls.
//
//go:norace
func OpPoint() {
	if !active {
		return
	}
	p := cfg.Policy.OpP
	note(1, 0)
	point(p)
}

//go:norace
func point(p float64) {
	steps++
	if cfg.Policy.Kind != "explicit" && !fair && p > 0 && pol.Chance(p) {
		checkCaps()
		decide()
		setNext()
		return
	}
	if steps >= nextEvt {
		slow()
	}
}

//go:norace
func syncPoint() { point(cfg.Policy.SyncP) }

//go:norace
func note(kind uint64, obj uint32) {
	ihash = Mix(ihash, uint64(cur.id)<<32|kind<<24|uint64(obj))
}

// Note folds a value chosen by the harness into the run's hashes.
//
//go:norace
func Note(v uint64) { thash = Mix(thash, v) }

//go:norace
func block(kind string, addr unsafe.Pointer, obj uint32) {
	cur.waitObj = obj
	cur.state = stBlocked
	cur.waitAddr = addr
	cur.waitKind = kind
	st.Contended++
	forced(true)
}

//go:norace
func makeRunnable(t *task) {
	t.state = stRunnable
	if cfg.Policy.Kind == "pct" && !fair && t.prio > cur.prio {
		// the next step hands over to the higher priority
		decideAt = steps + 1
		setNext()
	}
}

//go:norace
func wakeAll(addr unsafe.Pointer) {
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t != nil && t.state == stBlocked && t.waitAddr == addr {
			makeRunnable(t)
		}
	}
}

// Gosched gives way to another task.
//
//go:norace
func Gosched() {
	if !active {
		return
	}
	st.Yields++
	if cfg.Policy.Kind == "pct" && !fair {
		pctLow--
		cur.prio = pctLow
	}
	forced(true)
}

// NumGoroutine replaces runtime.NumGoroutine: the tasks alive.
//
//go:norace
func NumGoroutine() int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i] != nil && tasks[i].state != stDone && tasks[i].timer == 0 {
			n++
		}
	}
	return n
}

// Sleep blocks the task for n steps of simulated time.
//
//go:norace
func SleepSteps(n uint64) {
	if !active || n == 0 {
		return
	}
	cur.state = stSleeping
	cur.wake = steps + jump + n
	if cur.locks > 0 {
		st.StallsInLock++
	}
	st.Stalls++
	forced(true)
}

// Token identifies a spawned task.
type Token struct{ t *task }

// Spawn registers a new task; the goroutine calls Enter first and Exit last.
//
//go:norace
func Spawn() Token {
	if !active {
		return Token{}
	}
	id := -1
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stDone && i != 0 {
			id = i
			break
		}
	}
	if id < 0 {
		if ntasks == MaxTasks {
			abort("toomany", "too many tasks alive at once")
		}
		id = ntasks
		ntasks++
	}
	t := &task{id: id, gate: make(chan struct{}, 1), state: stEmbryo}
	t.prio = int64(pol.U64() >> 40)
	tasks[id] = t
	st.Spawned++
	note(2, uint32(id))
	return Token{t}
}

// Started follows the go statement of a spawned task.
//
//go:norace
func Started(k Token) {
	if k.t != nil && k.t.state == stEmbryo {
		makeRunnable(k.t)
	}
}

// Wrap makes the function of a go statement a task of the simulation.
func Wrap[F any](k Token, f F) F {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		defer Exit(k)
		Enter(k)
		if ft.IsVariadic() {
			return fv.CallSlice(args)
		}
		return fv.Call(args)
	}).Interface().(F)
}

// Enter waits until the scheduler runs the task for the first time.
//
//go:norace
func Enter(k Token) {
	if k.t == nil {
		return
	}
	raceDisable()
	<-k.t.gate
	raceEnable()
	if k.t.killed {
		runtime.Goexit()
	}
}

// Exit ends a task. It must be deferred directly: it recovers panics.
//
//go:norace
func Exit(k Token) {
	if k.t == nil {
		return
	}
	if r := recover(); r != nil {
		if active && cur == k.t {
			out.Stack = string(debug.Stack())
			finish("panic", fmt.Sprintf("panic in a goroutine started by the library: %v", r))
		}
		return
	}
	if !active || cur != k.t {
		return
	}
	raceReleaseMerge(unsafe.Pointer(&k.t.joinAddr))
	k.t.state = stDone
	note(3, uint32(k.t.id))
	wakeAll(unsafe.Pointer(&k.t.joinAddr))
	forced(false)
}

// Join waits for a task.
//
//go:norace
func Join(k Token) {
	if k.t == nil {
		return
	}
	for k.t.state != stDone {
		block("join", unsafe.Pointer(&k.t.joinAddr), 0)
	}
	raceAcquire(unsafe.Pointer(&k.t.joinAddr))
}

// GoTask starts a harness task.
//
//go:norace
func GoTask(f func()) Token {
	k := Spawn()
	go runTask(k, f)
	Started(k)
	return k
}

//go:norace
func runTask(k Token, f func()) {
	defer Exit(k)
	Enter(k)
	f()
}

// Run executes fn as task 0 of a new simulated run.
func Run(c Config, fn func()) Outcome {
	for n := resets; n != nil; n = n.next {
		n.f()
	}
	start(c)
	go root(tasks[0], fn)
	<-doneCh
	raceAcquire(unsafe.Pointer(&endSync))
	o := out
	o.Trace = append([]Dev(nil), trace[:ntrace]...)
	o.TraceCut = traceCut
	for i := range tasks {
		tasks[i] = nil
	}
	cur = nil
	return o
}

//go:norace
func start(c Config) {
	cfg = c
	if cfg.StepCap == 0 {
		cfg.StepCap = 20_000_000
	}
	if cfg.OpCap == 0 {
		cfg.OpCap = 2_000_000
	}
	if cfg.FairAfter == 0 {
		cfg.FairAfter = cfg.StepCap / 2
	}
	if cfg.Policy.StallN == 0 {
		cfg.Policy.StallN = 1
	}
	if cfg.Policy.Est == 0 {
		cfg.Policy.Est = 1000
	}
	runID++
	steps, jump, nextObj, clkOff = 0, 0, 0, 0
	ntasks, trIdx, ntrace = 1, 0, 0
	traceCut, fair = false, false
	pol = NewRNG(Mix(c.Policy.Seed, 11))
	randG = NewRNG(Mix(c.RandSeed, 12))
	mapG = NewRNG(Mix(c.MapSeed, 13))
	clkG = NewRNG(Mix(c.RandSeed, 14))
	pctLeft, pctLow = cfg.Policy.Depth, 0
	st = Stats{}
	ihash, thash = 1, 1
	out = Outcome{}
	doneCh = make(chan struct{}, 1)
	for i := range tasks {
		tasks[i] = nil
	}
	t := &task{id: 0, gate: make(chan struct{}, 1), state: stRunnable}
	t.prio = int64(pol.U64() >> 40)
	tasks[0] = t
	cur = t
	active = true
	if cfg.Policy.Kind == "pct" {
		pctGap()
	}
	rearm()
}

//go:norace
func root(t *task, fn func()) {
	defer rootExit(t)
	fn()
}

//go:norace
func rootExit(t *task) {
	if r := recover(); r != nil {
		if active && cur == t {
			out.Stack = string(debug.Stack())
			finish("panic", fmt.Sprintf("panic: %v", r))
		}
		return
	}
	if !active || cur != t {
		return
	}
	t.state = stDone
	forced(false)
}
