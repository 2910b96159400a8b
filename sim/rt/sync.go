package rt

import (
	"unsafe"
)

// Fatal mirrors the runtime's unrecoverable "fatal error: sync: ..." reports.
//
//go:norace
func fatal(msg string) {
	if active {
		abort("panic", "fatal error: "+msg)
	}
	panic(msg)
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	run    uint32
	id     uint32
	locked bool
	sem    int64
}

//go:norace
func (m *Mutex) fresh() {
	if m.run != runID {
		m.run = runID
		m.locked = false
		nextObj++
		m.id = nextObj
	}
}

//go:norace
func (m *Mutex) Lock() {
	m.fresh()
	if active {
		syncPoint()
		for m.locked {
			block("Mutex.Lock", unsafe.Pointer(m), m.id)
		}
		cur.locks++
		note(4, m.id)
	} else if m.locked {
		panic("deadlock outside the simulation")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
	if active {
		syncPoint()
	}
}

//go:norace
func (m *Mutex) TryLock() bool {
	m.fresh()
	if active {
		syncPoint()
	}
	if m.locked {
		return false
	}
	m.locked = true
	if active {
		cur.locks++
		note(4, m.id)
	}
	raceAcquire(unsafe.Pointer(&m.sem))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.fresh()
	if active {
		syncPoint()
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.sem))
	m.locked = false
	if active {
		cur.locks--
		note(5, m.id)
		wakeAll(unsafe.Pointer(m))
		syncPoint()
	}
}

// RWMutex replaces sync.RWMutex, with the same admission rules: a writer that
// waits (or holds) keeps new readers out, and all readers that queued behind a
// writer get in when it unlocks.
type RWMutex struct {
	run     uint32
	id      uint32
	readers int32
	wheld   bool // a writer owns the writer mutex (it may still wait for readers)
	writing bool
	rwait   [MaxTasks]bool
	nrwait  int32
	rsem    int64
	wsem    int64
	waddr   int64
}

//go:norace
func (m *RWMutex) fresh() {
	if m.run != runID {
		m.run = runID
		m.readers, m.nrwait = 0, 0
		m.wheld, m.writing = false, false
		for i := range m.rwait {
			m.rwait[i] = false
		}
		nextObj++
		m.id = nextObj
	}
}

//go:norace
func (m *RWMutex) RLock() {
	m.fresh()
	if active {
		syncPoint()
		if m.wheld {
			me := cur
			m.rwait[me.id] = true
			m.nrwait++
			for m.rwait[me.id] {
				block("RWMutex.RLock", unsafe.Pointer(&m.rsem), m.id)
			}
			// admitted by the writer's Unlock, which counted this reader
		} else {
			m.readers++
		}
		cur.locks++
		note(6, m.id)
	} else {
		if m.wheld {
			panic("deadlock outside the simulation")
		}
		m.readers++
	}
	raceAcquire(unsafe.Pointer(&m.rsem))
	if active {
		syncPoint()
	}
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if active {
		syncPoint()
	}
	if m.wheld {
		return false
	}
	m.readers++
	if active {
		cur.locks++
		note(6, m.id)
	}
	raceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.fresh()
	if active {
		syncPoint()
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
	if active {
		cur.locks--
		note(7, m.id)
		if m.readers == 0 {
			wakeAll(unsafe.Pointer(&m.wsem))
		}
		syncPoint()
	}
}

//go:norace
func (m *RWMutex) Lock() {
	m.fresh()
	if active {
		syncPoint()
		for m.wheld {
			block("RWMutex.Lock", unsafe.Pointer(&m.waddr), m.id)
		}
		m.wheld = true
		for m.readers > 0 {
			st.WriterWaits++
			block("RWMutex.Lock(readers)", unsafe.Pointer(&m.wsem), m.id)
		}
		cur.locks++
		note(8, m.id)
	} else {
		if m.wheld || m.readers > 0 {
			panic("deadlock outside the simulation")
		}
		m.wheld = true
	}
	m.writing = true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
	if active {
		syncPoint()
	}
}

//go:norace
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if active {
		syncPoint()
	}
	if m.wheld || m.readers > 0 {
		return false
	}
	m.wheld, m.writing = true, true
	if active {
		cur.locks++
		note(8, m.id)
	}
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.fresh()
	if active {
		syncPoint()
	}
	if !m.writing {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rsem))
	m.wheld, m.writing = false, false
	if active {
		cur.locks--
		note(9, m.id)
		if m.nrwait > 0 {
			m.readers += m.nrwait
			m.nrwait = 0
			for i := range m.rwait {
				m.rwait[i] = false
			}
			wakeAll(unsafe.Pointer(&m.rsem))
		}
		wakeAll(unsafe.Pointer(&m.waddr))
		syncPoint()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	run uint32
	id  uint32
	n   int
	sem int64
}

//go:norace
func (w *WaitGroup) fresh() {
	if w.run != runID {
		w.run = runID
		w.n = 0
		nextObj++
		w.id = nextObj
	}
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.fresh()
	if active {
		syncPoint()
	}
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.sem))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if active {
		note(10, w.id)
		if w.n == 0 {
			wakeAll(unsafe.Pointer(w))
		}
		syncPoint()
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	w.fresh()
	if active {
		syncPoint()
		for w.n > 0 {
			block("WaitGroup.Wait", unsafe.Pointer(w), w.id)
		}
		note(11, w.id)
	} else if w.n > 0 {
		panic("deadlock outside the simulation")
	}
	raceAcquire(unsafe.Pointer(&w.sem))
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	k := Spawn()
	go w.run1(k, f)
	Started(k)
}

//go:norace
func (w *WaitGroup) run1(k Token, f func()) {
	defer Exit(k)
	Enter(k)
	defer w.Done()
	f()
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	sem  int64
	seq  int64
	wq   [MaxTasks]int64
	sigd [MaxTasks]bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	me := cur.id
	c.seq++
	c.wq[me] = c.seq
	c.sigd[me] = false
	c.L.Unlock()
	for !c.sigd[me] {
		block("Cond.Wait", unsafe.Pointer(c), 0)
	}
	c.wq[me] = 0
	raceAcquire(unsafe.Pointer(&c.sem))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	syncPoint()
	raceReleaseMerge(unsafe.Pointer(&c.sem))
	best := -1
	for i := range c.wq {
		if c.wq[i] != 0 && !c.sigd[i] && (best < 0 || c.wq[i] < c.wq[best]) {
			best = i
		}
	}
	if best >= 0 {
		c.sigd[best] = true
		wakeAll(unsafe.Pointer(c))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	syncPoint()
	raceReleaseMerge(unsafe.Pointer(&c.sem))
	for i := range c.wq {
		if c.wq[i] != 0 {
			c.sigd[i] = true
		}
	}
	wakeAll(unsafe.Pointer(c))
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	run  uint32
	done bool
	sem  int64
}

//go:norace
func (o *Once) isDone() bool {
	if active {
		syncPoint()
	}
	if o.done {
		raceAcquire(unsafe.Pointer(&o.sem))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	raceReleaseMerge(unsafe.Pointer(&o.sem))
	o.done = true
}

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.setDone()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool replaces sync.Pool: what Get returns is the scheduler's choice.
type Pool struct {
	New func() interface{}
	m   Mutex
	xs  []interface{}
	run uint32
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	if p.run != runID {
		p.run = runID
		p.xs = nil
	}
	n := len(p.xs)
	if n > 0 && (randG == nil || !mapG.Chance(0.25)) {
		k := n - 1
		x := p.xs[k]
		p.xs = p.xs[:k]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	p.m.Lock()
	if p.run != runID {
		p.run = runID
		p.xs = nil
	}
	p.xs = append(p.xs, x)
	p.m.Unlock()
}

// Map replaces sync.Map (each method one atomic step).
type Map struct {
	m    Mutex
	keys []interface{}
	vals map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	return v, ok
}

func (m *Map) store(k, v interface{}) {
	if m.vals == nil {
		m.vals = map[interface{}]interface{}{}
	}
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}

func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.vals[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) del(k interface{}) {
	if _, ok := m.vals[k]; ok {
		delete(m.vals, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(append([]interface{}(nil), m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.vals[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	m.del(k)
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.vals[k]
	m.store(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, v interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.vals[k]
	if !ok || x != o {
		return false
	}
	m.store(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.vals[k]
	if !ok || x != o {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.keys, m.vals = nil, nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	ks := append([]interface{}(nil), m.keys...)
	m.m.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
