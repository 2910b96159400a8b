package rt

import (
	"reflect"
	"unsafe"
)

// Simulated channels. The real channel value is only an identity (and carries
// the capacity); buffers and queues live in a side table.

type hchan struct {
	key    unsafe.Pointer
	next   *hchan
	cap    int
	n      int
	head   *qitem
	tail   *qitem
	closed bool
	sem    int64
}

type qitem struct {
	v    interface{}
	next *qitem
}

// waiter is a task parked in one or several channel operations.
type waiter struct {
	t     *task
	n     int
	cases []SelCase
	fired int // index of the case another task completed, or -1
	val   interface{}
	ok    bool
}

var (
	chans   *hchan
	chanRun uint32
)

//go:norace
func hc(key unsafe.Pointer, c int) *hchan {
	if chanRun != runID {
		chanRun = runID
		chans = nil
	}
	for h := chans; h != nil; h = h.next {
		if h.key == key {
			return h
		}
	}
	h := &hchan{key: key, cap: c, next: chans}
	chans = h
	return h
}

// SelCase is one case of a select.
type SelCase struct {
	key  unsafe.Pointer
	cap  int
	send bool
	val  interface{}
}

//go:norace
func chanKey(c interface{}) unsafe.Pointer {
	return reflect.ValueOf(c).UnsafePointer()
}

// Case is one case of a select statement.
type Case interface {
	sc() SelCase
	set(v interface{}, ok bool)
}

// RC is a receive case.
type RC[T any] struct {
	c  <-chan T
	v  T
	ok bool
}

// RecvCase builds a receive case.
func RecvCase[T any](c <-chan T) *RC[T] { return &RC[T]{c: c} }

func (r *RC[T]) sc() SelCase { return SelCase{key: chanKey(r.c), cap: cap(r.c)} }
func (r *RC[T]) set(v interface{}, ok bool) {
	if b, is := v.(box[T]); is {
		r.v = b.v
	}
	r.ok = ok
}

// V is the received value.
func (r *RC[T]) V() T { return r.v }

// V2 is the received value and whether the channel delivered one.
func (r *RC[T]) V2() (T, bool) { return r.v, r.ok }

type sendCase SelCase

func (s *sendCase) sc() SelCase           { return SelCase(*s) }
func (s *sendCase) set(interface{}, bool) {}

// SendCase builds a send case; the second call supplies the value, so that it
// is converted to the element type.
func SendCase[T any](c chan<- T) func(T) Case {
	return func(v T) Case {
		return &sendCase{key: chanKey(c), cap: cap(c), send: true, val: box[T]{v}}
	}
}

type box[T any] struct{ v T }

type sel struct {
	i   int
	val interface{}
	ok  bool
}

// Select runs a select statement and returns the index of the case, -1 for default.
func Select(hasDefault bool, cs ...Case) int {
	cases := make([]SelCase, len(cs))
	for i := range cs {
		cases[i] = cs[i].sc()
	}
	s := selectCases(hasDefault, cases)
	if s.i >= 0 {
		cs[s.i].set(s.val, s.ok)
	}
	return s.i
}

// parked finds a task waiting in the opposite operation on the channel.
//
//go:norace
func parked(key unsafe.Pointer, send bool) (*waiter, int) {
	var ws [MaxTasks]*waiter
	var ix [MaxTasks]int
	n := 0
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t == nil || t == cur || t.chw == nil || t.chw.fired >= 0 {
			continue
		}
		for k := 0; k < t.chw.n; k++ {
			c := &t.chw.cases[k]
			if c.key == key && c.send == send {
				ws[n], ix[n] = t.chw, k
				n++
				break
			}
		}
	}
	if n == 0 {
		return nil, 0
	}
	k := mapG.Intn(n)
	return ws[k], ix[k]
}

//go:norace
func (h *hchan) push(v interface{}) {
	it := &qitem{v: v}
	if h.tail == nil {
		h.head, h.tail = it, it
	} else {
		h.tail.next = it
		h.tail = it
	}
	h.n++
}

//go:norace
func (h *hchan) pop() interface{} {
	it := h.head
	h.head = it.next
	if h.head == nil {
		h.tail = nil
	}
	h.n--
	return it.v
}

//go:norace
func try(c *SelCase) (done bool, v interface{}, ok bool) {
	if c.key == nil {
		return false, nil, false
	}
	h := hc(c.key, c.cap)
	if c.send {
		if h.closed {
			panic("send on closed channel")
		}
		if w, k := parked(c.key, false); w != nil {
			raceReleaseMerge(unsafe.Pointer(&h.sem))
			w.fired, w.val, w.ok = k, c.val, true
			makeRunnable(w.t)
			return true, nil, false
		}
		if h.n < h.cap {
			raceReleaseMerge(unsafe.Pointer(&h.sem))
			h.push(c.val)
			return true, nil, false
		}
		return false, nil, false
	}
	if h.n > 0 {
		raceAcquire(unsafe.Pointer(&h.sem))
		raceReleaseMerge(unsafe.Pointer(&h.sem))
		v := h.pop()
		if w, k := parked(c.key, true); w != nil {
			h.push(w.cases[k].val)
			w.fired = k
			makeRunnable(w.t)
		}
		return true, v, true
	}
	if w, k := parked(c.key, true); w != nil {
		raceAcquire(unsafe.Pointer(&h.sem))
		raceReleaseMerge(unsafe.Pointer(&h.sem))
		w.fired = k
		makeRunnable(w.t)
		return true, w.cases[k].val, true
	}
	if h.closed {
		raceAcquire(unsafe.Pointer(&h.sem))
		return true, nil, false
	}
	return false, nil, false
}

//go:norace
func selectCases(hasDefault bool, cases []SelCase) sel {
	if !active {
		fatal("channel operation outside the simulation")
	}
	syncPoint()
	st.ChanOps++
	note(12, uint32(len(cases)))
	n := len(cases)
	if n > 0 {
		off := mapG.Intn(n)
		for i := 0; i < n; i++ {
			k := (i + off) % n
			if done, v, ok := try(&cases[k]); done {
				return sel{i: k, val: v, ok: ok}
			}
		}
	}
	if hasDefault {
		return sel{i: -1}
	}
	w := &waiter{t: cur, n: n, cases: cases, fired: -1}
	for i := 0; i < n; i++ {
		// a sender publishes what it did before parking
		if cases[i].send && cases[i].key != nil {
			raceReleaseMerge(unsafe.Pointer(&hc(cases[i].key, cases[i].cap).sem))
		}
	}
	cur.chw = w
	for w.fired < 0 {
		block("channel operation", unsafe.Pointer(w), 0)
	}
	cur.chw = nil
	c := &w.cases[w.fired]
	h := hc(c.key, c.cap)
	raceAcquire(unsafe.Pointer(&h.sem))
	if c.send && h.closed && w.val == nil && w.ok {
		panic("send on closed channel")
	}
	return sel{i: w.fired, val: w.val, ok: w.ok}
}

// Send is ch <- v.
func Send[T any](c chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(c)(v)) }
}

// Recv is <-ch.
func Recv[T any](c <-chan T) T {
	r := RecvCase(c)
	Select(false, r)
	return r.v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvCase(c)
	Select(false, r)
	return r.v, r.ok
}

// Close is close(ch).
func Close[T any](c chan<- T) { closeKey(chanKey(c), cap(c)) }

//go:norace
func closeKey(key unsafe.Pointer, n int) {
	if !active {
		fatal("channel operation outside the simulation")
	}
	if key == nil {
		panic("close of nil channel")
	}
	syncPoint()
	h := hc(key, n)
	if h.closed {
		panic("close of closed channel")
	}
	raceReleaseMerge(unsafe.Pointer(&h.sem))
	h.closed = true
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t == nil || t.chw == nil || t.chw.fired >= 0 {
			continue
		}
		for k := 0; k < t.chw.n; k++ {
			c := &t.chw.cases[k]
			if c.key == key {
				t.chw.fired = k
				t.chw.val = nil
				t.chw.ok = c.send // marks "sender woken by close"
				makeRunnable(t)
				break
			}
		}
	}
}

// ChanLen is len(ch).
func ChanLen[T any](c <-chan T) int {
	if c == nil {
		return 0
	}
	return chanLen(chanKey(c), cap(c))
}

//go:norace
func chanLen(key unsafe.Pointer, n int) int {
	syncPoint()
	return hc(key, n).n
}
