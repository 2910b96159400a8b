// Package vcontext stands in for package context in instrumented code: the same
// interface, with cancellation through simulated channels, locks and timers.
package vcontext

import (
	"context"
	"time"

	"verif.local/rt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func WithoutCancel(p Context) Context       { return context.WithoutCancel(p) }

type keyT struct{}

var key keyT

type cctx struct {
	Context
	mu       rt.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*cctx
	parent   *cctx
	deadline time.Time
	hasDl    bool
	timer    *rt.Timer
	after    func()
}

func (c *cctx) Done() <-chan struct{} { return c.done }

func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cctx) Value(k any) any {
	if k == any(&key) {
		return c
	}
	return c.Context.Value(k)
}

func (c *cctx) cancel(detach bool, err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	rt.Close[struct{}](c.done)
	kids := c.children
	c.children = nil
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	for _, k := range kids {
		k.cancel(false, err, cause)
	}
	if detach && c.parent != nil {
		p := c.parent
		p.mu.Lock()
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
		p.mu.Unlock()
	}
	if c.after != nil {
		f := c.after
		rt.GoTask(f)
	}
}

func newCtx(p Context, after func()) *cctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{Context: p, done: make(chan struct{}), after: after}
	if p.Done() == nil {
		return c
	}
	pc, ok := p.Value(&key).(*cctx)
	if !ok {
		return c
	}
	c.parent = pc
	pc.mu.Lock()
	err, cause := pc.err, pc.cause
	if err == nil {
		pc.children = append(pc.children, c)
	}
	pc.mu.Unlock()
	if err != nil {
		c.cancel(false, err, cause)
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p, nil)
	return c, func() { c.cancel(true, Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCtx(p, nil)
	return c, func(cause error) { c.cancel(true, Canceled, cause) }
}

func Cause(c Context) error {
	if x, ok := c.Value(&key).(*cctx); ok {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.cause
	}
	return c.Err()
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) { return WithDeadlineCause(p, d, nil) }

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	return deadline(p, d, rt.TimeUntil(d), cause)
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return deadline(p, rt.TimeNow().Add(d), d, nil)
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return deadline(p, rt.TimeNow().Add(d), d, cause)
}

// deadline makes a context that ends after dur, however the wall clock jumps.
func deadline(p Context, d time.Time, dur time.Duration, cause error) (Context, CancelFunc) {
	if cur, ok := p.Deadline(); ok && cur.Before(d) {
		return WithCancel(p)
	}
	c := newCtx(p, nil)
	c.deadline, c.hasDl = d, true
	if dur <= 0 {
		c.cancel(true, DeadlineExceeded, cause)
	} else if c.Err() == nil {
		t := rt.TimeAfterFunc(dur, func() { c.cancel(true, DeadlineExceeded, cause) })
		c.mu.Lock()
		c.timer = t
		late := c.err != nil
		c.mu.Unlock()
		if late {
			t.Stop()
		}
	}
	return c, func() { c.cancel(true, Canceled, nil) }
}

func AfterFunc(p Context, f func()) func() bool {
	c := newCtx(p, f)
	return func() bool {
		c.mu.Lock()
		was := c.err == nil
		if was {
			c.after = nil
		}
		c.mu.Unlock()
		c.cancel(true, Canceled, nil)
		return was
	}
}
