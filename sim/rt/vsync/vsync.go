// Package vsync stands in for package sync in instrumented code.
package vsync

import "verif.local/rt"

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Pool      = rt.Pool
	Map       = rt.Map
	Locker    = rt.Locker
)

func NewCond(l Locker) *Cond                             { return rt.NewCond(l) }
func OnceFunc(f func()) func()                           { return rt.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return rt.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return rt.OnceValues(f) }
