// Package sync is what package sync is replaced with.
package sync

import "zzmc/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = rw
	WaitGroup = mc.WaitGroup
	Once      = mc.Once
	Cond      = mc.Cond
	Locker    = mc.Locker
	Map       = mc.SyncMap
	Pool      = mc.Pool
)

type rw struct{ mc.RWMutex }

type rlocker mc.RWMutex

func (r *rlocker) Lock()   { (*mc.RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*mc.RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (r *rw) RLocker() Locker { return (*rlocker)(&r.RWMutex) }

func NewCond(l Locker) *Cond { return mc.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
