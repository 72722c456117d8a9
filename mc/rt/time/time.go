// Package time is what package time is replaced with: the clock is virtual.
package time

import (
	"time"

	"zzmc/mc"
)

func Now() time.Time                         { return mc.Wall(mc.ReadClock()) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { mc.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer is the controlled time.Timer.
type Timer struct {
	C <-chan time.Time
	h *mc.Timer
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	return &Timer{c, mc.NewTimer(c, int64(d), 0, nil, mc.Wall)}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{nil, mc.NewTimer[time.Time](nil, int64(d), 0, f, nil)}
}

func (t *Timer) Stop() bool                 { return t.h.Stop() }
func (t *Timer) Reset(d time.Duration) bool { return t.h.Reset(int64(d)) }

// Ticker is the controlled time.Ticker.
type Ticker struct {
	C <-chan time.Time
	h *mc.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	return &Ticker{c, mc.NewTimer(c, int64(d), int64(d), nil, mc.Wall)}
}

func (t *Ticker) Stop()                 { t.h.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.h.Reset(int64(d)) }
