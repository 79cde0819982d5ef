// Package vtime stands in for package time: the clock is the execution's.
// Everything not defined here is an alias of package time (alias.go, generated).
package vtime

import (
	"time"

	"github.com/jsimonetti/go-artnet/zz_vrt/vrt"
)

func Now() time.Time                         { return vrt.Now() }
func Since(t time.Time) time.Duration        { return vrt.Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(vrt.Now()) }
func Sleep(d time.Duration)                  { vrt.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer is a virtual time.Timer.
type Timer struct {
	C <-chan time.Time
	t *vrt.Timer
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, t: vrt.StartTimer(d, 0, c, nil)}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{t: vrt.StartTimer(d, 0, nil, f)}
}

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.t.Reset(d, 0)
}

// Ticker is a virtual time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *vrt.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	return &Ticker{C: c, t: vrt.StartTimer(d, d, c, nil)}
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.t == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.t.Reset(d, d)
}
