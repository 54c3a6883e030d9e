//go:build go1.23

// Package vtime replaces package time in instrumented code: the clock and all
// timers are virtual and driven by the explorer.
package vtime

import (
	"time"

	"github.com/xtfly/log4g/verifx/vs"
)

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *vs.Timer
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *vs.Timer
}

// Now is time.Now.
func Now() time.Time { return vs.Now().Local() }

// Since is time.Since.
func Since(t time.Time) time.Duration { return vs.Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(vs.Now()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) { vs.Sleep(d) }

//go:noinline
func send(c chan time.Time, now time.Time) {
	vs.RaceOff()
	select {
	case c <- now:
	default:
	}
	vs.RaceOn()
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, c: c, t: vs.AddTimer(d, 0, func(now time.Time) { send(c, now) })}
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{f: f, t: vs.AddTimer(d, 0, func(time.Time) { vs.GoTimer(f) })}
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool { return t.t.Stop() }

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.t.Stop()
	if t.f != nil {
		f := t.f
		t.t = vs.AddTimer(d, 0, func(time.Time) { vs.GoTimer(f) })
	} else {
		c := t.c
		t.t = vs.AddTimer(d, 0, func(now time.Time) { send(c, now) })
	}
	return was
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	return &Ticker{C: c, c: c, t: vs.AddTimer(d, d, func(now time.Time) { send(c, now) })}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Stop()
	c := t.c
	t.t = vs.AddTimer(d, d, func(now time.Time) { send(c, now) })
}
