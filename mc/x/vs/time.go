//go:build go1.23

package vs

import (
	"strconv"
	"time"
)

// Epoch0 is the virtual time at which every execution starts.
var Epoch0 = time.Date(2024, 1, 30, 22, 58, 57, 0, time.UTC)

// virtual clock and timers of the current execution
type timer struct {
	when   int64
	period int64
	seq    int
	f      func(now time.Time)
	active bool
}

// Timer is a handle for a registered virtual timer.
type Timer struct{ t *timer }

// Now returns the virtual time.
//
//go:noinline
func Now() time.Time {
	if ex == nil {
		return Epoch0
	}
	if ex.nows++; ex.nows > 100000 && cur != nil && !Killed() {
		// a thread that waits actively for the time to pass
		ex.nows = 0
		if len(ex.timers) > 0 {
			ex.fireNext()
		} else {
			ex.now += int64(time.Second)
		}
		Point("time")
	}
	return Epoch0.Add(time.Duration(ex.now))
}

// AddTimer registers f to be called when the clock passes d from now.
//
//go:noinline
func AddTimer(d time.Duration, period time.Duration, f func(now time.Time)) *Timer {
	if ex == nil || Killed() {
		return &Timer{&timer{}}
	}
	if d < 0 {
		d = 0
	}
	ex.seq++
	t := &timer{when: ex.now + int64(d), period: int64(period), seq: ex.seq, f: f, active: true}
	ex.timers = append(ex.timers, t)
	return &Timer{t}
}

// Stop removes the timer; it reports whether it was active.
//
//go:noinline
func (tm *Timer) Stop() bool {
	was := tm.t.active
	tm.t.active = false
	if ex != nil {
		for i, t := range ex.timers {
			if t == tm.t {
				ex.timers = append(ex.timers[:i:i], ex.timers[i+1:]...)
				break
			}
		}
	}
	return was
}

func (x *Exec) nextTimer() *timer {
	var n *timer
	for _, t := range x.timers {
		if n == nil || t.when < n.when || (t.when == n.when && t.seq < n.seq) {
			n = t
		}
	}
	return n
}

func (x *Exec) fireNext() {
	t := x.nextTimer()
	if t.when > x.now {
		x.now = t.when
	}
	x.fire(t)
}

func (x *Exec) fire(t *timer) {
	if t.period > 0 {
		t.when += t.period
	} else {
		t.active = false
		for i, o := range x.timers {
			if o == t {
				x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
				break
			}
		}
	}
	if x.verbose {
		x.logf("timer fires at %v after the start", time.Duration(x.now))
	}
	t.f(Epoch0.Add(time.Duration(x.now)))
}

// Advance moves the virtual clock forward, firing timers that become due.
//
//go:noinline
func Advance(d time.Duration) {
	x := ex
	target := x.now + int64(d)
	for {
		t := x.nextTimer()
		if t == nil || t.when > target {
			break
		}
		if t.when > x.now {
			x.now = t.when
		}
		x.fire(t)
	}
	x.now = target
}

// Sleep blocks the thread for d of virtual time.
//
//go:noinline
func Sleep(d time.Duration) {
	if !Active() || d <= 0 {
		Point("sleep")
		return
	}
	s := &sleeper{}
	AddTimer(d, 0, func(time.Time) { s.done = true })
	Block("sleep", s, 0)
}

type sleeper struct{ done bool }

func (s *sleeper) Ready(int) bool { return s.done }

// GoTimer starts the daemon thread of an expired AfterFunc timer.
//
//go:noinline
func GoTimer(f func()) {
	if ex != nil && !Killed() {
		ex.newThread("timer"+strconv.Itoa(len(ex.threads)), false, f)
	}
}
