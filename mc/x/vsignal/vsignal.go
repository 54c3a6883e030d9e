//go:build go1.23

// Package vsignal replaces package os/signal in instrumented code: signals are
// delivered by the harness.
package vsignal

import (
	"context"
	"os"

	"github.com/xtfly/log4g/verifx/vs"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var regs []reg

func init() { vs.AtEnd(func() { regs = nil }) }

// Notify is signal.Notify.
//
//go:noinline
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if !vs.Active() {
		return
	}
	regs = append(regs, reg{c, sig})
}

// Stop is signal.Stop.
//
//go:noinline
func Stop(c chan<- os.Signal) {
	for i := 0; i < len(regs); i++ {
		if regs[i].c == c {
			regs = append(regs[:i:i], regs[i+1:]...)
			i--
		}
	}
}

// Ignore is signal.Ignore.
func Ignore(sig ...os.Signal) { Reset(sig...) }

// Ignored is signal.Ignored.
func Ignored(os.Signal) bool { return false }

// Reset is signal.Reset.
//
//go:noinline
func Reset(sig ...os.Signal) {
	if len(sig) == 0 {
		regs = nil
		return
	}
	for i := range regs {
		var keep []os.Signal
		for _, s := range regs[i].sigs {
			in := false
			for _, d := range sig {
				in = in || d == s
			}
			if !in {
				keep = append(keep, s)
			}
		}
		regs[i].sigs = keep
		if len(keep) == 0 {
			regs[i].c = nil
		}
	}
}

// NotifyContext is signal.NotifyContext.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	vs.Go(func() {
		vs.Recv[os.Signal](c)
		cancel()
	})
	return ctx, cancel
}

// Deliver sends the process a signal; it reports whether anybody listens.
//
//go:noinline
func Deliver(s os.Signal) bool {
	vs.Point("signal")
	n := 0
	for _, r := range regs {
		want := r.c != nil && len(r.sigs) == 0
		for _, o := range r.sigs {
			want = want || (r.c != nil && o == s)
		}
		if want {
			n++
			vs.RaceOff()
			select {
			case r.c <- s:
			default:
			}
			vs.RaceOn()
		}
	}
	return n > 0
}
