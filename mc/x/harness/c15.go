//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

func crashBody(lives, calls int, archives []string, ns []int) func() {
	return func() {
		begin()
		f := c14start(archives, ns)
		r := f.r
		segs := f.segs
		n := 0
		crashes := 0
		life := func(k int, crash bool, calls int) {
			when := fmt.Sprintf("after life %d", k)
			returned := 0
			from := n
			vs.Spawn("life", func() {
				l := r.start()
				vos.C.Crash = crash
				for i := 0; i < calls; i++ {
					if r.kind == "time" {
						vs.Advance(24 * time.Hour)
					}
					l.Info(fmt.Sprintf("rec%02d", from+i))
					if !vos.C.Crashed {
						returned++
					}
				}
			})
			vs.JoinAll()
			dead := vos.C.Crashed
			if dead {
				crashes++
				when += " (" + vos.C.HitWhat + ")"
			} else if returned != calls {
				vs.Fail("life %d ended after %d calls without crash", k, returned)
			}
			vos.C.Crash = false
			for i := 0; i < returned; i++ {
				segs = append(segs, seg{fmt.Sprintf("rec%02d\n", from+i), false})
			}
			n += returned
			if dead {
				segs = append(segs, seg{fmt.Sprintf("rec%02d\n", n), true})
				n++
			}
			vs.Note("   %s: %v", when, r.state())
			r.state().holds(r, segs, when)
			restart()
		}
		for k := 1; k <= lives; k++ {
			life(k, true, calls)
		}
		what := vos.C.HitWhat
		life(lives+1, false, 3)
		s := r.state()
		settled(r, s, "after the last life ("+what+")")
		if !strings.HasPrefix(s.cur, fmt.Sprintf("rec%02d\n", n-1)) {
			vs.Fail("no rollover in the last life (%s): %v", what, s)
		}
		escaped()
		if crashes > 0 {
			obs("%s", what)
		}
	}
}

func init() {
	drv.Levels["C15"] = drv.Level{Level: "fault_enumeration",
		Rule: "every point before each operation that changes the file system, and the middle of every write, as the point where the process dies, in histories of size and time rolling with rollover, retention and archive; then a restart on the files left behind with a second (thorough: third) crash point; non-trivial: at least one crash happened"}
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash", Quick: 2, Thorough: 2,
		Desc: "two lives of 3 records, each record with a rollover, one crash point in each, then a life without; size and time rolling, both name modes, backups 1 and 2, files of an earlier run or none",
		Body: crashBody(2, 3, []string{""}, []int{1, 2})})
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash-archive", Quick: 2, Thorough: 2,
		Desc: "the same with zip and gzip archives", Body: crashBody(2, 3, []string{"zip", "gzip"}, []int{1, 2})})
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash3", Quick: -1, Thorough: 3,
		Desc: "three lives of 2 records with a crash point each, with and without archive", Body: crashBody(3, 2, []string{"", "zip", "gzip"}, []int{1})})
	mix := func(calls int) func() {
		return func() {
			begin()
			f := c14start([]string{"", "gzip"}, []int{1, 2})
			r := f.r
			r.limit = pick("limit", 6, 13)
			texts := make([]string, calls+2)
			long := flip("long records")
			for i := range texts {
				c := string(rune('a' + i))
				texts[i] = c
				if i%2 == 1 {
					texts[i] = c + strings.Repeat("-", 4)
				}
				if long && i == 1 {
					texts[i] = c + strings.Repeat("-", 9000)
				}
			}
			segs := f.segs
			returned := 0
			vs.Spawn("life", func() {
				l := r.start()
				vos.C.Crash = true
				for i := 0; i < calls; i++ {
					if r.kind == "time" && flip("next period") {
						vs.Advance(24 * time.Hour)
					}
					l.Info(texts[i])
					if !vos.C.Crashed {
						returned++
					}
				}
			})
			vs.JoinAll()
			dead := vos.C.Crashed
			vos.C.Crash = false
			what := vos.C.HitWhat
			for i := 0; i < returned; i++ {
				segs = append(segs, seg{texts[i] + "\n", false})
			}
			if dead {
				segs = append(segs, seg{texts[returned] + "\n", true})
			}
			r.state().holds(r, segs, "after the crash ("+what+")")
			restart()
			l := r.start()
			for i := calls; i < len(texts); i++ {
				if r.kind == "time" {
					vs.Advance(24 * time.Hour)
				}
				l.Info(texts[i])
				segs = append(segs, seg{texts[i] + "\n", false})
				r.state().holds(r, segs, "after the restart ("+what+")")
			}
			escaped()
			if dead {
				obs("%s %d", what, returned)
			}
		}
	}
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash-mix", Quick: 1, Thorough: 1,
		Desc: "one crash point in a life of 4 records of 2, 6 or 9002 bytes of which one, two or many fit into a file (time: the period changes before any of them or not), then 2 records more", Body: mix(4)})
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash-mix-long", Quick: -1, Thorough: 1,
		Desc: "the same with 7 records", Body: mix(7)})
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash-long", Quick: -1, Thorough: 1,
		Desc: "one crash point in a life of 12 records with backups 3", Body: crashBody(1, 12, []string{"", "zip", "gzip"}, []int{3})})
	drv.Add(drv.Scenario{Prop: "C15", Name: "crash-fault", Quick: -1, Thorough: 2,
		Desc: "one file operation fails, then (or before) the process dies at any point of 3 calls",
		Body: func() {
			begin()
			f := c14start([]string{"", "zip"}, []int{1})
			r := f.r
			segs := f.segs
			var mine []seg
			vs.Spawn("life", func() {
				l := r.start()
				vos.C.Crash, vos.C.Faults, vos.C.FaultOps = true, true, ioOps
				for i := 0; i < 3; i++ {
					if r.kind == "time" {
						vs.Advance(24 * time.Hour)
					}
					s := fmt.Sprintf("rec%02d", i)
					hit := vos.C.Hit
					mine = append(mine, seg{s + "\n", true})
					l.Info(s)
					if hit == vos.C.Hit {
						mine[i].optional = false
					}
				}
			})
			vs.JoinAll()
			vos.C.Crash, vos.C.Faults = false, false
			what := vos.C.HitWhat
			segs = append(segs, mine...)
			r.state().holds(r, segs, what)
			restart()
			l := r.start()
			for i := 5; i < 8; i++ {
				if r.kind == "time" {
					vs.Advance(24 * time.Hour)
				}
				s := fmt.Sprintf("rec%02d", i)
				l.Info(s)
				segs = append(segs, seg{s + "\n", false})
				r.state().holds(r, segs, what)
			}
			settled(r, r.state(), what)
			obs("%s", what)
		}})
}
