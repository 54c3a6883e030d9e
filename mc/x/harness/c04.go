//go:build go1.23

package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

type closing struct {
	kind    string
	queue   string
	batch   string
	outs    int // number of outputs
	before  int // records logged by main before anything else starts
	loggers int // goroutines logging
	recs    int
	closers int
	again   bool // each closer closes twice
	signal  bool
	noIdle  bool // do not let the output's goroutine start first
	after   bool // log after Close
	tick    bool // the flush period passes concurrently
	sched   bool
	delay   bool // delay bounding
	reload  bool // the output is redefined before the close
}

func (c closing) body() {
	begin()
	vs.MapReverse = c.outs > 1 && flip("map order")
	mk := func(threshold string) *api.Config {
		parts := []interface{}{format("f", "<%{msg}>\n")}
		var on []string
		for i := 0; i < c.outs; i++ {
			n := fmt.Sprintf("o%d", i)
			kv := []string{"async", "true", "queue_size", c.queue, "batch_num", c.batch, "threshold", threshold}
			if c.kind == "console" {
				parts = append(parts, output("console", n, "f", kv...))
			} else {
				parts = append(parts, output("size_rolling_file", n, "f", append(kv, "file", fmt.Sprintf("%s/log%d/f.log", fsRoot, i), "size", "10", "backups", "20")...))
			}
			on = append(on, n)
		}
		return conf(append(parts, logger("root", "all", on...))...)
	}
	must(log4g.GetManager().SetConfig(mk("all")))
	l := log4g.GetLogger("root")
	if !c.noIdle {
		vs.WaitIdle()
	}
	vos.C.Sched = c.sched
	var want [][]string
	var main []string
	// shared by the threads: no maps and no package fmt, which would show up in
	// the race detector or synchronise the threads
	var accepted []string // call returned
	var need []string     // call returned before the first Close call
	closeStarted := false
	logit := func(s string) {
		l.Info(s)
		accepted = append(accepted, s)
	}
	for k := 0; k < c.before; k++ {
		s := fmt.Sprintf("m%d", k)
		main = append(main, "<"+s+">\n")
		logit(s)
	}
	if c.reload {
		must(log4g.GetManager().SetConfig(mk("debug")))
	}
	for t := 0; t < c.loggers; t++ {
		var recs []string
		for k := 0; k < c.recs; k++ {
			recs = append(recs, fmt.Sprintf("<t%dr%d>\n", t, k))
		}
		want = append(want, recs)
		vs.Spawn(fmt.Sprintf("log%d", t), func() {
			for _, r := range recs {
				logit(r[1 : len(r)-2])
			}
		})
	}
	for i := 0; i < c.closers; i++ {
		i := i
		vs.Spawn(fmt.Sprintf("close%d", i), func() {
			if i > 0 {
				vs.Point("second close")
			}
			if !closeStarted {
				closeStarted = true
				need = accepted[:len(accepted):len(accepted)]
			}
			log4g.GetManager().Close()
			// now everything accepted before has been written
			var missing []string
			for _, s := range need {
				for o := 0; o < c.outs; o++ {
					if !strings.Contains(c.read(o), "<"+s+">\n") {
						missing = append(missing, s)
					}
				}
			}
			if len(missing) > 0 {
				vs.Fail("Close returned, but %v (logged before it was called) is not written", missing)
			}
			if c.again {
				log4g.GetManager().Close()
			}
		})
	}
	if c.signal {
		vs.Spawn("signal", func() {
			if !closeStarted {
				closeStarted = true
				need = accepted[:len(accepted):len(accepted)]
			}
			sig := os.Signal(syscall.SIGTERM)
			if flip("signal") {
				sig = os.Interrupt
			}
			if !vs_deliver(sig) {
				vs.Fail("nobody handles %v", sig)
			}
		})
	}
	if c.tick {
		vs.Spawn("clock", func() { vs.Point("clock"); vs.Advance(5 * time.Second) })
	}
	vs.JoinAll()
	if c.signal {
		vs.WaitIdle()
	}
	vos.C.Sched = false
	if c.after {
		l.Info("after")
		l.Info("after2")
		log4g.GetManager().Close()
		l.Info("after3")
	}
	want = append(want, main, []string{"<after>\n", "<after2>\n", "<after3>\n"})
	optional := map[string]bool{}
	must_ := map[string]bool{}
	for _, s := range need {
		must_[s] = true
	}
	for _, r := range want {
		for _, s := range r {
			if !must_[strings.Trim(s, "<>\n")] {
				optional[s] = true
			}
		}
	}
	vs.WaitIdle()
	for o := 0; o < c.outs; o++ {
		interleaved(c.read(o), want, optional)
	}
	obs("%s", strings.ReplaceAll(c.read(0), "\n", ""))
}

func (c closing) read(o int) string {
	if c.kind == "console" {
		return console()
	}
	return rolled(fmt.Sprintf("%s/log%d", fsRoot, o), "f.log", false)
}

func init() {
	add := func(name, desc string, q, th int, c closing) {
		if c.outs == 0 {
			c.outs = 1
		}
		drv.Add(drv.Scenario{Prop: "C04", Name: name, Desc: desc, Race: true, Quick: q, Thorough: th, Body: c.body, Opts: vs.Options{Delay: c.delay}})
	}
	add("two-closers", "1 logger x 2 records, 2 goroutines closing, queue 1, batch 2", 2, 3, closing{kind: "console", queue: "1", batch: "2", loggers: 1, recs: 2, closers: 2})
	add("close-twice", "2 loggers x 1 record, one goroutine closing twice, queue 1", 2, 3, closing{kind: "console", queue: "1", batch: "500", loggers: 2, recs: 1, closers: 1, again: true})
	add("full-queue", "queue 1 filled before, logger blocked while closing", 2, 3, closing{kind: "console", queue: "1", batch: "1", before: 2, loggers: 1, recs: 2, closers: 1, noIdle: true})
	add("backlog", "3 records queued, batch not reached, then Close", 2, 3, closing{kind: "console", queue: "3", batch: "10", before: 3, closers: 2, noIdle: true})
	add("signal", "SIGTERM or SIGINT while a goroutine logs", 2, 3, closing{kind: "console", queue: "2", batch: "10", before: 2, loggers: 1, recs: 1, signal: true})
	add("signal-close", "signal and Close together", 2, 4, closing{delay: true, kind: "console", queue: "1", batch: "10", before: 1, loggers: 1, recs: 1, signal: true, closers: 1})
	add("after-close", "logging after Close and another Close", 2, 3, closing{kind: "console", queue: "1", batch: "2", loggers: 1, recs: 1, closers: 1, after: true})
	add("two-outputs", "two asynchronous rolling files", 2, 4, closing{delay: true, kind: "size", outs: 2, queue: "2", batch: "2", before: 2, loggers: 1, recs: 1, closers: 2})
	add("two-outputs-backlog", "two asynchronous rolling files with queued records, two closers, no running logger", 2, 4, closing{delay: true, kind: "size", outs: 2, queue: "3", batch: "5", before: 3, closers: 2})
	add("fs", "rolling file with file operations as scheduling points", 1, 2, closing{kind: "size", queue: "2", batch: "1", before: 1, loggers: 1, recs: 1, closers: 1, sched: true})
	add("tick", "the flush period passes while closing", 2, 3, closing{kind: "console", queue: "2", batch: "5", before: 1, loggers: 1, recs: 1, closers: 1, tick: true})
	add("reloaded", "the output was redefined with records queued in the old one", 2, 3, closing{kind: "size", queue: "3", batch: "5", before: 2, loggers: 1, recs: 1, closers: 1, reload: true})
	add("three", "2 loggers and 2 closers, queue 1, batch 1", 2, 4, closing{delay: true, kind: "console", queue: "1", batch: "1", loggers: 2, recs: 1, closers: 2})
	drv.Add(drv.Scenario{Prop: "C04", Name: "sequential", Race: false, Quick: 1, Thorough: 2,
		Desc: "every number of records 0-6, queue 1-3, batch 1-4, close directly or after the flush period: all written once",
		Body: func() {
			begin()
			q := 1 + vs.Choose(3, 0, "queue")
			b := 1 + vs.Choose(4, 0, "batch")
			n := vs.Choose(7, 0, "records")
			must(log4g.GetManager().SetConfig(one(output("console", "o", "f", "async", "true", "queue_size", fmt.Sprint(q), "batch_num", fmt.Sprint(b)))))
			l := log4g.GetLogger("root")
			want := ""
			for k := 0; k < n; k++ {
				l.Warnf("r%d", k)
				want += fmt.Sprintf("r%d\n", k)
				if k == n/2 && flip("tick") {
					vs.Advance(5 * time.Second)
				}
			}
			log4g.GetManager().Close()
			if console() != want {
				vs.Fail("after Close %q is written, want %q", console(), want)
			}
			log4g.GetManager().Close()
			l.Warn("late")
			vs.WaitIdle()
			if c := console(); c != want && c != want+"late\n" {
				vs.Fail("after a second Close %q is written, want %q", c, want)
			}
			obs("%d %d %d", q, b, n)
		}})
	drv.Add(drv.Scenario{Prop: "C04", Name: "many", Race: false, Quick: 0, Thorough: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "1..2100 records, default queue and batch or queue 200 and 1000 with batch 7 and 500, none or many of them taken from the queue when Close begins, short records or such of 3000 bytes, console or rolling file: all written once",
		Body: func() {
			begin()
			kv := pick("settings", []string{}, []string{"queue_size", "200", "batch_num", "7"}, []string{"queue_size", "1000", "batch_num", "500"})
			n := pick("records", 1, 9, 10, 15, 16, 63, 64, 65, 100, 128, 129, 255, 257, 512, 999, 1000, 1001, 2100)
			pad := pick("padding", 0, 3000)
			typ := pick("type", "console", "size_rolling_file")
			kv = append([]string{"async", "true"}, kv...)
			if typ != "console" {
				kv = append(kv, "file", "l/f", "size", "1GB", "backups", "1", "file_perm", "0600", "back_perm", "0600", "dir_perm", "0700")
			}
			must(log4g.GetManager().SetConfig(one(output(typ, "o", "f", kv...))))
			l := log4g.GetLogger("root")
			fill := strings.Repeat("-", pad)
			var want strings.Builder
			for k := 0; k < n; k++ {
				l.Warnf("r%d%s", k, fill)
				fmt.Fprintf(&want, "r%d%s\n", k, fill)
				if k == n/2 && flip("idle") {
					vs.WaitIdle()
				}
			}
			log4g.GetManager().Close()
			got := console()
			if typ != "console" {
				got = tree()["l/f"]
			}
			if got != want.String() {
				vs.Fail("after Close of %d records %d bytes are written, want %d", n, len(got), want.Len())
			}
			obs("%d", n)
		}})
}
