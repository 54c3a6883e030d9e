//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// mutable is an argument that the caller changes after the call.
type mutable struct{ s string }

func (m *mutable) String() string { return m.s }

// wholePrefix checks that have consists of the first n of the wanted records.
func wholePrefix(have string, want []string) int {
	rest := have
	for i, w := range want {
		if rest == "" {
			return i
		}
		if !strings.HasPrefix(rest, w) {
			vs.Fail("asynchronous output wrote %q, which is no prefix (by whole records) of %q", have, want)
		}
		rest = rest[len(w):]
	}
	if rest != "" {
		vs.Fail("asynchronous output wrote %q, more than %q", have, want)
	}
	return len(want)
}

// asyncHistory drives one asynchronous console output and an identical
// synchronous model with the same calls and flush ticks.
func asyncHistory(depth int, queues, batches []int, idle bool) func() {
	return func() {
		begin()
		q := pick("queue", queues...)
		b := pick("batch", batches...)
		kv := []string{"async", "true", "threshold", "INFO"}
		if q > 0 {
			kv = append(kv, "queue_size", fmt.Sprint(q))
		}
		if b > 0 {
			kv = append(kv, "batch_num", fmt.Sprint(b))
		} else {
			b = 20
		}
		must(log4g.GetManager().SetConfig(conf(format("f", "%{level}-%{msg}-%{k}-%{time:05.000}\n"), output("console", "o", "f", kv...), logger("root", "all", "o"))))
		l := log4g.GetLogger("root")
		start := now()
		var want []string
		var taken []time.Duration // when the output was idle first after the record was sent
		settle := func() int {
			vs.WaitIdle()
			for len(taken) < len(want) {
				taken = append(taken, now().Sub(start))
			}
			return wholePrefix(console(), want)
		}
		n := 0
		send := func(lvl api.Level, mut int) {
			n++
			at := now()
			msg := fmt.Sprintf("r%d", n)
			k := "k" + msg
			switch mut {
			case 0:
				l.WithFields(api.Field{Key: "k", Value: k}).Printf(lvl, msg)
			case 1: // an argument and a field value that change after the call
				m, f := &mutable{msg}, &mutable{k}
				l.WithFields(api.Field{Key: "k", Value: f}).Printf(lvl, "%v", m)
				m.s, f.s = "changed", "changed"
			case 2: // argument slice and field slice reused by the caller
				args := []interface{}{msg}
				fields := []api.Field{{Key: "k", Value: k}}
				w := l.WithFields(fields...)
				w.Printf(lvl, "%s", args...)
				args[0] = "changed"
				fields[0].Value = "changed"
			}
			if lvl >= api.Info {
				want = append(want, fmt.Sprintf("%s-%s-%s-%s\n", levelNames[lvl], msg, k, at.Format("05.000")))
			}
		}
		check := func() int { return wholePrefix(console(), want) }
		closed := false
		for i := 0; i < depth && !closed; i++ {
			op := vs.Choose(8, 0, "operation")
			switch op {
			case 0:
				send(api.Info, 0)
			case 1:
				send(api.Debug, 0) // below the threshold
			case 2:
				send(api.Error, 1)
			case 3:
				send(api.Warn, 2)
			case 4:
				vs.Advance(2 * time.Second)
			case 5:
				vs.Advance(5 * time.Second)
				w := settle()
				for k := w; k < len(want); k++ {
					if now().Sub(start)-taken[k] >= 5*time.Second {
						vs.Fail("record %q, taken by the output %v ago, is still not written", want[k], now().Sub(start)-taken[k])
					}
				}
			case 6:
				if w := settle(); len(want)-w >= b {
					vs.Fail("%d records accumulated (batch %d) and %d not written: %q", len(want), b, len(want)-w, console())
				}
			case 7:
				closed = true
			}
			if idle && op < 4 {
				if w := settle(); len(want)-w >= b {
					vs.Fail("%d records not written with batch %d: %q", len(want)-w, b, console())
				}
			}
			check()
		}
		log4g.GetManager().Close()
		if w := check(); w != len(want) {
			vs.Fail("after Close %q is written, want %q", console(), want)
		}
		obs("%s", strings.ReplaceAll(console(), "\n", ";"))
	}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C05", Name: "history4", Quick: 0, Thorough: 1,
		Desc: "all histories of 4 operations (records above and below the threshold, with arguments changed afterwards, clock advances of 2 and 5 s, idle waits, close) for queue {1,2,3,default} and batch {1,2,3,default}, each record handled at once",
		Body: asyncHistory(4, []int{1, 2, 3, 0}, []int{1, 2, 3, 0}, true)})
	drv.Add(drv.Scenario{Prop: "C05", Name: "history-interleaved", Quick: 1, Thorough: 2,
		Desc: "histories of 3 operations where the output's goroutine runs at any point: queue {1,2}, batch {1,2}",
		Body: asyncHistory(3, []int{1, 2}, []int{1, 2}, false)})
	drv.Add(drv.Scenario{Prop: "C05", Name: "history-interleaved4", Quick: 0, Thorough: 1,
		Desc: "the same with 4 operations, switches only where the caller or the output waits",
		Body: asyncHistory(4, []int{1, 3}, []int{1, 2, 4}, false)})
	drv.Add(drv.Scenario{Prop: "C05", Name: "history5", Quick: -1, Thorough: 0,
		Desc: "histories of 5 operations", Body: asyncHistory(5, []int{1, 2}, []int{1, 2, 3}, true)})
	drv.Add(drv.Scenario{Prop: "C05", Name: "same-bytes", Quick: 0,
		Desc: "each built-in output kind, synchronous and asynchronous instances on one logger: same bytes, for every threshold, batch and number of records, with and without a format",
		Body: func() {
			begin()
			kind := pick("kind", "size", "time", "console")
			thr := pick("threshold", "", "info", "off", "critical")
			b := pick("batch", "1", "2", "3", "")
			n := vs.Choose(6, 0, "records")
			layout := pick("layout", "%{msg}|%{level}\n", "%{module} %{time} %{msg}%{shortfile}:%{line}\n")
			var a, s api.CfgOutput
			switch kind {
			case "console":
				a = output("console", "a", "f", "async", "true", "queue_size", "2", "batch_num", b, "threshold", thr)
				s = output("size_rolling_file", "s", "f", "file", fsRoot+"/s/f", "threshold", thr)
			case "size":
				a = output("size_rolling_file", "a", "f", "file", fsRoot+"/a/f", "async", "true", "queue_size", "2", "batch_num", b, "threshold", thr)
				s = output("size_rolling_file", "s", "f", "file", fsRoot+"/s/f", "threshold", thr)
			case "time":
				a = output("time_rolling_file", "a", "f", "file", fsRoot+"/a/f", "pattern", "2006", "async", "true", "queue_size", "2", "batch_num", b, "threshold", thr)
				s = output("time_rolling_file", "s", "f", "file", fsRoot+"/s/f", "pattern", "2006", "threshold", thr)
			}
			must(log4g.GetManager().SetConfig(conf(format("f", layout), a, s, logger("root", "all", "s", "a"))))
			l := log4g.GetLogger("x/y")
			for i := 0; i < n; i++ {
				call(l, methods[(5*i+1)%len(methods)], levels[i%6], "record %d "+strings.Repeat("x", i*7), i)
				if i == 3 {
					vs.Advance(time.Second)
				}
			}
			log4g.GetManager().Close()
			t := tree()
			as := t["a/f"]
			if kind == "console" {
				as = console()
			}
			if as != t["s/f"] {
				vs.Fail("asynchronous %q, synchronous %q", as, t["s/f"])
			}
			obs("%s", as)
		}})
	files := func(depth int) func() {
		return func() {
			begin()
			kind, b := pick("kind", "size", "time"), pick("batch", "1", "2", "")
			kv := []string{"size", "4", "backups", pick("backups", "1", "2")}
			typ, period := "size_rolling_file", time.Hour
			if kind == "time" {
				typ = "time_rolling_file"
				kv = append(kv, "pattern", "2006-01-02T15", "name_mode", pick("name mode", "prefix", "postfix"))
			} else if b != "1" {
				b = "1" // a batch is one write: the files differ
			}
			must(log4g.GetManager().SetConfig(conf(format("f", "%{msg}\n"),
				output(typ, "a", "f", append(kv, "file", fsRoot+"/a/f", "async", "true", "batch_num", b)...),
				output(typ, "s", "f", append(kv, "file", fsRoot+"/s/f")...), logger("root", "all", "s", "a"))))
			l := log4g.GetLogger("a")
			at := vs.Now()
			vs.Advance(boundary("15", at, 1).Sub(at))
			vs.WaitIdle()
			for i := 0; i < depth; i++ {
				switch vs.Choose(5, 0, "operation") {
				case 0:
					l.Info(string(rune('a' + i)))
				case 1:
					l.Info(strings.Repeat(string(rune('a'+i)), 5))
				case 2: // nothing for a flush period
					vs.Advance(5 * time.Second)
				case 3:
					vs.Advance(period)
				case 4:
					vs.Advance(3 * period)
				}
				if b != "1" {
					vs.WaitIdle()
					vs.Advance(5 * time.Second)
				}
				vs.WaitIdle()
				t := tree()
				for n := range t {
					other := "s/" + strings.TrimPrefix(n, "a/")
					if strings.HasPrefix(n, "s/") {
						other = "a/" + strings.TrimPrefix(n, "s/")
					}
					if c, ok := t[other]; !ok && n != "a" && n != "s" && t[n] != "" || ok && c != t[n] {
						vs.Fail("after operation %d: the files of the asynchronous output (a) and of the synchronous one (s) differ: %s", i+1, show(t))
					}
					if _, ok := t[other]; !ok && strings.Count(n, "/") == 1 && !strings.HasSuffix(n, "/") && n != "a/f" && n != "s/f" {
						vs.Fail("after operation %d: backup %s of one output only: %s", i+1, n, show(t))
					}
				}
			}
			log4g.GetManager().Close()
			obs("%s", show(tree()))
		}
	}
	drv.Add(drv.Scenario{Prop: "C05", Name: "files", Quick: 0,
		Desc: "histories of 5 operations (short and long record, a flush period, one and three periods pass) on a synchronous and an asynchronous rolling output (size with batch 1; time with batch 1, 2, default), each record flushed before the next: same files and backups after each",
		Body: files(5)})
	drv.Add(drv.Scenario{Prop: "C05", Name: "files-deep", Quick: -1, Thorough: 0,
		Desc: "the same with histories of 6 operations", Body: files(6)})
	drv.Add(drv.Scenario{Prop: "C05", Name: "default-batch", Quick: 0,
		Desc: "batch sizes 1..22, default and around the maximum 500, queue sizes around them: written exactly when the batch is full",
		Body: func() {
			begin()
			bs := []int{0, 499, 500, 501, 1000}
			for i := 1; i <= 22; i++ {
				bs = append(bs, i)
			}
			b := pick("batch", bs...)
			q := pick("queue", 1, 7, 0)
			kv := []string{"async", "true"}
			if b != 0 {
				kv = append(kv, "batch_num", strconv.Itoa(b))
			} else {
				b = 20
			}
			if b > 500 {
				b = 500
			}
			if q != 0 {
				kv = append(kv, "queue_size", strconv.Itoa(q))
			}
			must(log4g.GetManager().SetConfig(one(output("console", "o", "f", kv...))))
			l := log4g.GetLogger("")
			vs.WaitIdle()
			var want []string
			for i := 1; i <= 2*b+1; i++ {
				l.Info("r" + strconv.Itoa(i))
				want = append(want, "r"+strconv.Itoa(i)+"\n")
				if b < 30 || i%b < 2 || i%b == b-1 {
					vs.WaitIdle()
					w := wholePrefix(console(), want)
					if len(want)-w >= b {
						vs.Fail("batch %d: %d records not written", b, len(want)-w)
					}
				}
			}
			vs.Advance(5 * time.Second)
			vs.WaitIdle()
			if w := wholePrefix(console(), want); w != len(want) {
				vs.Fail("after the flush period %d of %d records are written", w, len(want))
			}
			log4g.GetManager().Close()
			wholePrefix(console(), want)
			obs("%d %d", b, q)
		}, Opts: vs.Options{StepLimit: 100000}})
	drv.Add(drv.Scenario{Prop: "C05", Name: "big-records", Quick: 0,
		Desc: "all sequences of 3 records of 5, 5000, 70000 and 1100000 bytes, batch sizes 1, 2, 3 and default, console and size-rolling file, with and without a flush period after each, then Close",
		Body: func() {
			begin()
			file := flip("file")
			kv := []string{"async", "true", "queue_size", pick("queue", "1", "10")}
			b := pick("batch", 1, 2, 3, 20)
			if b < 20 {
				kv = append(kv, "batch_num", strconv.Itoa(b))
			}
			kind := "console"
			if file {
				kind = "size_rolling_file"
				kv = append(kv, "file", fsRoot+"/l/f", "size", "100M")
			}
			must(log4g.GetManager().SetConfig(one(output(kind, "o", "f", kv...))))
			written := func() string {
				if file {
					return tree()["l/f"]
				}
				return console()
			}
			ticks := flip("flush after each")
			l := log4g.GetLogger("")
			var want []string
			sizes := []int{5, 5000, 70000, 1100000}
			for i := 0; i < 3; i++ {
				n := sizes[vs.Choose(4, 0, "size")]
				s := strconv.Itoa(i) + strings.Repeat(string(rune('a'+i)), n-2) + "$"
				l.Info(s)
				want = append(want, s+"\n")
				vs.WaitIdle()
				if ticks {
					vs.Advance(5 * time.Second)
					vs.WaitIdle()
				}
				k, rest := 0, written()
				for k < len(want) && strings.HasPrefix(rest, want[k]) {
					rest = rest[len(want[k]):]
					k++
				}
				if rest != "" || ticks && k <= i || i+1-k >= b {
					vs.Fail("batch %d, after record %d (%d bytes): %d records are written, then %d other bytes", b, i, n, k, len(rest))
				}
			}
			log4g.GetManager().Close()
			if got := written(); got != strings.Join(want, "") {
				vs.Fail("batch %d: after Close %d bytes are written, which are not the 3 records of %d, %d and %d", b, len(got), len(want[0]), len(want[1]), len(want[2]))
			}
			obs("%d %v", b, file)
		}})
	drv.Add(drv.Scenario{Prop: "C05", Name: "race", Race: true, Quick: 2, Thorough: 3,
		Desc: "caller changes a mutable argument right after the call while the output's goroutine runs, clock ticking: no data race, original text written",
		Body: func() {
			begin()
			must(log4g.GetManager().SetConfig(conf(format("f", "%{msg}-%{k}\n"), output("console", "o", "f", "async", "true", "queue_size", "2", "batch_num", pick("batch", "1", "2", "5")), logger("root", "all", "o"))))
			l := log4g.GetLogger("root")
			vs.Spawn("caller", func() {
				m, f := []byte("one"), []byte("two")
				l.WithFields(api.Field{Key: "k", Value: f}).Infof("%s", m)
				raceTouch(m)
				raceTouch(f)
				args := []interface{}{"three"}
				l.Info(args...)
				args[0] = "x"
			})
			vs.Spawn("clock", func() { vs.Point("clock"); vs.Advance(5 * time.Second); vs.Point("clock"); vs.Advance(5 * time.Second) })
			vs.JoinAll()
			log4g.GetManager().Close()
			want := []string{"one-" + fmt.Sprint([]byte("two")) + "\n", "three-<nil>\n"}
			if w := wholePrefix(console(), want); w != 2 {
				vs.Fail("after Close %q is written, want %q", console(), want)
			}
			obs("%d", len(console()))
		}})
}

// raceTouch overwrites b, as the caller may after the call.
func raceTouch(b []byte) {
	vs.RaceWriteBytes(b)
	for i := range b {
		b[i] = 'x'
	}
}
