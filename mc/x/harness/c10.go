//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// initial states of the directory of a size-rolling output with limit 6
func sizeInitial(r *roller, k int) {
	w := func(key, c string) { write(r.dir+r.name(key), c) }
	switch k {
	case 1:
		write(r.dir+r.file, "old\n")
	case 2:
		write(r.dir+r.file, "old67\n")
	case 3:
		w("1", "one678\n")
		w("2", "two678\n")
		write(r.dir+r.file, "cur\n")
	case 4:
		w("9", "nine78\n")
		w("10", "ten678\n")
	case 5:
		w("2", "two678\n")
		w("10", "ten678\n")
		w("100", "hund78\n")
		write(r.dir+r.file, "a long current file\n")
	case 6:
		w("99", "b99678\n")
		w("1000000", "mil678\n")
		w("99999999999", "bil678\n")
		write(r.dir+r.file, "")
	case 7:
		for i := 1; i <= 12; i++ {
			w(strconv.Itoa(i), fmt.Sprintf("b%05d\n", i))
		}
	}
}

const sizeInitials = 8

func sizeHistory(depth int, backups []int, ops int, paths ...string) func() {
	return func() {
		begin()
		r := &roller{kind: "size", dir: "l/", file: "f", limit: 6, n: pick("backups", backups...), prefix: flip("prefix")}
		if paths != nil {
			r.at(pick("path", paths...))
		}
		sizeInitial(r, vs.Choose(sizeInitials, 0, "initial files"))
		m := newSizeModel(r)
		l := r.start()
		for i := 0; i < depth; i++ {
			switch op := vs.Choose(ops, 0, "operation"); op {
			case 0, 1, 2, 3: // of 2, 3, 6 and 12 bytes with the line break
				s := strings.Repeat(string(rune('a'+i)), []int{1, 2, 5, 11}[op])
				l.Info(s)
				m.log(s + "\n")
			case 4:
				restart()
				l = r.start()
			case 5: // the definition changes: a new instance on the same files
				r.extra = []string{"threshold", []string{"all", "trace"}[i%2]}
				l = r.start()
			}
			m.check(fmt.Sprintf("after operation %d", i+1))
		}
		escaped()
		obs("%s", show(tree()))
	}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C10", Name: "history", Quick: 0,
		Desc: "all histories of 5 operations (records of 2, 3, 6, 12 bytes, restart, re-definition) with limit 6, from 8 initial states of the directory, backups 1 and 3, both name modes; files compared with the model after every operation",
		Body: sizeHistory(5, []int{1, 3}, 6)})
	drv.Add(drv.Scenario{Prop: "C10", Name: "history-deep", Quick: -1, Thorough: 0,
		Desc: "histories of 7 operations without re-definition, backups 2 and 20", Body: sizeHistory(7, []int{2, 20}, 5)})
	drv.Add(drv.Scenario{Prop: "C10", Name: "odd-paths", Quick: 0,
		Desc: "histories of 3 operations for 28 paths (names with [, *, ?, %, blanks, backslash, leading dot or dash, like a backup or archive; such directories, and with //, /./ or /../)", Body: sizeHistory(3, []int{2}, 5, oddPaths...)})
	drv.Add(drv.Scenario{Prop: "C10", Name: "long", Quick: 0, Opts: vs.Options{StepLimit: 200000},
		Desc: "125 rollovers across the numbers 9/10 and 99/100, backups 1, 2, 5, 20, both name modes, both directory listing orders, with or without a restart before each",
		Body: func() {
			begin()
			vs.MapReverse = flip("listing order")
			r := &roller{kind: "size", dir: "l/", file: "f", limit: 6, n: pick("backups", 1, 2, 5, 20), prefix: flip("prefix")}
			m := newSizeModel(r)
			l := r.start()
			re := flip("restart each time")
			for i := 0; i < 126; i++ {
				s := fmt.Sprintf("%05d", i)
				l.Info(s)
				m.log(s + "\n")
				m.check(s)
				if re {
					restart()
					l = r.start()
				}
			}
		}})
	drv.Add(drv.Scenario{Prop: "C10", Name: "async", Quick: 0, Thorough: 1,
		Desc: "asynchronous output, batches of 1..3, two bursts of records of 3 lengths, flush ticks or restart after Close between them: a group of records is one write",
		Body: func() {
			begin()
			b := 1 + vs.Choose(3, 0, "batch")
			r := &roller{kind: "size", dir: "l/", file: "f", limit: 6, n: 20, prefix: flip("prefix"), extra: []string{"async", "true", "batch_num", fmt.Sprint(b)}}
			sizeInitial(r, vs.Choose(4, 0, "initial files"))
			m := newSizeModel(r)
			l := r.start()
			pending, cnt := "", 0
			flush := func() {
				if pending != "" {
					m.log(pending)
				}
				pending, cnt = "", 0
			}
			for burst := 0; burst < 2; burst++ {
				n := 1 + vs.Choose(3, 0, "records")
				w := []int{1, 3, 8}[vs.Choose(3, 0, "length")]
				for i := 0; i < n; i++ {
					s := strings.Repeat(string(rune('a'+burst*4+i)), w)
					l.Info(s)
					pending += s + "\n"
					if cnt++; cnt == b {
						flush()
					}
				}
				switch vs.Choose(3, 0, "then") {
				case 0:
					vs.WaitIdle()
				case 1:
					vs.WaitIdle()
					vs.Advance(5 * time.Second)
					vs.WaitIdle()
					flush()
				case 2:
					log4g.GetManager().Close()
					flush()
					restart()
					l = r.start()
				}
				m.check(fmt.Sprintf("after burst %d", burst+1))
			}
			log4g.GetManager().Close()
			flush()
			m.check("after Close")
			obs("%s", show(tree()))
		}})
	drv.Add(drv.Scenario{Prop: "C10", Name: "concurrent", Quick: 2, Thorough: 3,
		Desc: "two goroutines log 2 records each around a rollover, file operations are scheduling points: every backup reached the limit with its last record, nothing is lost or doubled",
		Body: func() {
			begin()
			r := &roller{kind: "size", dir: "l/", file: "f", limit: 6, n: 20}
			sizeInitial(r, vs.Choose(3, 0, "initial files"))
			_, old, _ := r.read()
			l := r.start()
			vos.C.Sched = true
			w := pick("length", 2, 5)
			want := [][]string{nil, nil}
			for t := 0; t < 2; t++ {
				var recs []string
				for i := 0; i < 2; i++ {
					s := strings.Repeat(string(rune('a'+2*t+i)), w)
					recs = append(recs, s)
					want[t] = append(want[t], s+"\n")
				}
				vs.Spawn("log"+strconv.Itoa(t), func() {
					for _, s := range recs {
						l.Info(s)
					}
				})
			}
			vs.JoinAll()
			vos.C.Sched = false
			bs, cur, _ := r.read()
			all := ""
			for _, b := range bs {
				all += b.content
				last := w + 1
				if b.content == old {
					last = len(old)
				}
				if len(b.content) < r.limit || len(b.content)-last >= r.limit {
					vs.Fail("backup %s has %d bytes with limit %d and records of %d: %s", b.key, len(b.content), r.limit, w+1, showB(bs, cur))
				}
			}
			all += cur
			if len(cur)-(w+1) >= r.limit {
				vs.Fail("a record was appended to a file over the limit: %s", showB(bs, cur))
			}
			if !strings.HasPrefix(all, old) {
				vs.Fail("earlier content is gone: %s", showB(bs, cur))
			}
			interleaved(all[len(old):], want, nil)
			obs("%s", showB(bs, cur))
		}})
	drv.Add(drv.Scenario{Prop: "C10", Name: "shared-dir", Quick: 0,
		Desc: "two outputs whose names are parts of each other in one directory, all sequences of 6 records to either: each keeps its own history",
		Body: func() {
			begin()
			p := pick("names", [2]string{"f", "g"}, [2]string{"f", "f.log"}, [2]string{"f.log", "a.f.log"}, [2]string{"f", "ff"}, [2]string{"f", "f.f"})
			prefix := flip("prefix")
			r1 := &roller{kind: "size", dir: "l/", file: p[0], limit: 3, n: 2, prefix: prefix}
			r2 := &roller{kind: "size", dir: "l/", file: p[1], limit: 3, n: 2, prefix: prefix}
			c := r1.config()
			c2 := r2.config()
			c2.Outputs[0]["name"] = "o2"
			c.Outputs = append(c.Outputs, c2.Outputs[0])
			c.Loggers = append(c.Loggers, logger("a", "all", "o2"))
			must(log4g.GetManager().SetConfig(c))
			m1, m2 := newSizeModel(r1), newSizeModel(r2)
			for i := 0; i < 6; i++ {
				s := strings.Repeat(string(rune('a'+i)), 3)
				if flip("which") {
					log4g.GetLogger("a").Info(s)
					m2.log(s + "\n")
				} else {
					log4g.GetLogger("root").Info(s)
					m1.log(s + "\n")
				}
				m1.check("output 1")
				m2.check("output 2")
			}
			escaped()
		}})
}
