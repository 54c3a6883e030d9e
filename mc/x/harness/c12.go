//go:build go1.23

package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata" // for time zones

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// boundary returns the start of the n-th next period of the pattern after t.
func boundary(pattern string, t time.Time, n int) time.Time {
	t = t.In(time.Local)
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	switch {
	case strings.Contains(pattern, "05"):
		return time.Date(y, mo, d, h, mi, s+n, 0, time.Local)
	case strings.Contains(pattern, "04"):
		return time.Date(y, mo, d, h, mi+n, 0, 0, time.Local)
	case strings.Contains(pattern, "15"), strings.Contains(pattern, "03PM"):
		return time.Date(y, mo, d, h+n, 0, 0, 0, time.Local)
	case strings.Contains(pattern, "02"), strings.HasPrefix(pattern, "2 "):
		return time.Date(y, mo, d+n, 0, 0, 0, 0, time.Local)
	case strings.Contains(pattern, "Jan"), strings.Contains(pattern, "01"):
		return time.Date(y, mo+time.Month(n), 1, 0, 0, 0, 0, time.Local)
	}
	return time.Date(y+n, 1, 1, 0, 0, 0, 0, time.Local)
}

type timeModel struct {
	r    *roller
	full []backup
	cur  string
	per  string // period of the records in cur
}

func (m *timeModel) now() string { return vs.Now().In(time.Local).Format(m.r.pattern) }

func (m *timeModel) log(s string) {
	if p := m.now(); m.cur != "" && m.per != p {
		m.full = append(m.full, backup{m.per, m.cur})
		m.cur = ""
	}
	m.per = m.now()
	m.cur += s
}

func (m *timeModel) check(when string) {
	l, cur, _ := m.r.read()
	if cur != m.cur {
		vs.Fail("%s: the current file is %q, expected %q; files %s, all so far %s", when, cur, m.cur, showB(l, cur), showB(m.full, m.cur))
	}
	if len(l) > len(m.full) || len(l) < min(m.r.n, len(m.full)) {
		vs.Fail("%s: %d backups with backups=%d: %s; all so far %s", when, len(l), m.r.n, showB(l, cur), showB(m.full, m.cur))
	}
	for i, b := range m.full[len(m.full)-len(l):] {
		if b != l[i] {
			vs.Fail("%s: backup %s=%q where the records of period %s are %q; files %s", when, l[i].key, l[i].content, b.key, b.content, showB(l, cur))
		}
	}
}

func timeHistory(depth int, patterns []string, backups []int, zones []int, paths ...string) func() {
	return func() {
		begin()
		z := pick("zone (minutes)", zones...)
		old := time.Local
		defer func() { time.Local = old }()
		if z != 0 {
			time.Local = time.FixedZone("", z*60)
		}
		r := &roller{kind: "time", dir: "l/", file: "f", n: pick("backups", backups...), prefix: flip("prefix"), pattern: pick("pattern", patterns...)}
		if paths != nil {
			r.at(pick("path", paths...))
		}
		m := &timeModel{r: r}
		l := r.start()
		for i := 0; i < depth; i++ {
			switch op := vs.Choose(6, 0, "operation"); op {
			case 0:
				s := string(rune('a' + i))
				l.Info(s)
				m.log(s + "\n")
			case 1: // the last instant of the period
				vs.Advance(boundary(r.pattern, vs.Now(), 1).Add(-1).Sub(vs.Now()))
			case 2: // the first instant of the next
				vs.Advance(boundary(r.pattern, vs.Now(), 1).Sub(vs.Now()))
			case 3: // three periods later
				vs.Advance(boundary(r.pattern, vs.Now(), 3).Sub(vs.Now()))
			case 4:
				restart()
				l = r.start()
			case 5: // the definition changes: a new instance on the same files
				r.extra = []string{"threshold", []string{"all", "trace"}[i%2]}
				l = r.start()
			}
			m.check(fmt.Sprintf("after operation %d", i+1))
		}
		escaped()
		obs("%s", show(tree()))
	}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C12", Name: "history", Quick: 0,
		Desc: "all histories of 6 operations (record, to the last instant of the period, to the next, three periods later, restart, re-definition), patterns by day and by hour, backups 1 and 3; files compared with the model after every operation",
		Body: timeHistory(6, []string{"2006-01-02", "15h 2006-01-02"}, []int{1, 3}, []int{0})})
	drv.Add(drv.Scenario{Prop: "C12", Name: "history-deep", Quick: -1, Thorough: 0,
		Desc: "histories of 7 operations, pattern by month, backups 2", Body: timeHistory(7, []string{"Jan 2006", "01-02-2006 03PM"}, []int{2}, []int{0})})
	drv.Add(drv.Scenario{Prop: "C12", Name: "patterns", Quick: 0,
		Desc: "histories of 4 operations for 12 patterns (also such whose names do not sort by time) in 3 time zones",
		Body: timeHistory(4, append([]string{"20060102T150405"}, timePatterns...), []int{2}, []int{0, 330, -480})})
	drv.Add(drv.Scenario{Prop: "C12", Name: "odd-paths", Quick: 0,
		Desc: "histories of 4 operations for 28 paths (names with [, *, ?, %, blanks, backslash, leading dot or dash, like a backup or archive; such directories, and with //, /./ or /../)", Body: timeHistory(4, []string{"2006-01-02"}, []int{2}, []int{0}, oddPaths...)})
	drv.Add(drv.Scenario{Prop: "C12", Name: "long", Quick: 0, Opts: vs.Options{StepLimit: 100000},
		Desc: "a year and more of periods (one or two records each, some periods without) for all patterns and time zones, backups 1, 3, 20, restarts at every k-th step",
		Body: func() {
			begin()
			vs.MapReverse = flip("listing order")
			z := pick("zone (minutes)", 0, 330, -480)
			old := time.Local
			defer func() { time.Local = old }()
			if z != 0 {
				time.Local = time.FixedZone("", z*60)
			}
			r := &roller{kind: "time", dir: "l/", file: "f", n: pick("backups", 1, 3, 20), prefix: flip("prefix"), pattern: pick("pattern", timePatterns...)}
			every := pick("restart every", 1000, 1, 7)
			m := &timeModel{r: r}
			l := r.start()
			for i := 0; i < 45; i++ {
				for k := 0; k < 1+i%2; k++ {
					s := strconv.Itoa(i) + string(rune('a'+k))
					l.Info(s)
					m.log(s + "\n")
					m.check(s)
				}
				if i%every == every-1 {
					restart()
					l = r.start()
				}
				n := 1
				if i%5 == 4 {
					n = 9
				}
				vs.Advance(boundary(r.pattern, vs.Now(), n).Add(time.Duration(i%3) * time.Millisecond).Sub(vs.Now()))
			}
		}})
	drv.Add(drv.Scenario{Prop: "C12", Name: "summer-time", Quick: 0, Opts: vs.Options{StepLimit: 100000},
		Desc: "60 hours around each change of the offset within a year in 4 time zones (at night, at midnight, by half an hour), a record every 1, 5 or 24 hours, patterns by day, month, and hour with offset, backups 3 and 20, with restarts",
		Body: func() {
			begin()
			z, err := time.LoadLocation(pick("zone", "America/New_York", "America/Havana", "Africa/Cairo", "Australia/Lord_Howe"))
			must(err)
			old := time.Local
			defer func() { time.Local = old }()
			time.Local = z
			r := &roller{kind: "time", dir: "l/", file: "f", n: pick("backups", 3, 20), prefix: flip("prefix"), pattern: pick("pattern", "2006-01-02", "Jan 2006", "2006-01-02T15 -0700")}
			at := vs.Now()
			for n := 1 + vs.Choose(2, 0, "change"); n > 0; n-- {
				at = at.Add(48 * time.Hour)
				for _, was := at.In(z).Zone(); ; at = at.Add(30 * time.Minute) {
					if _, is := at.In(z).Zone(); is != was {
						break
					}
				}
			}
			vs.Advance(at.Add(-30*time.Hour - 10*time.Minute).Sub(vs.Now()))
			step := time.Duration(pick("hours", 1, 5, 24)) * time.Hour
			every := pick("restart every", 1000, 1, 4)
			m := &timeModel{r: r}
			l := r.start()
			for i := 0; vs.Now().Before(at.Add(30 * time.Hour)); i++ {
				s := strconv.Itoa(i)
				l.Info(s)
				m.log(s + "\n")
				m.check("at " + vs.Now().In(z).String())
				if i%every == every-1 {
					restart()
					l = r.start()
				}
				vs.Advance(step)
			}
			escaped()
			obs("%s", show(tree()))
		}})
	drv.Add(drv.Scenario{Prop: "C12", Name: "found", Quick: 0,
		Desc: "a current file and backups left by an earlier run 0, 1, 2, 5 periods ago (file empty, of one byte or longer, with or without backup of earlier periods), then records in two periods",
		Body: func() {
			begin()
			r := &roller{kind: "time", dir: "l/", file: "f", n: pick("backups", 1, 2, 9), prefix: flip("prefix"), pattern: pick("pattern", timePatterns...)}
			m := &timeModel{r: r}
			at := vs.Now()
			vs.Advance(boundary(r.pattern, at, 10).Sub(at))
			old := boundary(r.pattern, at, 10-pick("periods ago", 0, 1, 2, 5)).Add(time.Millisecond)
			n := vs.Choose(3, 0, "earlier backups")
			for i := 0; i < n; i++ {
				k := boundary(r.pattern, at, 2+i).Format(r.pattern)
				write(r.dir+r.name(k), "b"+strconv.Itoa(i))
				m.full = append(m.full, backup{k, "b" + strconv.Itoa(i)})
			}
			switch vs.Choose(4, 0, "current file") {
			case 3: // a single byte
				write(r.dir+r.file, "\n")
				m.cur, m.per = "\n", old.Format(r.pattern)
			case 1:
				write(r.dir+r.file, "old\n")
				m.cur, m.per = "old\n", old.Format(r.pattern)
			case 2:
				write(r.dir+r.file, "")
			}
			os.Chtimes(fsRoot+"/"+r.dir+r.file, old, old)
			l := r.start()
			for i := 0; i < 4; i++ {
				s := strconv.Itoa(i)
				l.Info(s)
				m.log(s + "\n")
				m.check("record " + s)
				if i == 1 {
					vs.Advance(boundary(r.pattern, vs.Now(), 1).Sub(vs.Now()))
				}
			}
		}})
	drv.Add(drv.Scenario{Prop: "C12", Name: "concurrent", Quick: 2, Thorough: 3,
		Desc: "two goroutines log 2 records each while the period changes under them; file operations are scheduling points",
		Body: func() {
			begin()
			r := &roller{kind: "time", dir: "l/", file: "f", n: 20, pattern: "2006-01-02"}
			l := r.start()
			if flip("earlier record") {
				l.Info("early")
			}
			first := vs.Now().Format(r.pattern)
			vos.C.Sched = true
			changed := false
			early, late := map[string]bool{}, map[string]bool{}
			want := [][]string{nil, nil}
			for t := 0; t < 2; t++ {
				for i := 0; i < 2; i++ {
					want[t] = append(want[t], fmt.Sprintf("t%d-%d\n", t, i))
				}
				recs := want[t]
				vs.Spawn("log"+strconv.Itoa(t), func() {
					for _, s := range recs {
						if changed {
							late[s] = true
						}
						l.Info(s[:4])
						if !changed {
							early[s] = true
						}
					}
				})
			}
			vs.Spawn("clock", func() {
				vs.Advance(24 * time.Hour)
				changed = true
			})
			vs.JoinAll()
			vos.C.Sched = false
			l.Info("end")
			bs, cur, _ := r.read()
			if len(bs) > 1 || (len(bs) == 1 && bs[0].key != first) {
				vs.Fail("backups %s", showB(bs, cur))
			}
			b := ""
			if len(bs) == 1 {
				b = bs[0].content
			}
			for s := range early {
				if !strings.Contains(b, s) {
					vs.Fail("record %q of the first period is not in its backup: %s", s, showB(bs, cur))
				}
			}
			for s := range late {
				if !strings.Contains(cur, s) {
					vs.Fail("record %q of the second period is not in the current file: %s", s, showB(bs, cur))
				}
			}
			all := strings.TrimPrefix(b+cur, "early\n")
			if !strings.HasSuffix(all, "end\n") {
				vs.Fail("the last record is not last: %s", showB(bs, cur))
			}
			interleaved(strings.TrimSuffix(all, "end\n"), want, nil)
			obs("%s", showB(bs, cur))
		}})
	drv.Add(drv.Scenario{Prop: "C12", Name: "two-outputs", Quick: 0,
		Desc: "two time-rolling outputs with different patterns on one logger and two on different loggers; histories of 5 operations",
		Body: func() {
			begin()
			r1 := &roller{kind: "time", dir: "l/", file: "f", n: 2, pattern: "2006-01-02"}
			r2 := &roller{kind: "time", dir: pick("dir", "l/", "m/"), file: "g", n: 1, pattern: pick("pattern", "2006-01-02-15", "2006-01-02", "Jan 2006"), prefix: flip("prefix")}
			c, c2 := r1.config(), r2.config()
			c2.Outputs[0]["name"] = "o2"
			c.Outputs = append(c.Outputs, c2.Outputs[0])
			c.Loggers = append(c.Loggers, logger("a", "all", "o2"), logger("b", "all", "o", "o2"))
			must(getManager().SetConfig(c))
			m1, m2 := &timeModel{r: r1}, &timeModel{r: r2}
			ls := []api.Logger{getLogger("root"), getLogger("a"), getLogger("b")}
			for i := 0; i < 5; i++ {
				op := vs.Choose(6, 0, "operation")
				s := strconv.Itoa(i)
				if op < 3 {
					ls[op].Info(s)
					if op != 1 {
						m1.log(s + "\n")
					}
					if op != 0 {
						m2.log(s + "\n")
					}
				} else {
					vs.Advance([]time.Duration{time.Hour, 24 * time.Hour, 31 * 24 * time.Hour}[op-3])
				}
				m1.check("output 1")
				m2.check("output 2")
			}
		}})
}
