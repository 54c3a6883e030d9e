//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// snapshot of everything that is no backup of r and not its current file
func others(r *roller) map[string]string {
	m := map[string]string{}
	filepath.Walk(fsRoot, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(fsRoot, p)
		if d, n := filepath.Split(rel); d == r.dir {
			if n == r.file {
				return nil
			}
			if _, is := r.key(n); is && fi.Mode().IsRegular() {
				return nil
			}
		}
		if fi.IsDir() {
			m[rel+"/"] = fi.Mode().String()
			return nil
		}
		if !fi.Mode().IsRegular() {
			to, _ := os.Readlink(p)
			m[rel] = fi.Mode().String() + " " + to
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = fi.Mode().String() + " " + fi.ModTime().String() + " " + string(b)
		return nil
	})
	return m
}

func sameOthers(r *roller, before map[string]string, when string) {
	after := others(r)
	for n, v := range before {
		if a, ok := after[n]; !ok {
			vs.Fail("%s: %s, which is no backup of this output, is gone", when, n)
		} else if a != v && !strings.HasSuffix(n, "/") {
			vs.Fail("%s: %s, which is no backup of this output, was changed from %q to %q", when, n, v, a)
		}
	}
	for n := range after {
		if _, ok := before[n]; !ok && n != r.dir {
			vs.Fail("%s: new file %s", when, n)
		}
	}
}

// lookalikes are names that resemble backups of the file but are none.
func lookalikes(r *roller) []string {
	f := r.file
	var l []string
	if r.kind == "size" {
		keys := []string{"", "0", "x", "1x", "x1", "01", "001", "+1", "-1", "00", "1.", ".1", "1.2", "1 ", " 1", "0x1", "1_0", "1e3", "١", "99999999999999999999999", "1.gz", "1.zip", "1~", "1.bak", "2024", "1,5", "-0"}
		for _, k := range keys {
			if k == "2024" {
				continue
			}
			l = append(l, r.name(k))
		}
	} else {
		keys := []string{"", "x", "1", "99", r.pattern[:3], time.Date(2023, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern) + "x",
			time.Date(2023, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern) + ".gz", " " + time.Date(2023, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern),
			"2023-3-4", "2023-02-30", "2023-13-01", "20230304x", "23-03-04", "2023_03_04", "32.Mar.23", "00.Mar.23", "4.Mar.23", "04.mar.23", "04.MAR.23", "04.March.23",
			"Tue 2023-03-04", "2023-03-04 24h", "99999"}
		for _, k := range keys {
			if _, is := r.key(r.name(k)); !is {
				l = append(l, r.name(k))
			}
		}
	}
	// the other naming mode, neighbours and unrelated files
	o := &roller{kind: r.kind, file: f, prefix: !r.prefix}
	k := "1"
	if r.kind == "time" {
		k = time.Date(2023, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern)
	}
	l = append(l, o.name(k), f+k, k+f, f+"_"+k, "x"+r.name(k), r.name(k)+"x", strings.ToUpper(r.name(k)), f+"."+k+"."+f, "g", "g."+k, k+".g", f+"."+f, ".", f+"~", "."+f+".swp", "sub/"+f+"."+k, "sub/"+k+"."+f, "sub/"+f, r.name("d")+"/x")
	// one other character where the delimiter should be
	ks := []string{"3", "99", "900"}
	if r.kind == "time" {
		ks = []string{k, time.Date(2999, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern)}
	}
	for _, k := range ks {
		for _, c := range []string{"", "0", "x", "-"} {
			l = append(l, k+c+f, f+c+k)
		}
	}
	var res []string
	for _, n := range l {
		if n == "." || n == f || strings.HasSuffix(n, "/") {
			continue
		}
		if _, is := r.key(n); is {
			continue
		}
		res = append(res, n)
	}
	return res
}

var timePatterns = []string{"2006-01-02", "2006", "02.Jan.06", "20060102-15", "15h 2006-01-02", "Mon 2006-01-02", "01-02-2006 03PM", "Jan 2006", "2006.01.02.15.04.05", "2 Jan 2006", "2006-002"}

// unique patterns for C12 and C11: periods must sort by time and not repeat
func stepOf(pattern string) time.Duration {
	switch {
	case strings.Contains(pattern, "05"):
		return time.Second
	case strings.Contains(pattern, "04"):
		return time.Minute
	case strings.Contains(pattern, "15"), strings.Contains(pattern, "03"):
		return time.Hour
	case strings.Contains(pattern, "02"), strings.HasPrefix(pattern, "2 "):
		return 24 * time.Hour
	case strings.Contains(pattern, "Jan"):
		return 31 * 24 * time.Hour
	}
	return 366 * 24 * time.Hour
}

// rollOnce logs so that the current file becomes a backup, if it has content.
func (r *roller) rollOnce(l api.Logger, s string) {
	if r.kind == "time" {
		vs.Advance(stepOf(r.pattern))
	}
	l.Info(s)
}

// retained checks the backups against the list before the last call.
func retained(r *roller, all []backup, when string) {
	l, cur, _ := r.read()
	if len(l) > r.n {
		vs.Fail("%s: %d backups remain with backups=%d: %s", when, len(l), r.n, showB(l, cur))
	}
	if len(l) < min(r.n, len(all)) {
		vs.Fail("%s: only %d backups remain of %d with backups=%d: %s", when, len(l), len(all), r.n, showB(l, cur))
	}
	for i, b := range all[len(all)-len(l):] {
		if b.content != l[i].content {
			vs.Fail("%s: the remaining backups are not the newest: %s, all: %s", when, showB(l, cur), showB(all, ""))
		}
	}
}

func prior(r *roller, n int) []backup {
	var l []backup
	for i := 0; i < n; i++ {
		k := strconv.Itoa(7 + i)
		if r.kind == "time" {
			k = vs.Now().Add(-time.Duration(n-i+1) * stepOf(r.pattern)).Format(r.pattern)
		}
		write(r.dir+r.name(k), "prior"+strconv.Itoa(i))
		l = append(l, backup{k, "prior" + strconv.Itoa(i)})
	}
	return l
}

func c11roller() *roller {
	r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f.log", limit: 1, prefix: flip("prefix")}
	if r.kind == "time" {
		r.pattern = pick("pattern", timePatterns...)
	}
	return r
}

func init() {
	drv.Add(drv.Scenario{Prop: "C11", Name: "look-alikes", Quick: 0,
		Desc: "each single look-alike or foreign file (about 40 names, also in sub-directories) beside backups 1..3 with 4 rollovers; size rolling and 11 time patterns, both name modes",
		Body: func() {
			begin()
			r := c11roller()
			r.n = 1 + vs.Choose(2, 0, "backups")
			all := prior(r, vs.Choose(3, 0, "earlier backups"))
			l := lookalikes(r)
			// directories with the name of a backup
			low, high := "3", "900"
			if r.kind == "time" {
				low, high = time.Date(2003, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern), time.Date(2999, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern)
			}
			l = append(l, r.name(high)+"/", r.name(high)+"/x")
			if len(all) > 0 {
				l = append(l, r.name(low)+"/", r.name(low)+"/x")
			}
			n := l[vs.Choose(len(l), 0, "look-alike")]
			if strings.HasSuffix(n, "/") {
				os.MkdirAll(filepath.Join(fsRoot, r.dir, n), 0755)
			} else {
				write(r.dir+n, "precious")
			}
			before := others(r)
			lg := r.start()
			for i := 0; i < 4; i++ {
				s := "r" + strconv.Itoa(i)
				r.rollOnce(lg, s)
				when := fmt.Sprintf("beside %s after record %d", n, i)
				retained0(r, all, i, when)
				sameOthers(r, before, when)
				all = append(all, backup{"", s + "\n"})
			}
			escaped()
			obs("%s", n)
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "special", Quick: 0,
		Desc: "a symbolic link (to a foreign file, a backup, the current file, a directory, nothing) or a named pipe with the name of a backup, lower or higher than all or the very next one, with 0..2 earlier backups, backups 1 and 2, 4 rollovers; size rolling and 11 time patterns, both name modes",
		Body: func() {
			begin()
			r := c11roller()
			r.n = 1 + vs.Choose(2, 0, "backups")
			all := prior(r, vs.Choose(3, 0, "earlier backups"))
			low, high := "3", "900"
			if r.kind == "time" {
				low, high = time.Date(2003, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern), time.Date(2999, 3, 4, 5, 6, 7, 0, time.UTC).Format(r.pattern)
			}
			var at []string
			if len(all) > 0 {
				at = append(at, low)
			}
			at = append(at, high)
			if r.kind == "size" {
				at = append(at, strconv.Itoa(len(all)+1))
				if len(all) > 0 {
					at = append(at, strconv.Itoa(7+len(all)), strconv.Itoa(8+len(all)))
				}
			}
			n := filepath.Join(fsRoot, r.dir, r.name(pick("number", at...)))
			write(r.dir+"g", "precious")
			os.MkdirAll(filepath.Join(fsRoot, r.dir, "d"), 0755)
			what := pick("special", "g", r.file, "d", "nothing", "backup", "pipe", "directory")
			switch what {
			case "pipe":
				must(syscall.Mkfifo(n, 0600))
			case "directory":
				must(os.Mkdir(n, 0700))
			case "backup":
				if len(all) == 0 {
					return
				}
				must(os.Symlink(r.name(all[len(all)-1].key), n))
			default:
				must(os.Symlink(what, n))
			}
			before := others(r)
			lg := r.start()
			for i := 0; i < 4; i++ {
				s := "r" + strconv.Itoa(i)
				r.rollOnce(lg, s)
				when := fmt.Sprintf("beside %s (%s) after record %d", filepath.Base(n), what, i)
				retained0(r, all, i, when)
				sameOthers(r, before, when)
				all = append(all, backup{"", s + "\n"})
			}
			escaped()
			obs("%s", what)
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "crowd", Quick: 0,
		Desc: "all look-alikes and 150 foreign files at once, 0..30 earlier backups, backups 1, 5, 20, both listing orders",
		Body: func() {
			begin()
			vs.MapReverse = flip("listing order")
			r := c11roller()
			r.n = pick("backups", 1, 5, 20)
			all := prior(r, pick("earlier backups", 0, 1, 2, 4, 5, 6, 19, 20, 21, 30))
			for i := 0; i < 150; i++ {
				write(r.dir+fmt.Sprintf("%03d.txt", i), "x")
			}
			for _, n := range lookalikes(r) {
				write(r.dir+n, "precious")
			}
			before := others(r)
			lg := r.start()
			for i := 0; i < 4; i++ {
				s := "r" + strconv.Itoa(i)
				r.rollOnce(lg, s)
				retained0(r, all, i, "in the crowd")
				sameOthers(r, before, "in the crowd")
				all = append(all, backup{"", s + "\n"})
			}
			escaped()
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "hundreds", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "100 or 250 earlier backups, of which 1, 19 or 20 are kept; 3 rollovers",
		Body: func() {
			begin()
			r := c11roller()
			r.n = pick("backups", 1, 19, 20)
			all := prior(r, pick("earlier backups", 100, 250))
			lg := r.start()
			for i := 0; i < 3; i++ {
				s := "r" + strconv.Itoa(i)
				r.rollOnce(lg, s)
				retained0(r, all, i, "")
				all = append(all, backup{"", s + "\n"})
			}
			obs("%d %d", r.n, len(all))
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "count", Quick: 0,
		Desc: "backups 1..20 with 0..24 earlier ones (numbers crossing 9/10, periods crossing months and years), 3 rollovers",
		Body: func() {
			begin()
			r := c11roller()
			vs.MapReverse = flip("listing order")
			r.n = 1 + vs.Choose(20, 0, "backups")
			all := prior(r, vs.Choose(25, 0, "earlier backups"))
			lg := r.start()
			for i := 0; i < 3; i++ {
				s := "r" + strconv.Itoa(i)
				r.rollOnce(lg, s)
				retained0(r, all, i, "")
				all = append(all, backup{"", s + "\n"})
			}
			obs("%d %d", r.n, len(all))
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "subsets", Quick: 0,
		Desc: "every subset of the backup numbers {1,2,3,8,9,10,11,99,100,101} as earlier backups, backups 1..4, 2 rollovers",
		Body: func() {
			begin()
			r := &roller{kind: "size", dir: "l/", file: "f.log", limit: 1, prefix: flip("prefix"), n: 1 + vs.Choose(4, 0, "backups")}
			vs.MapReverse = flip("listing order")
			bits := vs.Choose(1<<10, 0, "subset")
			var all []backup
			for i, k := range []string{"1", "2", "3", "8", "9", "10", "11", "99", "100", "101"} {
				if bits>>i&1 == 1 {
					write(r.dir+r.name(k), "prior"+k)
					all = append(all, backup{k, "prior" + k})
				}
			}
			lg := r.start()
			for i := 0; i < 3; i++ {
				s := "r" + strconv.Itoa(i)
				r.rollOnce(lg, s)
				retained0(r, all, i, "")
				all = append(all, backup{"", s + "\n"})
			}
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "history", Quick: 0,
		Desc: "all histories of 6 steps (record, record with rollover, restart with backups 1, 2 or 4) from 3 earlier backups among foreign files",
		Body: func() {
			begin()
			r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f.log", limit: 4, n: 2, pattern: "2006-01-02", prefix: flip("prefix")}
			all := prior(r, 3)
			for _, n := range []string{"g.log.1", "f.log.x", "f.log.1.gz", "1.f.log.gz", "sub/f.log.1"} {
				write(r.dir+n, "precious")
			}
			before := others(r)
			lg := r.start()
			cur := ""
			first := true
			for i := 0; i < 6; i++ {
				s := fmt.Sprint(i)
				switch op := vs.Choose(5, 0, "step"); op {
				case 0, 1:
					roll := cur != "" && op == 1
					if r.kind == "size" {
						if op == 1 {
							s += "bcd"
						}
						roll = len(cur) >= r.limit
					} else if op == 1 {
						vs.Advance(24 * time.Hour)
					}
					lg.Info(s)
					if roll {
						all = append(all, backup{"", cur})
						cur = ""
						first = false
						retained(r, all, fmt.Sprintf("step %d", i))
					}
					cur += s + "\n"
				default:
					restart()
					r.n = []int{1, 2, 4}[op-2]
					lg = r.start()
				}
				sameOthers(r, before, fmt.Sprintf("step %d", i))
				if l, c, _ := r.read(); !first || len(l) != 3 {
					// what was removed earlier stays removed
					if len(l) > len(all) {
						vs.Fail("step %d: more backups than rollovers: %s", i, showB(l, c))
					}
					all = all[len(all)-len(l):]
				}
			}
			obs("%s", show(tree()))
		}})
	drv.Add(drv.Scenario{Prop: "C11", Name: "neighbours", Quick: 0,
		Desc: "two outputs (size and time, both name modes, names that contain each other) share a directory; all sequences of 6 rollovers of either",
		Body: func() {
			begin()
			p := pick("names", [2]string{"f", "g"}, [2]string{"f", "f.log"}, [2]string{"f.log", "a.f.log"}, [2]string{"f", "f-2"}, [2]string{"f", "f.1x"})
			k := pick("kinds", [2]string{"size", "size"}, [2]string{"size", "time"}, [2]string{"time", "size"}, [2]string{"time", "time"})
			r1 := &roller{kind: k[0], dir: "l/", file: p[0], limit: 1, n: 1, prefix: flip("prefix 1"), pattern: "2006-01-02"}
			r2 := &roller{kind: k[1], dir: "l/", file: p[1], limit: 1, n: 2, prefix: flip("prefix 2"), pattern: "Jan 2006"}
			c := r1.config()
			c2 := r2.config()
			c2.Outputs[0]["name"] = "o2"
			c.Outputs = append(c.Outputs, c2.Outputs[0])
			c.Loggers = append(c.Loggers, logger("a", "all", "o2"))
			must(getManager().SetConfig(c))
			l1, l2 := getLogger("root"), getLogger("a")
			var a1, a2 []backup
			n1, n2 := 0, 0
			for i := 0; i < 6; i++ {
				s := "r" + strconv.Itoa(i)
				if flip("which") {
					before := others(r2)
					r2.rollOnce(l2, s)
					retained0(r2, a2, n2, "output 2")
					sameOthers(r2, before, "rollover of output 2")
					a2 = append(a2, backup{"", s + "\n"})
					n2++
				} else {
					before := others(r1)
					r1.rollOnce(l1, s)
					retained0(r1, a1, n1, "output 1")
					sameOthers(r1, before, "rollover of output 1")
					a1 = append(a1, backup{"", s + "\n"})
					n1++
				}
			}
			escaped()
		}})
}

// retained0 is retained, except that the first record of a fresh file rolls nothing.
func retained0(r *roller, all []backup, i int, when string) {
	if i == 0 {
		return
	}
	retained(r, all, when)
}
