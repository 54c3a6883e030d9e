//go:build go1.23

package main

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

func pack(kind, name, content string) string {
	var b bytes.Buffer
	if kind == "zip" {
		z := zip.NewWriter(&b)
		f, _ := z.Create(name)
		f.Write([]byte(content))
		z.Close()
	} else {
		g := gzip.NewWriter(&b)
		g.Name = name
		g.Write([]byte(content))
		g.Close()
	}
	return b.String()
}

// guardRemoval checks, at the very moment before a backup is removed, that its archive is complete.
func guardRemoval(r *roller) {
	vos.C.OnOp = func(op, path string) {
		if op != "remove" {
			return
		}
		i := strings.LastIndex(path, "/")
		k, is := r.key(path[i+1:])
		if !is {
			return
		}
		s := r.state()
		for _, b := range s.backups {
			if b.key == k && !s.archived(r, b) {
				vs.Fail("backup %s is about to be removed but is not archived: %v", k, s)
			}
		}
	}
}

func c13roller() *roller {
	r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f.log", limit: 4, pattern: "2006-01-02", prefix: flip("prefix")}
	r.archive = pick("archive", "zip", "gzip")
	return r
}

// settled checks a state after a rollover without failures.
func settled(r *roller, s state, when string) {
	if len(s.backups) > r.n {
		vs.Fail("%s: %d backups remain with backups=%d: %v", when, len(s.backups), r.n, s)
	}
}

func archiveHistory(depth int, ns []int, big bool, paths ...string) func() {
	return func() {
		begin()
		r := c13roller()
		r.n = pick("backups", ns...)
		if paths != nil {
			r.at(pick("path", paths...))
		} else {
			r.dir = pick("dir", "l/", "l/deep/er/")
		}
		switch vs.Choose(4, 0, "found") {
		case 1: // backups and archives of an earlier run
			for i, b := range prior(r, 3) {
				if i == 0 {
					write(r.dir+r.name(b.key)+map[string]string{"zip": ".zip", "gzip": ".gz"}[r.archive], pack(r.archive, "x", b.content))
					remove(r.dir + r.name(b.key))
				}
			}
		case 2: // more backups than are kept, made without archiving
			prior(r, 5)
		case 3: // only an archive
			k := "1"
			if r.kind == "time" {
				k = "2020-02-02"
			}
			write(r.dir+r.name(k)+map[string]string{"zip": ".zip", "gzip": ".gz"}[r.archive], pack(r.archive, "x", "earlier\n"))
		}
		l := r.start()
		guardRemoval(r)
		prev := r.state()
		everything := ""
		for i := 0; i < depth; i++ {
			s := ""
			rolls := false
			switch op := vs.Choose(3, 0, "operation"); op {
			case 0, 1:
				s = fmt.Sprint(i)
				if op == 1 {
					s += "bcd"
					if big {
						s += strings.Repeat("0123456789", 8000+i)
					}
					if r.kind == "time" {
						vs.Advance(24 * time.Hour)
					}
				}
				rolls = (r.kind == "size" && len(prev.cur) >= r.limit) || (r.kind == "time" && op == 1 && prev.cur != "")
				l.Info(s)
				s += "\n"
			case 2:
				restart()
				vos.C.OnOp = nil
				l = r.start()
				guardRemoval(r)
			}
			st := r.state()
			when := fmt.Sprintf("after operation %d", i+1)
			conserved(r, prev, st, when)
			if s != "" && !strings.HasSuffix(st.cur, s) {
				vs.Fail("%s: the record is not at the end of the current file: %v", when, st)
			}
			if rolls {
				settled(r, st, when)
				if st.cur != s {
					vs.Fail("%s: no rollover: %v", when, st)
				}
			}
			everything += s
			prev = st
		}
		if r.kind == "size" || r.pattern == "2006-01-02" {
			all := ""
			for _, a := range prev.archs {
				all += a.content
			}
			for _, b := range prev.backups {
				all += b.content
			}
			if all += prev.cur; !strings.HasSuffix(all, everything) {
				vs.Fail("archives, backups and current file do not hold everything logged in order: %v", prev)
			}
		}
		escaped()
		obs("%d %d", len(prev.archs), len(prev.backups))
	}
}

const ioOps = "open write read close fstat readdir rename chmod remove mkdir seek"

func archiveFaults(rolls int, ns []int) func() {
	return func() {
		begin()
		r := c13roller()
		r.n = pick("backups", ns...)
		l := r.start()
		guardRemoval(r)
		prev := r.state()
		log := func(i int, when string) state {
			if r.kind == "time" {
				vs.Advance(24 * time.Hour)
			}
			s := "rec" + strconv.Itoa(i)
			hit := vos.C.Hit
			l.Info(s)
			st := r.state()
			conserved(r, prev, st, when)
			if hit == vos.C.Hit {
				if !strings.HasSuffix(st.cur, s+"\n") {
					vs.Fail("%s: a record logged without failure is missing: %v", when, st)
				}
				if len(prev.cur) >= r.limit {
					settled(r, st, when)
				}
			}
			prev = st
			return st
		}
		for i := 0; i < r.n+1; i++ {
			log(i, "before the failures")
		}
		vos.C.Faults, vos.C.FaultOps = true, ioOps
		for i := 0; i < rolls; i++ {
			log(r.n+1+i, "with failures")
		}
		vos.C.Faults = false
		for i := 0; i < 2; i++ {
			log(r.n+1+rolls+i, "after the failures ("+vos.C.HitWhat+")")
		}
		for _, a := range prev.archs {
			if a.roll == "" {
				vs.Fail("archive %s is not named after a backup", a.name)
			}
		}
		escaped()
		obs("%s", vos.C.HitWhat)
	}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C13", Name: "history", Quick: 0,
		Desc: "all histories of 5 operations (record, record with rollover, restart) with zip and gzip, size and time rolling, both name modes, backups 1 and 2, from 4 initial states (none, backups and archive, too many backups, an archive only); archives read back with the standard library after every operation and before every removal",
		Body: archiveHistory(5, []int{1, 2}, false)})
	drv.Add(drv.Scenario{Prop: "C13", Name: "odd-paths", Quick: 0,
		Desc: "histories of 3 operations for 28 paths (names with [, *, ?, %, blanks, backslash, leading dot or dash, like a backup or archive; such directories, and with //, /./ or /../)", Body: archiveHistory(3, []int{1}, false, oddPaths...)})
	drv.Add(drv.Scenario{Prop: "C13", Name: "history-deep", Quick: -1, Thorough: 0,
		Desc: "histories of 8 operations, backups 1 and 3", Body: archiveHistory(8, []int{1, 3}, false)})
	drv.Add(drv.Scenario{Prop: "C13", Name: "big", Quick: 0,
		Desc: "histories of 4 operations with files of 80 KB", Body: archiveHistory(4, []int{1}, true)})
	drv.Add(drv.Scenario{Prop: "C13", Name: "many", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "2..80 earlier backups, some of them empty, in one combination one of 3 MB, with backups 1, 3, 20; 3 rollovers and a restart",
		Body: func() {
			begin()
			r := c13roller()
			r.dir = "l/"
			r.n = pick("backups", 1, 3, 20)
			k := pick("earlier backups", 2, 5, 11, 17, 23, 34, 80)
			big := k == 11 && r.n == 3
			for i, b := range prior(r, k) {
				switch {
				case i == 1 && big:
					write(r.dir+r.name(b.key), strings.Repeat("0123456789abcde\n", 3<<16))
				case i%5 == 4:
					write(r.dir+r.name(b.key), "")
				}
			}
			l := r.start()
			guardRemoval(r)
			prev := r.state()
			for i := 0; i < 4; i++ {
				if i == 2 {
					restart()
					vos.C.OnOp = nil
					l = r.start()
					guardRemoval(r)
				}
				if r.kind == "time" {
					vs.Advance(24 * time.Hour)
				}
				s := fmt.Sprintf("rec%d", i)
				l.Info(s)
				st := r.state()
				when := fmt.Sprintf("after record %d", i+1)
				conserved(r, prev, st, when)
				if st.cur != s+"\n" {
					vs.Fail("%s: no rollover: %v", when, st)
				}
				if i > 0 {
					settled(r, st, when)
				}
				prev = st
			}
			escaped()
			obs("%d %d", len(prev.archs), len(prev.backups))
		}})
	drv.Add(drv.Scenario{Prop: "C13", Name: "faults", Quick: 2, Thorough: 2,
		Desc: "every failure (quick: one, thorough: all pairs) of any file operation during 2 rollovers with archiving, then 2 rollovers without",
		Body: archiveFaults(2, []int{1, 2})})
	drv.Add(drv.Scenario{Prop: "C13", Name: "faults3", Quick: -1, Thorough: 3,
		Desc: "up to 3 failures during 2 rollovers, backups 1", Body: archiveFaults(2, []int{1})})
	drv.Add(drv.Scenario{Prop: "C13", Name: "reload", Quick: 0,
		Desc: "the archive type changes between none, zip and gzip by restart or reload: all sequences of 4 settings with 2 rollovers each",
		Body: func() {
			begin()
			r := &roller{kind: "size", dir: "l/", file: "f.log", limit: 4, n: 1, prefix: flip("prefix")}
			re := flip("restart")
			var l api.Logger
			prev := r.state()
			n := 0
			var kept []string
			for i := 0; i < 4; i++ {
				r.archive = pick("archive", "zip", "gzip", "")
				if re && i > 0 {
					restart()
				}
				l = r.start()
				prev = r.state()
				for k := 0; k < 2; k++ {
					s := fmt.Sprintf("rec%d", n)
					n++
					l.Info(s)
					st := r.state()
					conserved(r, prev, st, s)
					prev = st
					kept = append(kept, s)
				}
				for _, a := range prev.archs {
					obs("%s", a.name)
				}
			}
			// all archives ever made are still readable
			t := tree()
			for f, c := range t {
				kind := ""
				switch {
				case strings.HasSuffix(f, ".zip"):
					kind = "zip"
				case strings.HasSuffix(f, ".gz"):
					kind = "gzip"
				default:
					continue
				}
				if _, err := unpack(kind, []byte(c)); err != nil {
					vs.Fail("archive %s: %v", f, err)
				}
			}
		}})
	drv.Add(drv.Scenario{Prop: "C13", Name: "concurrent", Quick: 1, Thorough: 2,
		Desc: "two goroutines log 2 records each, every one with a rollover and archiving; file operations are scheduling points; two outputs share the archive directory",
		Body: func() {
			begin()
			r := &roller{kind: "size", dir: "l/", file: "f", limit: 1, n: 1, archive: pick("archive", "zip", "gzip")}
			r2 := &roller{kind: "size", dir: "l/", file: "g", limit: 1, n: 1, archive: r.archive}
			c, c2 := r.config(), r2.config()
			c2.Outputs[0]["name"] = "o2"
			c.Outputs = append(c.Outputs, c2.Outputs[0])
			c.Loggers = append(c.Loggers, logger("a", "all", "o2"))
			must(getManager().SetConfig(c))
			ls := []api.Logger{getLogger("root"), getLogger("a")}
			same := flip("same output")
			if same {
				ls[1] = ls[0]
			}
			for _, l := range ls {
				l.Info("s1")
				l.Info("s2")
			}
			vos.C.Sched = true
			for t := 0; t < 2; t++ {
				l := ls[t]
				vs.Spawn("log"+strconv.Itoa(t), func() {
					l.Info("t" + strconv.Itoa(t) + "1")
					l.Info("t" + strconv.Itoa(t) + "2")
				})
			}
			vs.JoinAll()
			vos.C.Sched = false
			count := map[string]int{}
			for _, x := range []*roller{r, r2} {
				s := x.state()
				if len(s.backups) > 1 {
					vs.Fail("%v", s)
				}
				for _, a := range s.archs {
					if strings.HasPrefix(a.name, x.file) {
						count[a.content]++
					}
				}
				for _, b := range s.backups {
					count[b.content]++
				}
				count[s.cur]++
			}
			for _, w := range []string{"t01\n", "t02\n", "t11\n", "t12\n"} {
				if count[w] != 1 {
					vs.Fail("record %q is kept %d times: %v %v", w, count[w], r.state(), r2.state())
				}
			}
			obs("%v", r.state())
		}})
}
