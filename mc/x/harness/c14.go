//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// seg is a part of the expected stream; of an optional one any prefix (also
// none) may be there.
type seg struct {
	text     string
	optional bool
}

func matches(s string, l []seg) bool {
	if len(l) == 0 {
		return s == ""
	}
	if strings.HasPrefix(s, l[0].text) && matches(s[len(l[0].text):], l[1:]) {
		return true
	}
	if l[0].optional {
		for i := 0; i < len(l[0].text); i++ {
			if strings.HasPrefix(s, l[0].text[:i]) && matches(s[i:], l[1:]) {
				return true
			}
		}
	}
	return false
}

// stream joins archives, backups and current file in order, each roll once.
func (s state) stream(r *roller) string {
	m := map[string]string{}
	var l []backup
	for _, b := range s.backups {
		m[b.key] = b.content
		l = append(l, b)
	}
	for _, a := range s.archs {
		if a.roll == "" {
			continue
		}
		if c, ok := m[a.roll]; ok {
			if c != a.content {
				vs.Fail("archive %s=%q differs from backup %s=%q", a.name, a.content, a.roll, c)
			}
			continue
		}
		m[a.roll] = a.content
		l = append(l, backup{a.roll, a.content})
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if r.less(l[j].key, l[i].key) {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	t := ""
	for _, b := range l {
		t += b.content
	}
	return t + s.cur
}

// holds checks that the files hold the expected stream, except for a removed
// beginning if retention without archive allows one.
func (s state) holds(r *roller, l []seg, when string) {
	t := s.stream(r)
	for i := range l {
		if matches(t, l[i:]) {
			if i > 0 {
				if r.archive != "" {
					break
				}
				if len(s.backups) < r.n {
					break
				}
			}
			return
		}
	}
	if len(l) == 0 && t == "" {
		return
	}
	if k := len(s.backups) - r.n; k > 0 && r.archive == "" && strings.Contains(vos.C.HitWhat, "remove ") {
		// a removal failed: of the backups due for removal some are gone, some are not
		s.backups = s.backups[k:]
		s.holds(r, l, when)
		return
	}
	vs.Fail("%s: the files do not hold every record exactly in order: %v; expected %v", when, s, l)
}

// faulty drives one rolling output through calls with failures.
type faulty struct {
	r     *roller
	l     api.Logger
	prev  state
	segs  []seg
	n     int
	first string // period of the first record in the current file
	born  string // period of the call that made the current file; a failed call may have left it empty
	idle  bool
	loose bool // judge losses only
	mix   bool // records of several lengths, periods with several records
}

func (f *faulty) call(when string) {
	if f.r.kind == "time" && !(f.mix && vos.C.Faults && flip("same period")) {
		vs.Advance(24 * time.Hour)
	}
	s := fmt.Sprintf("rec%02d", f.n)
	if f.mix {
		s = string(rune('a' + f.n))
		switch f.n % 3 {
		case 1:
			s += "----"
		case 2:
			s += strings.Repeat("-", 9000)
		}
	}
	f.n++
	hit := vos.C.Hit
	f.l.Info(s)
	if f.idle {
		vs.WaitIdle()
	}
	s += "\n"
	clean := hit == vos.C.Hit
	st := f.r.state()
	when += " (" + vos.C.HitWhat + ")"
	conserved(f.r, f.prev, st, when)
	per := vs.Now().Format("2006-01-02")
	if clean {
		if !strings.HasSuffix(st.cur, s) {
			vs.Fail("%s: the record %q, whose call met no failure, is missing: %v", when, s, st)
		}
		roll := len(f.prev.cur) >= f.r.limit
		if f.r.kind == "time" {
			roll = f.prev.cur != "" && f.first != per
		}
		if roll && !f.loose {
			if st.cur != s {
				vs.Fail("%s: no rollover: before %v, after %v", when, f.prev, st)
			}
			settled(f.r, st, when)
		}
		late := f.r.kind == "time" && f.born != per // the roll of a file that was empty may come later
		if !roll && !late && !strings.HasPrefix(st.cur, f.prev.cur) {
			vs.Fail("%s: a file became a backup too early: before %v, after %v", when, f.prev, st)
		}
	}
	if f.prev.cur == "" || !strings.HasPrefix(st.cur, f.prev.cur) {
		f.first = per
		if f.prev.cur != "" || clean || f.born == "" {
			f.born = per
		}
	}
	f.segs = append(f.segs, seg{s, !clean})
	f.prev = st
}

func c14start(archives []string, ns []int) *faulty {
	r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f", limit: 6, pattern: "2006-01-02", prefix: flip("prefix"), n: pick("backups", ns...), archive: pick("archive", archives...)}
	f := &faulty{r: r}
	if flip("earlier files") {
		for _, b := range prior(r, 2) {
			f.segs = append(f.segs, seg{b.content, false})
		}
		write(r.dir+r.file, "earlier\n")
		f.segs = append(f.segs, seg{"earlier\n", false})
	}
	f.prev = r.state()
	f.first = vs.Now().Format("2006-01-02")
	if f.prev.cur != "" {
		f.born = f.first
	}
	return f
}

const stated = "open write close readdir rename chmod remove mkdir"

func init() {
	drv.Levels["C14"] = drv.Level{Level: "fault_enumeration",
		Rule: "every set of up to N failures (N is the bound) among the file operations of 2 or 3 logging calls, or every set of operation kinds failing during 1..3 consecutive calls, for size and time rolling, both name modes, with and without archive, followed by calls without failures; non-trivial: at least one failure was injected"}
	body := func(calls int, ops string, archives []string, ns []int, loose bool, async bool, mix ...int) func() {
		return func() {
			begin()
			f := c14start(archives, ns)
			f.loose = loose
			if len(mix) > 0 {
				f.mix = true
				f.r.limit = pick("limit", mix...)
				f.n = vs.Choose(3, 0, "first record")
			}
			if async {
				f.idle = true
				f.r.extra = []string{"async", "true", "batch_num", "1"}
			}
			f.l = f.r.start()
			pre := vs.Choose(2, 0, "calls before")
			for i := 0; i < pre; i++ {
				f.call("before the failures")
			}
			vos.C.Faults, vos.C.FaultOps = true, ops
			for i := 0; i < calls; i++ {
				f.call("during the failures")
			}
			vos.C.Faults = false
			for i := 0; i < 3; i++ {
				f.call("after the failures")
			}
			f.prev.holds(f.r, f.segs, "at the end ("+vos.C.HitWhat+")")
			escaped()
			if vos.C.Hit > 0 {
				obs("%s", vos.C.HitWhat)
			}
		}
	}
	drv.Add(drv.Scenario{Prop: "C14", Name: "faults", Quick: 2, Thorough: 3,
		Desc: "up to 2 (thorough: 3) failures of open, write (whole or short), close, list, rename, chmod, remove, mkdir in 3 calls, each with a rollover; then 3 calls",
		Body: body(3, stated, []string{""}, []int{1, 2}, false, false)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "faults-mix", Quick: 1, Thorough: 2,
		Desc: "one (thorough: two) failures in 3 calls with records of 2, 6 and 9002 bytes of which one or several fit into a file or period",
		Body: body(3, stated, []string{""}, []int{1, 2}, false, false, 6, 9)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "faults-archive", Quick: 1, Thorough: 2,
		Desc: "the same with zip and gzip archives, 2 calls", Body: body(2, stated+" read seek", []string{"zip", "gzip"}, []int{1}, false, false)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "faults-stat", Quick: 1, Thorough: 2,
		Desc: "failures of all operations, also of reading file attributes: nothing is lost",
		Body: body(2, "", []string{"", "zip"}, []int{1, 2}, true, false)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "faults-async", Quick: 1, Thorough: 2,
		Desc: "asynchronous output with batches of one record", Body: body(2, stated, []string{""}, []int{1}, false, true)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "outage", Quick: 0,
		Desc: "every subset of the 8 kinds of operations fails during 1..3 consecutive calls, which start with or without an open file; then 3 calls",
		Body: func() {
			begin()
			f := c14start([]string{"", "zip"}, []int{1, 2})
			f.l = f.r.start()
			bits := vs.Choose(256, 0, "failing operations")
			var ops []string
			for i, o := range strings.Fields(stated) {
				if bits>>i&1 == 1 {
					ops = append(ops, o)
				}
			}
			pre := vs.Choose(2, 0, "calls before")
			for i := 0; i < pre; i++ {
				f.call("before the outage")
			}
			vos.C.Outage = strings.Join(ops, " ")
			n := 1 + vs.Choose(3, 0, "calls during")
			for i := 0; i < n; i++ {
				f.call("during the outage of " + vos.C.Outage)
			}
			vos.C.Outage = ""
			for i := 0; i < 3; i++ {
				f.call("after the outage of " + strings.Join(ops, " "))
			}
			f.prev.holds(f.r, f.segs, "at the end")
			escaped()
			if vos.C.Hit > 0 {
				obs("%d %d %s", bits, n, strconv.Itoa(vos.C.Hit))
			}
		}})
	long := func(archives []string, lens ...int) func() {
		return func() {
			begin()
			f := c14start(archives, []int{1, 3})
			f.l = f.r.start()
			ops := strings.Fields(stated)
			ops = append(ops, stated, strings.Replace(stated, " write", "", 1))
			op := ops[vs.Choose(len(ops), 0, "failing operations")]
			pre := vs.Choose(2, 0, "calls before")
			for i := 0; i < pre; i++ {
				f.call("before the outage")
			}
			vos.C.Outage = op
			n := pick("calls during", lens...)
			for i := 0; i < n; i++ {
				f.call("during the outage of " + op)
			}
			vos.C.Outage = ""
			vos.C.HitWhat = "outage of " + op + " "
			for i := 0; i < 3; i++ {
				f.call("after the outage of " + op)
			}
			f.prev.holds(f.r, f.segs, "at the end")
			escaped()
			if vos.C.Hit > 0 {
				obs("%s %d %d", op, n, vos.C.Hit)
			}
		}
	}
	drv.Add(drv.Scenario{Prop: "C14", Name: "long-outage", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "one kind of operation, all kinds or all but writing fail during 12 or 30 consecutive calls; then, without time passing for size rolling, 3 calls",
		Body: long([]string{"", "zip"}, 12, 30)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "longer-outage", Quick: -1, Thorough: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "the same with 120 or 300 calls", Body: long([]string{"", "gzip"}, 120, 300)})
	drv.Add(drv.Scenario{Prop: "C14", Name: "two-outages", Quick: -1, Thorough: 0,
		Desc: "two outages of one kind or two kinds of operations each, with a call between",
		Body: func() {
			begin()
			f := c14start([]string{""}, []int{1})
			f.l = f.r.start()
			ops := strings.Fields(stated)
			for k := 0; k < 2; k++ {
				a, b := vs.Choose(8, 0, "first kind"), vs.Choose(8, 0, "second kind")
				f.call("before")
				vos.C.Outage = ops[a] + " " + ops[b]
				n := 1 + vs.Choose(2, 0, "calls during")
				for i := 0; i < n; i++ {
					f.call("during the outage of " + vos.C.Outage)
				}
				vos.C.Outage = ""
			}
			for i := 0; i < 3; i++ {
				f.call("after the outages")
			}
			f.prev.holds(f.r, f.segs, "at the end")
			obs("%s", vos.C.HitWhat)
		}})
	drv.Add(drv.Scenario{Prop: "C14", Name: "stuck", Quick: 0,
		Desc: "4 earlier backups, one of which can be neither removed, or opened, or renamed, during 1..3 rollovers: all others are archived and removed in time; it follows with the first rollover after that",
		Body: func() {
			begin()
			r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f", limit: 1, pattern: "2006-01-02", prefix: flip("prefix"), n: pick("backups", 1, 2), archive: pick("archive", "", "zip", "gzip")}
			old := prior(r, 4)
			s := old[vs.Choose(4, 0, "stuck backup")]
			op := pick("fails", "remove", "open", "rename", "remove open", "chmod")
			all := old
			cur, calls := "", 0
			l := r.start()
			step := func(when string, stuck bool) {
				vs.Advance(24 * time.Hour)
				rec := fmt.Sprintf("rec%d", calls)
				calls++
				l.Info(rec)
				st := r.state()
				when += fmt.Sprintf(" of %s for %s, n=%d (%s)", op, s.key, r.n, vos.C.HitWhat)
				if st.cur != rec+"\n" {
					vs.Fail("%s: %q is not in the current file: %v", when, rec, st)
				}
				if cur != "" {
					all = append(all[:len(all):len(all)], backup{"", cur})
				}
				cur = rec + "\n"
				if len(all) == len(old) {
					return // no rollover yet
				}
				due := len(all) - r.n
				for i, b := range all {
					here := 0
					for _, x := range st.backups {
						if x.content == b.content {
							here++
						}
					}
					want := i >= due
					if here > 1 || want && here == 0 {
						vs.Fail("%s: backup %q is there %d times: %v", when, b.content, here, st)
					}
					held := stuck && b.content == s.content
					if !want && here == 1 && !held {
						vs.Fail("%s: backup %q is still there: %v", when, b.content, st)
					}
					if !want && r.archive != "" {
						in := 0
						for _, a := range st.archs {
							if a.content == b.content {
								in++
							}
						}
						if in > 1 || in+here == 0 || in == 0 && !held {
							vs.Fail("%s: backup %q is in %d archives: %v", when, b.content, in, st)
						}
					}
				}
			}
			step("before", false)
			vos.C.Outage, vos.C.OutageAt = op, r.name(s.key)
			for i, n := 0, 1+vs.Choose(3, 0, "rollovers"); i < n; i++ {
				step("failure", true)
			}
			vos.C.Outage, vos.C.OutageAt = "", ""
			step("after the failure", false)
			escaped()
			obs("%s %d", op, vos.C.Hit)
		}})
}
