//go:build go1.23

package main

import (
	"fmt"
	"log/syslog"
	"strconv"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

var severity = map[api.Level]syslog.Priority{api.Trace: syslog.LOG_DEBUG, api.Debug: syslog.LOG_DEBUG, api.Info: syslog.LOG_INFO,
	api.Warn: syslog.LOG_WARNING, api.Error: syslog.LOG_ERR, api.Critical: syslog.LOG_CRIT}

var thresholdKinds = []string{"console", "size", "time", "syslog", "async console", "async size", "async time"}

// thrOut is one output with a threshold.
type thrOut struct {
	kind, name, text string
	min              api.Level
	async            bool
	sent             int
	want             string
}

func (t *thrOut) cfg() api.CfgOutput {
	kind := strings.TrimPrefix(t.kind, "async ")
	t.async = kind != t.kind
	kv := []string{"threshold", t.text}
	if t.async {
		kv = append(kv, "async", "true", "batch_num", "2", "queue_size", "4")
	}
	switch kind {
	case "size":
		kind = "size_rolling_file"
		kv = append(kv, "file", fsRoot+"/"+t.name+"/f", "size", "1M")
	case "time":
		kind = "time_rolling_file"
		kv = append(kv, "file", fsRoot+"/"+t.name+"/f", "pattern", "2006")
	case "syslog":
		kv = append(kv, "prefix", "pre "+t.name)
	}
	return output(kind, t.name, "f"+t.name, kv...)
}

func (t *thrOut) send(lvl api.Level, msg string) {
	if lvl < t.min {
		return
	}
	t.sent++
	if t.kind == "syslog" {
		t.want += fmt.Sprintf("[%s %d]", "pre "+t.name, severity[lvl])
	}
	t.want += t.name + " " + levelNames[lvl] + " " + msg + "\n"
}

// have returns what arrived at the output; records of several console or
// syslog outputs are told apart by their names.
func (t *thrOut) have() string {
	s := ""
	switch {
	case t.kind == "syslog":
		for _, r := range sysRecords() {
			if r.Tag == "pre "+t.name {
				s += fmt.Sprintf("[%s %d]%s", r.Tag, r.Priority&7, r.Msg)
			}
		}
	case strings.HasSuffix(t.kind, "console"):
		for _, l := range strings.SplitAfter(console(), "\n") {
			if strings.HasPrefix(l, t.name+" ") {
				s += l
			}
		}
	default:
		s = tree()[t.name+"/f"]
	}
	return s
}

// the same name in other cases, and names that are none
func spellings(n string) []string {
	mixed := ""
	for i, c := range strings.ToLower(n) {
		if i%2 == 1 {
			mixed += strings.ToUpper(string(c))
		} else {
			mixed += string(c)
		}
	}
	return []string{n, strings.ToLower(n), mixed}
}

func thresholds() (text []string, min []api.Level) {
	for _, l := range allLevels[1:] {
		for _, s := range spellings(levelNames[l]) {
			text, min = append(text, s), append(min, l)
		}
	}
	for _, s := range []string{"-", "", "warning", "inf", " info", "info ", "4", "UNINITIALIZED", "crit"} {
		text, min = append(text, s), append(min, api.All)
	}
	return
}

func sendAll(l api.Logger, outs []*thrOut, rounds int) {
	n := 0
	for r := 0; r < rounds; r++ {
		for i := range levels {
			lv := levels[(i*5+r)%len(levels)]
			msg := "m" + strconv.Itoa(n)
			switch n % 3 {
			case 0:
				l.Printf(lv, msg)
			case 1:
				call(l, methods[2*(int(lv)-int(api.Trace))], 0, "", msg)
			case 2:
				call(l.WithFields(api.Field{Key: "k", Value: 1}), methods[2*(int(lv)-int(api.Trace))+1], 0, "%s", msg)
			}
			n++
			for _, o := range outs {
				o.send(lv, msg)
			}
		}
	}
}

func thrStart(outs []*thrOut) api.Logger {
	c := conf()
	var names []string
	for _, o := range outs {
		c.Formats = append(c.Formats, format("f"+o.name, o.name+" %{level} %{msg}\n"))
		c.Outputs = append(c.Outputs, o.cfg())
		names = append(names, o.name)
	}
	c.Loggers = append(c.Loggers, logger("root", "all", names...))
	must(getManager().SetConfig(c))
	return log4g.GetLogger(pick("logger", "root", "a/b"))
}

func thrCheck(outs []*thrOut, what string) {
	for _, o := range outs {
		if h := o.have(); h != o.want {
			vs.Fail("%s: output %s (%s, threshold %q): have %q, want %q", what, o.name, o.kind, o.text, h, o.want)
		}
	}
	n := 0
	for _, o := range outs {
		if o.kind == "syslog" {
			n += o.sent
		}
	}
	if n != len(sysRecords()) {
		vs.Fail("%s: %d syslog records, want %d: %v", what, len(sysRecords()), n, sysRecords())
	}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C19", Name: "one", Quick: 0,
		Desc: "7 kinds of output with each of 33 threshold texts (8 level names in 3 spellings, 9 that are no level); every level by Printf, plain and formatted methods, own and inherited; then Close",
		Body: func() {
			begin()
			text, min := thresholds()
			i := vs.Choose(len(text), 0, "threshold")
			outs := []*thrOut{{kind: pick("kind", thresholdKinds...), name: "o", text: text[i], min: min[i]}}
			l := thrStart(outs)
			sendAll(l, outs, 3)
			getManager().Close()
			thrCheck(outs, "one output")
			obs("%s %s", outs[0].kind, outs[0].text)
		}})
	several := func(n int) func() {
		return func() {
			begin()
			var outs []*thrOut
			what := ""
			for k := 0; k < n; k++ {
				t := pick("threshold", "-", "trace", "debug", "info", "warn", "error", "critical", "off")
				o := &thrOut{kind: pick("kind", thresholdKinds...), name: "o" + strconv.Itoa(k), text: t, min: parseLevel(t)}
				if t == "-" {
					o.min = api.All
				}
				outs = append(outs, o)
				what += o.kind + " " + t + ";"
			}
			l := thrStart(outs)
			sendAll(l, outs, 1)
			getManager().Close()
			thrCheck(outs, what)
			obs("%s", what)
		}
	}
	drv.Add(drv.Scenario{Prop: "C19", Name: "two", Quick: 0,
		Desc: "every pair of kinds and thresholds of two outputs of one logger", Body: several(2)})
	drv.Add(drv.Scenario{Prop: "C19", Name: "three", Quick: -1, Thorough: 0,
		Desc: "every triple of kinds and thresholds of three outputs of one logger", Body: several(3)})
	drv.Add(drv.Scenario{Prop: "C19", Name: "logger-level", Quick: 0,
		Desc: "logger level and threshold both filter: 9 levels of the logger x 8 thresholds x 7 kinds, also after SetLevel",
		Body: func() {
			begin()
			t := pick("threshold", "trace", "debug", "info", "warn", "error", "critical", "off", "all")
			o := &thrOut{kind: pick("kind", thresholdKinds...), name: "o", text: t, min: parseLevel(t)}
			l := thrStart([]*thrOut{o})
			base := o.min
			for k := 0; k < 2; k++ {
				lv := pick("level", allLevels[1:]...)
				l.SetLevel(lv)
				o.min = base
				if lv > base {
					o.min = lv
				}
				sendAll(l, []*thrOut{o}, 1)
			}
			getManager().Close()
			thrCheck([]*thrOut{o}, "levels")
			obs("%s %s", o.kind, o.text)
		}})
	drv.Add(drv.Scenario{Prop: "C19", Name: "syslog", Quick: 0,
		Desc: "syslog with every prefix of 6 and layout of 4: text, severity and prefix of every level, methods and message of 5",
		Body: func() {
			begin()
			prefix := pick("prefix", "-", "", "module", "a b", "%s", "é[1]:")
			lay := pick("layout", "%{msg}", "%{level} %{msg}\n", "%{msg:q}%%", "x%{k}\n%{msg}")
			must(getManager().SetConfig(conf(format("f", lay), output("syslog", "o", "f", "prefix", prefix), logger("root", "all", "o"))))
			l := log4g.GetLogger("a")
			msg := pick("message", "m", "", "100% %d\n", "two\nlines", "\x00é")
			p, _ := pieces(lay)
			k := 0
			for _, m := range methods {
				for _, lv := range levels {
					if m.level != 0 && m.level != lv {
						continue
					}
					call(l.WithFields(api.Field{Key: "k", Value: "v"}), m, lv, "%s", msg)
					rs := sysRecords()
					if prefix == "-" {
						prefix = ""
					}
					want := event{name: "a", lvl: lv, msg: msg, ctx: ctxWith("k", "v")}.render(p)
					if len(rs) != k+1 || rs[k].Tag != prefix || rs[k].Priority&7 != severity[lv] || rs[k].Msg != want {
						vs.Fail("%s(%v): records %+v, want %q with severity %d and prefix %q", m.name, lv, rs[k:], want, severity[lv], prefix)
					}
					k++
				}
			}
			obs("%q%q%q", prefix, lay, msg)
		}})
	drv.Add(drv.Scenario{Prop: "C19", Name: "long", Quick: 0,
		Desc: "messages of 15 lengths from 0 to 200000 bytes, with and without line ends, at every level through each of 7 kinds of output, before and after short ones",
		Body: func() {
			begin()
			o := &thrOut{kind: pick("kind", thresholdKinds...), name: "o", text: "trace", min: api.Trace}
			l := thrStart([]*thrOut{o})
			n := []int{0, 1, 255, 256, 257, 480, 513, 1023, 1024, 1025, 2048, 4097, 8193, 65537, 200000}[vs.Choose(15, 0, "length")]
			msg := strings.Repeat("abcdefg", n/7+1)[:n]
			if strings.HasSuffix(o.kind, "console") {
				msg = strings.ReplaceAll(msg, "\n", "|") // lines are told apart by their starts
			} else if flip("lines") {
				msg = strings.ReplaceAll(msg, "g", "\n")
			}
			lv := levels[vs.Choose(len(levels), 0, "level")]
			for _, m := range []string{"before", msg, "after", msg} {
				l.Printf(lv, "%s", m)
				o.send(lv, m)
			}
			getManager().Close()
			thrCheck([]*thrOut{o}, fmt.Sprintf("%d bytes at %v", n, lv))
			obs("%s %d %v", o.kind, n, lv)
		}})
	drv.Add(drv.Scenario{Prop: "C19", Name: "level-names", Quick: 0,
		Desc: "every spelling in upper and lower case of the 8 level names parses to the level that prints it; every name with one character removed, doubled, replaced or added at an end, and every string of up to 2 characters, parses to none",
		Body: func() {
			begin()
			lv := pick("level", allLevels[1:]...)
			n := levelNames[lv]
			if lv.String() != n {
				vs.Fail("level %d prints %q, want %q", lv, lv.String(), n)
			}
			for m := 0; m < 1<<len(n); m++ {
				s := ""
				for i := range n {
					if m>>i&1 == 1 {
						s += strings.ToLower(n[i : i+1])
					} else {
						s += n[i : i+1]
					}
				}
				if api.LevelFrom(s) != lv {
					vs.Fail("%q parses to %v", s, api.LevelFrom(s))
				}
			}
			valid := map[string]bool{}
			for _, v := range levelNames {
				valid[v] = v != ""
			}
			none := func(s string) {
				if !valid[strings.ToUpper(s)] && api.LevelFrom(s) != api.Uninitialized {
					vs.Fail("%q parses to %v", s, api.LevelFrom(s))
				}
			}
			for i := 0; i <= len(n); i++ {
				for c := 0; c < 256; c++ {
					none(n[:i] + string(rune(c)) + n[i:])
					none(n[:i] + string([]byte{byte(c)}) + n[i:])
					if i < len(n) {
						none(n[:i] + string(rune(c)) + n[i+1:])
					}
				}
				if i < len(n) {
					none(n[:i] + n[i+1:])
					none(n[:i])
				}
				none(n + n[:i])
			}
			none(n + " " + n)
			none("LEVEL_" + n)
			none(strconv.Itoa(int(lv)))
			none(fmt.Sprintf("%s.", n))
			for a := 0; a < 128; a++ {
				none(string(rune(a)))
				for b := 0; b < 128; b++ {
					none(string([]byte{byte(a), byte(b)}))
				}
			}
			none("UNINITIALIZED")
			none(lv.ShortStr())
			obs("%s", n)
		}})
	drv.Add(drv.Scenario{Prop: "C19", Name: "concurrent", Race: true, Quick: 1, Thorough: 2,
		Desc: "two goroutines log at two levels each through synchronous and asynchronous outputs with different thresholds, then Close; all schedules with up to 1 (2) preemptions",
		Body: func() {
			begin()
			outs := []*thrOut{{kind: "console", name: "c", text: "warn", min: api.Warn}, {kind: "async size", name: "s", text: "info", min: api.Info}, {kind: "syslog", name: "y", text: "error", min: api.Error}}
			l := thrStart(outs[:2+vs.Choose(2, 0, "syslog too")])
			wants := make([][][]string, 3)
			for t := 0; t < 2; t++ {
				t := t
				a, b := levels[1+vs.Choose(2, 0, "first level")], levels[3+vs.Choose(2, 0, "second level")]
				m := "m" + strconv.Itoa(t)
				for i, o := range outs {
					o.want = ""
					o.send(a, m)
					o.send(b, m)
					wants[i] = append(wants[i], strings.SplitAfter(strings.TrimSuffix(o.want, "\n"), "\n"))
					if o.want == "" {
						wants[i][t] = nil
					} else {
						wants[i][t][len(wants[i][t])-1] += "\n"
					}
				}
				vs.Spawn(m, func() { l.Printf(a, m); l.Printf(b, m) })
			}
			vs.JoinAll()
			getManager().Close()
			for i, o := range outs {
				if o.kind == "syslog" && len(sysRecords()) == 0 {
					continue
				}
				interleaved(o.have(), wants[i], nil)
			}
			obs("%s %s", outs[0].have(), outs[1].have())
		}})
}
