//go:build go1.23

package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// tagged is a spy that knows the definition it was created from.
type tagged struct {
	*spy
	def string
	fmt string
}

var taggedLog []string
var taggedAll []*tagged

func (t *tagged) Send(e *api.Event) {
	if !t.quiet {
		vs.Point("spy " + t.name)
	}
	taggedLog = append(taggedLog, t.name+"/"+t.def+"="+string(t.f.Format(e)))
}

func useTagged(quiet bool) {
	taggedAll, taggedLog = nil, nil
	log4g.GetManager().RegisterOutputCreator("spy", func(c api.CfgOutput) (api.Output, error) {
		t := &tagged{spy: newSpy(c.Name()), def: c["v"]}
		t.quiet = quiet
		taggedAll = append(taggedAll, t)
		return t, nil
	})
}

// probe logs at every level on every logger and returns what went where.
func probe(loggers map[string]api.Logger, nm []string) string {
	var b strings.Builder
	for _, n := range nm {
		l := loggers[n]
		fmt.Fprintf(&b, "%s:", n)
		for i, q := range levels {
			taggedLog = nil
			nc := len(vos.Console())
			before := tree()
			call(writerOf(l, i+len(n)), methods[2*i], q, "", "P")
			en := l.LevelEnabled(q)
			d := append([]string{}, taggedLog...)
			for _, s := range vos.Console()[nc:] {
				if k := strings.Index(s, "Z] "); strings.HasPrefix(s, levelNames[q]) && k > 0 {
					s = "default layout " + s[k+3:] // without the time
				}
				d = append(d, "console="+s)
			}
			after := tree()
			for _, f := range names(after) {
				if after[f] != before[f] {
					d = append(d, f+"="+strings.TrimPrefix(after[f], before[f]))
				}
			}
			fmt.Fprintf(&b, "%v%q", en, d)
		}
		fmt.Fprintf(&b, " lvl=%v\n", l.Level())
	}
	return b.String()
}

// presc is what configuration c alone makes of a probe of logger n, for
// configurations with a root logger and outputs of type spy only.
func presc(c *api.Config, nm []string) string {
	var b strings.Builder
	for _, n := range nm {
		lvl, outs := prescribed(c, n)
		fmt.Fprintf(&b, "%s:", n)
		for _, q := range levels {
			d := []string{}
			for _, o := range outs {
				oc := c.GetCfgOutput(o)
				lay := c.GetCfgFormat(oc.FormatName())["layout"]
				r := strings.NewReplacer("%{msg}", "P", "%{level}", levelNames[q], "%{module}", n)
				if q >= lvl {
					d = append(d, o+"/"+oc["v"]+"="+r.Replace(lay))
				}
			}
			fmt.Fprintf(&b, "%v%q", q >= lvl, d)
		}
		fmt.Fprintf(&b, " lvl=%v\n", lvl)
	}
	return b.String()
}

func diffLine(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			return fmt.Sprintf("have %s\nwant %s", la[i], lb[min(i, len(lb)-1)])
		}
	}
	return ""
}

var c07names = []string{"root", "a", "a/b", "c"}

// family of configurations with spies
func spyConfig(k string, full bool) *api.Config {
	c := conf()
	lay := []string{"1 %{msg}", "2 %{level} %{msg}"}
	c.Formats = append(c.Formats, format("f1", lay[vs.Choose(2, 0, k+" layout f1")]), format("f2", "3 %{module} %{msg}"))
	o1 := output("spy", "o1", "f1", "v", "1")
	switch vs.Choose(3, 0, k+" definition o1") {
	case 1:
		o1["v"] = "2"
	case 2:
		o1["format"] = "f2"
	}
	o2 := output("spy", "o2", "f2", "v", "1")
	if full && flip(k+" definition o2") {
		o2["format"] = "f1"
	}
	c.Outputs = []api.CfgOutput{o1, o2}
	c.Loggers = []api.CfgLogger{[]api.CfgLogger{logger("root", "info", "o1"), logger("root", "debug", "o2", "o1")}[vs.Choose(2, 0, k+" root")]}
	if n := vs.Choose(4, 0, k+" a"); n > 0 {
		c.Loggers = append(c.Loggers, []api.CfgLogger{logger("a", "warn", "o1"), logger("a", "", "o2"), logger("a", "error")}[n-1])
	}
	nab := 2
	if full {
		nab = 3
	}
	if n := vs.Choose(nab, 0, k+" a/b"); n > 0 {
		c.Loggers = append(c.Loggers, []api.CfgLogger{logger("a/b", "trace", "o2"), logger("a/b", "off", "o1", "o2")}[n-1])
	}
	return c
}

func show1(c *api.Config) string { return fmt.Sprintf("%v", *c) }

func outDef(c *api.Config, name string) string {
	o := c.GetCfgOutput(name)
	if o == nil {
		return ""
	}
	keys := []string{}
	for k, v := range o {
		keys = append(keys, k+"="+v)
	}
	sort.Strings(keys)
	return fmt.Sprint(keys, c.GetCfgFormat(o.FormatName())["layout"])
}

// live instance of a named output
func inst(name string) api.Output {
	for _, n := range []string{"root", "a", "a/b"} {
		l, _, err := log4g.GetManager().GetLoggerOutputs(n)
		if err != nil {
			continue
		}
		for _, o := range l {
			if t, ok := o.(*tagged); ok && t.name == name {
				return o
			}
		}
	}
	return nil
}

func reloadBody(steps int, full bool) func() {
	return func() {
		begin()
		useTagged(true)
		ls := map[string]api.Logger{}
		get := func(phase int, when []int) {
			for i, n := range c07names {
				if when[i] == phase {
					ls[n] = lookupLogger(n)
				}
			}
		}
		when := []int{0, 0, 0, steps}
		switch vs.Choose(4, 0, "when loggers are obtained") {
		case 1:
			when = []int{steps, steps, steps, 0}
		case 2:
			when = []int{1, 1, steps, 0}
		case 3:
			when = []int{0, 1, 1, 1}
		}
		var prev *api.Config
		before := map[string]api.Output{}
		for s := 0; s < steps; s++ {
			get(s, when)
			for n, l := range ls {
				if s == 1 && n != "" {
					l.Info("in between")
				}
			}
			c := spyConfig(fmt.Sprintf("configuration %d", s+1), full)
			if vs.Verbose() {
				vs.Note("   SetConfig(%s)", show1(c))
			}
			must(log4g.GetManager().SetConfig(c))
			for _, o := range []string{"o1", "o2"} {
				now := inst(o)
				if prev != nil && before[o] != nil && now != nil && outDef(prev, o) == outDef(c, o) && before[o] != now {
					vs.Fail("output %s, whose definition did not change, was replaced by a new instance", o)
				}
				before[o] = now
			}
			prev = c
		}
		get(steps, when)
		have, want := probe(ls, c07names), presc(prev, c07names)
		if have != want {
			vs.Fail("after %d loads the system differs from what the last configuration prescribes:\n%s", steps, diffLine(have, want))
		}
		obs("%s", have)
	}
}

// realConfig is one of a family of configurations with built-in outputs.
func realConfig(k int) *api.Config {
	file := func(n string) string { return fsRoot + "/l/" + n }
	f1, f2 := format("f", "A %{level} %{msg}\n"), format("f", "B %{module} %{msg} %{line}\n")
	g := format("g", "G %{msg}\n")
	size := func(f, thr string) api.CfgOutput {
		return output("size_rolling_file", "o", "f", "file", file(f), "threshold", thr)
	}
	switch k {
	case 0:
		return conf(f1, size("x", "-"), logger("root", "all", "o"))
	case 1:
		return conf(f1, size("x", "warn"), logger("root", "all", "o"))
	case 2:
		return conf(f1, size("y", "-"), logger("root", "all", "o"))
	case 3:
		return conf(f2, size("x", "-"), logger("root", "all", "o"))
	case 4:
		return conf(f1, g, output("console", "o", "g", "threshold", "error"), logger("root", "info", "o"), logger("a", "debug", "o"))
	case 5:
		return conf(f2, g, size("x", "-"), output("memory", "m", "g"), output("time_rolling_file", "t", "g", "file", file("t"), "pattern", "2006", "threshold", "info"),
			logger("root", "warn", "o"), logger("a", "", "t", "m"), logger("a/b", "trace", "t"))
	case 6:
		return conf(f1, output("console", "o", "f"), logger("a", "error", "o")) // no root logger
	case 7:
		return conf() // nothing
	case 8:
		return conf(f1, g, size("x", "-"), output("console", "c", "f", "threshold", "info"), logger("root", "all", "o", "c"), logger("c", "off"))
	case 9:
		return conf(f1, output("time_rolling_file", "o", "f", "file", file("x"), "pattern", "2006"), logger("root", "all", "o"), logger("a/b", "", "o"))
	}
	return conf(format("f", "%{msg}|\n"), output("syslog", "o", "f", "prefix", "p"), output("console", "c", "f"), logger("root", "all", "o"), logger("a", "info", "c"))
}

const realConfigs = 11

func realBody(steps int) func() {
	return func() {
		begin()
		ls := map[string]api.Logger{}
		early := vs.Choose(3, 0, "loggers obtained first")
		if early == 0 {
			for _, n := range c07names {
				ls[n] = lookupLogger(n)
			}
		}
		form := vs.Choose(3, 0, "how the last configuration is loaded")
		var last *api.Config
		for s := 0; s < steps; s++ {
			k := vs.Choose(realConfigs, 0, "configuration")
			last = realConfig(k)
			if vs.Verbose() {
				vs.Note("   SetConfig(%s)", show1(last))
			}
			if s == steps-1 {
				load(last, form)
			} else {
				must(log4g.GetManager().SetConfig(last))
			}
			if s == 0 && early == 1 {
				for _, n := range c07names {
					ls[n] = lookupLogger(n)
				}
			}
			if s == 0 && ls["a"] != nil {
				ls["a"].Critical("before")
			}
		}
		if early == 2 {
			for _, n := range c07names {
				ls[n] = lookupLogger(n)
			}
		}
		p := func() string {
			// console records of the probe only
			nsys := len(sysRecords())
			s := probe(ls, c07names)
			for _, r := range sysRecords()[nsys:] {
				s += fmt.Sprintf("syslog %s %d %q\n", r.Tag, r.Priority, r.Msg)
			}
			return s
		}
		have := p()
		// the same last configuration on a fresh start
		restart()
		for _, e := range []string{"l"} {
			os.RemoveAll(fsRoot + "/" + e)
		}
		must(log4g.GetManager().SetConfig(last))
		for _, n := range c07names {
			ls[n] = lookupLogger(n)
		}
		want := p()
		if have != want {
			vs.Fail("after %d loads the system differs from one started with the last configuration:\n%s", steps, diffLine(have, want))
		}
		obs("%s", have)
	}
}

// load applies a configuration in one of its three forms.
func load(c *api.Config, form int) {
	switch form {
	case 0:
		must(log4g.GetManager().SetConfig(c))
	case 1:
		must(log4g.GetManager().LoadConfig(toJSON(c), "json"))
	case 2:
		p := fsRoot + "/cfg.yaml"
		os.WriteFile(p, toYAML(c), 0666)
		must(log4g.GetManager().LoadConfigFile(p))
		os.Remove(p)
	}
}

// param7 is one parameter of an output with values to change between.
type param7 struct {
	name   string
	values []string
}

func params7(kind string) (base []string, ps []param7) {
	threshold := param7{"threshold", []string{"-", "warn", "off"}}
	format := param7{"format", []string{"f", "g"}}
	async := param7{"async", []string{"-", "true"}}
	batch := param7{"batch_num", []string{"-", "1", "2"}}
	rolling := []param7{threshold, format, async, {"file", []string{"l/f", "l/g", "m/f"}}, {"backups", []string{"-", "1", "2"}}, {"archive", []string{"-", "zip", "gzip"}},
		{"name_mode", []string{"-", "prefix"}}, {"file_perm", []string{"-", "0644"}}, {"back_perm", []string{"-", "0444"}}, {"dir_perm", []string{"-", "0700"}}}
	switch kind {
	case "size":
		return []string{"type", "size_rolling_file", "file", "l/f", "size", "4", "backups", "1", "pattern", "2006-01-02"},
			append(rolling, param7{"size", []string{"-", "4", "12", "1K"}}, param7{"type", []string{"size_rolling_file", "time_rolling_file", "console"}})
	case "async size":
		return []string{"type", "size_rolling_file", "file", "l/f", "size", "4", "async", "true"}, append(rolling, batch)
	case "time":
		return []string{"type", "time_rolling_file", "file", "l/f", "pattern", "2006-01-02", "backups", "1"},
			append(rolling, param7{"pattern", []string{"2006-01-02", "2006-01-02T15"}}, param7{"type", []string{"time_rolling_file", "memory", "syslog"}})
	case "console":
		return []string{"type", "console"}, []param7{threshold, format, async, batch, {"type", []string{"console", "memory", "syslog"}}}
	case "async console":
		return []string{"type", "console", "async", "true"}, []param7{threshold, format, async, batch}
	}
	return []string{"type", "syslog", "prefix", "p"}, []param7{threshold, format, {"prefix", []string{"-", "p", "q"}}}
}

// parametersBody compares a reload that changes one parameter with a restart in its place.
func parametersBody() {
	begin()
	kind := pick("kind", "size", "async size", "time", "console", "async console", "syslog")
	base, ps := params7(kind)
	p := ps[vs.Choose(len(ps), 0, "parameter")]
	i := vs.Choose(len(p.values), 0, "first value")
	j := vs.Choose(len(p.values)-1, 0, "second value")
	if j >= i {
		j++
	}
	records := 5
	if p.name == "async" || p.name == "batch_num" || strings.HasPrefix(kind, "async") {
		records = 3
	}
	used := vs.Choose(min(3, records-1), 0, "records before the change")
	vs.Note("   %s %s: %s, then %s; %d records before", kind, p.name, p.values[i], p.values[j], used)
	cf := func(v string) *api.Config {
		o := api.CfgOutput{"name": "o", "format": "f"}
		for k := 0; k < len(base); k += 2 {
			o[base[k]] = base[k+1]
		}
		o[p.name] = v
		if v == "-" {
			delete(o, p.name)
		}
		if o["file"] != "" {
			o["file"] = fsRoot + "/" + o["file"]
		}
		return conf(format("f", "%{msg}\n"), format("g", "<%{msg}>\n"), o, logger("root", "all", "o"))
	}
	run := func(again bool) string {
		var b strings.Builder
		var labels [][2]string
		label := func() {
			k := len(labels) / 2
			labels = append(labels, [2]string{vs.Now().Format("2006-01-02T15"), fmt.Sprintf("hour%d", k)}, [2]string{vs.Now().Format("2006-01-02"), fmt.Sprintf("day%d", k)})
		}
		nc, ns := len(vos.Console()), len(sysRecords())
		look := func(what string) {
			vs.WaitIdle()
			fmt.Fprintf(&b, "%s:", what)
			m := statAll()
			t := tree()
			for _, n := range fileNames(m) {
				s := t[n]
				if strings.HasSuffix(n, ".zip") || strings.HasSuffix(n, ".gz") {
					s = "archive"
				}
				fmt.Fprintf(&b, " %s %v %q", n, m[n].Mode(), s)
			}
			fmt.Fprintf(&b, " console %q", strings.Join(vos.Console()[nc:], ""))
			for _, r := range sysRecords()[ns:] {
				fmt.Fprintf(&b, " syslog %s %d %q", r.Tag, r.Priority, r.Msg)
			}
			ops, _, _ := log4g.GetManager().GetLoggerOutputs("root")
			for _, o := range ops {
				if s, ok := o.(fmt.Stringer); ok {
					fmt.Fprintf(&b, " %q", s.String())
				}
			}
			b.WriteString("\n")
		}
		label()
		must(log4g.GetManager().SetConfig(cf(p.values[i])))
		l := log4g.GetLogger("")
		for k := 0; k < used; k++ {
			l.Error(fmt.Sprintf("old%d", k))
			vs.WaitIdle()
			vs.Advance(25 * time.Hour)
			vs.WaitIdle() // the asynchronous one has written it
			label()
		}
		nc, ns = len(vos.Console()), len(sysRecords())
		if again {
			log4g.GetManager().Close()
			restart()
		}
		must(log4g.GetManager().SetConfig(cf(p.values[j])))
		l = log4g.GetLogger("")
		for k := 0; k < records; k++ {
			l.Printf([]api.Level{api.Error, api.Info, api.Critical}[k%3], "m%d", k)
			look(fmt.Sprintf("record %d", k))
			vs.Advance(25 * time.Hour)
			label()
			look("time passed")
		}
		s := b.String()
		for _, x := range labels {
			s = strings.ReplaceAll(s, x[0], x[1])
		}
		return s
	}
	have := run(false)
	restart()
	for _, e := range []string{"l", "m"} {
		os.RemoveAll(fsRoot + "/" + e)
	}
	want := run(true)
	if have != want {
		vs.Fail("%s, %s %s changed to %s, %d records before: the system differs from one started with the new configuration:\n%s", kind, p.name, p.values[i], p.values[j], used, diffLine(have, want))
	}
	obs("%s", have)
}

func init() {
	drv.Add(drv.Scenario{Prop: "C07", Name: "parameters", Quick: 0,
		Desc: "each parameter of each built-in output (20 in all) changes alone between any two of its values, with 0, 1 or 2 records before: the following 5 (asynchronous: 3) records leave the same files, modes, text and syslog records as after a restart with the new configuration", Body: parametersBody})
	drv.Add(drv.Scenario{Prop: "C07", Name: "reload2", Quick: 0,
		Desc: "every sequence of 2 configurations from a family of 144 (layouts, output definitions, loggers added, changed and removed), loggers obtained before, between or after; prescription computed from the last configuration",
		Body: reloadBody(2, true)})
	drv.Add(drv.Scenario{Prop: "C07", Name: "reload3", Quick: -1, Thorough: 0,
		Desc: "sequences of 3 from a family of 96", Body: reloadBody(3, false)})
	drv.Add(drv.Scenario{Prop: "C07", Name: "real2", Quick: 0,
		Desc: "sequences of 2 of 11 configurations with built-in outputs (changed files, thresholds, layouts, types; no root logger; empty), in all three forms; compared with a fresh start",
		Body: realBody(2)})
	drv.Add(drv.Scenario{Prop: "C07", Name: "real3", Quick: 0,
		Desc: "sequences of 3 of the same", Body: realBody(3)})
	drv.Add(drv.Scenario{Prop: "C07", Name: "many", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "5..1030 loads in turn of one to three configurations, the layout of one format and the definition of one output the same or new each time, loggers looked up before, at or after every load; after the last 3 loads everything is as prescribed",
		Body: func() {
			begin()
			useTagged(true)
			loads := pick("loads", 5, 17, 33, 65, 129, 255, 256, 257, 515, 1030)
			turn := pick("configurations", 1, 2, 3)
			fresh := vs.Choose(4, 0, "new each time")
			early := flip("loggers first")
			ls := map[string]api.Logger{}
			get := func() {
				for _, n := range c07names {
					ls[n] = lookupLogger(n)
				}
			}
			if early {
				get()
			}
			before := map[string]api.Output{}
			var prev *api.Config
			for i := 0; i < loads; i++ {
				f, v := "", ""
				if fresh&1 == 1 {
					f = fmt.Sprint(i)
				}
				if fresh&2 == 2 {
					v = fmt.Sprint(i)
				}
				c := conf(format("f1", "1"+f+" %{msg}"), format("f2", "2 %{msg}"), output("spy", "o1", "f1", "v", "1"), output("spy", "o2", "f2", "v", v))
				switch i % turn {
				case 0:
					c.Loggers = []api.CfgLogger{logger("root", "all", "o1"), logger("a", "debug", "o2"), logger("a/b", "", "o1", "o2")}
				case 1:
					c.Loggers = []api.CfgLogger{logger("root", "info", "o2"), logger("a", "warn", "o1")}
				case 2:
					c.Loggers = []api.CfgLogger{logger("root", "debug", "o2", "o1"), logger("a/b", "error", "o2")}
				}
				must(log4g.GetManager().SetConfig(c))
				if i == 0 && !early {
					get()
				}
				for _, o := range []string{"o1", "o2"} {
					now := inst(o)
					if prev != nil && before[o] != nil && now != nil && outDef(prev, o) == outDef(c, o) && before[o] != now {
						vs.Fail("load %d: output %s, whose definition did not change, was replaced by a new instance", i+1, o)
					}
					before[o] = now
				}
				prev = c
				if i < loads-3 {
					ls["a"].Info("in between")
					continue
				}
				if have, want := probe(ls, c07names), presc(c, c07names); have != want {
					vs.Fail("after %d loads the system differs from what the last configuration prescribes:\n%s", i+1, diffLine(have, want))
				}
			}
			obs("%d %d %d", loads, turn, fresh)
		}})
	drv.Add(drv.Scenario{Prop: "C07", Name: "concurrent", Quick: 3, Thorough: 4, Opts: vs.Options{Delay: true},
		Desc: "SetConfig while another goroutine looks up new and configured loggers and logs: afterwards everything follows the new configuration",
		Body: func() {
			begin()
			useTagged(false)
			a := conf(format("f1", "1 %{msg}"), format("f2", "2 %{msg}"), output("spy", "o1", "f1", "v", "1"), output("spy", "o2", "f2", "v", "1"),
				logger("root", "all", "o1"), logger("a", "debug", "o2"), logger("a/b", "", "o1", "o2"))
			b := conf(format("f1", "1 %{msg}"), format("f2", "2b %{msg}"), output("spy", "o1", "f1", "v", "2"), output("spy", "o2", "f2", "v", "1"),
				logger("root", "info", "o2"), logger("a", "warn", "o1"), logger("c", "error", "o1"))
			if flip("direction") {
				a, b = b, a
			}
			must(log4g.GetManager().SetConfig(a))
			ls := map[string]api.Logger{}
			ls["a"] = lookupLogger("a")
			which := vs.Choose(4, 0, "operation")
			vs.Spawn("load", func() { must(log4g.GetManager().SetConfig(b)) })
			vs.Spawn("use", func() {
				switch which {
				case 0:
					log4g.GetLogger("a/b").Info("x")
				case 1:
					log4g.GetLogger("c").Error("x")
				case 2:
					log4g.GetLogger("root").Warn("x")
				case 3:
					ls["a"].Error("x")
					log4g.GetManager().GetLoggerOutputs("a")
				}
			})
			vs.JoinAll()
			for _, t := range taggedAll {
				t.quiet = true
			}
			for _, n := range c07names {
				ls[n] = lookupLogger(n)
			}
			have, want := probe(ls, c07names), presc(b, c07names)
			if have != want {
				vs.Fail("after a concurrent load the system differs from what the configuration prescribes:\n%s", diffLine(have, want))
			}
			obs("%d %s", which, strconv.Itoa(len(taggedAll)))
		}})
	drv.Add(drv.Scenario{Prop: "C07", Name: "two-loads", Quick: 2, Thorough: 4, Opts: vs.Options{Delay: true},
		Desc: "two concurrent loads: afterwards everything follows one of the two configurations",
		Body: func() {
			begin()
			useTagged(true)
			mk := func(v, lvl string, names ...string) *api.Config {
				c := conf(format("f", v+" %{msg}"), output("spy", "o", "f", "v", v), logger("root", lvl, "o"))
				for _, n := range names {
					c.Loggers = append(c.Loggers, logger(n, "error", "o"))
				}
				return c
			}
			a, b := mk("1", "info", "a"), mk("2", "debug", "c")
			ls := map[string]api.Logger{}
			for _, n := range c07names {
				ls[n] = lookupLogger(n)
			}
			vs.Spawn("load1", func() { must(log4g.GetManager().SetConfig(a)) })
			vs.Spawn("load2", func() { must(log4g.GetManager().SetConfig(b)) })
			vs.JoinAll()
			have := probe(ls, c07names)
			if have != presc(a, c07names) && have != presc(b, c07names) {
				vs.Fail("after two concurrent loads the system follows neither configuration:\n%s", diffLine(have, presc(b, c07names)))
			}
			obs("%s", have[:20])
		}})
}
