//go:build go1.23

package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
	"github.com/xtfly/log4g/verifx/vsyslog"
)

// kept records what the registered creators made.
type keptFormat struct {
	typ  string
	cfg  api.CfgFormat
	serl int
}

func (f *keptFormat) Format(e *api.Event) []byte {
	return []byte(f.typ + ":" + f.cfg["name"] + ":" + f.cfg["v"] + ":" + e.Message())
}
func (f *keptFormat) CallerInfoFlag() int { return 0 }

type keptOutput struct {
	typ    string
	cfg    api.CfgOutput
	f      api.Formatter
	sets   int
	closed int
	got    []string
	bad    string
	quiet  bool
}

func (o *keptOutput) Send(e *api.Event) {
	if !o.quiet {
		vs.Point("kept " + o.cfg["name"])
	}
	if o.f == nil {
		o.bad = "an event came before the format was set"
		return
	}
	if o.closed > 0 {
		o.bad = "an event came after Close"
	}
	o.got = append(o.got, string(o.f.Format(e)))
}
func (o *keptOutput) SetFormatter(f api.Formatter) { o.f = f; o.sets++ }
func (o *keptOutput) CallerInfoFlag() int          { return 0 }
func (o *keptOutput) Close()                       { o.closed++ }

type kept struct {
	outs []*keptOutput
	fmts []*keptFormat
}

func useKept(quiet bool) *kept {
	k := &kept{}
	m := log4g.GetManager()
	for _, typ := range []string{"ta", "tb"} {
		typ := typ
		m.RegisterOutputCreator(typ, func(c api.CfgOutput) (api.Output, error) {
			if !quiet {
				vs.Point("create output")
			}
			o := &keptOutput{typ: typ, cfg: c, quiet: quiet}
			k.outs = append(k.outs, o)
			return o, nil
		})
	}
	for _, typ := range []string{"fa", "fb"} {
		typ := typ
		m.RegisterFormatterCreator(typ, func(c api.CfgFormat) (api.Formatter, error) {
			if !quiet {
				vs.Point("create format")
			}
			f := &keptFormat{typ: typ, cfg: c, serl: len(k.fmts)}
			k.fmts = append(k.fmts, f)
			return f, nil
		})
	}
	return k
}

// keptConfig names outputs x (type ta, format f), y (tb, f), z (ta, g).
func keptConfig(version string, sets map[string][]string) *api.Config {
	c := conf(api.CfgFormat{"type": "fa", "name": "f", "v": version}, api.CfgFormat{"type": "fb", "name": "g", "v": "1"},
		output("ta", "x", "f", "p", "1"), output("tb", "y", "f", "p", "2"), output("ta", "z", "g", "p", version))
	var l []string
	for n := range sets {
		l = append(l, n)
	}
	sort.Strings(l)
	for _, n := range l {
		c.Loggers = append(c.Loggers, logger(n, "all", sets[n]...))
	}
	return c
}

// check judges what was created for configuration c: used are the outputs that
// configured loggers name; versions is the number of definitions so far.
func (k *kept) check(c *api.Config, used map[string]bool, versions int, when string) {
	n := map[string]int{}
	for _, o := range k.outs {
		n[o.cfg["name"]+"/"+o.cfg["p"]+"/"+fmtv(o)]++
		if o.bad != "" {
			vs.Fail("%s: output %s: %s", when, o.cfg["name"], o.bad)
		}
		if o.sets != 1 || o.f == nil {
			vs.Fail("%s: output %s: %d formats set", when, o.cfg["name"], o.sets)
		}
		f := o.f.(*keptFormat)
		if f.cfg["name"] != o.cfg["format"] {
			vs.Fail("%s: output %s has format %s, want %s", when, o.cfg["name"], f.cfg["name"], o.cfg["format"])
		}
		want := map[string]string{"x": "ta", "y": "tb", "z": "ta"}[o.cfg["name"]]
		if o.typ != want || o.cfg["type"] != want {
			vs.Fail("%s: output %s made by the creator of %s", when, o.cfg["name"], o.typ)
		}
	}
	for s, m := range n {
		if m != 1 {
			vs.Fail("%s: %d instances of output %s", when, m, s)
		}
	}
	for u := range used {
		cfg := c.GetCfgOutput(u)
		if n[u+"/"+cfg["p"]+"/"+c.GetCfgFormat(cfg["format"])["v"]] != 1 {
			vs.Fail("%s: no instance of output %s with its current definition: %v", when, u, n)
		}
	}
	n = map[string]int{}
	for _, f := range k.fmts {
		n[f.cfg["name"]+"/"+f.cfg["v"]]++
		if want := map[string]string{"f": "fa", "g": "fb"}[f.cfg["name"]]; f.typ != want {
			vs.Fail("%s: format %s made by the creator of %s", when, f.cfg["name"], f.typ)
		}
	}
	for s, m := range n {
		if m != 1 {
			vs.Fail("%s: %d instances of format %s", when, m, s)
		}
	}
	if len(k.outs) > 3*versions || len(k.fmts) > 2*versions {
		vs.Fail("%s: %d outputs and %d formats created", when, len(k.outs), len(k.fmts))
	}
}

func fmtv(o *keptOutput) string {
	if f, ok := o.f.(*keptFormat); ok {
		return f.cfg["v"]
	}
	return "?"
}

func (o *keptOutput) def() string { return o.cfg["p"] + "/" + fmtv(o) }

// inForce is the definition of an output that configuration c gives.
func inForce(c *api.Config, name string) string {
	o := c.GetCfgOutput(name)
	return o["p"] + "/" + c.GetCfgFormat(o["format"])["v"]
}

// newest returns the newest instance of an output.
func (k *kept) newest(name string) *keptOutput {
	for i := len(k.outs) - 1; i >= 0; i-- {
		if k.outs[i].cfg["name"] == name {
			return k.outs[i]
		}
	}
	return nil
}

// deliver logs through every logger and checks that the events arrive at the
// shared instances: those of the newest definition.
func (k *kept) deliver(c *api.Config, ls map[string]api.Logger, when string) {
	var nm []string
	for n := range ls {
		nm = append(nm, n)
	}
	sort.Strings(nm)
	for i, n := range nm {
		_, outs := prescribed(c, n)
		before := map[*keptOutput]int{}
		for _, o := range k.outs {
			before[o] = len(o.got)
		}
		msg := fmt.Sprintf("m%d", i)
		ls[n].Info(msg)
		for _, o := range outs {
			t := k.newest(o)
			if t == nil || t.def() != inForce(c, o) {
				vs.Fail("%s: logger %s: output %s was not created with its current definition", when, n, o)
			}
			f := c.GetCfgFormat(t.cfg["format"])
			want := f["type"] + ":" + f["name"] + ":" + f["v"] + ":" + msg
			if j := before[t]; len(t.got) <= j || t.got[j] != want {
				vs.Fail("%s: logger %s: output %s received %q, want %q", when, n, o, t.got[j:], want)
			}
			before[t]++
		}
		for _, o := range k.outs {
			if len(o.got) != before[o] {
				vs.Fail("%s: logger %s: output %s received extra events %q", when, n, o.cfg["name"], o.got[before[o]:])
			}
		}
	}
}

func (k *kept) closed(when string) {
	log4g.GetManager().Close()
	for _, o := range k.outs {
		if o.closed < 1 {
			vs.Fail("%s: output %s (p=%s) was not closed", when, o.cfg["name"], o.cfg["p"])
		}
	}
}

var c20sets = [][]string{nil, {"x"}, {"y"}, {"z"}, {"x", "y"}, {"z", "x"}, {"x", "y", "z"}, {"y", "y"}}

func usedOf(c *api.Config) map[string]bool {
	u := map[string]bool{}
	for _, l := range c.Loggers {
		for _, o := range l.OutputNames {
			u[o] = true
		}
	}
	return u
}

func init() {
	names := []string{"root", "a", "a/b"}
	drv.Add(drv.Scenario{Prop: "C20", Name: "lookups", Quick: 0,
		Desc: "three loggers with each of 8 lists of 3 outputs (two types, two formats); looked up in every order, before or after the configuration; the configuration again as an object or from JSON; Close",
		Body: func() {
			begin()
			k := useKept(true)
			sets := map[string][]string{}
			for _, n := range names {
				sets[n] = c20sets[vs.Choose(len(c20sets), 0, "outputs of "+n)]
			}
			c := keptConfig("1", sets)
			late := vs.Choose(4, 0, "loggers looked up before the configuration")
			perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vs.Choose(6, 0, "order")]
			ls := map[string]api.Logger{}
			for _, i := range perm[:late] {
				ls[names[i]] = log4g.GetLogger(names[i])
			}
			must(log4g.GetManager().SetConfig(c))
			for _, i := range perm[late:] {
				ls[names[i]] = log4g.GetLogger(names[i])
			}
			used := usedOf(c)
			k.check(c, used, 1, "after lookups")
			if len(sets["root"]) > 0 {
				k.deliver(c, ls, "after lookups")
			}
			made := len(k.outs)
			if flip("JSON") {
				must(log4g.GetManager().LoadConfig(toJSON(c), "json"))
			} else {
				must(log4g.GetManager().SetConfig(keptConfig("1", sets)))
			}
			ls["a/c"] = log4g.GetLogger("a/c")
			k.check(c, used, 1, "after loading it again")
			if len(k.outs) != made {
				vs.Fail("loading an unchanged configuration created outputs: %d, before %d", len(k.outs), made)
			}
			if len(sets["root"]) > 0 {
				k.deliver(c, ls, "after loading it again")
			}
			k.closed("Close")
			obs("%v", sets)
		}})
	drv.Add(drv.Scenario{Prop: "C20", Name: "many", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "12, 70 or 300 outputs with 1, 7 or as many formats and 40 or 200 loggers that share them, looked up twice in either order: one instance each",
		Body: func() {
			begin()
			k := useKept(true)
			no := pick("outputs", 12, 70, 300)
			nf := pick("formats", 1, 7, 300)
			if nf > no {
				nf = no
			}
			nl := pick("loggers", 40, 200)
			c := conf()
			for i := 0; i < nf; i++ {
				c.Formats = append(c.Formats, api.CfgFormat{"type": "fa", "name": fmt.Sprintf("f%d", i), "v": "1"})
			}
			for i := 0; i < no; i++ {
				c.Outputs = append(c.Outputs, output("ta", fmt.Sprintf("o%d", i), fmt.Sprintf("f%d", i%nf), "p", "1"))
			}
			for i := 0; i < nl; i++ {
				var l []string
				for j := i; j < no; j += 1 + i%5 {
					l = append(l, fmt.Sprintf("o%d", j))
				}
				if i == 0 {
					l = nil
					for j := 0; j < no; j++ {
						l = append(l, fmt.Sprintf("o%d", j))
					}
				}
				c.Loggers = append(c.Loggers, logger(fmt.Sprintf("l%d", i), "all", l...))
			}
			must(log4g.GetManager().SetConfig(c))
			back := flip("backwards")
			for round := 0; round < 2; round++ {
				for i := 0; i < nl; i++ {
					n := i
					if back {
						n = nl - 1 - i
					}
					for _, o := range k.outs {
						o.got = nil
					}
					log4g.GetLogger(fmt.Sprintf("l%d", n)).Info("m")
					want := map[string]bool{}
					for _, o := range c.Loggers[n].OutputNames {
						want[o] = true
					}
					for _, o := range k.outs {
						if o.bad != "" {
							vs.Fail("output %s: %s", o.cfg["name"], o.bad)
						}
						if w := want[o.cfg["name"]]; w != (len(o.got) == 1) || len(o.got) > 1 {
							vs.Fail("logger l%d: output %s received %q", n, o.cfg["name"], o.got)
						}
						delete(want, o.cfg["name"])
					}
					if len(want) > 0 {
						vs.Fail("logger l%d: no instance of outputs %v", n, want)
					}
				}
				if len(k.outs) > no || len(k.fmts) > nf {
					vs.Fail("%d outputs and %d formats were created of %d and %d", len(k.outs), len(k.fmts), no, nf)
				}
			}
			obs("%d %d", len(k.outs), len(k.fmts))
		}})
	drv.Add(drv.Scenario{Prop: "C20", Name: "closed", Quick: 0,
		Desc: "all sequences of 4 of: look up one of three loggers, load the configuration again, Close; three loggers with each of 4 lists of outputs: no second instance is made, not even after Close, and Close closes every one",
		Body: func() { closedBody(names, 4, 4) }})
	drv.Add(drv.Scenario{Prop: "C20", Name: "closed-more", Quick: -1, Thorough: 0,
		Desc: "the same with 5 steps and 8 lists of outputs",
		Body: func() { closedBody(names, 5, 8) }})
	drv.Add(drv.Scenario{Prop: "C20", Name: "changes", Quick: 0,
		Desc: "three loads of configurations in which the outputs used, a format and an output definition change: one instance per name and definition in force, the newest used, all of them closed",
		Body: func() {
			begin()
			k := useKept(true)
			ls := map[string]api.Logger{"a/b": log4g.GetLogger("a/b")}
			for i := 0; i < 3; i++ {
				sets := map[string][]string{"root": c20sets[4+vs.Choose(3, 0, "outputs of root")], "a": c20sets[vs.Choose(4, 0, "outputs of a")]}
				c := keptConfig(pick("version", "1", "2"), sets)
				allowed := len(k.outs)
				for u := range usedOf(c) {
					if o := k.newest(u); o == nil || o.def() != inForce(c, u) {
						allowed++
					}
				}
				must(log4g.GetManager().SetConfig(c))
				if i == 1 {
					ls["root"], ls["a"] = log4g.GetLogger("root"), log4g.GetLogger("a")
				}
				if i > 0 && len(k.outs) > allowed {
					vs.Fail("load %d created %d outputs, %d at most have a new definition", i, len(k.outs), allowed)
				}
				k.deliver(c, ls, fmt.Sprintf("load %d", i))
			}
			k.closed("Close")
			obs("%d", len(k.outs))
		}})
	drv.Add(drv.Scenario{Prop: "C20", Name: "twins", Quick: 0,
		Desc: "three outputs that are equal in all but their names, or in their format, or a setting; async or not, with or without a file; used by three loggers in any combination: an instance for each name",
		Body: func() {
			begin()
			k := useKept(true)
			var set []string
			for _, s := range []string{"async", "file", "threshold", "prefix"} {
				if flip(s) {
					set = append(set, s, map[string]string{"async": "true", "file": fsRoot + "/same", "threshold": "trace", "prefix": "p"}[s])
				}
			}
			fm, third := pick("format of the second", "f", "g"), pick("third", "same", "other type", "other setting")
			c := conf(api.CfgFormat{"type": "fa", "name": "f", "v": "1"}, api.CfgFormat{"type": "fa", "name": "g", "v": "1"},
				output("ta", "x", "f", set...), output("ta", "y", fm, set...))
			switch third {
			case "same":
				c.Outputs = append(c.Outputs, output("ta", "z", "f", set...))
			case "other type":
				c.Outputs = append(c.Outputs, output("tb", "z", "f", set...))
			case "other setting":
				c.Outputs = append(c.Outputs, output("ta", "z", "f", append(set, "p", "2")...))
			}
			lists := [][]string{{"x"}, {"y", "x"}, {"x", "y", "z"}, {"z", "y"}}
			c.Loggers = append(c.Loggers, logger("root", "all", lists[vs.Choose(4, 0, "outputs of root")]...), logger("a", "all", lists[vs.Choose(4, 0, "outputs of a")]...))
			if flip("looked up before") {
				log4g.GetLogger("a")
			}
			must(log4g.GetManager().SetConfig(c))
			ls := map[string]api.Logger{"root": log4g.GetLogger("root"), "a": log4g.GetLogger("a"), "a/b": log4g.GetLogger("a/b")}
			k.deliver(c, ls, "twins")
			must(log4g.GetManager().SetConfig(c))
			k.deliver(c, ls, "twins loaded again")
			n := map[string]int{}
			for _, o := range k.outs {
				n[o.cfg["name"]]++
				if o.bad != "" || o.sets != 1 {
					vs.Fail("output %s: %d formats set, %s", o.cfg["name"], o.sets, o.bad)
				}
				if want := c.GetCfgOutput(o.cfg["name"]); want == nil || want["format"] != o.f.(*keptFormat).cfg["name"] || want["type"] != o.typ {
					vs.Fail("output %s has format %v and type %s", o.cfg["name"], o.f, o.typ)
				}
			}
			for u := range usedOf(c) {
				if n[u] != 1 {
					vs.Fail("%d instances of output %s: %v", n[u], u, n)
				}
			}
			k.closed("Close")
			obs("%v %s %s", set, fm, third)
		}})
	drv.Add(drv.Scenario{Prop: "C20", Name: "removed", Quick: 0,
		Desc: "three loads of configurations that each define only some of 4 outputs and 2 formats (those their loggers use), by an object or as text; every instance ever made is closed by Close",
		Body: func() {
			begin()
			k := useKept(true)
			sets := [][]string{{"x"}, {"y", "z"}, {"x", "z"}, {"w"}, {"z", "w", "y"}}
			fm := map[string]string{"x": "f", "y": "f", "z": "g", "w": "g"}
			ls := map[string]api.Logger{"a/b": log4g.GetLogger("a/b")}
			for i := 0; i < 3; i++ {
				root, a := sets[vs.Choose(len(sets), 0, "outputs of root")], sets[vs.Choose(3, 0, "outputs of a")]
				c := conf()
				used := map[string]bool{}
				for _, o := range append(append([]string{}, root...), a...) {
					used[o] = true
				}
				fs := map[string]bool{}
				for _, o := range []string{"w", "x", "y", "z"} {
					if used[o] {
						c.Outputs = append(c.Outputs, output(map[bool]string{true: "ta", false: "tb"}[o < "y"], o, fm[o], "p", "1"))
						fs[fm[o]] = true
					}
				}
				for _, f := range []string{"f", "g"} {
					if fs[f] {
						c.Formats = append(c.Formats, api.CfgFormat{"type": "fa", "name": f, "v": "1"})
					}
				}
				c.Loggers = append(c.Loggers, logger("root", "all", root...), logger("a", "all", a...))
				if i == 1 {
					must(log4g.GetManager().LoadConfig(toJSON(c), "json"))
					ls["root"], ls["a"] = log4g.GetLogger("root"), log4g.GetLogger("a")
				} else {
					must(log4g.GetManager().SetConfig(c))
				}
				k.deliver(c, ls, fmt.Sprintf("load %d", i))
			}
			for _, o := range k.outs {
				if o.closed > 1 {
					vs.Fail("output %s closed %d times before Close", o.cfg["name"], o.closed)
				}
			}
			k.closed("Close")
			obs("%d", len(k.outs))
		}})
	drv.Add(drv.Scenario{Prop: "C20", Name: "real", Quick: 0,
		Desc: "real outputs (console, memory, both rolling kinds, syslog; synchronous and asynchronous): the loggers share one instance, one syslog connection is made and closed",
		Body: func() {
			begin()
			async := pick("async", "false", "true")
			var outs []string
			c := conf(format("f", "%{msg}\n"))
			for _, t := range []string{"console", "memory", "size_rolling_file", "time_rolling_file", "syslog"} {
				c.Outputs = append(c.Outputs, output(t, "o"+t, "f", "async", async, "file", fsRoot+"/l/"+t, "pattern", "2006"))
				outs = append(outs, "o"+t)
			}
			k := vs.Choose(5, 0, "first output of a")
			order := vs.Choose(2, 0, "order")
			c.Loggers = append(c.Loggers, logger("root", "all", outs...), logger("a", "all", append(append([]string{}, outs[k:]...), outs[:k]...)...), logger("a/b", "all", outs[k]))
			for i, n := range names {
				if order == 1 {
					n = names[2-i]
				}
				log4g.GetLogger(n)
				if i == 0 {
					must(log4g.GetManager().SetConfig(c))
				}
			}
			for round := 0; round < 2; round++ {
				r, a, b := outputsOf("root"), outputsOf("a"), outputsOf("a/b")
				for i := range r {
					if r[i] != a[(i+5-k)%5] {
						vs.Fail("output %s of root and a are different instances", outs[i])
					}
				}
				if b[0] != r[k] {
					vs.Fail("output %s of root and a/b are different instances", outs[k])
				}
				if vsyslog.Opened != 1 {
					vs.Fail("%d syslog connections", vsyslog.Opened)
				}
				must(log4g.GetManager().LoadConfig(toYAML(c), "yaml"))
				if o := outputsOf("root"); o[0] != r[0] || o[2] != r[2] || o[3] != r[3] || o[4] != r[4] || o[1] != r[1] {
					vs.Fail("loading an unchanged configuration replaced an output")
				}
			}
			log4g.GetManager().Close()
			if vsyslog.Closed != 1 {
				vs.Fail("%d syslog connections closed", vsyslog.Closed)
			}
			obs("%s %d", async, k)
		}})
	for _, load := range []bool{false, true} {
		load := load
		name, desc := "concurrent", "three goroutines look up different loggers (one twice) that share outputs and log"
		if load {
			name, desc = "concurrent-load", "two goroutines look up loggers that share outputs and log while a third loads the unchanged configuration"
		}
		drv.Add(drv.Scenario{Prop: "C20", Name: name, Race: true, Quick: 2, Thorough: 3, Opts: vs.Options{Delay: true},
			Desc: desc + "; all schedules with up to 2 (3) preemptions and delays",
			Body: func() {
				begin()
				k := useKept(false)
				sets := map[string][]string{"root": {"z"}, "a": {"x", "y"}, "a/b": {"y", "z", "x"}, "b": {"x"}}
				c := keptConfig("1", sets)
				same := keptConfig("1", sets)
				direct := vs.Choose(2, 0, "outputs asked for directly") == 1
				early := vs.Choose(2, 0, "configuration set before")
				if early == 1 || !load {
					must(log4g.GetManager().SetConfig(c))
				}
				for _, n := range []string{"a/b", "b"} {
					n := n
					vs.Spawn(n, func() {
						if direct && n == "b" {
							// as a user of the manager may do; b has output x
							if l, _, err := log4g.GetManager().GetLoggerOutputs(n); err == nil && len(l) == 1 {
								l[0].Send(&api.Event{Format: n, Name: n, Level: api.Info, Time: vs.Now(), Ctx: context.Background()})
							}
							return
						}
						l := log4g.GetLogger(n)
						l.Info(n)
					})
				}
				if load {
					vs.Spawn("load", func() { must(log4g.GetManager().SetConfig(same)) })
				} else {
					vs.Spawn("a", func() {
						log4g.GetLogger("a").Info("a")
						log4g.GetLogger("b")
					})
				}
				vs.JoinAll()
				if load && early == 0 {
					c = same
				}
				for _, n := range []string{"root", "a", "a/b", "b"} {
					log4g.GetLogger(n)
				}
				k.check(c, usedOf(c), 1, "after the lookups")
				if !load {
					for o, want := range map[string]string{"x": "a a/b b", "y": "a a/b", "z": "a/b"} {
						var l []string
						for _, g := range k.newest(o).got {
							l = append(l, g[strings.LastIndex(g, ":")+1:])
						}
						sort.Strings(l)
						if strings.Join(l, " ") != want {
							vs.Fail("output %s received %v, want %s", o, l, want)
						}
					}
				}
				k.closed("Close")
				obs("%d", len(k.outs))
			}})
	}
}

func closedBody(names []string, steps, lists int) {
	begin()
	k := useKept(true)
	sets := map[string][]string{}
	for _, n := range names {
		sets[n] = c20sets[len(c20sets)-lists+vs.Choose(lists, 0, "outputs of "+n)]
	}
	c := keptConfig("1", sets)
	must(log4g.GetManager().SetConfig(c))
	s := ""
	for i := 0; i < steps; i++ {
		switch w := pick("step", "root", "a", "a/b", "load", "close"); w {
		case "load":
			must(log4g.GetManager().SetConfig(keptConfig("1", sets)))
		case "close":
			log4g.GetManager().Close()
			for _, o := range k.outs {
				if o.closed == 0 {
					vs.Fail("after %sclose: output %s is not closed", s, o.cfg["name"])
				}
			}
		default:
			log4g.GetLogger(w)
		}
		s += "."
		n := map[string]int{}
		for _, o := range k.outs {
			if n[o.cfg["name"]]++; n[o.cfg["name"]] > 1 {
				vs.Fail("a second instance of output %s", o.cfg["name"])
			}
		}
	}
	k.closed("Close")
	obs("%d", len(k.outs))
}
