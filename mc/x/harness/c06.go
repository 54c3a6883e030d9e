//go:build go1.23

package main

import (
	"fmt"
	"os"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// env of one execution of the concurrency scenarios
type c06env struct {
	root, p, c, o api.Logger // root, x, x/y, x/z (late)
	extra         []api.Output
	cfgB, cfgC    *api.Config
	yaml          []byte
	file          string
}

func (e *c06env) conf(lvl string, outs ...string) *api.Config {
	return conf(format("f", "%{msg}|%{shortfunc}\n"), format("g", "%{level} %{msg}\n"),
		output("spy", "s1", "f"), output("spy", "s2", "f"), output("memory", "mem", "g"),
		output("console", "as", "g", "async", "true", "queue_size", "1", "batch_num", "2"),
		output("size_rolling_file", "file", "g", "file", fsRoot+"/l/f", "size", "1"),
		logger("root", lvl, outs...), logger("x", "", "s1", "s2"), logger("x/y/z", "debug", "mem"))
}

type c06op struct {
	name string
	do   func(e *c06env, me int)
}

var c06ops = []c06op{
	{"log-child", func(e *c06env, me int) { e.c.Infof("msg %d", me) }},
	{"log-fields", func(e *c06env, me int) { e.c.WithFields(api.Field{Key: "k", Value: me}).Warn("w") }},
	{"log-root", func(e *c06env, me int) { e.root.Error("e", me) }},
	{"get-new", func(e *c06env, me int) { e.o = log4g.GetLogger("x/new"); e.o.Info("n") }},
	{"get-known", func(e *c06env, me int) {
		if l := log4g.GetLogger("x/y"); l != e.c {
			vs.Fail("GetLogger returned another logger")
		}
	}},
	{"get-configured", func(e *c06env, me int) { log4g.GetLogger("x/y/z").Debug("d") }},
	{"query", func(e *c06env, me int) { _ = e.c.Level(); _ = e.c.InfoEnabled(); _ = e.p.LevelEnabled(api.Debug) }},
	{"set-level-parent", func(e *c06env, me int) { e.p.SetLevel(api.Warn) }},
	{"set-level-root", func(e *c06env, me int) { e.root.SetLevel(api.Debug) }},
	{"set-outputs", func(e *c06env, me int) { e.p.SetOutputs([]api.Output{e.extra[me]}) }},
	{"set-outputs-child", func(e *c06env, me int) { e.c.SetOutputs(e.extra) }},
	{"set-callerskip", func(e *c06env, me int) { e.c.SetCallerSkip(0) }},
	{"set-config", func(e *c06env, me int) { must(log4g.GetManager().SetConfig(e.cfgB)) }},
	{"set-config-other", func(e *c06env, me int) { must(log4g.GetManager().SetConfig(e.cfgC)) }},
	{"load-json", func(e *c06env, me int) {
		must(log4g.GetManager().LoadConfig(e.yaml, "json"))
	}},
	{"load-file", func(e *c06env, me int) { must(log4g.GetManager().LoadConfigFile(e.file)) }},
	{"load-bad", func(e *c06env, me int) {
		if log4g.GetManager().LoadConfig([]byte("{"), "json") == nil {
			vs.Fail("malformed text accepted")
		}
	}},
	{"close", func(e *c06env, me int) { log4g.GetManager().Close() }},
	{"register", func(e *c06env, me int) {
		log4g.GetManager().RegisterOutputCreator("spy2", func(api.CfgOutput) (api.Output, error) { return newSpy("x"), nil })
		log4g.GetManager().RegisterFormatterCreator("text2", nil)
	}},
	{"get-outputs", func(e *c06env, me int) { log4g.GetManager().GetLoggerOutputs("root") }},
}

const c06json = `{"formats":[{"name":"f","type":"text","layout":"%{msg}|%{shortfunc}\n"}],"outputs":[{"name":"s1","type":"spy","format":"f"}],"loggers":[{"name":"root","level":"all","outputs":["s1"]},{"name":"x","level":"info","outputs":["s1"]}]}`

func c06setup() *c06env {
	begin()
	useSpies(false)
	e := &c06env{}
	e.cfgB = e.conf("info", "s2", "mem", "as", "file")
	e.cfgC = conf(format("f", "%{msg} %{k}\n"), output("spy", "s1", "f"), logger("root", "warn", "s1"))
	e.yaml = []byte(c06json)
	e.file = fsRoot + "/cfg.json"
	os.WriteFile(e.file, e.yaml, 0666)
	must(log4g.GetManager().SetConfig(e.conf("all", "s1", "mem", "as", "file")))
	e.root, e.p, e.c = log4g.GetLogger("root"), log4g.GetLogger("x"), log4g.GetLogger("x/y")
	e.extra = []api.Output{newSpy("e0"), newSpy("e1"), newSpy("e2")}
	vs.WaitIdle()
	return e
}

func c06wrap(e *c06env) {
	vs.JoinAll()
	vos.C.Sched = false
	log4g.GetManager().Close()
	escaped()
	obs("%d spies %v %v", len(spyLog), e.c.Level(), len(console()))
}

// c06groups: pairs whose first operation is in the group, so that the pairs
// are spread over scenarios of similar size
func init() {
	for gi := range c06ops {
		gi := gi
		drv.Add(drv.Scenario{Prop: "C06", Name: "pair-" + c06ops[gi].name, Race: true, Quick: 2, Thorough: 3, Opts: vs.Options{Delay: true},
			Desc: "one goroutine: " + c06ops[gi].name + "; the other: each of the operations from it on in the list",
			Body: func() {
				e := c06setup()
				a := c06ops[gi]
				b := c06ops[gi+vs.Choose(len(c06ops)-gi, 0, "second operation")]
				vs.Note("   %s || %s", a.name, b.name)
				vs.Spawn(a.name, func() { a.do(e, 0) })
				vs.Spawn(b.name, func() { b.do(e, 1) })
				c06wrap(e)
			}})
	}
	trip := [][]int{{0, 9, 12}, {0, 13, 17}, {3, 5, 12}, {0, 7, 13}, {2, 12, 17}, {3, 14, 9}, {5, 13, 19}, {0, 12, 13}, {12, 13, 17}, {0, 10, 7}, {6, 13, 8}}
	drv.Add(drv.Scenario{Prop: "C06", Name: "triples", Race: true, Quick: 1, Thorough: 2, Opts: vs.Options{Delay: true},
		Desc: "three goroutines with selected operations",
		Body: func() {
			e := c06setup()
			t := trip[vs.Choose(len(trip), 0, "operations")]
			for i, k := range t {
				i, o := i, c06ops[k]
				vs.Spawn(o.name, func() { o.do(e, i) })
			}
			c06wrap(e)
		}})
	drv.Add(drv.Scenario{Prop: "C06", Name: "sequences", Race: true, Quick: 1, Thorough: 2, Opts: vs.Options{Delay: true},
		Desc: "two goroutines with two operations each, from the operations that change or use settings",
		Body: func() {
			e := c06setup()
			sel := []int{0, 3, 7, 9, 12, 13}
			var ops [4]c06op
			for i := range ops {
				ops[i] = c06ops[sel[vs.Choose(len(sel), 0, "operation")]]
			}
			vs.Spawn("first", func() { ops[0].do(e, 0); ops[1].do(e, 0) })
			vs.Spawn("second", func() { ops[2].do(e, 1); ops[3].do(e, 1) })
			c06wrap(e)
		}})
	// atomicity of output replacement
	old, neu := []string{"o1", "o2"}, []string{"n1", "n2", "n3"}
	judge := func(recs []got, n int) {
		var s []string
		for _, g := range recs {
			s = append(s, g.out)
		}
		h := strings.Join(s, ",")
		if h != strings.Join(old, ",") && h != strings.Join(neu, ",") {
			vs.Fail("record %d, logged while outputs were replaced, went to [%s]; want all of %v or all of %v", n, h, old, neu)
		}
	}
	drv.Add(drv.Scenario{Prop: "C06", Name: "replace-set", Race: true, Quick: 3, Thorough: 5,
		Desc: "2 records on a logger or a descendant while SetOutputs replaces two outputs by three on it: each goes to the complete old or the complete new list, old never after new",
		Body: func() {
			begin()
			resetSpies()
			p := log4g.GetLogger("x")
			l := p
			if flip("descendant") {
				l = log4g.GetLogger("x/y/z")
			}
			mk := func(n []string) (r []api.Output) {
				for _, s := range n {
					r = append(r, newSpy(s))
				}
				return
			}
			o, nn := mk(old), mk(neu)
			p.SetOutputs(o)
			vs.Spawn("log", func() { l.Info("0"); l.Info("1") })
			vs.Spawn("set", func() { p.SetOutputs(nn) })
			vs.JoinAll()
			c06judge(judge)
		}})
	drv.Add(drv.Scenario{Prop: "C06", Name: "replace-config", Race: true, Quick: 3, Thorough: 4,
		Desc: "the same with SetConfig replacing the outputs",
		Body: func() {
			begin()
			useSpies(false)
			mk := func(n []string) *api.Config {
				c := conf(format("f", "%{msg}"))
				for _, s := range n {
					c.Outputs = append(c.Outputs, output("spy", s, "f"))
				}
				c.Loggers = append(c.Loggers, logger("root", "all"), logger("x", "all", n...))
				return c
			}
			a, b := mk(old), mk(neu)
			must(log4g.GetManager().SetConfig(a))
			l := log4g.GetLogger("x")
			if flip("descendant") {
				l = log4g.GetLogger("x/y/z")
			}
			vs.Spawn("log", func() { l.Info("0"); l.Info("1") })
			vs.Spawn("set", func() { must(log4g.GetManager().SetConfig(b)) })
			vs.JoinAll()
			c06judge(judge)
		}})
	drv.Add(drv.Scenario{Prop: "C06", Name: "lookup-new", Race: true, Quick: 2, Thorough: 3,
		Desc: "two goroutines look up the same and nested new loggers: same instances, working parents",
		Body: func() {
			begin()
			resetSpies()
			root := log4g.GetLogger("")
			s := newSpy("r")
			root.SetOutputs([]api.Output{s})
			n1 := pick("first", "a/b", "a", "a/b/c")
			n2 := pick("second", "a/b", "a", "a.b")
			var l1, l2 api.Logger
			vs.Spawn("first", func() { l1 = log4g.GetLogger(n1); l1.Info("1") })
			vs.Spawn("second", func() { l2 = log4g.GetLogger(n2); l2.Info("2") })
			vs.JoinAll()
			if (l1 == l2) != (n1 == n2) || log4g.GetLogger(n1) != l1 || log4g.GetLogger(n2) != l2 {
				vs.Fail("concurrent lookups of %s and %s returned inconsistent loggers", n1, n2)
			}
			if len(spyLog) != 2 {
				vs.Fail("%d events instead of 2", len(spyLog))
			}
			a := log4g.GetLogger("a")
			a.SetLevel(api.Error)
			if (n1 == "a/b" || n1 == "a/b/c") && l1.Level() != api.Error {
				vs.Fail("%s does not inherit from a", n1)
			}
			obs("%s %s %s", n1, n2, spyLog[0].name)
		}})
}

func c06judge(judge func([]got, int)) {
	for n := 0; n < 2; n++ {
		var r []got
		for _, g := range spyLog {
			if g.msg == fmt.Sprint(n) {
				r = append(r, g)
			}
		}
		judge(r, n)
	}
	// order: once the new list was used, the old one is not
	seenNew := false
	o := ""
	for _, g := range spyLog {
		o += g.out + g.msg + " "
		if strings.HasPrefix(g.out, "n") {
			seenNew = true
		} else if seenNew {
			vs.Fail("a later record went to the replaced outputs: %s", o)
		}
	}
	obs("%s", o)
}
