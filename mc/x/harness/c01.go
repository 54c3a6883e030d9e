//go:build go1.23

package main

import (
	"context"
	"fmt"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// hier is a chain of loggers root > a > a/b > a/b/c with the model of their settings.
type hier struct {
	name []string
	lvl  []api.Level
	outs [][]*spy
	log  []api.Logger
	turn int // which kind of writer the first method is called on
}

func newHier(sep string) *hier {
	return &hier{name: []string{"root", "a", "a" + sep + "b", "a" + sep + "b" + sep + "c"},
		lvl: make([]api.Level, 4), outs: make([][]*spy, 4), log: make([]api.Logger, 4)}
}

// want returns the effective level (and whether one is set) and outputs.
func (h *hier) want(i int) (api.Level, bool, []*spy) {
	lvl, set := api.Uninitialized, false
	for j := i; j >= 0; j-- {
		if h.lvl[j] != api.Uninitialized {
			lvl, set = h.lvl[j], true
			break
		}
	}
	for j := i; j >= 0; j-- {
		if len(h.outs[j]) > 0 {
			return lvl, set, h.outs[j]
		}
	}
	return lvl, set, nil
}

// toOutputs keeps the difference between no list and an empty one.
func toOutputs(l []*spy) []api.Output {
	var r []api.Output
	if l != nil {
		r = []api.Output{}
	}
	for _, s := range l {
		r = append(r, s)
	}
	return r
}

// checkDelivery logs with the given methods on logger i and compares with the model.
func (h *hier) checkDelivery(i int, ms []method) {
	l := h.log[i]
	lvl, set, outs := h.want(i)
	if set && l.Level() != lvl {
		vs.Fail("Level() of %s = %v, want %v", h.name[i], l.Level(), lvl)
	}
	for _, q := range levels {
		en := q >= l.Level()
		if l.LevelEnabled(q) != en || enabledQuery(l, q) != en {
			vs.Fail("%s: Level()=%v but LevelEnabled(%v)=%v and its query says %v", h.name[i], l.Level(), q, l.LevelEnabled(q), enabledQuery(l, q))
		}
	}
	for k, m := range ms {
		lv := m.level
		if lv == 0 {
			lv = levels[(k+i)%len(levels)]
		}
		en := lv >= l.Level()
		w := writerOf(l, k+h.turn)
		spyLog = nil
		if m.f {
			call(w, m, lv, "m%d", k)
		} else {
			call(w, m, lv, "", fmt.Sprintf("m%d", k))
		}
		var want []string
		if en {
			for _, o := range outs {
				want = append(want, fmt.Sprintf("%s:%s:%v:m%d", o.name, h.name[i], levelNames[lv], k))
			}
		}
		var have []string
		for _, g := range spyLog {
			have = append(have, fmt.Sprintf("%s:%s:%v:%s", g.out, g.name, levelNames[g.level], g.msg))
		}
		if strings.Join(want, " ") != strings.Join(have, " ") {
			vs.Fail("%s.%s(level %v): delivered [%s], want [%s]", h.name[i], m.name, levelNames[lv], strings.Join(have, " "), strings.Join(want, " "))
		}
	}
}

func (h *hier) checkAll(ms []method) {
	for i := range h.log {
		if h.log[i] != nil {
			h.checkDelivery(i, ms)
		}
	}
	h.turn++
}

// msAt returns one method per level, rotating through the plain, formatted and Printf forms.
func msAt(rot int) []method {
	var r []method
	for i, lv := range levels {
		switch (i + rot) % 3 {
		case 0:
			r = append(r, methods[2*i])
		case 1:
			r = append(r, methods[2*i+1])
		case 2:
			r = append(r, method{"Printf", lv, true})
		}
	}
	return r
}

func quietSpies(names ...string) []*spy {
	var r []*spy
	for _, n := range names {
		r = append(r, &spy{name: n, quiet: true})
	}
	return r
}

var allLevels = []api.Level{api.Uninitialized, api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}

// carrier01 is a value whose method of the given name runs the code.
func carrier01(method string, c *appCode) interface{} {
	switch method {
	case "String":
		return appString{c}
	case "Error":
		return appError{c}
	case "Format":
		return appFormat{c}
	}
	return appGo{c}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C01", Name: "levels", Quick: 0,
		Desc: "every assignment of the 9 levels to root, a, a/b, a/b/c ('/' or '.'), outputs on root only or on root and a/b; all 13 methods on every logger",
		Body: func() {
			begin()
			h := newHier(pick("separator", "/", "."))
			order := vs.Choose(2, 0, "lookup order")
			for k := range h.name {
				i := k
				if order == 1 {
					i = 3 - k
				}
				h.log[i] = lookupLogger(h.name[i])
			}
			h.outs[0] = quietSpies("r1", "r2")
			if order == 1 {
				h.outs[2] = quietSpies("b1")
				h.log[2].SetOutputs(toOutputs(h.outs[2]))
			}
			h.log[0].SetOutputs(toOutputs(h.outs[0]))
			for i := range h.log {
				lv := allLevels[vs.Choose(9, 0, "level of "+h.name[i])]
				vs.Note("   SetLevel(%s, %v)", h.name[i], lv)
				h.lvl[i] = lv
				h.log[i].SetLevel(lv)
			}
			h.checkAll(methods)
			l, _, _ := h.want(3)
			obs("%v", l)
		}})
	drv.Add(drv.Scenario{Prop: "C01", Name: "outputs", Quick: 0,
		Desc: "every assignment of output lists (none, an empty one, one, two in both orders, a shared one) and of levels {unset, INFO, OFF} to the four loggers",
		Body: func() {
			begin()
			h := newHier(pick("separator", "/", "."))
			for i := range h.name {
				h.log[i] = lookupLogger(h.name[i])
			}
			sh := quietSpies("shared")
			for i := range h.log {
				a := quietSpies(h.name[i]+"1", h.name[i]+"2")
				lists := [][]*spy{nil, {a[0]}, {a[0], a[1]}, {a[1], sh[0]}, {sh[0]}, {}}
				h.outs[i] = lists[vs.Choose(6, 0, "outputs of "+h.name[i])]
				h.log[i].SetOutputs(toOutputs(h.outs[i]))
				h.lvl[i] = pick("level of "+h.name[i], api.Uninitialized, api.Info, api.Off)
				if h.lvl[i] != 0 || i == 0 {
					h.log[i].SetLevel(h.lvl[i])
				}
			}
			h.checkAll(msAt(len(h.outs[1])))
			obs("%d %d %d %d", len(h.outs[0]), len(h.outs[1]), len(h.outs[2]), len(h.outs[3]))
		}})
	hist := func(depth int) func() {
		return func() {
			begin()
			h := newHier("/")
			h.log[0] = lookupLogger("")
			h.outs[0] = quietSpies("r")
			h.log[0].SetOutputs(toOutputs(h.outs[0]))
			h.lvl[0] = api.All // of the default configuration
			if h.log[0].Level() != api.All {
				h.log[0].SetLevel(api.All)
			}
			mut := quietSpies("m1", "m2", "m3")
			for n := 0; n < depth; n++ {
				i := vs.Choose(4, 0, "logger")
				if h.log[i] == nil {
					h.log[i] = lookupLogger(h.name[i])
				}
				switch op := vs.Choose(7, 0, "operation"); op {
				case 0, 1, 2:
					h.lvl[i] = []api.Level{api.Uninitialized, api.Debug, api.Error}[op]
					h.log[i].SetLevel(h.lvl[i])
					vs.Note("   SetLevel(%s, %v)", h.name[i], h.lvl[i])
				case 3, 4, 5:
					h.outs[i] = [][]*spy{nil, {mut[n%3]}, {mut[(n+1)%3], mut[n%3]}}[op-3]
					h.log[i].SetOutputs(toOutputs(h.outs[i]))
					vs.Note("   SetOutputs(%s, %d outputs)", h.name[i], len(h.outs[i]))
				case 6:
					if log4g.GetLogger(h.name[i]) != h.log[i] {
						vs.Fail("GetLogger(%s) returned another logger", h.name[i])
					}
				}
				h.checkAll(msAt(n))
			}
			for i := range h.log {
				h.log[i] = lookupLogger(h.name[i])
			}
			h.checkAll(methods)
			obs("%v %v", h.lvl, len(h.outs[3]))
		}
	}
	drv.Add(drv.Scenario{Prop: "C01", Name: "history3", Quick: 0,
		Desc: "all histories of 3 operations (first lookup, SetLevel to 3 values, SetOutputs to 3 lists) on the four loggers, delivery checked after every step", Body: hist(3)})
	drv.Add(drv.Scenario{Prop: "C01", Name: "history4", Quick: -1, Thorough: 0,
		Desc: "the same with 4 operations", Body: hist(4)})
	drv.Add(drv.Scenario{Prop: "C01", Name: "default", Quick: 0,
		Desc: "without any configuration, or after a refused one: each pair of the 13 methods on 4 loggers, two of them with a level of their own in two values: the enabled ones on standard output, one line each",
		Body: func() {
			begin()
			if flip("a refused configuration") {
				if log4g.GetManager().SetConfig(conf(output("console", "c", "none"), logger("root", "off"))) == nil {
					vs.Fail("a configuration with an unknown format was accepted")
				}
			}
			names := []string{"root", "a", "a/b", "x.y"}
			own := map[string]api.Level{}
			for _, n := range []string{"a", "x.y"} {
				if l := pick("level of "+n, api.Uninitialized, api.Warn, api.Off); l != api.Uninitialized {
					log4g.GetLogger(n).SetLevel(l)
					own[n] = l
				}
			}
			for i := 0; i < 2; i++ {
				n := names[vs.Choose(len(names), 0, "logger")]
				m := methods[vs.Choose(len(methods), 0, "method")]
				eff, lvl := own[n], m.level
				if m.name == "Printf" {
					lvl = api.Debug
				}
				if n == "a/b" {
					eff = own["a"]
				}
				before := len(console())
				call(log4g.GetLogger(n), m, lvl, "<%s>", "msg"+string(rune(65+i)))
				got, want := console()[before:], lvl >= eff
				if !want && got != "" || want && (strings.Count(got, "msg"+string(rune(65+i))) != 1 || !strings.HasSuffix(got, "\n") || strings.Count(got, "\n") != 1 || !strings.Contains(got, n) || !strings.Contains(got, levelNames[lvl])) {
					vs.Fail("unconfigured, %s on %q (level %v): standard output got %q", m.name, n, eff, got)
				}
				obs("%v", want)
			}
		}})
	drv.Add(drv.Scenario{Prop: "C01", Name: "disabled", Quick: 0,
		Desc: "each of the 13 methods with each level, through the logger and writers with fields and context, on a logger of 4 kinds of output, own or inherited, of every level: a disabled call runs no String, Error, Format or GoString of its arguments and fields, and no Value of its context",
		Body: func() {
			begin()
			kind := pick("output", "memory", "console", "size_rolling_file", "async console")
			o := output(strings.TrimPrefix(kind, "async "), "o", "f")
			if o["type"] == "size_rolling_file" {
				o["file"] = fsRoot + "/f"
			}
			if strings.HasPrefix(kind, "async") {
				o["async"] = "true"
			}
			must(log4g.GetManager().SetConfig(conf(format("f", "%{msg} %{k} %{level} %{shortfile}\n"), o, logger("root", "all", "o"))))
			l := log4g.GetLogger("root")
			if flip("inherited") {
				l = log4g.GetLogger("a/b")
			}
			level := append([]api.Level{api.Off}, levels...)[vs.Choose(len(levels)+1, 0, "level")]
			l.SetLevel(level)
			ran := ""
			code := func(what string) *appCode { return &appCode{run: func() { ran += " " + what }} }
			arg := pick("argument", "String", "Error", "Format", "GoString")
			a := carrier01(arg, code(arg))
			w := api.Writer(l)
			switch pick("writer", "logger", "fields", "context") {
			case "fields":
				w = l.WithFields(api.Field{Key: "k", Value: carrier01(arg, code("field"))})
			case "context":
				w = l.WithCtx(appCtx{context.Background(), code("Value")})
			}
			ran = ""
			m := methods[vs.Choose(len(methods), 0, "method")]
			for _, lv := range levels {
				if m.level != 0 && m.level != lv {
					continue
				}
				ran = ""
				call(w, m, lv, "%v %#v", a, a)
				if lv < level && ran != "" {
					vs.Fail("%s at %v on a logger with level %v ran code of the application:%s", m.name, lv, level, ran)
				}
				obs("%v", lv < level)
			}
		}})
	drv.Add(drv.Scenario{Prop: "C01", Name: "many-outputs", Quick: 0,
		Desc: "loggers with 1..20, 32, 33, 64, 65, 100 and 257 outputs, one of them twice, set by calls or by configuration, own and inherited: each record goes to each in list order",
		Body: func() {
			begin()
			useSpies(true)
			n := vs.Choose(26, 0, "outputs") + 1
			if n > 20 {
				n = []int{32, 33, 64, 65, 100, 257}[n-21]
			}
			var want []string
			c := conf(format("f", "%{msg}"))
			var os []api.Output
			for i := 0; i < n; i++ {
				s := fmt.Sprintf("o%d", i)
				want = append(want, s)
				c.Outputs = append(c.Outputs, output("spy", s, "f"))
				os = append(os, quietSpies(s)[0])
			}
			if flip("one twice") {
				want = append(want, want[n/2])
				os = append(os, os[n/2])
			}
			at := pick("logger", "root", "a")
			if flip("configured") {
				c.Loggers = append(c.Loggers, logger(at, "info", want...))
				must(log4g.GetManager().SetConfig(c))
			} else {
				must(log4g.GetManager().SetConfig(conf()))
				log4g.GetLogger(at).SetLevel(api.Info)
				log4g.GetLogger(at).SetOutputs(os)
			}
			for i, name := range []string{at, "a/b"} {
				spyLog = nil
				log4g.GetLogger(name).Warnf("%d", i)
				log4g.GetLogger(name).Debugf("%d", i)
				var have []string
				for _, g := range spyLog {
					have = append(have, g.out)
				}
				if strings.Join(have, " ") != strings.Join(want, " ") {
					vs.Fail("%d outputs of %s: a record of %s went to %v", n, at, name, have)
				}
			}
			obs("%d", n)
		}})
	drv.Add(drv.Scenario{Prop: "C01", Name: "configured", Quick: 0,
		Desc: "levels (every name, several casings) and outputs from a configuration instead of calls, then overridden by calls",
		Body: func() {
			begin()
			useSpies(true)
			lv := []string{"", "all", "Trace", "DEBUG", "info", "wArn", "error", "Critical", "off", "nonsense"}
			lvv := []api.Level{0, api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off, 0}
			h := newHier("/")
			c := conf(format("f", "%{msg}"), output("spy", "o0", "f"), output("spy", "o1", "f"), output("spy", "o2", "f"), output("spy", "o3", "f"))
			var on [4][]int
			for i := range h.name {
				n := len(lv)
				if i == 1 {
					n = 4
				}
				k := vs.Choose(n, 0, "level of "+h.name[i])
				h.lvl[i] = lvv[k]
				if i == 0 && h.lvl[0] == 0 {
					h.lvl[0], k = api.Info, 4
				}
				cl := logger(h.name[i], lv[k])
				if i == 0 || vs.Choose(2, 0, "own outputs") == 1 {
					on[i] = []int{i, (i + 1) % 4}
					cl.OutputNames = []string{fmt.Sprintf("o%d", i), fmt.Sprintf("o%d", (i+1)%4)}
				}
				c.Loggers = append(c.Loggers, cl)
				if i == 2 {
					break
				}
			}
			must(log4g.GetManager().SetConfig(c))
			for i := range h.name {
				h.log[i] = lookupLogger(h.name[i])
			}
			byName := map[string]*spy{}
			for _, s := range spies {
				byName[s.name] = s
			}
			for i := range on {
				for _, k := range on[i] {
					s := byName[fmt.Sprintf("o%d", k)]
					if s == nil {
						vs.Fail("output o%d was not created", k)
					}
					h.outs[i] = append(h.outs[i], s)
				}
			}
			h.checkAll(methods)
			h.log[2].SetLevel(api.Warn)
			h.lvl[2] = api.Warn
			h.checkAll(msAt(1))
			obs("%v", h.lvl)
		}})
}
