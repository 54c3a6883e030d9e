//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
	app "github.com/xtfly/log4g/verifx/app.v2"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// layouts with caller verbs (none, of the file kind only, of the function kind only, both)
var callerLayouts = []string{
	"%{msg}\n",
	"%{longfile}|%{shortfile}|%{line} %{msg}\n",
	"%{longpkg}|%{shortpkg}|%{longfunc}|%{shortfunc} %{msg}\n",
	"%{shortfunc} %{longfile}:%{line:04d} %{longpkg:q} %{msg}\n",
}

func callerLine(layout string, l app.Loc, msg string) string {
	p, _ := pieces(layout)
	return event{msg: msg, loc: l}.render(p)
}

// c18 is a logger at some depth below the one with outputs, which have caller layouts.
type c18 struct {
	depth   int
	layouts []string
	kinds   []string
	l       api.Logger
	w       api.Writer
	want    []string
	what    string
}

func start18(kinds []string, lays []string, depth int, recv string) *c18 {
	names := []string{"root", "a", "a/b", "a/b/c"}
	c := &c18{depth: depth, layouts: lays, kinds: kinds}
	cf := conf()
	var outs []string
	for i, k := range kinds {
		n := strconv.Itoa(i)
		cf.Formats = append(cf.Formats, format("f"+n, lays[i]))
		kv := []string{"async", "false"}
		typ := k
		if strings.HasPrefix(k, "async ") {
			kv = []string{"async", "true", "batch_num", "1"}
			typ = k[6:]
		}
		if typ == "size" {
			typ = "size_rolling_file"
			kv = append(kv, "file", fsRoot+"/l"+n+"/f", "size", "1M")
		}
		cf.Outputs = append(cf.Outputs, output(typ, "o"+n, "f"+n, kv...))
		outs = append(outs, "o"+n)
	}
	own := 3 - depth
	cf.Loggers = append(cf.Loggers, logger(names[own], "all", outs...))
	must(getManager().SetConfig(cf))
	c.l = log4g.GetLogger(names[3])
	c.w = c.l
	switch recv {
	case "WithFields":
		c.w = c.l.WithFields(api.Field{Key: "k", Value: "v"})
	case "WithCtx":
		c.w = c.l.WithCtx(ctxWith("k", "v"))
	}
	c.want = make([]string, len(kinds))
	c.what = fmt.Sprintf("%s, outputs %d levels up, %v %q", recv, depth, kinds, lays)
	return c
}

func (c *c18) expect(l app.Loc, msg string) {
	for i, lay := range c.layouts {
		c.want[i] += callerLine(lay, l, msg)
	}
}

func (c *c18) check(what string) {
	vs.WaitIdle()
	own := []string{"a/b/c", "a/b", "a", "root"}[c.depth]
	for i, k := range c.kinds {
		have := ""
		switch {
		case strings.HasSuffix(k, "memory"):
			have = fmt.Sprint(outputsOf(own)[i])
		case strings.HasSuffix(k, "console"):
			have = console()
		case strings.HasSuffix(k, "size"):
			have = tree()["l"+strconv.Itoa(i)+"/f"]
		case k == "syslog":
			for _, r := range sysRecords() {
				have += r.Msg
			}
		}
		if have != c.want[i] {
			vs.Fail("%s: %s: output %d: have %q, want %q", what, c.what, i, have, c.want[i])
		}
	}
}

func init() {
	recvs := []string{"logger", "WithFields", "WithCtx"}
	drv.Add(drv.Scenario{Prop: "C18", Name: "methods", Quick: 0,
		Desc: "13 methods on the logger, WithFields and WithCtx writers at inheritance depth 0..3, with one of 6 kinds of output (memory, console, size rolling, syslog; synchronous and asynchronous) and 4 layouts",
		Body: func() {
			begin()
			k := pick("output", "memory", "console", "async console", "size", "async size", "syslog")
			c := start18([]string{k}, []string{pick("layout", callerLayouts...)}, vs.Choose(4, 0, "depth"), pick("receiver", recvs...))
			a, b := methods[vs.Choose(len(methods), 0, "method")], methods[vs.Choose(len(methods), 0, "second method")]
			app.Call(c.w, a.name, api.Warn, "x", "m1")
			c.expect(app.Last, message(a, "x", []interface{}{"m1"}))
			app.Call(c.w, b.name, api.Error, "y")
			c.expect(app.Last, message(b, "y", nil))
			c.check(a.name + ", " + b.name)
			obs("%s %s %s", a.name, b.name, c.what)
		}})
	drv.Add(drv.Scenario{Prop: "C18", Name: "combinations", Quick: 0,
		Desc: "every combination of 3 outputs with layouts with and without caller verbs and synchronous or asynchronous, depth 0..3, all receivers, every method",
		Body: func() {
			begin()
			kinds := []string{pick("first", "memory", "async size"), pick("second", "console", "async console"), pick("third", "size", "syslog")}
			lays := []string{pick("first layout", callerLayouts...), pick("second layout", callerLayouts...), pick("third layout", callerLayouts...)}
			c := start18(kinds, lays, vs.Choose(4, 0, "depth"), pick("receiver", recvs...))
			for _, m := range methods {
				app.Call(c.w, m.name, api.Warn, "x", "m1")
				c.expect(app.Last, message(m, "x", []interface{}{"m1"}))
			}
			c.check("all methods")
			obs("%s", c.what)
		}})
	drv.Add(drv.Scenario{Prop: "C18", Name: "statements", Quick: 0,
		Desc: "15 kinds of application code (functions, inlined functions, methods, closures, generics, deferred and recovering functions, method values, embedded loggers), depth 0..3, all receivers, 4 layouts, 3 kinds of output",
		Body: func() {
			begin()
			k := pick("output", "memory", "async size", "syslog")
			c := start18([]string{k}, []string{pick("layout", callerLayouts...)}, vs.Choose(4, 0, "depth"), pick("receiver", recvs...))
			i := vs.Choose(len(app.Sites), 0, "site")
			for n := 0; n < 2; n++ {
				app.Sites[i].Do(c.w, "m")
				c.expect(app.Last, "m")
			}
			app.Call(c.w, "Info", 0, "", "m")
			c.expect(app.Last, "m")
			c.check(app.Sites[i].Name)
			obs("%s %s", app.Sites[i].Name, c.what)
		}})
	drv.Add(drv.Scenario{Prop: "C18", Name: "skip", Quick: 0,
		Desc: "SetCallerSkip(n) on the logger called, n=0..4, then another n: 13 methods through n helper functions, all receivers (made before and after), depth 0..3; ancestors have other skips",
		Body: func() {
			begin()
			n, n2 := vs.Choose(5, 0, "skip"), vs.Choose(5, 0, "second skip")
			depth := vs.Choose(4, 0, "depth")
			other := flip("ancestors have skips of their own")
			c := start18([]string{"memory", "async size"}, []string{pick("layout", callerLayouts[1:]...), callerLayouts[3]}, depth, pick("receiver", recvs...))
			for _, k := range []int{n, n2} {
				if other {
					for i, a := range []string{"root", "a", "a/b"} {
						log4g.GetLogger(a).SetCallerSkip(1 + i + k)
					}
				}
				c.l.SetCallerSkip(k)
				for _, m := range methods {
					if k == 0 {
						app.Call(c.w, m.name, api.Warn, "x")
						c.expect(app.Last, message(m, "x", nil))
						continue
					}
					app.Wrapped(k, c.w, m.name, api.Warn, "x")
					c.expect(app.Last, "x")
				}
			}
			c.check(fmt.Sprintf("skip %d, then %d", n, n2))
			obs("%d %d %s", n, n2, c.what)
		}})
	drv.Add(drv.Scenario{Prop: "C18", Name: "replaced-outputs", Quick: 0,
		Desc: "outputs with other layouts are set later, by configuration or by SetOutputs, on the logger or an ancestor; records before and after",
		Body: func() {
			begin()
			depth := vs.Choose(4, 0, "depth")
			c := start18([]string{"memory"}, []string{pick("layout", callerLayouts...)}, depth, pick("receiver", recvs...))
			m := methods[vs.Choose(len(methods), 0, "method")]
			app.Call(c.w, m.name, api.Warn, "x")
			c.expect(app.Last, message(m, "x", nil))
			c.check("before")
			lay := pick("second layout", callerLayouts...)
			names := []string{"a/b/c", "a/b", "a", "root"}
			if flip("by SetOutputs") {
				f, err := internal.NewTextFormatter(format("x", lay))
				must(err)
				s := newSpy("s")
				s.quiet = true
				s.SetFormatter(f)
				d := vs.Choose(depth+1, 0, "new outputs on")
				log4g.GetLogger(names[d]).SetOutputs([]api.Output{s})
				for i := 0; i < 2; i++ {
					app.Call(c.w, m.name, api.Warn, "x")
					if w := callerLine(lay, app.Last, message(m, "x", nil)); s.evs[i].text != w {
						vs.Fail("after SetOutputs on %s: %s: have %q, want %q", names[d], c.what, s.evs[i].text, w)
					}
				}
			} else {
				d := vs.Choose(4, 0, "new depth")
				c = start18([]string{"async size", "memory"}, []string{lay, callerLayouts[vs.Choose(4, 0, "third layout")]}, d, pick("receiver", recvs...))
				app.Call(c.w, m.name, api.Warn, "x")
				c.expect(app.Last, message(m, "x", nil))
				c.check("after the second configuration")
			}
			obs("%s %s", m.name, c.what)
		}})
}
