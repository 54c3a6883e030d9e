//go:build go1.23

package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// Application code that a logging call runs, once per execution.

type appCode struct {
	run  func()
	done bool
}

func (a *appCode) once() {
	if a != nil && !a.done {
		a.done = true
		a.run()
	}
}

type appString struct{ *appCode }
type appError struct{ *appCode }
type appFormat struct{ *appCode }
type appGo struct{ *appCode }

func (a appString) String() string                { a.once(); return "outer" }
func (a appError) Error() string                  { a.once(); return "outer" }
func (a appFormat) Format(s fmt.State, verb rune) { a.once(); fmt.Fprint(s, "outer") }
func (a appGo) GoString() string                  { a.once(); return "outer" }

type appCtx struct {
	context.Context
	*appCode
}

func (c appCtx) Value(k interface{}) interface{} {
	if k == "k" {
		c.once()
		return "v"
	}
	return nil
}

// appOutput is an output of the application; it runs the code in Send.
type appOutput struct {
	spy
	code *appCode
}

func (o *appOutput) Send(e *api.Event) {
	if o.code != nil && e.Message() == "outer" {
		o.code.once()
	}
	o.spy.Send(e)
}

// appFormatter runs the code in Format.
type appFormatter struct{ code *appCode }

func (f *appFormatter) Format(e *api.Event) []byte {
	if e.Message() == "outer" {
		f.code.once()
	}
	k := e.Ctx.Value("k")
	return []byte(fmt.Sprintf("%s %v\n", e.Message(), k))
}
func (f *appFormatter) CallerInfoFlag() int { return 0 }

var c22carriers = []string{"String", "Error", "Format", "GoString", "field", "context", "output", "formatter"}

// c22outer makes the logging call that runs the code through the carrier.
func c22outer(l api.Logger, carrier string, a *appCode) {
	w := l.WithFields(api.Field{Key: "k", Value: "v"})
	switch carrier {
	case "String":
		w.Info(appString{a})
	case "Error":
		w.Infof("%v", appError{a})
	case "Format":
		w.Infof("%d", appFormat{a})
	case "GoString":
		w.Infof("%#v", appGo{a})
	case "field":
		l.WithFields(api.Field{Key: "k", Value: &fieldValue{a}}).Info("outer")
	case "context":
		l.WithCtx(appCtx{context.Background(), a}).Info("outer")
	default:
		w.Info("outer")
	}
}

type fieldValue struct{ *appCode }

func (v *fieldValue) String() string { v.once(); return "v" }

var c22kinds = []string{"memory", "console", "size", "time", "syslog", "async console", "async size", "async time"}

// c22config has the output under test, one of the application, and a memory output.
func c22config(kind string, carrier string, a *appCode, batch string) *api.Config {
	m := log4g.GetManager()
	m.RegisterOutputCreator("app", func(c api.CfgOutput) (api.Output, error) {
		o := &appOutput{spy: spy{name: c.Name(), quiet: true}}
		if carrier == "output" {
			o.code = a
		}
		return o, nil
	})
	m.RegisterFormatterCreator("app", func(api.CfgFormat) (api.Formatter, error) { return &appFormatter{a}, nil })
	var kv []string
	k := strings.TrimPrefix(kind, "async ")
	if k != kind {
		kv = []string{"async", "true", "queue_size", "2", "batch_num", batch}
	}
	typ := k
	switch k {
	case "size":
		typ = "size_rolling_file"
		kv = append(kv, "file", fsRoot+"/log/f.log", "size", "1", "backups", "20")
	case "time":
		typ = "time_rolling_file"
		kv = append(kv, "file", fsRoot+"/log/f.log", "pattern", "20060102150405", "backups", "20")
	case "syslog":
		kv = append(kv, "prefix", "p")
	}
	f := format("f", "%{msg} %{k}\n")
	if carrier == "formatter" {
		f["type"] = "app"
	}
	return conf(f, format("g", "%{msg} %{k}\n"), output(typ, "o", "f", kv...), output("app", "a", "g"), output("memory", "m", "g"),
		logger("root", "all", "o", "a", "m"))
}

func c22streams(kind string) map[string]string {
	r := map[string]string{"memory output": fmt.Sprint(outputsOf("root")[2])}
	if o, ok := outputsOf("root")[1].(*appOutput); ok {
		for _, g := range o.evs {
			r["output of the application"] += g.text
		}
	}
	switch k := strings.TrimPrefix(kind, "async "); k {
	case "syslog":
		for _, s := range sysRecords() {
			r[kind] += s.Msg
		}
	default:
		r[kind] = stream(k)
	}
	return r
}

type appPanic struct{}

// caught runs f and tells whether it ended in the panic of the application.
func caught(f func()) (r bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case appPanic:
			r = true
		default:
			panic(x)
		}
	}()
	f()
	return
}

func init() {
	nk := func(m string) string { return m + " n\n" }
	nw := func(l api.Logger) api.Writer { return l.WithFields(api.Field{Key: "k", Value: "n"}) }
	type act struct {
		name string
		do   func(l api.Logger)
		recs []string
	}
	acts := []act{
		{"log", func(l api.Logger) { nw(l).Info("nested") }, []string{nk("nested")}},
		{"log more than a batch", func(l api.Logger) {
			for i := 0; i < 5; i++ {
				nw(l).Warnf("nested %d", i)
			}
		}, []string{nk("nested 0"), nk("nested 1"), nk("nested 2"), nk("nested 3"), nk("nested 4")}},
		{"log through another", func(l api.Logger) { nw(log4g.GetLogger("other/one")).Info("nested") }, []string{nk("nested")}},
		{"log deeper", func(l api.Logger) {
			nw(l).Info(appString{&appCode{run: func() { nw(l).Info("deepest") }}})
		}, []string{nk("deepest"), nk("outer")}},
		{"query", func(l api.Logger) {
			if !l.InfoEnabled() || l.Level() != api.All {
				vs.Fail("level %v inside a logging call", l.Level())
			}
			log4g.GetLogger("a").LevelEnabled(api.Warn)
		}, nil},
		{"levels", func(l api.Logger) { l.SetLevel(api.Error); nw(l).Info("no"); l.SetLevel(api.All); nw(l).Info("yes") }, []string{nk("yes")}},
		{"outputs", func(l api.Logger) { l.SetOutputs(outputsOf("root")); nw(l).Info("nested") }, []string{nk("nested")}},
		{"refused load", func(l api.Logger) {
			if log4g.GetManager().LoadConfig([]byte("formats: ["), "yaml") == nil {
				vs.Fail("malformed text accepted")
			}
		}, nil},
		{"skip", func(l api.Logger) { l.SetCallerSkip(0); nw(l).Error("nested") }, []string{nk("nested")}},
		{"register", func(l api.Logger) {
			log4g.GetManager().RegisterOutputCreator("other", func(api.CfgOutput) (api.Output, error) { return nil, nil })
			log4g.GetManager().RegisterFormatterCreator("other", nil)
		}, nil},
	}
	drv.Add(drv.Scenario{Prop: "C22", Name: "nested", Quick: 0,
		Desc: "a logging call runs application code in 8 places (String, Error, Format and GoString methods of arguments, a field value, a context's Value, the Send of an output, a formatter), which does one of 10 things (log, also more than a queue and a batch hold, through another logger, or deeper; query and set levels; set outputs; load; register); 8 kinds of output, two batch sizes",
		Body: func() {
			begin()
			kind, carrier := pick("output", c22kinds...), pick("in", c22carriers...)
			batch := "3"
			if strings.HasPrefix(kind, "async") {
				batch = pick("batch", "1", "3")
			}
			a := &appCode{}
			must(log4g.GetManager().SetConfig(c22config(kind, carrier, a, batch)))
			l := log4g.GetLogger(pick("logger", "root", "a/b"))
			x := acts[vs.Choose(len(acts), 0, "nested action")]
			a.run = func() { x.do(l) }
			c22outer(l, carrier, a)
			nw(l).Info("after")
			if !a.done {
				vs.Fail("the code of the application was not run")
			}
			log4g.GetManager().Close()
			want := strings.Join(x.recs, "") + "outer v\n" + nk("after")
			for n, h := range c22streams(kind) {
				w := want
				if carrier == "output" && n == kind {
					// earlier in the list: the outer record is already written
					w = "outer v\n" + strings.Join(x.recs, "") + nk("after")
				}
				if h != w {
					vs.Fail("%s inside %s, %s: %s has %q, want %q", x.name, carrier, kind, n, h, w)
				}
			}
			obs("%s %s", kind, carrier)
		}})
	drv.Add(drv.Scenario{Prop: "C22", Name: "deep", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "application code run by a logging call logs with code that logs again, 2..70 deep and 1 or 2 records at each level up to 6: all carriers alone and in turn, 6 kinds of output",
		Body: func() {
			begin()
			kind := pick("output", "memory", "console", "time", "syslog", "async console", "async time")
			must(log4g.GetManager().SetConfig(c22config(kind, "", &appCode{}, "3")))
			l := log4g.GetLogger(pick("logger", "root", "a/b"))
			depth := pick("depth", 2, 4, 5, 9, 17, 33, 70)
			c := vs.Choose(7, 0, "in")
			width := 1
			if depth < 6 {
				width = 1 + vs.Choose(2, 0, "records at each level")
			}
			n := 0
			var nest func(d int)
			nest = func(d int) {
				for i := 0; i < width; i++ {
					a := &appCode{run: func() {}}
					if d < depth {
						a.run = func() { nest(d + 1) }
					}
					carrier := c22carriers[d%6]
					if c < 6 {
						carrier = c22carriers[c]
					}
					c22outer(l, carrier, a)
					n++
				}
			}
			nest(0)
			nw(l).Info("after")
			log4g.GetManager().Close()
			want := strings.Repeat("outer v\n", n) + nk("after")
			for s, h := range c22streams(kind) {
				if h != want {
					vs.Fail("%d records, %d deep, %s: %s has %d bytes, want %d: %q", n, depth, kind, s, len(h), len(want), h)
				}
			}
			obs("%s %d %d", kind, c, n)
		}})
	drv.Add(drv.Scenario{Prop: "C22", Name: "panics", Quick: 0,
		Desc: "application code in the same 8 places panics in the first, second or third of 4 calls, once or 70 times, on the logger or a descendant: what comes after is written, lookups, loads and Close return",
		Body: func() {
			begin()
			kind, carrier := pick("output", c22kinds...), pick("in", c22carriers...)
			a := &appCode{run: func() { panic(appPanic{}) }}
			load := func(batch string) {
				c := c22config(kind, carrier, a, batch)
				if c.Outputs[0]["size"] != "" {
					c.Outputs[0]["size"] = "500" // 20 backups hold all
				}
				must(log4g.GetManager().SetConfig(c))
			}
			load(pick("batch", "1", "3"))
			l := log4g.GetLogger(pick("logger", "root", "a/b"))
			at := vs.Choose(3, 0, "panicking call")
			times := pick("times", 1, 70)
			a.done = true
			var want []string
			for i := 0; i < 4; i++ {
				if i != at {
					nw(l).Infof("call %d", i)
					want = append(want, nk(fmt.Sprintf("call %d", i)))
					continue
				}
				for k := 0; k < times; k++ {
					a.done = false
					caught(func() { c22outer(l, carrier, a) })
					if !a.done {
						vs.Fail("the code of the application was not run")
					}
				}
			}
			log4g.GetLogger("new/one").Info("new")
			l.SetLevel(api.All)
			load("3")
			log4g.GetManager().Close()
			vs.Advance(10 * time.Second)
			for n, h := range c22streams(kind) {
				for _, w := range want {
					if strings.Count(h, w) != 1 {
						vs.Fail("panic in %s in call %d, %s: %s has %q %d times: %q", carrier, at, kind, n, w, strings.Count(h, w), h)
					}
					if !strings.Contains("\n"+h, "\n"+w) {
						vs.Fail("panic in %s in call %d, %s: in %s something comes before %q on its line: %q", carrier, at, kind, n, w, h)
					}
				}
			}
			obs("%s %s %d", kind, carrier, at)
		}})
	other := []struct {
		name string
		do   func(l api.Logger)
		recs []string
	}{
		{"log", func(l api.Logger) { nw(l).Info("b0"); nw(l).Info("b1") }, []string{nk("b0"), nk("b1")}},
		{"log nested", func(l api.Logger) {
			nw(l).Info(appString{&appCode{run: func() { nw(l).Info("b0") }}}, " b")
		}, []string{nk("b0"), nk("outer b")}},
		{"get", func(l api.Logger) { log4g.GetLogger("a/b/new").SetLevel(api.Warn) }, nil},
		{"set level", func(l api.Logger) { log4g.GetLogger("root").SetLevel(api.Debug) }, nil},
		{"set outputs", func(l api.Logger) { l.SetOutputs(outputsOf("root")) }, nil},
		{"load", nil, nil},
		{"close", nil, nil},
	}
	threads := func(kinds, carriers []string, sel []int) func() {
		return func() {
			begin()
			kind, carrier := pick("output", kinds...), pick("in", carriers...)
			a := &appCode{}
			c := c22config(kind, carrier, a, "1")
			must(log4g.GetManager().SetConfig(c))
			l := log4g.GetLogger("a")
			x := acts[sel[vs.Choose(len(sel), 0, "nested action")]]
			y := other[vs.Choose(len(other), 0, "other goroutine")]
			a.run = func() { vs.Point("application"); x.do(l) }
			vs.WaitIdle()
			vs.Spawn("outer", func() { c22outer(l, carrier, a) })
			vs.Spawn(y.name, func() {
				switch y.name {
				case "load":
					must(log4g.GetManager().SetConfig(c))
				case "close":
					log4g.GetManager().Close()
				default:
					y.do(l)
				}
			})
			vs.JoinAll()
			log4g.GetManager().Close()
			mine := append(append([]string{}, x.recs...), "outer v\n")
			for n, h := range c22streams(kind) {
				m := mine
				if carrier == "output" && n == kind {
					m = append([]string{"outer v\n"}, x.recs...)
				}
				opt := map[string]bool{}
				if y.name == "close" && strings.HasPrefix(kind, "async") {
					for _, r := range m {
						opt[r] = true
					}
				}
				interleaved(h, [][]string{m, y.recs}, opt)
			}
			obs("%s %s %s", kind, carrier, y.name)
		}
	}
	drv.Add(drv.Scenario{Prop: "C22", Name: "threads", Quick: 2, Thorough: 3,
		Desc: "a logging call that logs from within (String, field value, Send, formatter) while another goroutine logs, logs from within, looks up, sets level or outputs, loads or closes; memory, size-rolling, asynchronous console",
		Body: threads([]string{"memory", "size", "async console"}, []string{"String", "field", "output", "formatter"}, []int{0})})
	drv.Add(drv.Scenario{Prop: "C22", Name: "threads-more", Quick: -1, Thorough: 1,
		Desc: "all carriers and actions, 6 kinds of output",
		Body: threads([]string{"memory", "console", "time", "syslog", "async size", "async console"}, c22carriers, []int{0, 1, 2, 3, 6, 7})})
}
