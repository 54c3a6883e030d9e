//go:build go1.23

package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	app "github.com/xtfly/log4g/verifx/app.v2"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// piece is a part of a layout: text, or a verb with its spec.
type piece struct {
	text string
	verb string
	spec string
}

func nameChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// pieces parses a layout as documented: %{name} or %{name:spec}, everything
// else is text. ok is false for what the documentation does not settle: an
// empty spec or one with a brace, a backslash or a line break.
func pieces(s string) (l []piece, ok bool) {
	text := ""
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "%{") {
			j := i + 2
			for j < len(s) && nameChar(s[j]) {
				j++
			}
			verb := s[i+2 : j]
			if verb != "" && j < len(s) && s[j] == '}' {
				l = append(l, piece{text: text}, piece{verb: verb})
				text, i = "", j+1
				continue
			}
			if verb != "" && j < len(s) && s[j] == ':' {
				k := strings.IndexByte(s[j:], '}')
				if k >= 0 {
					spec := s[j+1 : j+k]
					if spec == "" || strings.ContainsAny(spec, "{\\\n") {
						return nil, false
					}
					l = append(l, piece{text: text}, piece{verb: verb, spec: spec})
					text, i = "", j+k+1
					continue
				}
			}
		}
		text += s[i : i+1]
		i++
	}
	l = append(l, piece{text: text})
	return l, true
}

var shortLevels = map[api.Level]string{api.Trace: "TAC", api.Debug: "DBG", api.Info: "INF", api.Warn: "WRN", api.Error: "ERR", api.Critical: "CRI", api.All: "ALL", api.Off: "OFF"}

// event is what one logging call states.
type event struct {
	name string
	lvl  api.Level
	msg  string
	time time.Time
	loc  app.Loc
	ctx  context.Context
}

func (e event) value(verb string) interface{} {
	switch verb {
	case "pid":
		return os.Getpid()
	case "program":
		return filepath.Base(os.Args[0])
	case "module":
		return e.name
	case "msg":
		return e.msg
	case "level":
		return levelNames[e.lvl]
	case "lvl":
		return shortLevels[e.lvl]
	case "line":
		return e.loc.Line
	case "longfile":
		return e.loc.File
	case "shortfile":
		return e.loc.File[strings.LastIndex(e.loc.File, "/")+1:]
	case "longpkg":
		return e.loc.Pkg
	case "shortpkg":
		return e.loc.Pkg[strings.LastIndex(e.loc.Pkg, "/")+1:]
	case "longfunc":
		return e.loc.Func
	case "shortfunc":
		return e.loc.ShortFunc()
	}
	return e.ctx.Value(verb)
}

func (e event) render(l []piece) string {
	s := ""
	for _, p := range l {
		switch {
		case p.verb == "":
			s += p.text
		case p.verb == "time" && p.spec == "":
			s += e.time.Format("2006-01-02T15:04:05.000Z07:00")
		case p.verb == "time":
			s += e.time.Format(p.spec)
		case p.spec == "":
			s += fmt.Sprint(e.value(p.verb))
		default:
			s += fmt.Sprintf("%"+p.spec, e.value(p.verb))
		}
	}
	return s
}

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

// tokens of layouts; the first few are the most telling ones
var tokens = []string{
	"%{msg}", "%{k1}", "%{line}", "%{time}", "%{msg:q}", "%{pid:07d}", "%", "%d", "%{", "}", " a", "\n",
	"%{longfunc}", "%{k2:+v}", "%{time:15:04:05.000000}", "%{msg:-12.3s}", "%%", ":", "%{msg",
	"%{pid}", "%{program}", "%{module}", "%{level}", "%{lvl}", "%{longfile}", "%{shortfile}", "%{longpkg}", "%{shortpkg}", "%{shortfunc}",
	"%{level:.1s}", "%{lvl:5s}", "%{line:04d}", "%{module:x}", "%{time:Mon Jan _2 2006}", "%{k1:5v}", "%{k3}", "%{k3:x}", "%{k4}", "%{k5:v}",
	"%{shortfile:-20s}", "%{program:T}", "%{msg:s!}", "%{longpkg:q}", "%{shortfunc:12s}", "%{Msg}", "%{msgs}", "%{id}", "%{times:v}", "%{1}", "%{level:d}",
	"%{}", "%{ msg}", "{msg}", "%{a-b}", "%s", "é漢", "\\", "$1", "\x00", "\t\"'", "%!", "%[1]s", "%{module:3.3s}", "%{time:time}",
}

// fields of the calls, with values that contain directives and separators
func c16calls() []event {
	var l []event
	add := func(name string, lvl api.Level, msg string, kv ...interface{}) {
		c := context.Background()
		for i := 0; i+1 < len(kv); i += 2 {
			c = context.WithValue(c, kv[i].(string), kv[i+1])
		}
		l = append(l, event{name: name, lvl: lvl, msg: msg, ctx: c})
	}
	add("a/b", api.Info, "hello", "k1", "v1", "k2", 7, "k3", "x", "k4", errors.New("e%d"), "k5", nil, "Msg", "M", "msgs", 1.5, "id", 9, "times", "t", "1", "one", "msg", "F", "time", "F", "pid", -1)
	add("root", api.Critical, "100%{msg} %d %s\n%!", "k1", "%{k2} %v", "k2", stringer{"%s"}, "k3", []byte("ab"), "k4", struct{ A, b int }{1, 2}, "k5", map[string]int{"z": 1, "a": 2})
	add("a/b", api.Trace, "")
	add("a/b", api.Warn, "é\x00\xff\"", "k1", "", "k2", true, "k3", -5, "k4", time.Second, "level", "x")
	add("root", api.Error, strings.Repeat("long ", 30), "k1", &[]int{1}, "k2", stringer{""}, "k3", "%", "k4", 'x', "k5", []string{"a", "b"})
	return l
}

// weekday has a text and a number, like time.Duration
type weekday int

func (w weekday) String() string { return "day " + strconv.Itoa(int(w)) }

type failing struct{ error }

// formatting decides itself how each directive is rendered
type formatting struct{}

func (formatting) Format(s fmt.State, c rune) {
	w, ok := s.Width()
	fmt.Fprintf(s, "{%c %d %v %v}", c, w, ok, s.Flag('+'))
}

type goStringer struct{ n int }

func (g goStringer) GoString() string { return "go!" }

var values = []interface{}{
	"text", "", "%d %s", "%{msg}", []byte("bytes"), []byte(nil), 0, 42, -7, int64(1) << 40, uint8(200), 3.25, float32(-0.5), complex(1, 2), true, 'r', byte('b'),
	1500 * time.Millisecond, weekday(3), errors.New("bad %s"), failing{errors.New("in")}, stringer{"s"}, &stringer{"p"}, (*stringer)(nil), error(nil), nil, formatting{}, goStringer{1},
	[]string{"a", "b"}, []interface{}{1, "x", nil}, map[string]int{"b": 2, "a": 1}, struct {
		A int
		b string
	}{1, "z"}, time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), [2]bool{true}, json.Number("17"),
}

var specs = []string{"", "v", "+v", "#v", "s", "q", "d", "05d", "-8d", "x", "X", "#x", "b", "o", "e", ".2f", "g", "t", "c", "U", "T", "10s", "-10s", ".1s", "5.1f", "% d", "!"}

func methodOf(l api.Level) string {
	n := levelNames[l]
	return n[:1] + strings.ToLower(n[1:])
}

func layoutBody(n int, tok []string, all bool) func() {
	return func() {
		begin()
		layout := ""
		for i := 0; i < n; i++ {
			layout += pick("token "+strconv.Itoa(i), tok...)
		}
		checkLayout(layout, all)
	}
}

// checkLayout compares the records of all calls with the documented rendering.
func checkLayout(layout string, all bool) {
	l, ok := pieces(layout)
	if !ok || len(l) < 2 {
		return
	}
	ctxByFields := vs.Choose(2, 0, "WithFields or WithCtx") == 0
	other := "%{msg:q} %{longfunc}|%{k1:v}"
	l2, _ := pieces(other)
	// two outputs of the event, with different layouts, in both orders
	o := []string{"o1", "o2"}
	if !ctxByFields {
		o = []string{"o2", "o1"}
	}
	must(getManager().SetConfig(conf(format("f1", layout), format("f2", other), output("memory", "o1", "f1"), output("memory", "o2", "f2"),
		logger("root", "all", o...))))
	logs := map[string]api.Logger{"root": log4g.GetLogger("root"), "a/b": log4g.GetLogger("a/b")}
	outs := outputsOf("root")
	want := map[string]string{}
	evs := c16calls()
	for i, e := range evs {
		vs.Advance(1234567891)
		e.time = vs.Now()
		var w api.Writer = logs[e.name]
		if ctxByFields && e.ctx != context.Background() {
			var fs []api.Field
			for _, k := range []string{"k1", "k2", "k3", "k4", "k5", "Msg", "msgs", "id", "times", "1", "msg", "time", "pid", "level"} {
				if v := e.ctx.Value(k); v != nil {
					fs = append(fs, api.Field{Key: k, Value: v})
				}
			}
			w = w.(api.Logger).WithFields(fs...)
		} else if i != 2 {
			w = w.(api.Logger).WithCtx(e.ctx)
		}
		switch i % 3 {
		case 0:
			app.Call(w, "Printf", e.lvl, "%s", e.msg)
		case 1:
			app.Call(w, methodOf(e.lvl)+"f", 0, e.msg)
		case 2:
			app.Call(w, methodOf(e.lvl), 0, "", e.msg)
		}
		e.loc = app.Last
		want["o1"] += e.render(l)
		want["o2"] += e.render(l2)
		for k, n := range o {
			if s := fmt.Sprint(outs[k]); s != want[n] {
				vs.Fail("layout %q after call %d (%+v): have %q, want %q", map[string]string{"o1": layout, "o2": other}[n], i, e, s, want[n])
			}
		}
	}
	obs("%q", layout)
}

func init() {
	drv.Add(drv.Scenario{Prop: "C16", Name: "layouts2", Quick: 0,
		Desc: "every layout of 1 or 2 of 64 tokens (all verbs, with and without format spec, context fields of many types, incomplete verbs, directives, special characters); 5 events with different methods, loggers, levels and fields through two outputs with different layouts",
		Body: func() {
			begin()
			layout := pick("token 1", tokens...)
			layout += pick("token 2", append([]string{""}, tokens...)...)
			checkLayout(layout, true)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "layouts3", Quick: 0,
		Desc: "every layout of 3 of 64 tokens", Body: layoutBody(3, tokens, false)})
	drv.Add(drv.Scenario{Prop: "C16", Name: "layouts4", Quick: -1, Thorough: 0,
		Desc: "every layout of 4 of 19 tokens", Body: layoutBody(4, tokens[:19], false)})
	drv.Add(drv.Scenario{Prop: "C16", Name: "long-layouts", Quick: 0,
		Desc: "layouts of 5, 16, 17, 33, 64, 65, 129 and 300 pieces, which take turns between two of 24 tokens, and text of up to 70000 characters before, between and behind verbs",
		Body: func() {
			begin()
			var layout string
			if flip("text") {
				t := strings.Repeat("0123456789 %d", pick("length", 20, 80, 320, 5400))
				layout = strings.ReplaceAll(pick("place", "\x01%{msg}", "%{msg}\x01", "%{lvl}\x01%{msg}", "%{k1}\x01%{msg:q}\x01%{level}"), "\x01", t)
			} else {
				a, b := pick("token 1", tokens[:24]...), pick("token 2", tokens[:24]...)
				for i, n := 0, pick("pieces", 5, 16, 17, 33, 64, 65, 129, 300); i < n; i++ {
					layout += []string{a, b}[i%2]
				}
			}
			checkLayout(layout, false)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "characters", Quick: 0,
		Desc: "every character (all 256 bytes, 8 more of several bytes) once or twice at 24 places of a layout: before, between, within and after verbs and specs; every pair of characters (a quarter of the bytes) around and between verbs",
		Body: func() {
			begin()
			var layout string
			if flip("pairs") {
				pair := []string{" ", "\t", "\n", "\r", "%", "{", "}", ":", "a", "0", "-", "\\", "'", "\"", "\x00", "\x7f", "\xff", "é", ".", "$", "&", "<", "(", "*", "[", "|", "+", "?", "^", "/", "_", "!"}
				c, d := pick("first", pair...), pick("second", pair...)
				layout = strings.NewReplacer("C", c, "D", d).Replace(pick("place", "C%{msg}D", "%{msg}CD", "CD%{msg}", "%{msg}C%{lvl}D", "CD%{msg}DC%{lvl}CD", "%{msg:s}C%{k1:q}D", "D%{level}C%{msg}"))
			} else {
				n := vs.Choose(264, 0, "character")
				c := []string{"é", "漢", "😀", "\u2028", "\u00a0", "\ufeff", "\ufffd", "\u200b"}[n%8]
				if n < 256 {
					c = string([]byte{byte(n)})
				}
				layout = strings.ReplaceAll(pick("place", "\x01%{msg}", "%{msg}\x01", "\x01%{msg}\x01", "%{msg}\x01%{level}", "\x01\x01%{msg}", "%{msg}\x01\x01", "%{msg}\x01\x01%{lvl}", "a\x01%{msg}\x01a", "%{msg}a\x01",
					"%{msg} \x01 ", "%\x01{msg}%{msg}", "%{\x01msg}%{msg}", "%{msg\x01}%{msg}", "%{m\x01sg}%{msg}", "%{msg}%{\x01}", "%{msg}%{\x01\x01}", "%{msg:\x01}", "%{msg:5\x01}", "%{msg:\x01s}", "%{time:\x01 15}%{msg}", "%{k1:-\x01v}", "%{msg}}\x01", "%{msg}%\x01", "%{msg}%{k1\x01"), "\x01", c)
			}
			checkLayout(layout, false)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "levels", Quick: 0,
		Desc: "every level, All and Off included, with the level verbs in 7 layouts, on synchronous and asynchronous outputs, through Printf",
		Body: func() {
			begin()
			layout := pick("layout", "%{level} %{lvl}", "%{lvl} %{level}", "[%{level:-9s}]", "%{lvl:q}", "%{lvl:5s}%{level:.2s}", "%{level:d}", "%{msg}%{lvl}")
			async := pick("async", "false", "true")
			l, _ := pieces(layout)
			must(getManager().SetConfig(conf(format("f1", layout), output("console", "o1", "f1", "async", async, "batch_num", "1"), logger("root", "all", "o1"))))
			lg := log4g.GetLogger("x")
			all := []api.Level{api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}
			want := ""
			for i := 0; i < 2; i++ {
				e := event{name: "x", lvl: all[vs.Choose(len(all), 0, "level")], msg: "m", time: vs.Now(), ctx: context.Background()}
				lg.Printf(e.lvl, "m")
				want += e.render(l)
			}
			vs.WaitIdle()
			if console() != want {
				vs.Fail("layout %q: have %q, want %q", layout, console(), want)
			}
			obs("%s%q", layout, want)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "messages", Quick: 0,
		Desc: "messages of up to 3 of 14 fragments (verbs, directives, separators, line breaks, invalid UTF-8) through 6 layouts, on synchronous and asynchronous outputs",
		Body: func() {
			begin()
			frag := []string{"", "a", " ", "%", "%s", "%{msg}", "%{", "}", "\n", "\r\n", "\x00", "\xff\xfe", "漢", "\\n"}
			layout := pick("layout", "%{msg}", "[%{msg}]\n", "%{msg}%{msg}", "%{msg:q}", "%{level} %{msg:s} %{k1}", "%{k1}%{msg:5s}")
			async := pick("async", "false", "true")
			l, _ := pieces(layout)
			must(getManager().SetConfig(conf(format("f1", layout), output("console", "o1", "f1", "async", async, "batch_num", "1"), logger("root", "all", "o1"))))
			lg := log4g.GetLogger("x")
			m := pick("fragment 1", frag...) + pick("fragment 2", frag...) + pick("fragment 3", frag...)
			e := event{name: "x", lvl: api.Info, msg: m, time: vs.Now(), ctx: ctxWith("k1", m)}
			w := lg.WithFields(api.Field{Key: "k1", Value: m})
			want := ""
			for i := 0; i < 3; i++ {
				switch i {
				case 0:
					w.Info(m)
				case 1:
					w.Infof(m)
				case 2:
					w.Infof("%s", m)
				}
				want += e.render(l)
			}
			vs.WaitIdle()
			if console() != want {
				vs.Fail("layout %q, message %q: have %q, want %q", layout, m, console(), want)
			}
			obs("%s%q", layout, m)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "values", Quick: 0,
		Desc: "every pair of 35 field values (numbers, durations, errors, Stringers, Formatters, slices, maps, pointers, nil) with each of 27 format specs, given as fields or context; records with the first, the second and the first value",
		Body: func() {
			begin()
			spec := pick("spec", specs...)
			a, b := vs.Choose(len(values), 0, "first value"), vs.Choose(len(values), 0, "second value")
			layout := "%{k1}|%{k1:" + spec + "}|%{msg:" + spec + "}|%{line:" + spec + "}\n"
			if spec == "" {
				layout = "%{k1} %{k2}%{k1}|%{msg}"
			}
			l, _ := pieces(layout)
			must(getManager().SetConfig(conf(format("f1", layout), output("memory", "o1", "f1"), logger("root", "all", "o1"))))
			lg := log4g.GetLogger("x")
			want := ""
			for i, k := range []int{a, b, a} {
				e := event{name: "x", lvl: api.Warn, msg: "m" + strconv.Itoa(i), time: vs.Now(), ctx: context.WithValue(context.Background(), "k1", values[k])}
				var w api.Writer
				if i == 1 {
					w = lg.WithCtx(e.ctx)
				} else {
					w = lg.WithFields(api.Field{Key: "k1", Value: values[k]})
				}
				app.Call(w, "Printf", e.lvl, "%s", e.msg)
				e.loc = app.Last
				want += e.render(l)
			}
			if s := fmt.Sprint(outputsOf("root")[0]); s != want {
				vs.Fail("layout %q, values %#v, %#v: have %q, want %q", layout, values[a], values[b], s, want)
			}
			obs("%s %d %d", spec, a, b)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "times", Quick: 0,
		Desc: "4 records with every sequence of 8 time steps from 0 to a day between them, 17 time layouts, 3 time zones",
		Body: func() {
			begin()
			z := pick("zone (minutes)", 0, 330, -480)
			old := time.Local
			defer func() { time.Local = old }()
			if z != 0 {
				time.Local = time.FixedZone("", z*60)
			}
			layout := pick("layout", "%{time}", "%{time:15:04:05.000}", "%{time:15:04:05.000000}", "%{time:05.000000000}", "%{time:2006-01-02}", "%{time:15:04:05}", "%{time:15:04}",
				"%{time:Jan _2 2006 MST}", "%{time:Mon}", "%{time:Z07:00}", "%{time:3PM .999}", "%{time:2006} %{time:15} %{time:.000}", "%{time} %{time:05.000}", "%{time:text}", "%{time:05.000} %{time}", "%{time:002}", "%{time:%s}") + "\n%{msg}"
			l, _ := pieces(layout)
			must(getManager().SetConfig(conf(format("f1", layout), output("memory", "o1", "f1"), logger("root", "all", "o1"))))
			lg := log4g.GetLogger("x")
			want := ""
			for i := 0; i < 4; i++ {
				if i > 0 {
					vs.Advance(pick("step", 0, time.Microsecond, time.Millisecond, 501*time.Millisecond, time.Second, time.Minute, time.Hour, 24*time.Hour))
				}
				e := event{name: "x", lvl: api.Info, msg: strconv.Itoa(i), time: vs.Now().In(time.Local)}
				lg.Info(e.msg)
				want += e.render(l)
			}
			if s := fmt.Sprint(outputsOf("root")[0]); s != want {
				vs.Fail("layout %q, zone %d: have %q, want %q", layout, z, s, want)
			}
			obs("%s", want)
		}})
	drv.Add(drv.Scenario{Prop: "C16", Name: "concurrent", Race: true, Quick: 2, Thorough: 3,
		Desc: "two goroutines log through two outputs that share one format with caller, time and field verbs; all schedules with up to 2 (3) preemptions",
		Body: func() {
			begin()
			layout := "%{time} %{msg} %{level} %{shortfunc} %{k1}\n"
			l, _ := pieces(layout)
			must(getManager().SetConfig(conf(format("f1", layout), output("memory", "o1", "f1"), output("memory", "o2", "f1"), logger("root", "all", "o1", "o2"))))
			lg := log4g.GetLogger("x")
			var want [][]string
			for t := 0; t < 2; t++ {
				v := "v" + strconv.Itoa(t)
				var mine []string
				for i := 0; i < 2; i++ {
					e := event{name: "x", lvl: api.Info, msg: "m" + v + strconv.Itoa(i), time: vs.Now(), ctx: ctxWith("k1", v), loc: app.Loc{Func: "Quiet.Val"}}
					mine = append(mine, e.render(l))
				}
				want = append(want, mine)
			}
			for t := 0; t < 2; t++ {
				v := "v" + strconv.Itoa(t)
				w := lg.WithFields(api.Field{Key: "k1", Value: v})
				vs.Spawn(v, func() {
					app.Quiet{W: w}.Val("m" + v + "0")
					app.Quiet{W: w}.Val("m" + v + "1")
				})
			}
			vs.JoinAll()
			for _, o := range outputsOf("root") {
				interleaved(fmt.Sprint(o), want, nil)
			}
			obs("%s", outputsOf("root")[0])
		}})
}
