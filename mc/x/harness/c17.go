//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
	"github.com/xtfly/log4g/verifx/vsyslog"
)

// message is what the documentation says a call's message is.
func message(m method, format string, args []interface{}) string {
	if !m.f {
		return fmt.Sprint(args...)
	}
	if len(args) == 0 {
		return format
	}
	return fmt.Sprintf(format, args...)
}

type point struct{ X, Y int }

func argLists() [][]interface{} {
	n := 5
	return [][]interface{}{
		{}, {"s"}, {""}, {"100%"}, {"%d"}, {"%s", "x"}, {1, 2}, {1, "a", 2}, {"a", 1, 2, "b"}, {nil}, {nil, nil}, {errors.New("e%v")},
		{stringer{"%s"}}, {point{1, 2}, &point{3, 4}}, {[]string{"a", "b"}}, {[]interface{}{1, "x"}}, {[]byte("hi")}, {map[string]int{"b": 2, "a": 1}},
		{true, 1.5, 'x', int64(-7), uint8(3)}, {"multi\nline", "é"}, {fmt.Sprint(n)}, {error(nil)}, {(*point)(nil)}, {complex(1, 2)}, {"a", nil, "b"},
	}
}

var formats17 = []string{"%s", "%v", "%d", "%%", "100%", "x", "%s-%s", "%[2]v %[1]v", "%+v|%#v", "%q\n", "%5.1f", "%T", "%x", "%!", "é %v", "%v %v %v %v", "%*d", "\x00%v", "%{msg}", "a%", "%z"}

// writer is one way to obtain a writer, with what its records must show for k1 and k2.
type writer struct {
	what   string
	make   func(l api.Logger) api.Writer
	k1, k2 interface{}
}

func writers() []writer {
	ctx := context.WithValue(context.WithValue(context.Background(), "k1", "c1"), "k2", 2.5)
	nested := context.WithValue(ctx, "k1", "inner")
	fs := []api.Field{{Key: "k2", Value: "s2"}, {Key: "k1", Value: "s1"}}
	return []writer{
		{"logger", func(l api.Logger) api.Writer { return l }, nil, nil},
		{"one field", func(l api.Logger) api.Writer { return l.WithFields(api.Field{Key: "k1", Value: "f1"}) }, "f1", nil},
		{"fields", func(l api.Logger) api.Writer {
			return l.WithFields(api.Field{Key: "k2", Value: 7}, api.Field{Key: "k1", Value: "%s %{msg}"})
		}, "%s %{msg}", 7},
		{"equal keys", func(l api.Logger) api.Writer {
			return l.WithFields(api.Field{Key: "k1", Value: 1}, api.Field{Key: "k2", Value: 2}, api.Field{Key: "k1", Value: 3}, api.Field{Key: "k2", Value: 4}, api.Field{Key: "k1", Value: 5})
		}, 5, 4},
		{"field with odd names", func(l api.Logger) api.Writer {
			return l.WithFields(api.Field{Key: "", Value: "e"}, api.Field{Key: "K1", Value: "K"}, api.Field{Key: "__caller_info", Value: "x"}, api.Field{Key: "msg", Value: "m"}, api.Field{Key: "k2", Value: nil})
		}, nil, nil},
		{"shared slice", func(l api.Logger) api.Writer { return l.WithFields(fs...) }, "s1", "s2"},
		{"no fields", func(l api.Logger) api.Writer { return l.WithFields() }, nil, nil},
		{"context", func(l api.Logger) api.Writer { return l.WithCtx(ctx) }, "c1", 2.5},
		{"nested context", func(l api.Logger) api.Writer { return l.WithCtx(nested) }, "inner", 2.5},
		{"empty context", func(l api.Logger) api.Writer { return l.WithCtx(context.Background()) }, nil, nil},
	}
}

// c17 is a hierarchy root > a > a/b > a/b/c with real outputs on some loggers.
type c17 struct {
	logs []api.Logger
	want string
	sep  string
}

func start17(where int, async string) *c17 {
	names := []string{"root", "a", "a/b", "a/b/c"}
	lay := "\x01%{msg}\x02%{k1}\x03%{k2}\x04%{shortfile}\n"
	c := conf(format("f", lay), output("console", "o", "f", "async", async, "batch_num", "1"))
	for i, n := range names[:where+1] {
		if i == where {
			c.Loggers = append(c.Loggers, logger(n, "all", "o"))
		} else if i > 0 {
			c.Loggers = append(c.Loggers, logger(n, "all"))
		}
	}
	must(getManager().SetConfig(c))
	t := &c17{}
	for _, n := range names {
		t.logs = append(t.logs, log4g.GetLogger(n))
	}
	return t
}

func (t *c17) log(lw api.Writer, w writer, m method, lvl api.Level, format string, args []interface{}) {
	call(lw, m, lvl, format, args...)
	t.want += fmt.Sprintf("\x01%s\x02%v\x03%v\x04h.go\n", message(m, format, args), w.k1, w.k2)
}

func (t *c17) check(what string) {
	vs.WaitIdle()
	if console() != t.want {
		vs.Fail("%s: have %q, want %q", what, console(), t.want)
	}
}

// keeper is an output of the application that keeps every event.
type keeper struct {
	f    api.Formatter
	evs  []*api.Event
	text []string
}

func (k *keeper) Send(e *api.Event) {
	k.evs = append(k.evs, e)
	k.text = append(k.text, string(k.f.Format(e)))
}
func (k *keeper) SetFormatter(f api.Formatter) { k.f = f }
func (k *keeper) CallerInfoFlag() int          { return k.f.CallerInfoFlag() }
func (k *keeper) Close()                       {}

func init() {
	kept := func(n int) func() {
		return func() {
			n := n
			begin()
			var ks []*keeper
			log4g.GetManager().RegisterOutputCreator("keep", func(c api.CfgOutput) (api.Output, error) {
				k := &keeper{}
				ks = append(ks, k)
				return k, nil
			})
			must(getManager().SetConfig(conf(format("f", "%{msg}\x02%{k1}\x03%{k2}\x04%{level}\x05%{module}\x06%{shortfile}"), format("g", "%{msg}\x02%{k1}\x03%{k2}\x04%{level}\x05%{module}\x06"),
				output("keep", "o1", "f"), output("console", "c", "f"), output("keep", "o2", "g"), logger("root", "all", "o1", "c", "o2"), logger("a/b", "all", "o2", "o1"))))
			ls := []api.Logger{log4g.GetLogger("a"), log4g.GetLogger("a/b")}
			ws := writers()
			made := map[int]api.Writer{}
			var want []string
			stride := 0
			if n > 3 {
				stride = pick("stride", 1, 3, 7)
				n = pick("calls", 20, 70, 300, 1030)
			}
			for k := 0; k < n; k++ {
				i, d := k*stride%len(ws), k/3%2
				if stride == 0 {
					i, d = vs.Choose(len(ws), 0, "writer"), vs.Choose(2, 0, "logger")
				}
				m := methods[(k*5+i)%len(methods)]
				if m.name == "Printf" {
					m.level = levels[k%6]
				}
				if made[d*100+i] == nil {
					made[d*100+i] = ws[i].make(ls[d])
				}
				args := []interface{}{"m" + strconv.Itoa(k), k}
				call(made[d*100+i], m, m.level, "%v:%v", args...)
				want = append(want, fmt.Sprintf("%s\x02%v\x03%v\x04%s\x05%s\x06", message(m, "%v:%v", args), ws[i].k1, ws[i].k2, levelNames[m.level], []string{"a", "a/b"}[d]))
				vs.Advance(1500 * time.Millisecond)
				if k > 2 && k%97 != 0 && k != n-1 {
					continue
				}
				for _, o := range ks {
					for j := range want {
						w := want[j]
						if o.f.CallerInfoFlag() > 0 {
							w += "h.go"
						}
						if len(o.evs) != len(want) || o.text[j] != w {
							vs.Fail("call %d: the output got %q, want %q", j+1, o.text, want)
						}
						if again := string(o.f.Format(o.evs[j])); again != w || o.evs[j].Message() != strings.SplitN(w, "\x02", 2)[0] {
							vs.Fail("after call %d the kept event of call %d reads %q, before %q", k+1, j+1, again, w)
						}
					}
				}
			}
			if len(ks) != 2 {
				vs.Fail("%d outputs were created", len(ks))
			}
			obs("%s", want[0])
		}
	}
	drv.Add(drv.Scenario{Prop: "C17", Name: "kept-events", Quick: 0,
		Desc: "outputs of the application keep the events of 3 calls through 10 kinds of writer on 2 loggers and format them again after each call: the text is always that of the call",
		Body: kept(3)})
	drv.Add(drv.Scenario{Prop: "C17", Name: "kept-events-many", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "the same with 20, 70, 300 and 1030 calls through the writers in turn", Body: kept(1030)})
	drv.Add(drv.Scenario{Prop: "C17", Name: "messages", Quick: 0,
		Desc: "each of the 13 methods with 25 argument lists and, for the formatted ones, 21 formats, at own and inherited outputs, through 4 kinds of writer",
		Body: func() {
			begin()
			where := vs.Choose(2, 0, "outputs on a or a/b/c") * 2
			t := start17(1+where, pick("async", "false", "true"))
			m := methods[vs.Choose(len(methods), 0, "method")]
			w := writers()[pick("writer", 0, 2, 5, 8)]
			lw := w.make(t.logs[3])
			format := ""
			if m.f {
				format = pick("format", formats17...)
			}
			for _, a := range argLists() {
				t.log(lw, w, m, api.Info, format, a)
			}
			t.check(fmt.Sprintf("%s %q through %s", m.name, format, w.what))
			obs("%s%q%d%s", m.name, format, where, w.what)
		}})
	hist := func(n int) func() {
		return func() {
			begin()
			where := vs.Choose(3, 0, "outputs on")
			t := start17(where, "false")
			ws := writers()
			made := map[int]api.Writer{}
			var what []string
			for k := 0; k < n; k++ {
				i := vs.Choose(len(ws), 0, "writer")
				d := where + vs.Choose(2, 0, "logger")
				m := methods[(k*5+i)%len(methods)]
				key := d*100 + i
				if made[key] == nil {
					made[key] = ws[i].make(t.logs[d]) // used again later
				}
				args := []interface{}{"m" + strconv.Itoa(k), k}
				t.log(made[key], ws[i], m, levels[k%6], "%v:%v", args)
				what = append(what, ws[i].what)
			}
			t.check(strings.Join(what, ", "))
			obs("%d %s", where, strings.Join(what, ","))
		}
	}
	drv.Add(drv.Scenario{Prop: "C17", Name: "histories", Quick: 0,
		Desc: "every history of 3 calls through 10 kinds of writer (used again or new) on 2 of the loggers, outputs on the logger itself or on an ancestor", Body: hist(3)})
	drv.Add(drv.Scenario{Prop: "C17", Name: "histories4", Quick: -1, Thorough: 0,
		Desc: "the same with 4 calls", Body: hist(4)})
	drv.Add(drv.Scenario{Prop: "C17", Name: "later-changes", Quick: 0,
		Desc: "the caller changes its field slice after WithFields or the arguments after the call, on synchronous and asynchronous outputs",
		Body: func() {
			begin()
			t := start17(vs.Choose(3, 0, "outputs on"), pick("async", "false", "true"))
			m := methods[vs.Choose(len(methods), 0, "method")]
			fs := []api.Field{{Key: "k1", Value: "before"}, {Key: "k2", Value: 1}}
			w := t.logs[3].WithFields(fs...)
			fs[0] = api.Field{Key: "k1", Value: "after"}
			fs[1].Key = "k1"
			p := &point{1, 2}
			sl := []int{1, 2}
			rest := []interface{}{p, sl, "x", "rest"}
			args := rest[:3] // with room behind
			t.log(w, writer{k1: "before", k2: 1}, m, api.Warn, "%v %v %s", args)
			p.X, sl[0], args[2] = 9, 9, "changed"
			t.log(w, writer{k1: "before", k2: 1}, m, api.Warn, "%v %v %s", args)
			args[0] = nil
			t.check(m.name)
			if rest[3] != "rest" || len(fs) != 2 || fs[0].Value != "after" || fs[1].Key != "k1" {
				vs.Fail("%s changed the slices it was given: %v %v", m.name, rest, fs)
			}
			obs("%s", m.name)
		}})
	drv.Add(drv.Scenario{Prop: "C17", Name: "big", Quick: 0,
		Desc: "messages and fields of 17 lengths around 1K, 4K, 8K, 16K, 32K, 64K and 1M, with and without line breaks, twice, through 5 kinds of output, synchronous and asynchronous",
		Body: func() {
			begin()
			kind := pick("output", "memory", "console", "size_rolling_file", "time_rolling_file", "syslog")
			o := output(kind, "o", "f")
			switch kind {
			case "size_rolling_file":
				o["file"], o["size"] = fsRoot+"/l/f", "1G"
			case "time_rolling_file":
				o["file"], o["pattern"] = fsRoot+"/l/f", "2006-01-02"
			}
			if kind != "memory" && kind != "syslog" && flip("async") {
				o["async"] = "true"
			}
			must(getManager().SetConfig(conf(format("f", "%{msg}|%{k1}\n"), o, logger("root", "all", "o"))))
			l := log4g.GetLogger("a")
			n := pick("length", 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 8193, 16384, 16385, 32768, 32769, 65535, 65536, 65537, 1048577)
			fill := pick("text", "0123456789abcdef$", "line\n", "100% %s\\ ")
			text := strings.Repeat(fill, n/len(fill)+1)[:n]
			want := ""
			for i := 0; i < 2; i++ {
				switch pick("as", "message", "argument", "field") {
				case "message":
					l.Infof(text)
					want += text + "|<nil>\n"
				case "argument":
					l.Warnf("%s!%d", text, i)
					want += fmt.Sprintf("%s!%d|<nil>\n", text, i)
				case "field":
					l.WithFields(api.Field{Key: "k1", Value: text}).Info(i)
					want += fmt.Sprintf("%d|%s\n", i, text)
				}
			}
			getManager().Close()
			got := ""
			switch kind {
			case "memory":
				got = fmt.Sprint(outputsOf("root")[0])
			case "console":
				got = console()
			case "syslog":
				for _, m := range vsyslog.Records {
					got += m.Msg
				}
			default:
				got = tree()["l/f"]
			}
			if got != want {
				at := 0
				for at < len(got) && at < len(want) && got[at] == want[at] {
					at++
				}
				vs.Fail("%s: two records with a text of %d bytes: got %d bytes, want %d, different from byte %d on: got ...%.40q, want ...%.40q", kind, n, len(got), len(want), at, got[at:], want[at:])
			}
			obs("%s %d", kind, n)
		}})
	drv.Add(drv.Scenario{Prop: "C17", Name: "many", Quick: 0,
		Desc: "calls with 1..20, 33, 65, 100 and 257 arguments or fields, plain and formatted, the fields all different or with equal keys, on synchronous and asynchronous outputs, two calls through one writer",
		Body: func() {
			begin()
			n := vs.Choose(24, 0, "number") + 1
			if n > 20 {
				n = []int{33, 65, 100, 257}[n-21]
			}
			layout := "%{msg}"
			var fs []api.Field
			var args []interface{}
			verbs := ""
			vals := map[string]interface{}{}
			keys := pick("keys", 1000, 3)
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", i%keys)
				fs = append(fs, api.Field{Key: k, Value: i})
				if _, is := vals[k]; !is {
					layout += ",%{" + k + "}"
				}
				vals[k] = i
				args = append(args, []interface{}{i, "s", 1.5, nil}[i%4])
				verbs += "%v "
			}
			must(getManager().SetConfig(conf(format("f", layout+"\n"), output("console", "o", "f", "async", pick("async", "false", "true")), logger("root", "all", "o"))))
			l := log4g.GetLogger("a")
			want := ""
			line := func(msg string, in bool) {
				want += msg
				for i := 0; i < n && i < keys; i++ {
					k := fmt.Sprintf("k%d", i)
					if in {
						want += fmt.Sprintf(",%v", vals[k])
					} else {
						want += ",<nil>"
					}
				}
				want += "\n"
			}
			w := l.WithFields(fs...)
			w.Info(args...)
			line(fmt.Sprint(args...), true)
			w.Errorf(verbs, args...)
			line(fmt.Sprintf(verbs, args...), true)
			l.Debugf(verbs, args...)
			line(fmt.Sprintf(verbs, args...), false)
			getManager().Close()
			if got := console(); got != want {
				vs.Fail("%d arguments and fields: %q, want %q", n, got, want)
			}
			obs("%d", n)
		}})
	drv.Add(drv.Scenario{Prop: "C17", Name: "concurrent", Race: true, Quick: 2, Thorough: 3,
		Desc: "three goroutines log through one logger, each with fields or a context of its own; every record shows its own fields; all schedules with up to 2 (3) preemptions",
		Body: func() {
			begin()
			must(getManager().SetConfig(conf(format("f", "%{msg} %{k1} %{shortfile}\n"), output("memory", "o", "f"), logger("a", "all", "o"))))
			l := log4g.GetLogger("a/b")
			ws := []api.Writer{l.WithFields(api.Field{Key: "k1", Value: "one"}), l.WithCtx(ctxWith("k1", "two")), l.WithFields(api.Field{Key: "k1", Value: "three"})}
			var want [][]string
			for t, v := range []string{"one", "two", "three"} {
				s, w := "m"+v, ws[t]
				want = append(want, []string{s + " " + v + " c17.go\n"})
				vs.Spawn(v, func() { w.Info(s) })
			}
			vs.JoinAll()
			o := fmt.Sprint(outputsOf("a")[0])
			interleaved(o, want, nil)
			obs("%s", o)
		}})
}
