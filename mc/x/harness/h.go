//go:build go1.23

// Command harness holds the scenarios: closed programs over the public API of
// log4g whose executions the driver enumerates, and the oracles that judge them.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
	"github.com/xtfly/log4g/verifx/vsignal"
	"github.com/xtfly/log4g/verifx/vsyslog"
)

func main() { drv.Main() }

var fsRoot string

// begin puts the program into the state of a freshly started process with an
// empty scratch directory as its working directory.
func begin() {
	if fsRoot == "" {
		fsRoot = filepath.Join(drv.Scratch(), "fs")
		os.MkdirAll(fsRoot, 0777)
		os.Chdir(fsRoot)
		os.Setenv("TMPDIR", fsRoot)
	}
	l, _ := os.ReadDir(fsRoot)
	for _, e := range l {
		os.RemoveAll(filepath.Join(fsRoot, e.Name()))
	}
	vos.C = vos.Ctl{Root: fsRoot, Unpriv: true}
	vs.MapReverse = false
	resetSpies()
	early = map[api.Logger][2]api.Writer{}
	boot()
}

// early holds a writer with fields and one with a context of every logger,
// made when lookupLogger first returned it.
var early map[api.Logger][2]api.Writer

// lookupLogger looks the logger up and, the first time, makes its early writers.
func lookupLogger(name string) api.Logger {
	l := log4g.GetLogger(name)
	if _, ok := early[l]; !ok {
		early[l] = [2]api.Writer{l.WithFields(api.Field{Key: "early", Value: name}), l.WithCtx(ctxWith("early", name))}
	}
	return l
}

// writerOf is the logger itself, or a writer with fields or context, new or made at the first lookup.
func writerOf(l api.Logger, k int) api.Writer {
	switch e, ok := early[l]; k % 5 {
	case 1:
		return l.WithFields(api.Field{Key: "k", Value: "v"})
	case 2:
		return l.WithCtx(ctxWith("k", "v"))
	case 3, 4:
		if ok {
			return e[k%5-3]
		}
	}
	return l
}

// boot initialises all packages, as a process start does.
func boot() {
	vs.ResetAll()
	vs.WaitIdle()
}

// restart ends the process without any clean-up and starts it again.
func restart() {
	vs.KillOthers()
	vos.Reboot()
	boot()
}

func must(err error) {
	if err != nil {
		vs.Fail("unexpected error: %v", err)
	}
}

func pick[T any](what string, l ...T) T {
	i := vs.Choose(len(l), 0, what)
	vs.Note("   %s = %v", what, l[i])
	return l[i]
}

func flip(what string) bool {
	b := vs.Choose(2, 0, what) == 1
	return b
}

func obs(format string, a ...interface{}) { vs.Observe(fmt.Sprintf(format, a...)) }

var levels = []api.Level{api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical}
var levelNames = map[api.Level]string{api.Uninitialized: "", api.All: "ALL", api.Trace: "TRACE", api.Debug: "DEBUG",
	api.Info: "INFO", api.Warn: "WARN", api.Error: "ERROR", api.Critical: "CRITICAL", api.Off: "OFF"}

// ---- configurations

func format(name, layout string) api.CfgFormat {
	return api.CfgFormat{"type": "text", "name": name, "layout": layout}
}

func output(typ, name, fmtName string, kv ...string) api.CfgOutput {
	o := api.CfgOutput{"type": typ, "name": name, "format": fmtName}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "-" {
			o[kv[i]] = kv[i+1]
		}
	}
	return o
}

func logger(name, level string, outs ...string) api.CfgLogger {
	return api.CfgLogger{Name: name, Level: level, OutputNames: outs}
}

func conf(parts ...interface{}) *api.Config {
	c := &api.Config{}
	for _, p := range parts {
		switch p := p.(type) {
		case api.CfgFormat:
			c.Formats = append(c.Formats, p)
		case api.CfgOutput:
			c.Outputs = append(c.Outputs, p)
		case api.CfgLogger:
			c.Loggers = append(c.Loggers, p)
		}
	}
	return c
}

// one is the configuration of one output with plain messages on the root logger.
func one(o api.CfgOutput) *api.Config {
	return conf(format("f", "%{msg}\n"), o, logger("root", "all", o.Name()))
}

func outputsOf(name string) []api.Output {
	o, _, err := log4g.GetManager().GetLoggerOutputs(name)
	must(err)
	return o
}

// ---- calls of the 13 logging methods

type method struct {
	name  string
	level api.Level // of the method; Printf takes its own
	f     bool      // takes a format
}

var methods = []method{
	{"Trace", api.Trace, false}, {"Tracef", api.Trace, true},
	{"Debug", api.Debug, false}, {"Debugf", api.Debug, true},
	{"Info", api.Info, false}, {"Infof", api.Info, true},
	{"Warn", api.Warn, false}, {"Warnf", api.Warn, true},
	{"Error", api.Error, false}, {"Errorf", api.Error, true},
	{"Critical", api.Critical, false}, {"Criticalf", api.Critical, true},
	{"Printf", 0, true},
}

// call invokes a logging method; for the plain methods format is not used.
func call(w api.Writer, m method, lvl api.Level, format string, args ...interface{}) {
	switch m.name {
	case "Trace":
		w.Trace(args...)
	case "Tracef":
		w.Tracef(format, args...)
	case "Debug":
		w.Debug(args...)
	case "Debugf":
		w.Debugf(format, args...)
	case "Info":
		w.Info(args...)
	case "Infof":
		w.Infof(format, args...)
	case "Warn":
		w.Warn(args...)
	case "Warnf":
		w.Warnf(format, args...)
	case "Error":
		w.Error(args...)
	case "Errorf":
		w.Errorf(format, args...)
	case "Critical":
		w.Critical(args...)
	case "Criticalf":
		w.Criticalf(format, args...)
	case "Printf":
		w.Printf(lvl, format, args...)
	}
}

func enabledQuery(l api.Logger, lvl api.Level) bool {
	switch lvl {
	case api.Trace:
		return l.TraceEnabled()
	case api.Debug:
		return l.DebugEnabled()
	case api.Info:
		return l.InfoEnabled()
	case api.Warn:
		return l.WarnEnabled()
	case api.Error:
		return l.ErrorEnabled()
	}
	return l.CriticalEnabled()
}

// ---- spy outputs

type got struct {
	out   string
	name  string
	level api.Level
	msg   string
	text  string
	ctx   context.Context
}

var spyLog []got // all events of the execution, in order

type spy struct {
	name   string
	quiet  bool // no scheduling points
	f      api.Formatter
	set    int
	closed int
	evs    []got
}

func newSpy(name string) *spy { return &spy{name: name} }

func (s *spy) Send(e *api.Event) {
	if !s.quiet {
		vs.Point("spy " + s.name)
	}
	g := got{out: s.name, name: e.Name, level: e.Level, msg: e.Message(), ctx: e.Ctx}
	if s.f != nil {
		g.text = string(s.f.Format(e))
	}
	s.evs = append(s.evs, g)
	spyLog = append(spyLog, g)
}
func (s *spy) SetFormatter(f api.Formatter) { s.f = f; s.set++ }
func (s *spy) CallerInfoFlag() int {
	if s.f != nil {
		return s.f.CallerInfoFlag()
	}
	return 0
}
func (s *spy) Close() { s.closed++ }

// spies made by the registered creator, in order of creation
var spies []*spy

func spyCreator(quiet bool) func(api.CfgOutput) (api.Output, error) {
	return func(c api.CfgOutput) (api.Output, error) {
		s := newSpy(c.Name())
		s.quiet = quiet
		spies = append(spies, s)
		return s, nil
	}
}

// useSpies registers output type "spy" and clears the records of spies.
func useSpies(quiet bool) {
	spies, spyLog = nil, nil
	log4g.GetManager().RegisterOutputCreator("spy", spyCreator(quiet))
}

func resetSpies() { spies, spyLog = nil, nil }

// ---- files

// tree returns the files below the scratch directory: path -> content.
// Directories appear with a trailing slash.
func tree(skip ...string) map[string]string {
	m := map[string]string{}
	walk(fsRoot, "", m)
	return m
}

func walk(dir, rel string, m map[string]string) {
	l, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range l {
		p := filepath.Join(dir, e.Name())
		r := rel + e.Name()
		if e.IsDir() {
			m[r+"/"] = ""
			walk(p, r+"/", m)
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte("unreadable: " + err.Error())
		}
		m[r] = string(b)
	}
}

func names(m map[string]string) []string {
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func show(m map[string]string) string {
	var b strings.Builder
	for _, n := range names(m) {
		c := m[n]
		if len(c) > 60 {
			c = c[:30] + "..." + c[len(c)-20:]
		}
		fmt.Fprintf(&b, "%s=%q ", n, c)
	}
	return b.String()
}

func write(name, content string) {
	p := filepath.Join(fsRoot, name)
	os.MkdirAll(filepath.Dir(p), 0777)
	if strings.HasSuffix(name, "/") {
		os.MkdirAll(p, 0777)
		return
	}
	if err := os.WriteFile(p, []byte(content), 0666); err != nil {
		panic(err)
	}
	os.Chtimes(p, vs.Now(), vs.Now())
}

func escaped() {
	if len(vos.C.Escaped) > 0 {
		vs.Fail("operation outside the directories of the outputs: %v", vos.C.Escaped)
	}
}

func now() time.Time { return vs.Now() }

func console() string { return strings.Join(vos.Console(), "") }

func sysRecords() []vsyslog.Record { return vsyslog.Records }

func vs_deliver(s os.Signal) bool { return vsignal.Deliver(s) }
