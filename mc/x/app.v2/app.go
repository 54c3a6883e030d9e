//go:build go1.23

// Package app stands for an application: it holds the logging statements whose
// location the records must name. Every site is a single line, so that Here and
// the logging call name the same one. The import path has a dot in its last
// element, which the Go runtime escapes in function names.
package app

import (
	"runtime"
	"strings"

	"github.com/xtfly/log4g/api"
)

// Loc is the location of a statement.
type Loc struct {
	File string
	Line int
	Pkg  string
	Func string // with receiver, as in (*T).Method
}

// ShortFunc is the function's own name.
func (l Loc) ShortFunc() string {
	s := strings.ReplaceAll(l.Func, "[...]", "")
	return s[strings.LastIndex(s, ".")+1:]
}

// Path is the import path of this package.
const Path = "github.com/xtfly/log4g/verifx/app.v2"

// Last is the location of the latest logging statement.
var Last Loc

// here records the statement that called it.
func here(fun string) bool {
	pc := make([]uintptr, 1)
	runtime.Callers(2, pc)
	f, _ := runtime.CallersFrames(pc).Next()
	Last = Loc{f.File, f.Line, Path, fun}
	if fun == "" { // the compiler chose the name
		s := f.Function[strings.LastIndex(f.Function, "/")+1:]
		Last.Func = s[strings.Index(s, ".")+1:]
	}
	return true
}

// Call invokes one of the 13 methods, in a statement of its own.
func Call(w api.Writer, m string, lvl api.Level, format string, args ...interface{}) {
	switch m {
	case "Trace":
		here("Call"); w.Trace(args...)
	case "Tracef":
		here("Call"); w.Tracef(format, args...)
	case "Debug":
		here("Call"); w.Debug(args...)
	case "Debugf":
		here("Call"); w.Debugf(format, args...)
	case "Info":
		here("Call"); w.Info(args...)
	case "Infof":
		here("Call"); w.Infof(format, args...)
	case "Warn":
		here("Call"); w.Warn(args...)
	case "Warnf":
		here("Call"); w.Warnf(format, args...)
	case "Error":
		here("Call"); w.Error(args...)
	case "Errorf":
		here("Call"); w.Errorf(format, args...)
	case "Critical":
		here("Call"); w.Critical(args...)
	case "Criticalf":
		here("Call"); w.Criticalf(format, args...)
	case "Printf":
		here("Call"); w.Printf(lvl, format, args...)
	}
}

// T is an application type.
type T struct{ W api.Writer }

// Ptr logs in a method with pointer receiver.
func (t *T) Ptr(s string) { here("(*T).Ptr"); t.W.Info(s) }

// Val logs in a method with value receiver.
func (t T) Val(s string) { here("T.Val"); t.W.Infof("%s", s) }

// Quiet logs without recording the statement.
type Quiet struct{ W api.Writer }

// Val logs like T.Val.
func (t Quiet) Val(s string) { t.W.Info(s) }

// G is a generic application type.
type G[X any] struct{ W api.Writer }

// Do logs in a method of a generic type.
func (g *G[X]) Do(s string) { here("(*G[...]).Do"); g.W.Printf(api.Info, "%s", s) }

// Gen is a generic function.
func Gen[X any](w api.Writer, s string) { here("Gen[...]"); w.Info(s) }

//go:noinline
func plain(w api.Writer, s string) { here("plain"); w.Warn(s) }

func small(w api.Writer, s string) { here("small"); w.Warn(s) } // small enough to be inlined

var packageVar = func(w api.Writer, s string) { here(""); w.Error(s) }

// Embedded has a logger embedded.
type Embedded struct{ api.Logger }

func (e Embedded) do(s string) { here("Embedded.do"); e.Info(s) }

// Site is one kind of statement.
type Site struct {
	Name string
	Do   func(w api.Writer, s string)
}

// Sites are the kinds of application code that logs.
var Sites = []Site{
	{"function", plain},
	{"inlined function", func(w api.Writer, s string) { small(w, s) }},
	{"pointer method", func(w api.Writer, s string) { (&T{w}).Ptr(s) }},
	{"value method", func(w api.Writer, s string) { T{w}.Val(s) }},
	{"pointer to value method", func(w api.Writer, s string) { (&T{w}).Val(s) }},
	{"method of generic type", func(w api.Writer, s string) { (&G[int]{w}).Do(s) }},
	{"generic function", func(w api.Writer, s string) { Gen[string](w, s) }},
	{"closure", func(w api.Writer, s string) { f := func() { here(""); w.Debug(s) }; f() }},
	{"package variable", packageVar},
	{"deferred closure", func(w api.Writer, s string) { defer func() { here(""); w.Errorf(s) }() }},
	{"panicking", func(w api.Writer, s string) {
		defer func() { recover(); here(""); w.Critical(s) }()
		panic("x")
	}},
	{"method value", func(w api.Writer, s string) { f := w.Info; here(""); f(s) }},
	{"method expression", func(w api.Writer, s string) { f := api.Writer.Info; here(""); f(w, s) }},
	{"interface method", func(w api.Writer, s string) { var i interface{ Ptr(string) } = &T{w}; i.Ptr(s) }},
	{"embedded logger", func(w api.Writer, s string) {
		if l, ok := w.(api.Logger); ok {
			Embedded{l}.do(s)
		} else {
			here("")
			plain(w, s)
		}
	}},
}

// Wrap1 to Wrap3 are logging helpers of an application: 1 to 3 frames between
// the statement that counts and the logging call.
//
//go:noinline
func Wrap1(w api.Writer, m string, lvl api.Level, s string) { bare(w, m, lvl, s) }

//go:noinline
func wrapA(w api.Writer, m string, lvl api.Level, s string) { Wrap1(w, m, lvl, s) }

//go:noinline
func wrapB(w api.Writer, m string, lvl api.Level, s string) { wrapA(w, m, lvl, s) }

//go:noinline
func bare(w api.Writer, m string, lvl api.Level, s string) {
	switch m {
	case "Trace":
		w.Trace(s)
	case "Tracef":
		w.Tracef(s)
	case "Debug":
		w.Debug(s)
	case "Debugf":
		w.Debugf(s)
	case "Info":
		w.Info(s)
	case "Infof":
		w.Infof(s)
	case "Warn":
		w.Warn(s)
	case "Warnf":
		w.Warnf(s)
	case "Error":
		w.Error(s)
	case "Errorf":
		w.Errorf(s)
	case "Critical":
		w.Critical(s)
	case "Criticalf":
		w.Criticalf(s)
	case "Printf":
		w.Printf(lvl, s)
	}
}

// Wrapped logs through n frames of helpers; Last is the location n frames up.
//
//go:noinline
func Wrapped(n int, w api.Writer, m string, lvl api.Level, s string) {
	switch n {
	case 1:
		here("Wrapped"); bare(w, m, lvl, s)
	case 2:
		here("Wrapped"); Wrap1(w, m, lvl, s)
	case 3:
		here("Wrapped"); wrapA(w, m, lvl, s)
	case 4:
		here("Wrapped"); wrapB(w, m, lvl, s)
	}
}
