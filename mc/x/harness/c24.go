//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
	"github.com/xtfly/log4g/verifx/vsyslog"
)

// c24 is a system whose creators can fail, with the model of what is configured.
type c24 struct {
	kept
	failing map[string]bool // types whose creators return an error now
	known   map[string]bool // registered types
	c       *api.Config
	ls      map[string]api.Logger
	st      map[string]*state24 // of every logger that exists
	n       int
	panics  bool // instead of returning an error
}

func (s *c24) down(typ string) error {
	if !s.failing[typ] {
		return nil
	}
	if s.panics {
		panic("creator panics")
	}
	return errors.New("cannot create " + typ)
}

// state24 is what a logger got when it was first looked up or at the last load.
type state24 struct {
	conf bool
	lvl  api.Level
	outs []string
	open bool // either outcome is right
}

func (s *c24) register(out, typ string) {
	m := log4g.GetManager()
	s.known[typ] = true
	if out == "output" {
		m.RegisterOutputCreator(typ, func(c api.CfgOutput) (api.Output, error) {
			vs.Point("create output")
			if c["type"] != typ {
				vs.Fail("output %s of type %s given to the creator of type %s", c["name"], c["type"], typ)
			}
			if err := s.down(typ); err != nil {
				return nil, err
			}
			o := &keptOutput{typ: typ, cfg: c, quiet: true}
			s.outs = append(s.outs, o)
			return o, nil
		})
		return
	}
	m.RegisterFormatterCreator(typ, func(c api.CfgFormat) (api.Formatter, error) {
		vs.Point("create format")
		if c["type"] != typ {
			vs.Fail("format %s of type %s given to the creator of type %s", c["name"], c["type"], typ)
		}
		if err := s.down(typ); err != nil {
			return nil, err
		}
		f := &keptFormat{typ: typ, cfg: c, serl: len(s.fmts)}
		s.fmts = append(s.fmts, f)
		return f, nil
	})
}

func start24() *c24 {
	s := &c24{failing: map[string]bool{}, known: map[string]bool{}, ls: map[string]api.Logger{}, st: map[string]*state24{}}
	s.register("output", "ta")
	s.register("output", "tb")
	s.register("format", "fa")
	s.register("format", "fb")
	return s
}

// conf24 is one of three configurations; the type of z is not registered at first.
func conf24(k int) *api.Config {
	v, p := "1", "1"
	if k == 1 {
		p = "2"
	}
	if k == 2 {
		v = "2"
	}
	c := conf(api.CfgFormat{"type": "fa", "name": "f", "v": v}, api.CfgFormat{"type": "fb", "name": "g", "v": "1"},
		output("ta", "x", "f", "p", p), output("tb", "y", "g", "p", "1"), output("tl", "z", "f", "p", "1"))
	switch k {
	case 0:
		c.Loggers = []api.CfgLogger{logger("root", "info", "y"), logger("a", "trace", "x", "y"), logger("a/b", "warn", "z", "y")}
	case 1:
		c.Loggers = []api.CfgLogger{logger("a", "info", "y"), logger("root", "trace", "x"), logger("a/b", "error")}
	case 2:
		c.Loggers = []api.CfgLogger{logger("a/b", "trace", "y", "x"), logger("root", "warn", "x", "y")}
	}
	return c
}

// newestFormat returns the newest instance of a format.
func (s *c24) newestFormat(name string) *keptFormat {
	for i := len(s.fmts) - 1; i >= 0; i-- {
		if s.fmts[i].cfg["name"] == name {
			return s.fmts[i]
		}
	}
	return nil
}

// evaluate says what a logger gets now.
func (s *c24) evaluate(name string) *state24 {
	lc := s.c.GetCfgLogger(name)
	if lc == nil {
		return &state24{}
	}
	r := &state24{conf: true, lvl: api.LevelFrom(lc.Level), outs: lc.OutputNames}
	for _, n := range lc.OutputNames {
		o := s.c.GetCfgOutput(n)
		fc := s.c.GetCfgFormat(o.FormatName())
		f, t := s.newestFormat(fc.Name()), s.newest(n)
		haveF := f != nil && f.cfg["v"] == fc["v"]
		haveO := t != nil && t.def() == inForce(s.c, n)
		canF, canO := s.known[fc.Type()] && !s.failing[fc.Type()], s.known[o.Type()] && !s.failing[o.Type()]
		switch {
		case (haveF || canF) && (haveO || canO):
		case haveO:
			r.open = true
		default:
			return &state24{}
		}
	}
	return r
}

var names24 = []string{"root", "a", "a/b"}

func (s *c24) lookup(i int) {
	for _, n := range names24[:i+1] { // the ancestors are made with it
		if s.st[n] == nil {
			s.st[n] = s.evaluate(n)
		}
	}
	l := log4g.GetLogger(names24[i])
	if l == nil {
		vs.Fail("GetLogger(%s) returned nil", names24[i])
	}
	if o := s.ls[names24[i]]; o != nil && o != l {
		vs.Fail("GetLogger(%s) returned another logger", names24[i])
	}
	s.ls[names24[i]] = l
}

func (s *c24) load(k int) {
	s.c = conf24(k)
	st := map[string]*state24{}
	for n := range s.st {
		st[n] = s.evaluate(n)
	}
	if err := log4g.GetManager().SetConfig(s.c); err != nil {
		vs.Fail("SetConfig: %v", err)
	}
	s.st = st
}

// want says which outputs ("console" for the root's own) get a record, or that it is open.
func (s *c24) want(i int, lv api.Level) (outs []string, open bool) {
	lvl, have := api.Level(0), false
	for j := i; j >= 0 && !have; j-- {
		t := s.st[names24[j]]
		open = open || t.open
		if t.conf && t.lvl != api.Uninitialized {
			lvl, have = t.lvl, true
		} else if j == 0 {
			lvl, have = api.Debug, true
		}
	}
	for j := i; j >= 0 && outs == nil; j-- {
		t := s.st[names24[j]]
		open = open || t.open
		if t.conf && len(t.outs) > 0 {
			outs = t.outs
		} else if j == 0 && !t.conf {
			outs = []string{"console"}
		}
	}
	if lv < lvl {
		outs = nil
	}
	return
}

// check judges the delivery through every known logger and the instances.
func (s *c24) check(when string) {
	for i, n := range names24 {
		l := s.ls[n]
		if l == nil {
			continue
		}
		for _, lv := range []api.Level{api.Trace, api.Info, api.Error} {
			s.n++
			msg := fmt.Sprintf("m%d.", s.n)
			nc, before := len(vos.Console()), map[*keptOutput]int{}
			for _, o := range s.outs {
				before[o] = len(o.got)
			}
			l.Printf(lv, "%s", msg)
			var have []string
			for _, o := range s.outs {
				for _, g := range o.got[before[o]:] {
					if !strings.HasSuffix(g, ":"+msg) {
						vs.Fail("%s: output %s got %q", when, o.cfg["name"], g)
					}
					nm := o.cfg["name"]
					if o != s.newest(nm) || o.def() != inForce(s.c, nm) {
						nm += " (not in force)"
					}
					have = append(have, nm)
				}
			}
			for _, g := range vos.Console()[nc:] {
				if strings.Contains(g, msg) {
					have = append(have, "console")
				} else {
					have = append(have, fmt.Sprintf("console %q", g))
				}
			}
			want, open := s.want(i, lv)
			w := append([]string{}, want...)
			sort.Strings(w)
			sort.Strings(have)
			if !open && strings.Join(w, " ") != strings.Join(have, " ") {
				vs.Fail("%s: a record of %s at level %s went to %v, want %v", when, n, levelNames[lv], have, w)
			}
		}
	}
	for _, o := range s.outs {
		if o.bad != "" {
			vs.Fail("%s: output %s: %s", when, o.cfg["name"], o.bad)
		}
	}
}

// closeAll closes the manager, which must close every instance.
func (s *c24) closeAll(when string) {
	log4g.GetManager().Close()
	for _, o := range s.outs {
		if o.closed == 0 {
			vs.Fail("%s: an instance of output %s was not closed", when, o.cfg["name"])
		}
		if o.sets != 1 {
			vs.Fail("%s: output %s: %d formats set", when, o.cfg["name"], o.sets)
		}
	}
}

var types24 = []string{"", "ta", "tb", "fa", "fb", "all"}

func (s *c24) fail(k int) {
	s.failing = map[string]bool{}
	if k == 5 {
		s.failing = map[string]bool{"ta": true, "tb": true, "fa": true, "fb": true, "tl": true}
	} else if k > 0 {
		s.failing[types24[k]] = true
	}
	vs.Note("   failing: %q", types24[k])
}

func hist24(depth int) func() {
	return func() {
		begin()
		s := start24()
		s.fail(vs.Choose(6, 0, "creators failing first"))
		s.load(vs.Choose(3, 0, "first configuration"))
		sum := ""
		for i := 0; i < depth; i++ {
			op := vs.Choose(14, 0, "operation")
			outs, fmts := len(s.outs), len(s.fmts)
			switch {
			case op < 6:
				s.fail(op)
			case op < 9:
				vs.Note("   load configuration %d", op-6)
				s.load(op - 6)
			case op < 12:
				vs.Note("   look up %s", names24[op-9])
				s.lookup(op - 9)
			case op == 12:
				vs.Note("   register tl")
				s.register("output", "tl")
			case op == 13:
				w := s.evaluate("a")
				ops, lvl, err := log4g.GetManager().GetLoggerOutputs("a")
				if !w.open && (err == nil) != w.conf {
					vs.Fail("GetLoggerOutputs(a): %v, %v", ops, err)
				}
				if err == nil && (lvl != w.lvl || len(ops) != len(w.outs)) {
					vs.Fail("GetLoggerOutputs(a) = %v, %v, want %v, %v", ops, lvl, w.outs, w.lvl)
				}
			}
			// nothing that exists is created again
			for j, o := range s.outs[outs:] {
				for _, p := range s.outs[outs+j+1:] {
					if p.cfg["name"] == o.cfg["name"] {
						vs.Fail("two instances of output %s created at once", o.cfg["name"])
					}
				}
			}
			for j, f := range s.fmts[fmts:] {
				for _, g := range s.fmts[fmts+j+1:] {
					if g.cfg["name"] == f.cfg["name"] {
						vs.Fail("two instances of format %s created at once", f.cfg["name"])
					}
				}
			}
			s.check(fmt.Sprintf("after operation %d", i+1))
			sum += fmt.Sprintf("%d/%d ", len(s.outs), len(s.fmts))
		}
		// all creators work again: the next load puts everything right
		s.fail(0)
		s.register("output", "tl")
		s.load(vs.Choose(3, 0, "last configuration"))
		for i := range names24 {
			s.lookup(i)
		}
		for n, t := range s.st {
			if t.conf != (s.c.GetCfgLogger(n) != nil) || t.open {
				vs.Fail("harness: %s is not as configured", n)
			}
		}
		s.check("at the end")
		s.closeAll("at the end")
		obs("%s", sum)
	}
}

func init() {
	drv.Add(drv.Scenario{Prop: "C24", Name: "history", Quick: 0,
		Desc: "all histories of 3 operations (which of 4 creators fail, none or all; load one of 3 configurations; first lookup of 3 loggers; register the missing type; ask for outputs) after a first load, then all creators work again", Body: hist24(3)})
	drv.Add(drv.Scenario{Prop: "C24", Name: "history-more", Quick: -1, Thorough: 0,
		Desc: "the same with 4 operations", Body: hist24(4)})
	drv.Add(drv.Scenario{Prop: "C24", Name: "long-outage", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "one or all creators fail during 5, 20, 70 or 300 loads and lookups in turn; then they work: the next load puts everything right",
		Body: func() {
			begin()
			s := start24()
			if flip("worked before") {
				s.load(vs.Choose(3, 0, "first configuration"))
			}
			s.fail(1 + vs.Choose(5, 0, "failing"))
			n := pick("attempts", 5, 20, 70, 300)
			turn := vs.Choose(4, 0, "configurations")
			for i := 0; i < n; i++ {
				k := turn
				if turn == 3 {
					k = i % 3
				}
				s.load(k)
				s.lookup(i % len(names24))
				if i < 3 || i == n-1 {
					s.check(fmt.Sprintf("after load %d", i+1))
				}
			}
			s.fail(0)
			s.register("output", "tl")
			s.load(vs.Choose(3, 0, "last configuration"))
			for i := range names24 {
				s.lookup(i)
			}
			s.check("at the end")
			s.closeAll("at the end")
			obs("%d %d", len(s.outs), len(s.fmts))
		}})
	drv.Add(drv.Scenario{Prop: "C24", Name: "syslog", Quick: 0,
		Desc: "syslog can or cannot be reached during each of 3 loads of 4 configurations and lookups in between: records go to syslog or to the inherited outputs, none is lost; connections are closed",
		Body: func() {
			begin()
			cf := func(k int) *api.Config {
				f := format("f", "%{msg}\n")
				c, y, z := output("console", "c", "f"), output("syslog", "y", "f", "prefix", "p"), output("syslog", "y", "f", "prefix", "q")
				return []*api.Config{
					conf(f, c, y, logger("root", "all", "c"), logger("a", "info", "y"), logger("b", "all", "c", "y")),
					conf(f, c, z, logger("root", "all", "c"), logger("a", "info", "y"), logger("b", "all", "y", "c")),
					conf(f, c, y, logger("root", "all", "y", "c")),
					conf(f, c, y, logger("root", "all", "c"), logger("b", "", "c")),
				}[k]
			}
			ls := map[string]api.Logger{}
			st := map[string]bool{} // configured
			haveTag := ""           // tag of the newest syslog output
			var c *api.Config
			eval := func(n string) bool {
				lc := c.GetCfgLogger(n)
				if lc == nil {
					return false
				}
				for _, o := range lc.OutputNames {
					if oc := c.GetCfgOutput(o); oc.Type() == "syslog" && haveTag != oc["prefix"] {
						if vsyslog.FailDial {
							return false
						}
						haveTag = oc["prefix"]
					}
				}
				return true
			}
			lookup := func(n string) {
				for _, m := range []string{"root", n} {
					if _, ok := st[m]; !ok {
						st[m] = eval(m)
					}
				}
				ls[n] = log4g.GetLogger(n)
			}
			num := 0
			for i := 0; i < 3; i++ {
				vsyslog.FailDial = flip("syslog cannot be reached")
				c = cf(vs.Choose(4, 0, "configuration"))
				must(log4g.GetManager().SetConfig(c))
				for _, n := range []string{"root", "a", "b"} {
					if _, ok := st[n]; ok {
						st[n] = eval(n)
					}
				}
				if flip("syslog changes") {
					vsyslog.FailDial = !vsyslog.FailDial
				}
				lookup(pick("look up", "root", "a", "b"))
				for _, n := range []string{"root", "a", "b"} {
					l := ls[n]
					if l == nil {
						continue
					}
					num++
					msg := fmt.Sprintf("m%d", num)
					ns, nc := len(sysRecords()), len(vos.Console())
					l.Error(msg)
					o := n
					if !st[n] {
						o = "root"
					}
					wantSys, wantCon := "", 0
					if !st[o] {
						wantCon = 1
					} else {
						for _, on := range c.GetCfgLogger(o).OutputNames {
							if oc := c.GetCfgOutput(on); oc.Type() == "syslog" {
								wantSys = oc["prefix"]
							} else {
								wantCon = 1
							}
						}
					}
					gotSys := ""
					for _, r := range sysRecords()[ns:] {
						gotSys += r.Tag
						if !strings.Contains(r.Msg, msg) {
							vs.Fail("syslog got %q for %s", r.Msg, msg)
						}
					}
					if gotSys != wantSys || len(vos.Console())-nc != wantCon {
						vs.Fail("a record of %s went to syslog %q and %d times to the console, want %q and %d", n, gotSys, len(vos.Console())-nc, wantSys, wantCon)
					}
				}
			}
			log4g.GetManager().Close()
			if vsyslog.Opened != vsyslog.Closed {
				vs.Fail("%d connections to syslog opened, %d closed", vsyslog.Opened, vsyslog.Closed)
			}
			obs("%d", vsyslog.Opened)
		}})
	drv.Add(drv.Scenario{Prop: "C24", Name: "replaced", Quick: 0,
		Desc: "all sequences of 4 of: register another creator for an own or built-in output type or the text format, load one of 2 configurations, look up a logger: every instance comes from the creator registered last, those that exist stay",
		Body: func() {
			begin()
			s := &c24{failing: map[string]bool{}, known: map[string]bool{}}
			gen := map[string]int{}
			m := log4g.GetManager()
			reg := func(typ string) {
				gen[typ]++
				g := gen[typ]
				if typ == "text" {
					m.RegisterFormatterCreator(typ, func(c api.CfgFormat) (api.Formatter, error) {
						if g != gen[typ] {
							vs.Fail("format %s made by creator %d of type %s, %d is registered", c["name"], g, typ, gen[typ])
						}
						f := &keptFormat{typ: typ, cfg: c}
						s.fmts = append(s.fmts, f)
						return f, nil
					})
					return
				}
				m.RegisterOutputCreator(typ, func(c api.CfgOutput) (api.Output, error) {
					if g != gen[typ] {
						vs.Fail("output %s made by creator %d of type %s, %d is registered", c["name"], g, typ, gen[typ])
					}
					o := &keptOutput{typ: typ, cfg: c, quiet: true}
					s.outs = append(s.outs, o)
					return o, nil
				})
			}
			reg("own")
			reg("text")
			reg("console")
			cf := func(k int) *api.Config {
				v := fmt.Sprint(k)
				return conf(api.CfgFormat{"type": "text", "name": "f", "v": v}, api.CfgFormat{"type": "text", "name": "g", "v": "1"},
					output("console", "x", "f", "p", "1"), output("own", "y", "g", "p", v), output("console", "z", "g", "p", "1"),
					logger("root", "all", "x", "y"), logger("a", "all", "z"))
			}
			c := cf(0)
			must(m.SetConfig(c))
			ls := map[string]api.Logger{}
			last := map[string]*keptOutput{}
			for i := 0; i < 4; i++ {
				switch op := vs.Choose(7, 0, "operation"); op {
				case 0, 1, 2:
					reg([]string{"own", "text", "console"}[op])
				case 3, 4:
					c = cf(op - 3)
					must(m.SetConfig(c))
				case 5, 6:
					n := []string{"root", "a"}[op-5]
					ls[n] = log4g.GetLogger(n)
				}
				for _, n := range []string{"root", "a"} {
					if ls[n] == nil {
						continue
					}
					for _, o := range c.GetCfgLogger(n).OutputNames {
						t := s.newest(o)
						if t == nil || t.def() != inForce(c, o) {
							vs.Fail("output %s was not created with the registered creators and its definition", o)
						}
						if p := last[o]; p != nil && p != t && p.def() == t.def() {
							vs.Fail("output %s was created again although its definition did not change", o)
						}
						last[o] = t
						before := len(t.got)
						ls[n].Info("hello")
						if len(t.got) != before+1 {
							vs.Fail("a record of %s did not reach output %s once", n, o)
						}
					}
				}
			}
			m.Close()
			for _, o := range s.outs {
				if o.closed == 0 {
					vs.Fail("an instance of output %s was not closed", o.cfg["name"])
				}
			}
			obs("%d %d", len(s.outs), len(s.fmts))
		}})
	drv.Add(drv.Scenario{Prop: "C24", Name: "changing", Quick: 0,
		Desc: "creators change the configuration they are given (add, change, remove an entry, its name, everything), then or later; every sequence of 4 of: load one of 2 configurations, look up one of 3 loggers: one instance per definition",
		Body: func() {
			begin()
			how := vs.Choose(6, 0, "what creators do with their configuration")
			later := flip("later")
			var kept []map[string]string
			change := func(m map[string]string) {
				switch how {
				case 0:
					m["default"] = "1"
				case 1:
					m["p"], m["v"] = "changed", "changed"
				case 2:
					delete(m, "p")
					delete(m, "v")
				case 3:
					m["name"] = "changed"
				case 4:
					m["format"], m["type"] = "changed", "changed"
				case 5:
					for k := range m {
						delete(m, k)
					}
				}
			}
			take := func(m map[string]string) {
				if later {
					kept = append(kept, m)
				} else {
					change(m)
				}
			}
			copied := func(m map[string]string) map[string]string {
				r := map[string]string{}
				for k, v := range m {
					r[k] = v
				}
				return r
			}
			s := &c24{}
			m := log4g.GetManager()
			m.RegisterOutputCreator("own", func(c api.CfgOutput) (api.Output, error) {
				o := &keptOutput{typ: "own", cfg: copied(c), quiet: true}
				s.outs = append(s.outs, o)
				take(c)
				return o, nil
			})
			m.RegisterFormatterCreator("own", func(c api.CfgFormat) (api.Formatter, error) {
				f := &keptFormat{typ: "own", cfg: copied(c)}
				s.fmts = append(s.fmts, f)
				take(c)
				return f, nil
			})
			cf := func(k int) *api.Config {
				return conf(api.CfgFormat{"type": "own", "name": "f", "v": "1"},
					output("own", "x", "f", "p", fmt.Sprint(k)), output("own", "y", "f", "p", "1"),
					logger("root", "all", "x"), logger("a", "all", "x", "y"), logger("b", "all", "y", "x"))
			}
			c := cf(0)
			must(m.SetConfig(c))
			ls := map[string]api.Logger{}
			last := map[string]*keptOutput{}
			for i := 0; i < 4; i++ {
				switch op := vs.Choose(5, 0, "operation"); op {
				case 0, 1:
					c = cf(op)
					must(m.SetConfig(c))
				default:
					n := []string{"root", "a", "b"}[op-2]
					ls[n] = log4g.GetLogger(n)
				}
				for _, n := range []string{"root", "a", "b"} {
					if ls[n] == nil {
						continue
					}
					for _, o := range c.GetCfgLogger(n).OutputNames {
						t := s.newest(o)
						if t == nil || t.def() != inForce(c, o) {
							vs.Fail("output %s was not created with its definition", o)
						}
						if p := last[o]; p != nil && p != t && p.def() == t.def() {
							vs.Fail("output %s was created again although its definition did not change", o)
						}
						last[o] = t
						before := len(t.got)
						ls[n].Info("hello")
						if len(t.got) != before+1 {
							vs.Fail("a record of %s did not reach output %s once", n, o)
						}
					}
				}
				if c.GetCfgOutput("y")["p"] != "1" || c.GetCfgFormat("f")["v"] != "1" {
					vs.Fail("a creator changed the configuration object of the application")
				}
				for _, k := range kept {
					change(k)
				}
				kept = nil
			}
			if len(s.fmts) > 1 {
				vs.Fail("%d instances of a format that did not change", len(s.fmts))
			}
			m.Close()
			for _, o := range s.outs {
				if o.closed == 0 {
					vs.Fail("an instance of output %s was not closed", o.cfg["name"])
				}
			}
			obs("%d", len(s.outs))
		}})
	drv.Add(drv.Scenario{Prop: "C24", Name: "panics", Quick: 0,
		Desc: "creators panic and the application recovers: all sequences of 3 of: which of 4 creators panic, load one of 3 configurations, look up or log through one of 3 loggers, ask for outputs; then they work again and a load puts everything right",
		Body: func() {
			begin()
			s := start24()
			s.register("output", "tl")
			s.panics = true
			recovered := 0
			try := func(what string, f func()) {
				defer func() {
					if r := recover(); r != nil {
						if fmt.Sprint(r) != "creator panics" {
							panic(r)
						}
						vs.Note("   %s panicked", what)
						recovered++
					}
				}()
				f()
			}
			m := log4g.GetManager()
			s.fail(vs.Choose(6, 0, "creators that panic first"))
			for i := 0; i < 3; i++ {
				switch op := vs.Choose(13, 0, "operation"); {
				case op < 5:
					s.fail(op)
				case op < 8:
					s.c = conf24(op - 5)
					try("the load", func() { must(m.SetConfig(s.c)) })
				case op < 11:
					n := names24[op-8]
					try("the lookup", func() { log4g.GetLogger(n).Error("lost or not") })
				case op == 11:
					try("the query", func() { m.GetLoggerOutputs("a") })
				case op == 12:
					try("the lookup", func() { log4g.GetLogger("a/b/c/d").Error("lost or not") })
				}
			}
			s.fail(0)
			for i := range s.outs {
				s.outs[i].bad = "" // may have been without its format
			}
			s.c = conf24(vs.Choose(3, 0, "last configuration"))
			if flip("other configurations before") {
				for k := 0; k < 3; k++ {
					must(m.SetConfig(conf24(k)))
				}
			}
			must(m.SetConfig(s.c))
			for i := range names24 {
				s.lookup(i)
			}
			s.check("after the last load")
			s.closeAll("after the last load")
			obs("%d", recovered)
		}})
	drv.Add(drv.Scenario{Prop: "C24", Name: "threads", Quick: 2, Thorough: 3,
		Desc: "two goroutines look up loggers and log while creators fail, a third lets them work and loads the configuration: no record is lost, every call returns, and afterwards all is as configured",
		Body: func() {
			begin()
			s := start24()
			s.register("output", "tl")
			s.fail(1 + vs.Choose(5, 0, "creators failing first"))
			k := vs.Choose(3, 0, "configuration")
			if flip("loaded before") {
				s.load(k)
			}
			got := func(msg string) (n int) {
				for _, o := range s.outs {
					for _, g := range o.got {
						if strings.HasSuffix(g, ":"+msg) {
							n++
						}
					}
				}
				for _, g := range vos.Console() {
					n += strings.Count(g, msg)
				}
				return
			}
			for _, n := range []string{"a", "a/b"} {
				n := n
				vs.Spawn(n, func() { log4g.GetLogger(n).Critical("msg-" + n) })
			}
			vs.Spawn("load", func() {
				vs.Point("creators work")
				s.failing = map[string]bool{}
				must(log4g.GetManager().SetConfig(conf24(k)))
			})
			vs.JoinAll()
			for _, n := range []string{"a", "a/b"} {
				if got("msg-"+n) == 0 {
					vs.Fail("the record of %s is lost", n)
				}
			}
			s.c = conf24(k)
			for i := range names24 {
				s.st[names24[i]] = nil
				delete(s.st, names24[i])
				s.lookup(i)
			}
			s.check("afterwards")
			s.closeAll("afterwards")
			obs("%d %d %d", got("msg-a"), got("msg-a/b"), len(s.outs))
		}})
}
