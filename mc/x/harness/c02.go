//go:build go1.23

package main

import (
	"fmt"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// ancestors returns the names of the logger and its ancestors, nearest first, root last.
func ancestors(name string) []string {
	if name == "" {
		name = "root"
	}
	var l []string
	for {
		l = append(l, name)
		if name == "root" {
			return l
		}
		i := strings.LastIndexAny(name, "/.")
		if i <= 0 {
			name = "root"
		} else {
			name = name[:i]
		}
	}
}

// effective level and outputs of a logger under configuration c alone; a nil
// entry for root stands for the built-in console.
func prescribed(c *api.Config, name string) (api.Level, []string) {
	lvl, outs := api.Uninitialized, []string(nil)
	for _, n := range ancestors(name) {
		l := c.GetCfgLogger(n)
		if l == nil {
			continue
		}
		if lvl == api.Uninitialized {
			lvl = parseLevel(l.Level)
		}
		if outs == nil && len(l.OutputNames) > 0 {
			outs = l.OutputNames
		}
	}
	return lvl, outs
}

// parseLevel is the documented meaning of level names, independent of the code under test.
func parseLevel(s string) api.Level {
	for l, n := range levelNames {
		if n != "" && strings.EqualFold(n, s) && strings.ToUpper(s) == n {
			return l
		}
	}
	return api.Uninitialized
}

// obey checks that logger l called name follows level and outputs (by output name).
func obey(l api.Logger, name string, lvl api.Level, outs []string) {
	if name == "" {
		name = "root"
	}
	if lvl != api.Uninitialized && l.Level() != lvl {
		vs.Fail("logger %q has level %v, want %v", name, l.Level(), lvl)
	}
	for i, q := range levels {
		if i%2 == 1 && lvl != api.Uninitialized && q != lvl {
			continue
		}
		spyLog = nil
		call(l, methods[2*i], 0, "", "x")
		var want, have []string
		if q >= l.Level() {
			want = outs
		}
		for _, g := range spyLog {
			have = append(have, g.out)
			if g.name != name || g.level != q {
				vs.Fail("event of logger %q level %v says name %q level %v", name, q, g.name, g.level)
			}
		}
		if strings.Join(want, ",") != strings.Join(have, ",") {
			vs.Fail("logger %q level %v: delivered to [%s], want [%s]", name, levelNames[q], strings.Join(have, ","), strings.Join(want, ","))
		}
	}
}

func orderBody(univ []string, look int, maxCfg int) func() {
	return func() {
		begin()
		useSpies(true)
		// which loggers are configured: root always, up to maxCfg others
		c := conf(format("f", "%{msg}"), output("spy", "oroot", "f"), logger("root", "info", "oroot"))
		lvls := []string{"debug", "error", "", "warn"}
		last := 0
		for k := 0; k < maxCfg; k++ {
			// choose the next configured name, or none
			i := vs.Choose(len(univ)-last+1, 0, "configured")
			if i == 0 {
				break
			}
			last += i
			n := univ[last-1]
			if n == "root" || n == "" {
				break // same as none: root is configured anyway
			}
			vs.Note("   configured: %q", n)
			o := "o" + n
			c.Outputs = append(c.Outputs, output("spy", o, "f"))
			cl := logger(n, lvls[k%len(lvls)], o)
			if k == 2 {
				cl.OutputNames = nil // level only
				cl.Level = "critical"
			}
			c.Loggers = append(c.Loggers, cl)
		}
		at := vs.Choose(look+1, 0, "configuration set before lookup number")
		first := map[string]api.Logger{}
		for k := 0; k <= look; k++ {
			if k == at {
				vs.Note("   SetConfig")
				must(log4g.GetManager().SetConfig(c))
			}
			if k < look {
				n := univ[vs.Choose(len(univ), 0, "lookup")]
				vs.Note("   GetLogger(%q)", n)
				l := log4g.GetLogger(n)
				if l == nil {
					vs.Fail("GetLogger(%q) = nil", n)
				}
				key := n
				if key == "" {
					key = "root"
				}
				if f := first[key]; f != nil && f != l {
					vs.Fail("GetLogger(%q) returned two different loggers", n)
				}
				first[key] = l
			}
		}
		var o []string
		for _, n := range univ {
			l := log4g.GetLogger(n)
			key := n
			if key == "" {
				key = "root"
			}
			if f := first[key]; f != nil && f != l {
				vs.Fail("GetLogger(%q) returned two different loggers", n)
			}
			first[key] = l
			lvl, outs := prescribed(c, n)
			obey(l, n, lvl, outs)
			o = append(o, fmt.Sprint(lvl, outs))
		}
		for n, l := range first {
			for m, k := range first {
				if n != m && l == k {
					vs.Fail("GetLogger(%q) and GetLogger(%q) are the same logger", n, m)
				}
			}
		}
		obs("%s", strings.Join(o, ";"))
	}
}

func init() {
	u1 := []string{"", "root", "a", "a/b", "a.b", "a/b.c", "/a", "a/", "a//b", "ab", "root/x"}
	u2 := []string{"root", "a", "a/b", "a/b/c", "a/b/c/d", "a/bc", "b"}
	u3 := []string{"", ".", "/", "..", "a.", ".a/b", "a./b", "é/ü", "é", "a b/c", "a b", "A", "a", "Root", "root.", "root.y", "a.b.c.d.e.f"}
	drv.Add(drv.Scenario{Prop: "C02", Name: "order-mixed", Quick: 0,
		Desc: "2 lookups in every order from 11 related and unrelated names, up to 2 of them configured, configuration before, between or after",
		Body: orderBody(u1, 2, 2)})
	drv.Add(drv.Scenario{Prop: "C02", Name: "order-chain", Quick: 0,
		Desc: "3 lookups in every order from a chain 5 deep and siblings, up to 3 configured (one with a level only)",
		Body: orderBody(u2, 3, 3)})
	drv.Add(drv.Scenario{Prop: "C02", Name: "odd-names", Quick: 0,
		Desc: "names with empty segments, only separators, non-ASCII, blanks, differing case",
		Body: orderBody(u3, 2, 1)})
	drv.Add(drv.Scenario{Prop: "C02", Name: "order-mixed3", Quick: 0,
		Desc: "as order-mixed with 3 lookups and one configured name",
		Body: orderBody(u1, 3, 1)})
	drv.Add(drv.Scenario{Prop: "C02", Name: "order-deep", Quick: -1, Thorough: 0,
		Desc: "4 lookups, up to 3 configured", Body: orderBody(u2, 4, 3)})
	drv.Add(drv.Scenario{Prop: "C02", Name: "deep", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "chains of 10..300 loggers (also with long segments), of which every 1st, 7th or only the top one is configured or has its level set, looked up from the top, from the bottom or the bottom one alone: each has the level and outputs of its nearest ancestor",
		Body: func() {
			begin()
			useSpies(true)
			n := pick("depth", 10, 32, 33, 64, 65, 130, 300)
			seg := pick("segment", "a", "abc", strings.Repeat("long", 80))
			step := pick("configured", 1, 7, 1000)
			c := conf(format("f", "%{msg}"), logger("root", "error", "o0"))
			for i := 0; i < 3; i++ {
				c.Outputs = append(c.Outputs, output("spy", fmt.Sprintf("o%d", i), "f"))
			}
			var names []string
			name := ""
			for i := 0; i < n; i++ {
				name += seg
				names = append(names, name)
				if i%step == 0 {
					l := logger(name, levelNames[levels[i%6]])
					if i%2 == 0 {
						l.OutputNames = []string{fmt.Sprintf("o%d", i%3)}
					}
					c.Loggers = append(c.Loggers, l)
				}
				name += string("/."[i%2])
			}
			got := map[string]api.Logger{}
			look := func(k int) {
				l := log4g.GetLogger(names[k])
				if was, is := got[names[k]]; is && was != l {
					vs.Fail("GetLogger of %d segments returned two instances", k+1)
				}
				got[names[k]] = l
			}
			order := pick("lookups", "top", "bottom", "alone")
			all := func() {
				for i := range names {
					switch order {
					case "top":
						look(i)
					case "bottom":
						look(n - 1 - i)
					}
				}
				look(n - 1)
			}
			if flip("lookups before the configuration") {
				all()
			}
			must(log4g.GetManager().SetConfig(c))
			all()
			all()
			for i, name := range names {
				if got[name] == nil {
					continue
				}
				if i > 20 && i < n-20 && i%16 > 1 {
					continue
				}
				lvl, outs := prescribed(c, name)
				obey(got[name], name, lvl, outs)
			}
			obs("%d %d", n, step)
		}})
	drv.Add(drv.Scenario{Prop: "C02", Name: "many", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "40 to 1300 loggers in a tree with 5 branches at every node, a third of them configured, looked up in 4 orders before and after the configuration: the same instance again, each with its level and outputs",
		Body: func() {
			begin()
			useSpies(true)
			n := pick("loggers", 40, 101, 260, 520, 1030, 1300)
			order := pick("order", 1, -1, 7, 37) // all prime to the numbers above
			first := flip("lookups before the configuration")
			c := conf(format("f", "%{msg}"), logger("root", "error", "o0"))
			for i := 0; i < 7; i++ {
				c.Outputs = append(c.Outputs, output("spy", fmt.Sprintf("o%d", i), "f"))
			}
			var names []string
			for i := 0; i < n; i++ {
				name := ""
				for k := i + 1; k > 0; k = (k - 1) / 5 {
					name = string("abcde"[(k-1)%5]) + string("/."[k%2]) + name
				}
				names = append(names, name[:len(name)-1])
				if i%3 == 1 {
					l := logger(names[i], levelNames[levels[i%6]])
					if i%2 == 1 {
						l.OutputNames = []string{fmt.Sprintf("o%d", i%7), fmt.Sprintf("o%d", (i+1)%7)}
					}
					c.Loggers = append(c.Loggers, l)
				}
			}
			got := map[string]api.Logger{}
			look := func() {
				for i, k := 0, 0; i < n; i, k = i+1, (k+n+order)%n {
					l := log4g.GetLogger(names[k])
					if was, is := got[names[k]]; is && was != l {
						vs.Fail("with %d loggers, GetLogger(%q) returned two instances", n, names[k])
					}
					got[names[k]] = l
				}
				if len(got) != n {
					vs.Fail("%d names", len(got))
				}
			}
			if first {
				look()
			}
			must(log4g.GetManager().SetConfig(c))
			look()
			look()
			for _, name := range names {
				lvl, outs := prescribed(c, name)
				obey(got[name], name, lvl, outs)
			}
			obs("%d", n)
		}})
	drv.Add(drv.Scenario{Prop: "C02", Name: "parents", Quick: 0,
		Desc: "parent of every name of up to 4 characters over {a,b,/,.}: a level or an output set on each proper ancestor is inherited, on every other logger it is not",
		Body: func() {
			begin()
			resetSpies()
			var name strings.Builder
			for k := 0; k < 4; k++ {
				i := vs.Choose(5, 0, "character")
				if i == 0 {
					break
				}
				name.WriteByte(".ab/."[i])
			}
			n := name.String()
			cand := map[string]bool{}
			for _, a := range ancestors(n) {
				cand[a] = true
			}
			others := []string{"a", "b", "ab", "a/b", "a.b", "/", ".", "a/", "b.", "/a", "//", n + "/x", "zz"}
			l := log4g.GetLogger(n)
			root := log4g.GetLogger("root")
			root.SetLevel(api.Info)
			rs := quietSpies("root")
			root.SetOutputs(toOutputs(rs))
			self := n
			if self == "" {
				self = "root"
			}
			try := append(append([]string{}, others...), ancestors(n)...)
			t := try[vs.Choose(len(try), 0, "logger changed")]
			vs.Note("   name %q, changed %q", n, t)
			x := log4g.GetLogger(t)
			x.SetLevel(api.Error)
			xs := quietSpies("changed")
			x.SetOutputs(toOutputs(xs))
			if t == "" {
				t = "root"
			}
			lvl, out := api.Info, "root"
			if cand[t] {
				lvl, out = api.Error, "changed"
			}
			obey(l, n, lvl, []string{out})
			obs("%q %q %v", n, t, lvl)
		}})
}
