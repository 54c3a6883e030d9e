//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
	"gopkg.in/yaml.v2"
)

// invalid is the documented reason to reject a configuration, "" for a valid one.
func invalid(c *api.Config) string {
	fs, os, ls := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, f := range c.Formats {
		if fs[f["name"]] {
			return "duplicate format " + f["name"]
		}
		fs[f["name"]] = true
	}
	for _, o := range c.Outputs {
		if os[o["name"]] {
			return "duplicate output " + o["name"]
		}
		os[o["name"]] = true
		if !fs[o["format"]] {
			return "unknown format " + o["format"]
		}
	}
	for _, l := range c.Loggers {
		if ls[l.Name] {
			return "duplicate logger " + l.Name
		}
		ls[l.Name] = true
		for _, n := range l.OutputNames {
			if !os[n] {
				return "unknown output " + n
			}
		}
	}
	return ""
}

var c08names = []string{"root", "a", "a/b", "z"}

// presc with the built-in root of a configuration without root logger
func presc8(c *api.Config, nm []string) string {
	if c.GetCfgLogger("root") != nil {
		return presc(c, nm)
	}
	var b strings.Builder
	for _, n := range nm {
		lvl, outs := prescribed(c, n)
		if lvl == api.Uninitialized {
			lvl = api.Debug
		}
		fmt.Fprintf(&b, "%s:", n)
		for _, q := range levels {
			d := []string{}
			if outs == nil && q >= lvl {
				d = append(d, "console=default layout "+n+": P\n")
			}
			for _, o := range outs {
				oc := c.GetCfgOutput(o)
				lay := c.GetCfgFormat(oc.FormatName())["layout"]
				r := strings.NewReplacer("%{msg}", "P", "%{level}", levelNames[q], "%{module}", n)
				if q >= lvl {
					d = append(d, o+"/"+oc["v"]+"="+r.Replace(lay))
				}
			}
			fmt.Fprintf(&b, "%v%q", q >= lvl, d)
		}
		fmt.Fprintf(&b, " lvl=%v\n", lvl)
	}
	return b.String()
}

func baseline8() *api.Config {
	return conf(format("f", "base %{msg}"), format("g", "gbase %{level}"), output("spy", "o", "f", "v", "base"), output("spy", "q", "g", "v", "base"),
		logger("root", "info", "o"), logger("a", "warn", "q", "o"), logger("z", "", "q"))
}

// apply loads c in the given form and returns what the load returned.
func apply(c *api.Config, form int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprintf("%T", r) == "vs.failPanic" {
				panic(r)
			}
			vs.Fail("loading panicked: %v", r)
		}
	}()
	switch form {
	case 0:
		return log4g.GetManager().SetConfig(c)
	case 1:
		return log4g.GetManager().LoadConfig(toJSON(c), "json")
	}
	return log4g.GetManager().LoadConfig(toYAML(c), "yaml")
}

func lookup(nm []string) map[string]api.Logger {
	ls := map[string]api.Logger{}
	for _, n := range nm {
		ls[n] = lookupLogger(n)
	}
	return ls
}

// loadBody loads the baseline, then the candidate; judge says what must follow.
// Loggers "a" and "root" exist before, the others are looked up afterwards.
func loadBody(try func() error, cand *api.Config, mustFail string, mustAccept, judge bool) {
	base := baseline8()
	must(log4g.GetManager().SetConfig(base))
	log4g.GetLogger("root")
	log4g.GetLogger("a")
	n := len(taggedAll)
	before := inst("o")
	err := try()
	switch {
	case mustFail != "" && err == nil:
		vs.Fail("accepted although it has: %s", mustFail)
	case mustAccept && err != nil:
		vs.Fail("a valid configuration was rejected: %v", err)
	}
	if err != nil {
		if len(taggedAll) != n {
			vs.Fail("a rejected configuration created outputs")
		}
		if inst("o") != before {
			vs.Fail("a rejected configuration replaced an output")
		}
		if have, want := probe(lookup(c08names), c08names), presc8(base, c08names); have != want {
			vs.Fail("after the rejected configuration (%v) the previous one is not in force: %s", err, diffLine(have, want))
		}
		obs("rejected")
		return
	}
	if judge {
		if have, want := probe(lookup(c08names), c08names), presc8(cand, c08names); have != want {
			vs.Fail("the accepted configuration has not the prescribed effect: %s", diffLine(have, want))
		}
		obs("accepted")
	}
}

func seqs(what string, n, l int) []int {
	var s []int
	k := vs.Choose(l+1, 0, what+" count")
	for i := 0; i < k; i++ {
		s = append(s, vs.Choose(n, 0, fmt.Sprintf("%s %d", what, i)))
	}
	return s
}

func candidate(maxF, maxO, maxL int) *api.Config {
	c := conf()
	for i, k := range seqs("formats", 2, maxF) {
		c.Formats = append(c.Formats, format([]string{"f", "g"}[k], fmt.Sprintf("%d %%{level} %%{msg}", i)))
	}
	for i, k := range seqs("outputs", 6, maxO) {
		c.Outputs = append(c.Outputs, output("spy", []string{"o", "p"}[k/3], []string{"f", "g", "x"}[k%3], "v", fmt.Sprint(i)))
	}
	lists := [][]string{nil, {"o"}, {"p"}, {"o", "p"}, {"x"}}
	for i, k := range seqs("loggers", 10, maxL) {
		c.Loggers = append(c.Loggers, logger([]string{"root", "a"}[k/5], []string{"debug", "error", ""}[i%3], lists[k%5]...))
	}
	return c
}

// the document whose mutations are explored
func doc8() *api.Config {
	return conf(format("f", "new %{msg}"), format("g", "gnew %{level}"), output("spy", "o", "f", "v", "new"), output("spy", "p", "g", "v", "new"),
		logger("root", "error", "p"), logger("a", "info", "o", "p"))
}

// parsed judges text: whether it must be rejected, must be accepted, and whether
// its effect is known.
func parsed(text []byte, typ string) (c *api.Config, reject string, accept, judge bool) {
	c = &api.Config{}
	var err, serr error
	if typ == "json" {
		err = json.Unmarshal(text, c)
		d := json.NewDecoder(bytes.NewReader(text))
		d.DisallowUnknownFields()
		serr = d.Decode(&api.Config{})
	} else {
		err = yaml.Unmarshal(text, c)
		serr = yaml.UnmarshalStrict(text, &api.Config{})
	}
	if err != nil {
		return c, "text that is not well-formed: " + err.Error(), false, false
	}
	if reject = invalid(c); reject != "" {
		return c, reject, false, false
	}
	accept = serr == nil
	for _, f := range c.Formats {
		accept = accept && f["type"] == "text"
	}
	for _, o := range c.Outputs {
		accept = accept && o["type"] == "spy"
	}
	judge = accept
	for _, f := range c.Formats {
		judge = judge && (f["layout"] == "new %{msg}" || f["layout"] == "gnew %{level}")
	}
	for _, l := range c.Loggers {
		judge = judge && (l.Name == "root" || l.Name == "a") && (l.Level != "" && parseLevel(strings.ToUpper(l.Level)) != api.Uninitialized)
	}
	return
}

func init() {
	drv.Add(drv.Scenario{Prop: "C08", Name: "structure", Quick: 0,
		Desc: "all configurations of up to 2 formats of {f,g}, up to 2 outputs of {o,p} naming {f,g,undefined}, up to 2 loggers of {root,a} with 5 output lists, in all 3 forms, over a loaded baseline; validity by an independent reference",
		Body: func() {
			begin()
			useTagged(true)
			c := candidate(2, 2, 2)
			form := vs.Choose(3, 0, "form")
			why := invalid(c)
			vs.Note("   %s", show1(c))
			loadBody(func() error { return apply(c, form) }, c, why, why == "", true)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "structure3", Quick: -1, Thorough: 0,
		Desc: "the same with up to 3 formats, 3 outputs and 3 loggers, programmatic form",
		Body: func() {
			begin()
			useTagged(true)
			c := candidate(3, 3, 3)
			why := invalid(c)
			loadBody(func() error { return apply(c, 0) }, c, why, why == "", true)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "position", Quick: 0,
		Desc: "a fault of each kind at each position of a list of 1..6 entries (duplicates of any earlier entry, unknown references at any place of an output list)",
		Body: func() {
			begin()
			useTagged(true)
			n := 1 + vs.Choose(6, 0, "entries")
			c := conf()
			nm := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
			for i := 0; i < n; i++ {
				c.Formats = append(c.Formats, format(nm("f", i), fmt.Sprintf("%d %%{msg}", i)))
			}
			for i := 0; i < n; i++ {
				c.Outputs = append(c.Outputs, output("spy", nm("o", i), nm("f", (i+1)%n), "v", fmt.Sprint(i)))
			}
			var all []string
			for i := 0; i < n; i++ {
				all = append(all, nm("o", i))
				l := logger([]string{"root", "a", "a/b", "b", "c", "d"}[i], "info", append([]string{}, all...)...)
				c.Loggers = append(c.Loggers, l)
			}
			at := vs.Choose(n, 0, "position")
			switch vs.Choose(6, 0, "fault") {
			case 1:
				c.Formats[at]["name"] = c.Formats[vs.Choose(n, 0, "of")]["name"]
			case 2:
				c.Outputs[at]["name"] = c.Outputs[vs.Choose(n, 0, "of")]["name"]
			case 3:
				c.Loggers[at].Name = c.Loggers[vs.Choose(n, 0, "of")].Name
			case 4:
				c.Outputs[at]["format"] = "none"
			case 5:
				c.Loggers[at].OutputNames[vs.Choose(at+1, 0, "place")] = "none"
			}
			form := vs.Choose(3, 0, "form")
			why := invalid(c)
			loadBody(func() error { return apply(c, form) }, c, why, why == "", true)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "large", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "configurations of 20, 65 or 300 formats, outputs and loggers, faultless or with one fault of each kind at the first, a middle or the last place",
		Body: func() {
			begin()
			useTagged(true)
			n := pick("entries", 20, 65, 300)
			c := conf()
			nm := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
			for i := 0; i < n; i++ {
				c.Formats = append(c.Formats, format(nm("f", i), fmt.Sprintf("%d %%{msg}", i)))
				c.Outputs = append(c.Outputs, output("spy", nm("o", i), nm("f", (i+1)%n), "v", fmt.Sprint(i)))
				c.Loggers = append(c.Loggers, logger(nm("l/", i), "info", nm("o", i), nm("o", (i+7)%n)))
			}
			c.Loggers[0].Name = "root"
			for i := 0; i < n; i++ { // one logger with every output
				c.Loggers[n/2].OutputNames = append(c.Loggers[n/2].OutputNames, nm("o", i))
			}
			places := []int{0, n / 2, n - 1}
			at := places[vs.Choose(3, 0, "position")]
			of := places[vs.Choose(3, 0, "of")]
			switch vs.Choose(6, 0, "fault") {
			case 1:
				c.Formats[at]["name"] = c.Formats[of]["name"]
			case 2:
				c.Outputs[at]["name"] = c.Outputs[of]["name"]
			case 3:
				c.Loggers[at].Name = c.Loggers[of].Name
			case 4:
				c.Outputs[at]["format"] = "none"
			case 5:
				l := c.Loggers[at].OutputNames
				l[len(l)-1] = "none"
			}
			form := vs.Choose(3, 0, "form")
			why := invalid(c)
			loadBody(func() error { return apply(c, form) }, c, why, why == "", true)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "text", Quick: 0,
		Desc: "a valid document in JSON and YAML: every truncation, every deletion of a byte, every replacement and insertion of a byte by one of 16 structural characters; well-formedness decided by the parser library itself, validity by the reference",
		Body: func() {
			begin()
			useTagged(true)
			typ := []string{"json", "yaml", "yml"}[vs.Choose(3, 0, "type")]
			text := toYAML(doc8())
			if typ == "json" {
				text = toJSON(doc8())
			}
			const chars = "\"{}[],:- \n\tx'\\#&*\x00\xff"
			switch vs.Choose(4, 0, "mutation") {
			case 0:
				text = text[:vs.Choose(len(text)+1, 0, "length")]
			case 1:
				i := vs.Choose(len(text), 0, "delete")
				text = append(append([]byte{}, text[:i]...), text[i+1:]...)
			case 2:
				i := vs.Choose(len(text), 0, "replace")
				text = append([]byte{}, text...)
				text[i] = chars[vs.Choose(len(chars), 0, "by")]
			case 3:
				i := vs.Choose(len(text)+1, 0, "insert before")
				k := vs.Choose(len(chars), 0, "what")
				text = append(append(append([]byte{}, text[:i]...), chars[k]), text[i:]...)
			}
			c, why, accept, judge := parsed(text, typ)
			if vs.Verbose() {
				vs.Note("   %s: %q", typ, text)
			}
			loadBody(func() error { return log4g.GetManager().LoadConfig(text, typ) }, c, why, accept, judge)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "file", Quick: 1, Thorough: 2,
		Desc: "LoadConfigFile: every kind of path (12 extensions, missing, directory, empty, relative, hidden), contents valid or not, with a failure of any file operation",
		Body: func() {
			begin()
			useTagged(true)
			ext := []string{".yaml", ".yml", ".json", ".YAML", ".Yml", ".JSON", "", ".", ".txt", ".xml", ".yamlx", ".json.bak"}[vs.Choose(12, 0, "extension")]
			typ := strings.ToLower(strings.TrimPrefix(ext, "."))
			known := typ == "yaml" || typ == "yml" || typ == "json"
			file := []string{fsRoot + "/cfg", "cfg", "./d.json/cfg", fsRoot + "/.d/cfg", ".cfg", "d.yaml/../cfg"}[vs.Choose(6, 0, "path")] + ext
			os.MkdirAll("d.json", 0777)
			os.MkdirAll("d.yaml", 0777)
			os.MkdirAll(".d", 0777)
			content := vs.Choose(7, 0, "content")
			var text []byte
			missing := ""
			switch content {
			case 0: // of the type the name says
				text = toYAML(doc8())
				if typ == "json" {
					text = toJSON(doc8())
				}
			case 1: // JSON always
				text = toJSON(doc8())
			case 2:
				text = toYAML(doc8())
			case 3:
				text = []byte("formats: [")
			case 4:
				text = nil
			case 5:
				missing = "an unreadable file (it does not exist)"
			case 6:
				missing = "an unreadable file (a directory)"
				os.Mkdir(file, 0777)
			}
			if missing == "" {
				if err := os.WriteFile(file, text, 0666); err != nil {
					panic(err)
				}
			}
			c, why, accept, judge := parsed(text, typ)
			if !known {
				why = "an unsupported or missing file type"
			}
			if missing != "" {
				why = missing
			}
			if typ == "yml" || typ == "yaml" {
				// every JSON text of ours is YAML too, but this is no claim of the documentation
				if content == 1 {
					accept, judge = false, false
				}
			}
			// one operation may fail: the file is then unreadable
			loadBody(func() error {
				vos.C.Faults, vos.C.FaultOps = true, "open read fstat stat"
				err := log4g.GetManager().LoadConfigFile(file)
				vos.C.Faults = false
				if vos.C.Hit > 0 && err == nil && (strings.Contains(vos.C.HitWhat, "open") || strings.Contains(vos.C.HitWhat, "read")) {
					vs.Fail("accepted although the file could not be read (%s)", vos.C.HitWhat)
				}
				if vos.C.Hit > 0 {
					accept = false
				}
				if err != nil && accept && why == "" {
					vs.Fail("a valid configuration file %s was rejected: %v", file, err)
				}
				return err
			}, c, why, false, judge)
			obs("%s %d", ext, content)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "bytes", Quick: 0,
		Desc: "LoadConfig with every type string of 20 (supported ones in all cases, others) and contents valid, malformed, empty; nil configuration lists",
		Body: func() {
			begin()
			useTagged(true)
			typ := []string{"yaml", "yml", "json", "YAML", "Yml", "JSON", "jSon", "", ".", ".yaml", ".json", "txt", "toml", "xml", "yamlx", "y", "js", " json", "json ", "yaml\x00"}[vs.Choose(20, 0, "type")]
			low := strings.ToLower(typ)
			var text []byte
			switch vs.Choose(6, 0, "content") {
			case 0:
				text = toYAML(doc8())
				if low == "json" {
					text = toJSON(doc8())
				}
			case 1:
				text = []byte("{")
			case 2:
				text = []byte("\t- x")
			case 3:
				text = nil
			case 4:
				text = []byte("{}")
			case 5:
				text = []byte("{\"formats\":null,\"outputs\":[],\"loggers\":null}")
			}
			c, why, accept, judge := parsed(text, low)
			if low != "yaml" && low != "yml" && low != "json" {
				why, accept = "an unsupported or missing file type", false
				if strings.TrimLeft(strings.TrimSpace(low), ".") != low {
					why = "" // not clearly unsupported
				}
			}
			loadBody(func() error { return log4g.GetManager().LoadConfig(text, typ) }, c, why, accept, judge)
		}})
	drv.Add(drv.Scenario{Prop: "C08", Name: "reused", Quick: 0,
		Desc: "one Config object loaded, changed in place by one of 18 valid or invalid edits and loaded again, three times, with loggers looked up before, between and after: a refused load has no effect, though the object is the one in force",
		Body: func() { reuseBody(3) }})
	drv.Add(drv.Scenario{Prop: "C08", Name: "reused-more", Quick: -1, Thorough: 0,
		Desc: "the same with four loads",
		Body: func() { reuseBody(4) }})
}

// inPlace are edits of the baseline object, which keeps its lists and maps.
var inPlace = []func(c *api.Config){
	func(c *api.Config) { c.Formats[0]["layout"] = "changed %{msg}" },
	func(c *api.Config) { c.Formats[1]["name"] = c.Formats[0]["name"] },
	func(c *api.Config) { c.Formats[0]["name"] = "h" },
	func(c *api.Config) { c.Formats = append(c.Formats, format("f", "second %{msg}")) },
	func(c *api.Config) { c.Formats[0], c.Formats[1] = c.Formats[1], c.Formats[0] },
	func(c *api.Config) { c.Outputs[0]["v"] = "changed" },
	func(c *api.Config) { c.Outputs[1]["format"] = "none" },
	func(c *api.Config) { c.Outputs[1]["name"] = c.Outputs[0]["name"] },
	func(c *api.Config) { c.Outputs[0]["name"] = "p" },
	func(c *api.Config) {
		c.Outputs[0]["format"], c.Outputs[1]["format"] = c.Outputs[1]["format"], c.Outputs[0]["format"]
	},
	func(c *api.Config) { delete(c.Outputs[1], "format") },
	func(c *api.Config) { c.Loggers[1].Level = "error" },
	func(c *api.Config) { c.Loggers[2].OutputNames[0] = "none" },
	func(c *api.Config) { c.Loggers[2].Name = c.Loggers[1].Name },
	func(c *api.Config) { c.Loggers[1].OutputNames = c.Loggers[1].OutputNames[:1] },
	func(c *api.Config) { c.Loggers[2].Name, c.Loggers[1].Name = c.Loggers[1].Name, c.Loggers[2].Name },
	func(c *api.Config) { c.Loggers = append(c.Loggers, logger("a", "debug", "o")) },
	func(c *api.Config) { *c = *baseline8() },
}

func deep(c *api.Config) *api.Config {
	d := &api.Config{}
	must(json.Unmarshal(toJSON(c), d))
	return d
}

func reuseBody(n int) {
	begin()
	useTagged(true)
	c := baseline8()
	must(log4g.GetManager().SetConfig(c))
	log4g.GetLogger("root")
	log4g.GetLogger("a")
	force := deep(c)
	for i := 0; i < n; i++ {
		k := vs.Choose(len(inPlace), 0, "edit")
		inPlace[k](c)
		why := invalid(c)
		err := log4g.GetManager().SetConfig(c)
		switch {
		case why != "" && err == nil:
			vs.Fail("accepted although it has: %s", why)
		case why == "" && err != nil:
			vs.Fail("a valid configuration was rejected: %v", err)
		case err == nil:
			force = deep(c)
		}
		obs("%v ", err == nil)
		nm := c08names[:2]
		if vs.Choose(2, 0, "look up") == 1 || i == n-1 {
			nm = c08names
		}
		if have, want := probe(lookup(nm), nm), presc8(force, nm); have != want {
			vs.Fail("after %d loads of one object, the last of them refused: %v, something else is in force than what was accepted last: %s", i+1, err != nil, diffLine(have, want))
		}
	}
}
