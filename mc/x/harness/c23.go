//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
	"github.com/xtfly/log4g/verifx/vsyslog"
)

// tidy checks what is open and left over between the calls: of each of the
// rolling outputs' files cur (relative) at most one handle, on the current file.
func tidy(when string, cur ...string) {
	ns, fs := vos.Handles()
	seen := map[string]bool{}
	for i, n := range ns {
		ok := ""
		for _, c := range cur {
			if fi, err := os.Stat(fsRoot + "/" + c); err == nil && os.SameFile(fi, fs[i]) {
				ok = c
			}
		}
		switch {
		case ok == "":
			vs.Fail("%s (%s): %s is open, which is no output's current file; open: %v", when, vos.C.HitWhat, n, ns)
		case seen[ok]:
			vs.Fail("%s (%s): the current file %s is open twice; open: %v", when, vos.C.HitWhat, ok, ns)
		}
		seen[ok] = true
	}
}

// leftovers are the files that are none of the current files, backups or archives.
func leftovers(r *roller) (l []string) {
	filepath.Walk(fsRoot, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		n, _ := filepath.Rel(fsRoot, p)
		if n == r.dir+r.file {
			return nil
		}
		k := strings.TrimPrefix(n, r.dir)
		for _, x := range []string{"", ".gz", ".zip"} {
			if _, is := r.key(strings.TrimSuffix(k, x)); is && strings.HasSuffix(k, x) {
				return nil
			}
		}
		l = append(l, n)
		return nil
	})
	return
}

// warm has the library start what it starts once, and counts the goroutines.
func warm() int {
	log4g.GetManager()
	log4g.GetLogger("root").Info("warm")
	vs.WaitIdle()
	return vs.Alive()
}

func clean23(r *roller, when string) {
	tidy(when, r.dir+r.file)
	if strings.Contains(vos.C.HitWhat, "remove ") {
		return // the removal of a temporary file may have been what failed
	}
	if l := leftovers(r); len(l) > 0 {
		vs.Fail("%s (%s): left behind: %v", when, vos.C.HitWhat, l)
	}
}

// silent23 checks that nothing beyond the first n writes went to the terminal.
func silent23(n int, when string) {
	if out := append(vos.Console()[:len(vos.Console()):len(vos.Console())], vos.Errors()...); len(out) > n {
		vs.Fail("%s: written to standard output or error, where no output of the configuration writes and nothing has failed: %q", when, out)
	}
}

// closed23 is what must hold after a Close: none goroutines were there before.
func closed23(none int) {
	vs.WaitIdle()
	if ns, _ := vos.Handles(); len(ns) > 0 {
		vs.Fail("after Close %v is open", ns)
	}
	if k := vs.Alive(); k > none {
		vs.Fail("after Close there are %d goroutines, %d before the first configuration", k, none)
	}
	if n := vsyslog.Opened - vsyslog.Closed; n > 0 {
		vs.Fail("after Close %d connections to syslog are open", n)
	}
}

func history23(n int) func() {
	return func() {
		begin()
		r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f", limit: pick("limit", 2, 5), pattern: "2006-01-02", prefix: flip("prefix"), n: pick("backups", 1, 2), archive: pick("archive", "", "gzip", "zip")}
		async := flip("async")
		if async {
			r.extra = []string{"async", "true", "batch_num", "2"}
		}
		none := warm()
		said := len(vos.Console()) + len(vos.Errors())
		l := r.start()
		l.Info("a")
		vs.WaitIdle()
		steady := vs.Alive()
		closed := false
		for i := 0; i < n; i++ {
			what := ""
			switch vs.Choose(5, 0, "operation") {
			case 0:
				l.Info("b")
				what = "a record"
			case 1:
				vs.Advance(24 * time.Hour)
				l.WithFields(api.Field{Key: "k", Value: 1}).Infof("%s", "record")
				what = "a record in another period"
			case 2:
				must(log4g.GetManager().SetConfig(r.config()))
				what = "the same configuration again"
			case 3:
				log4g.GetLogger(fmt.Sprintf("x/%d", i)).Info("c")
				what = "a record of another logger"
			case 4:
				log4g.GetManager().Close()
				closed23(none)
				what, closed = "Close", true
			}
			vs.WaitIdle()
			clean23(r, "after "+what)
			silent23(said, "after "+what)
			if k := vs.Alive(); !closed && k != steady || closed && k > steady {
				vs.Fail("%s changed the number of goroutines: %d, before %d", what, k, steady)
			}
		}
		log4g.GetManager().Close()
		closed23(none)
		silent23(said, "after Close")
		escaped()
		obs("%d", len(tree()))
	}
}

func faults23(calls int, archives []string, ops string) func() {
	return func() {
		begin()
		f := c14start(archives, []int{1, 2})
		f.r.limit = 1
		l := f.r.start()
		none := warm()
		log := func(when string) {
			vs.Advance(24 * time.Hour)
			l.Info("record")
			clean23(f.r, when)
		}
		if flip("call before") {
			log("before the failures")
		}
		vos.C.Faults, vos.C.FaultOps = true, ops
		for i := 0; i < calls; i++ {
			log("during the failures")
		}
		if flip("close with failures") {
			log4g.GetManager().Close()
			tidy("after a Close with failures")
		}
		vos.C.Faults = false
		log("after the failures")
		log("after the failures")
		log4g.GetManager().Close()
		closed23(none)
		escaped()
		if vos.C.Hit > 0 {
			obs("%s", vos.C.HitWhat)
		}
	}
}

// confs23 are configurations to change between; all write to l/f or l/g.
func confs23() []*api.Config {
	fm := format("f", "%{msg}\n")
	f := func(kv ...string) api.CfgOutput {
		return output("size_rolling_file", "o", "f", append([]string{"file", fsRoot + "/l/f", "size", "3"}, kv...)...)
	}
	g := func(kv ...string) api.CfgOutput {
		return output("time_rolling_file", "p", "f", append([]string{"file", fsRoot + "/l/g", "pattern", "2006-01-02"}, kv...)...)
	}
	c := output("console", "c", "f", "async", "true")
	return []*api.Config{
		conf(fm, f(), logger("root", "all", "o")),
		conf(fm, f("async", "true"), g(), logger("root", "all", "p"), logger("a", "", "o")),
		conf(fm, g("async", "true", "batch_num", "1"), c, logger("root", "all", "c", "p")),
		conf(fm, c, output("syslog", "s", "f", "prefix", "x"), output("memory", "m", "f"), logger("root", "all", "c", "s", "m")),
		conf(format("f", "%{msg}+\n"), f("archive", "zip", "backups", "1"), g("async", "true", "batch_num", "1"), logger("root", "all", "o", "p")),
		conf(),
	}
}

func reload23(n int) func() {
	return func() {
		begin()
		cs := confs23()
		none := warm()
		for i := 0; i < n; i++ {
			must(log4g.GetManager().SetConfig(cs[vs.Choose(len(cs), 0, "configuration")]))
			if flip("log") {
				log4g.GetLogger("a").Info("x")
				log4g.GetLogger("root").Info("yy")
				if flip("next day") {
					vs.Advance(24 * time.Hour)
					log4g.GetLogger("a").Info("z")
				}
			}
			if flip("close") {
				log4g.GetManager().Close()
			}
		}
		log4g.GetManager().Close()
		closed23(none)
		escaped()
		obs("%d", len(tree()))
	}
}

func init() {
	drv.Levels["C23"] = drv.Level{Level: "model_checking",
		Rule: "all histories of records, rollovers, loads and Close up to the stated length, every set of up to N failing file operations (N is the bound), and all interleavings up to N preemptions; non-trivial: files were rolled or failures injected"}
	drv.Add(drv.Scenario{Prop: "C23", Name: "history", Quick: 0,
		Desc: "all histories of 4 operations of {record, record in another period, same configuration again, record of another logger, Close} on a rolling output of either kind, 2 limits, both name modes, backups 1 and 2, with and without archive, synchronous and asynchronous: after each of them open files, leftover files, goroutines and anything written to the terminal",
		Body: history23(4)})
	drv.Add(drv.Scenario{Prop: "C23", Name: "history-more", Quick: -1, Thorough: 0,
		Desc: "the same with 6 operations", Body: history23(6)})
	drv.Add(drv.Scenario{Prop: "C23", Name: "faults", Quick: 1, Thorough: 2,
		Desc: "one (thorough: two) failing file operations of any kind in 2 calls with a rollover each and in Close, with and without archive", Body: faults23(2, []string{"", "zip", "gzip"}, "")})
	drv.Add(drv.Scenario{Prop: "C23", Name: "obstructed", Quick: 0,
		Desc: "1..4 rollovers with something in the way: a directory (empty or not), link or file where the archive, its temporary directory, or the next backup belongs",
		Body: func() {
			begin()
			r := &roller{kind: pick("kind", "size", "time"), dir: "l/", file: "f", limit: 1, pattern: "2006-01-02", prefix: flip("prefix"), n: pick("backups", 1, 2), archive: pick("archive", "", "gzip", "zip")}
			none := warm()
			l := r.start()
			b := prior(r, 2)[0].key
			next := "9"
			if r.kind == "time" {
				next = vs.Now().Format(r.pattern)
			}
			ext := map[string]string{"": "", "gzip": ".gz", "zip": ".zip"}[r.archive]
			where := r.dir + pick("where", r.name(b)+ext, ".log4g_tmp", r.name(next), r.name(b)+ext+".tmp")
			how := pick("what", "directory", "full directory", "file", "link", "dangling link")
			made := []string{where}
			os.RemoveAll(fsRoot + "/" + where)
			switch how {
			case "directory":
				os.MkdirAll(fsRoot+"/"+where, 0777)
			case "full directory":
				os.MkdirAll(fsRoot+"/"+where, 0777)
				write(where+"/x", "x")
				made = append(made, where+"/x")
			case "file":
				write(where, "in the way")
			case "link":
				os.MkdirAll(fsRoot+"/d", 0777)
				os.Symlink(fsRoot+"/d", fsRoot+"/"+where)
			case "dangling link":
				os.Symlink(fsRoot+"/none", fsRoot+"/"+where)
			}
			for i, n := 0, 1+vs.Choose(4, 0, "rollovers"); i < n; i++ {
				l.Info("record")
				vs.Advance(24 * time.Hour)
				tidy("after a rollover", r.dir+r.file)
				for _, f := range leftovers(r) {
					known := false
					for _, m := range made {
						known = known || f == m
					}
					if !known {
						vs.Fail("%s at %s: left behind: %s", how, where, f)
					}
				}
			}
			log4g.GetManager().Close()
			closed23(none)
			escaped()
			obs("%s %s %v", how, where, len(tree()))
		}})
	drv.Add(drv.Scenario{Prop: "C23", Name: "config-file", Quick: 1, Thorough: 2,
		Desc: "LoadConfigFile of a valid, invalid, malformed, missing file or directory in both forms, with a failure of any file operation: no file stays open",
		Body: func() {
			begin()
			file := fsRoot + "/c." + pick("type", "yaml", "json", "txt")
			switch pick("content", "yaml", "json", "invalid", "malformed", "none", "directory") {
			case "yaml":
				write(filepath.Base(file), string(toYAML(confs23()[1])))
			case "json":
				write(filepath.Base(file), string(toJSON(confs23()[1])))
			case "invalid":
				write(filepath.Base(file), `{"loggers":[{"name":"a","outputs":["x"]}]}`)
			case "malformed":
				write(filepath.Base(file), `{"loggers":[`)
			case "directory":
				os.Mkdir(file, 0777)
			}
			vos.C.Faults = true
			err := log4g.GetManager().LoadConfigFile(file)
			vos.C.Faults = false
			tidy("after LoadConfigFile")
			obs("%v %s", err == nil, vos.C.HitWhat)
		}})
	drv.Add(drv.Scenario{Prop: "C23", Name: "reload", Quick: 0,
		Desc: "all sequences of 2 of 6 configurations, with records, rollovers and Close between them: after Close no file of any output, also of replaced ones, is open and no goroutine left",
		Body: reload23(2)})
	drv.Add(drv.Scenario{Prop: "C23", Name: "reload-more", Quick: -1, Thorough: 0,
		Desc: "the same with sequences of 3", Body: reload23(3)})
	drv.Add(drv.Scenario{Prop: "C23", Name: "threads", Quick: 0, Thorough: 1,
		Desc: "two goroutines log through two loggers while a third loads another configuration or closes the manager; afterwards Close: nothing is open or left",
		Body: func() {
			begin()
			cs := confs23()
			none := warm()
			must(log4g.GetManager().SetConfig(cs[1]))
			to := vs.Choose(len(cs)+1, 0, "then")
			vs.Spawn("a", func() { log4g.GetLogger("a").Info("aaa"); log4g.GetLogger("a").Info("b") })
			vs.Spawn("root", func() { log4g.GetLogger("root").Info("x") })
			vs.Spawn("load", func() {
				if to == len(cs) {
					log4g.GetManager().Close()
					return
				}
				must(log4g.GetManager().SetConfig(cs[to]))
				log4g.GetLogger("b").Info("y")
			})
			vs.JoinAll()
			log4g.GetManager().Close()
			closed23(none)
			obs("%d %d", to, len(tree()))
		}})
}
