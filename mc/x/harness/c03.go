//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// streams reads back everything an output kind wrote, in order.
func stream(kind string) string {
	switch kind {
	case "memory":
		return fmt.Sprint(outputsOf("root")[0])
	case "console":
		return console()
	}
	return rolled(fsRoot+"/log", "f.log", false)
}

// rolled concatenates the backups in order and the current file.
func rolled(dir, file string, prefix bool) string {
	m := map[string]string{}
	walk(dir, "", m)
	type b struct {
		key  string
		text string
	}
	var l []b
	for n, c := range m {
		t := strings.TrimPrefix(n, file+".")
		if prefix {
			t = strings.TrimSuffix(n, "."+file)
		}
		if n == file || t == n {
			continue
		}
		if k, err := strconv.Atoi(t); err == nil {
			t = fmt.Sprintf("%09d", k)
		}
		l = append(l, b{t, c})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].key < l[j].key })
	s := ""
	for _, x := range l {
		s += x.text
	}
	return s + m[file]
}

// interleaved checks that have consists of all records of all threads, whole
// and in each thread's order; want[t] lists the records of thread t. Records in
// optional may be missing.
func interleaved(have string, want [][]string, optional map[string]bool) {
	next := make([]int, len(want))
	seen := map[string]bool{}
	rest := have
outer:
	for rest != "" {
		for t := range want {
			for k := next[t]; k < len(want[t]); k++ {
				r := want[t][k]
				if strings.HasPrefix(rest, r) && !seen[r] {
					for j := next[t]; j < k; j++ {
						if !optional[want[t][j]] {
							vs.Fail("record %q comes before %q of the same goroutine, or the latter is missing; stream %q", r, want[t][j], have)
						}
					}
					next[t] = k + 1
					seen[r] = true
					rest = rest[len(r):]
					continue outer
				}
			}
		}
		vs.Fail("stream %q: %q is no whole record in order (a record is torn, duplicated or out of order)", have, rest)
	}
	for t := range want {
		for _, r := range want[t] {
			if !seen[r] && !optional[r] {
				vs.Fail("record %q is missing in %q", r, have)
			}
		}
	}
}

func kindOutput(kind string, kv ...string) api.CfgOutput {
	switch kind {
	case "memory", "console":
		return output(kind, "o", "f", kv...)
	case "size":
		return output("size_rolling_file", "o", "f", append([]string{"file", fsRoot + "/log/f.log", "backups", "20"}, kv...)...)
	}
	return output("time_rolling_file", "o", "f", append([]string{"file", fsRoot + "/log/f.log", "backups", "20", "pattern", "20060102150405"}, kv...)...)
}

type conc struct {
	kind    string
	async   bool
	queue   string
	batch   string
	size    string
	threads int
	recs    int
	adv     bool // the clock advances concurrently
	sched   bool
	fields  bool
	big     int // length of the filler in every message
}

// whole checks that every file begins and ends with a record.
func whole() {
	m := map[string]string{}
	walk(fsRoot+"/log", "", m)
	for n, c := range m {
		if c != "" && (c[0] != '<' || !strings.HasSuffix(c, ">\n")) {
			vs.Fail("file %s does not consist of whole records: %q", n, clip(c))
		}
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:100] + "..." + s[len(s)-90:]
	}
	return s
}

func (c conc) body() {
	begin()
	kv := []string{}
	if c.async {
		kv = append(kv, "async", "true", "queue_size", c.queue, "batch_num", c.batch)
	}
	if c.kind == "size" {
		kv = append(kv, "size", c.size)
	}
	must(log4g.GetManager().SetConfig(conf(format("f", "<%{module}|%{level}|%{msg}|%{k}>\n"), kindOutput(c.kind, kv...),
		logger("root", "all", "o"), logger("b", "all", "o"))))
	loggers := []api.Logger{log4g.GetLogger("a/x"), log4g.GetLogger("b")}
	nm := []string{"a/x", "b"}
	want := make([][]string, c.threads)
	vs.WaitIdle()
	vos.C.Sched = c.sched
	for t := 0; t < c.threads; t++ {
		t := t
		for k := 0; k < c.recs; k++ {
			text := fmt.Sprintf("t%dr%d", t, k)
			if k == 1 || c.big > 0 { // a message of several lines
				text += "\n" + strings.Repeat(string(rune('a'+t)), c.big)
			}
			want[t] = append(want[t], fmt.Sprintf("<%s|INFO|%s|v%d>\n", nm[t%2], text, t))
		}
		value := fmt.Sprintf("v%d", t)
		odd := fmt.Sprintf("t%dr1\n", t) + strings.Repeat(string(rune('a'+t)), c.big)
		even := "t%dr%d"
		if c.big > 0 {
			even += "\n" + strings.Repeat(string(rune('a'+t)), c.big)
		}
		vs.Spawn(fmt.Sprintf("log%d", t), func() {
			w := loggers[t%2].WithFields(api.Field{Key: "k", Value: value})
			for k := 0; k < c.recs; k++ {
				if k != 1 {
					w.Infof(even, t, k)
				} else {
					w.Info(odd)
				}
			}
		})
	}
	if c.adv {
		vs.Spawn("clock", func() {
			vs.Point("clock")
			vs.Advance(time.Second)
			vs.Point("clock")
			vs.Advance(time.Second)
		})
	}
	vs.JoinAll()
	vos.C.Sched = false
	if c.async {
		log4g.GetManager().Close()
	}
	got := stream(c.kind)
	interleaved(got, want, nil)
	whole()
	escaped()
	if c.big > 0 {
		got = fmt.Sprint(len(got), got[:30])
	}
	obs("%s", strings.ReplaceAll(got, "\n", ""))
}

func init() {
	add := func(name, desc string, q, th int, c conc) {
		drv.Add(drv.Scenario{Prop: "C03", Name: name, Desc: desc, Race: true, Quick: q, Thorough: th, Body: c.body})
	}
	add("memory", "2 goroutines x 2 records into one memory output", 2, 4, conc{kind: "memory", threads: 2, recs: 2})
	add("console", "2 goroutines x 2 records to the console, writes are scheduling points", 2, 4, conc{kind: "console", threads: 2, recs: 2, sched: true})
	add("size", "2 goroutines x 2 records into a size-rolling file that rolls after every record", 2, 3, conc{kind: "size", size: "1", threads: 2, recs: 2})
	add("size-fs", "the same with every file operation a scheduling point", 1, 2, conc{kind: "size", size: "25", threads: 2, recs: 2, sched: true})
	add("size-mid", "rolls after two records", 2, 3, conc{kind: "size", size: "30", threads: 2, recs: 2})
	add("time", "2 goroutines x 2 records into a time-rolling file while the clock advances two periods", 2, 3, conc{kind: "time", threads: 2, recs: 2, adv: true})
	add("time-fs", "the same with every file operation a scheduling point", 1, 2, conc{kind: "time", threads: 2, recs: 1, adv: true, sched: true})
	add("async-console", "asynchronous console, queue 1, batch 2", 2, 3, conc{kind: "console", async: true, queue: "1", batch: "2", threads: 2, recs: 2})
	add("async-size", "asynchronous size-rolling file, queue 2, batch 1", 2, 3, conc{kind: "size", size: "1", async: true, queue: "2", batch: "1", threads: 2, recs: 2})
	add("async-time", "asynchronous time-rolling file with advancing clock", 1, 2, conc{kind: "time", adv: true, async: true, queue: "1", batch: "1", threads: 2, recs: 1})
	add("size-big", "2 goroutines x 1 record of 70000 bytes in two lines into a size-rolling file", 2, 3, conc{kind: "size", size: "1", threads: 2, recs: 1, big: 70000, sched: true})
	add("console-big", "2 goroutines x 1 record of 70000 bytes in two lines to the console", 2, 3, conc{kind: "console", threads: 2, recs: 1, big: 70000, sched: true})
	add("three-memory", "3 goroutines x 1 record into memory", 2, 3, conc{kind: "memory", threads: 3, recs: 1})
	add("three-size", "3 goroutines x 1 record into a size-rolling file", 2, 3, conc{kind: "size", size: "1", threads: 3, recs: 1})
	add("three-async", "3 goroutines x 1 record, asynchronous console, queue 1", 1, 2, conc{kind: "console", async: true, queue: "1", batch: "500", threads: 3, recs: 1})
}
