//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// stat lists the regular files below the scratch directory: path -> size, mode.
func statAll() map[string]os.FileInfo {
	m := map[string]os.FileInfo{}
	filepath.Walk(fsRoot, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			if r, _ := filepath.Rel(fsRoot, p); r != "." {
				m[r] = fi
			}
		}
		return nil
	})
	return m
}

func fileNames(m map[string]os.FileInfo) []string {
	var l []string
	for n, fi := range m {
		if !fi.IsDir() {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// sparse makes a file of the given size.
func sparse(name string, size int64) {
	write(name, "")
	if err := os.Truncate(filepath.Join(fsRoot, name), size); err != nil {
		panic(err)
	}
	os.Chtimes(filepath.Join(fsRoot, name), vs.Now(), vs.Now())
}

const (
	kb = int64(1024)
	mb = 1024 * kb
	gb = 1024 * mb
)

type sizeVal struct {
	text  string
	bytes int64
}

func sizeValues() []sizeVal {
	l := []sizeVal{}
	for _, n := range []int64{1, 2, 3, 7, 10, 63, 99, 100, 512, 1000, 1023, 1024, 4096, 65536, 999999, 10485759, 10485761} {
		l = append(l, sizeVal{fmt.Sprint(n), n})
	}
	for _, n := range []int64{1, 2, 3, 5, 9, 10, 11, 16, 99, 100, 1000, 1024, 2048} {
		l = append(l, sizeVal{fmt.Sprint(n) + "K", n * kb}, sizeVal{fmt.Sprint(n) + "M", n * mb})
	}
	for _, n := range []int64{1, 2, 3, 4, 7, 8, 100} {
		l = append(l, sizeVal{fmt.Sprint(n) + "G", n * gb})
	}
	for _, s := range []string{"-", "", "0", "-1", "-100", "abc", "x1", "1x", "K", "M", "0K", "0M", "-1K", "-2M", "aK", "bM", "1.5M", "0.5K", "ten", "1 0", " ", "1KK"} {
		l = append(l, sizeVal{s, 10 * mb})
	}
	return l
}

func c09type(kind string) (string, string) {
	if kind == "size" {
		return "size_rolling_file", ""
	}
	return "time_rolling_file", "2006"
}

type intVal struct {
	text string
	n    int
}

func backupsValues() []intVal {
	var l []intVal
	for i := 1; i <= 20; i++ {
		l = append(l, intVal{fmt.Sprint(i), i})
	}
	for _, s := range []string{"21", "22", "25", "99", "100", "1000000"} {
		l = append(l, intVal{s, 20})
	}
	for _, s := range []string{"-", "", "0", "-1", "-20", "abc", "5x", "x5", "1.5", "five", " "} {
		l = append(l, intVal{s, 5})
	}
	return l
}

func chunks() []int {
	var l []int
	for _, s := range vos.Console() {
		l = append(l, strings.Count(s, "\n"))
	}
	return l
}

func init() {
	drv.Add(drv.Scenario{Prop: "C09", Name: "size", Quick: 0,
		Desc: "71 size values (plain, K, M, G, and missing, zero, negative, non-numeric ones) with a file left just below or at the limit: a record is appended or the file becomes a backup",
		Body: func() {
			begin()
			v := pick("size", sizeValues()...)
			at := flip("at the limit")
			n := v.bytes - 1
			if at {
				n = v.bytes
			}
			sparse("l/f", n)
			must(log4g.GetManager().SetConfig(one(output("size_rolling_file", "o", "f", "file", fsRoot+"/l/f", "size", v.text))))
			log4g.GetLogger("root").Info("x")
			m := statAll()
			b, c := m["l/f.1"], m["l/f"]
			if at && (b == nil || b.Size() != n || c == nil || c.Size() != 2) {
				vs.Fail("size %q means %d bytes, but a file of %d bytes did not become a backup before a record was appended: %v", v.text, v.bytes, n, fileNames(m))
			}
			if !at && (b != nil || c == nil || c.Size() != n+2) {
				vs.Fail("size %q means %d bytes, but a record was not appended to a file of %d bytes: %v", v.text, v.bytes, n, fileNames(m))
			}
			obs("%s %v", v.text, at)
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "size-huge", Quick: 0,
		Desc: "14 size values around and beyond what 64 bits can count, with a file of up to 5 GB left: nothing is rolled",
		Body: func() {
			begin()
			v := pick("size", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999", "9007199254740991K", "9007199254740992K", "18014398509481985K", "99999999999999999999K",
				"8796093022208M", "17592186044417M", "99999999999999999999M", "8589934592G", "17179869185G", "99999999999999999999G")
			n := pick("bytes in the file", 0, 1, kb, 10*mb, gb, 5*gb)
			if n > 0 {
				sparse("l/f", n)
			}
			must(log4g.GetManager().SetConfig(one(output("size_rolling_file", "o", "f", "file", fsRoot+"/l/f", "size", v))))
			log4g.GetLogger("root").Info("x")
			log4g.GetLogger("root").Info("y")
			m := statAll()
			if c := m["l/f"]; len(m) != 2 || c == nil || c.Size() != n+4 {
				vs.Fail("size %q, a file of %d bytes and two records of 2: %v", v, n, fileNames(m))
			}
			obs("%s", v)
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "size-grow", Quick: 0, Opts: vs.Options{StepLimit: 200000},
		Desc: "sizes 1..40 grown by records of 1, 2, 3 and 7 bytes: every backup has reached the limit with its last record only",
		Body: func() {
			begin()
			size := 1 + vs.Choose(40, 0, "size")
			rec := pick("record", "", "1", "22", "666666")
			must(log4g.GetManager().SetConfig(one(output("size_rolling_file", "o", "f", "file", fsRoot+"/l/f", "size", fmt.Sprint(size), "backups", "20"))))
			l := log4g.GetLogger("root")
			for i := 0; i < 60; i++ {
				l.Info(rec)
				l.Infof("%s", rec)
			}
			for n, fi := range statAll() {
				if strings.HasPrefix(n, "l/f.") && (fi.Size() < int64(size) || fi.Size() >= int64(size+len(rec)+1)) {
					vs.Fail("backup %s of %d bytes with size=%d", n, fi.Size(), size)
				}
			}
			obs("%d", len(statAll()))
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "backups", Quick: 0,
		Desc: "every backups value 1..20, 6 larger ones, 11 invalid or missing ones; size and time rolling, both name modes, 25 backups present",
		Body: func() {
			begin()
			kind := pick("kind", "size", "time")
			v := pick("backups", backupsValues()...)
			prefix := flip("prefix")
			typ, pattern := c09type(kind)
			nm := func(i int) string {
				k := fmt.Sprint(i)
				if kind == "time" {
					k = fmt.Sprint(1990 + i)
				}
				if prefix {
					return k + ".f"
				}
				return "f." + k
			}
			mode := "postfix"
			if prefix {
				mode = "prefix"
			}
			for i := 1; i <= 25; i++ {
				write("l/"+nm(i), fmt.Sprint(i))
			}
			write("l/f", "26")
			if kind == "time" {
				t := time.Date(1990+26, 5, 5, 0, 0, 0, 0, time.Local)
				os.Chtimes(fsRoot+"/l/f", t, t)
			}
			must(log4g.GetManager().SetConfig(one(output(typ, "o", "f", "file", fsRoot+"/l/f", "size", "1", "pattern", pattern, "backups", v.text, "name_mode", mode))))
			log4g.GetLogger("root").Info("x")
			want := []string{"l/f"}
			for i := 26 - v.n + 1; i <= 26; i++ {
				want = append(want, "l/"+nm(i))
			}
			sort.Strings(want)
			have := fileNames(statAll())
			if fmt.Sprint(have) != fmt.Sprint(want) {
				vs.Fail("backups=%q (%s) leaves %v, expected %v", v.text, kind, have, want)
			}
			obs("%s", v.text)
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "permissions", Quick: 0,
		Desc: "all 511 file_perm values 0001..0777, all such back_perm values, dir_perm, and 8 invalid ones; size and time rolling",
		Body: func() {
			old := syscall.Umask(0)
			defer syscall.Umask(old)
			begin()
			vos.C.Unpriv = false // or a file may deny its own reopening
			kind := pick("kind", "size", "time")
			which := pick("parameter", "file_perm", "back_perm", "dir_perm", "invalid")
			exp := map[string]os.FileMode{"file_perm": 0600, "back_perm": 0500, "dir_perm": 0760}
			kv := []string{}
			switch which {
			case "file_perm", "back_perm":
				p := 1 + vs.Choose(0777, 0, "bits")
				exp[which] = os.FileMode(p)
				kv = append(kv, which, fmt.Sprintf("%#o", p))
			case "dir_perm":
				p := 0700 | vs.Choose(0100, 0, "bits")
				exp[which] = os.FileMode(p)
				kv = append(kv, which, fmt.Sprintf("%#o", p))
			default:
				k := pick("of", "file_perm", "back_perm", "dir_perm")
				kv = append(kv, k, pick("value", "-", "", "0", "-1", "-0600", "abc", "rw-r--r--", "01000", "07777", "0800", "99999"))
			}
			typ, pattern := c09type(kind)
			must(log4g.GetManager().SetConfig(one(output(typ, "o", "f", append([]string{"file", fsRoot + "/l/m/f", "size", "1", "pattern", pattern}, kv...)...))))
			log4g.GetLogger("root").Info("x")
			check := func(n string, m os.FileMode) {
				fi, err := os.Stat(fsRoot + "/" + n)
				if err != nil {
					vs.Fail("no %s", n)
				}
				if fi.Mode().Perm() != m {
					vs.Fail("%s=%v: %s has permissions %o, expected %o", which, kv, n, fi.Mode().Perm(), m)
				}
			}
			b := "l/m/f.1"
			if kind == "time" {
				b = "l/m/f." + now().Format("2006")
			}
			check("l/m/f", exp["file_perm"])
			check("l/m", exp["dir_perm"])
			check("l", exp["dir_perm"])
			vs.Advance(400 * 24 * time.Hour)
			log4g.GetLogger("root").Info("x")
			check("l/m/f", exp["file_perm"])
			check(b, exp["back_perm"])
			obs("%v", kv)
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "name-mode", Quick: 0,
		Desc: "both name modes, both kinds, 5 file names (with and without directory and dots), history present or not",
		Body: func() {
			begin()
			kind := pick("kind", "size", "time")
			file := pick("file", "f", "f.log", "app.2.log", "1", ".hidden")
			dir := pick("dir", "", "l/", "l/m/", fsRoot+"/l/")
			mode := pick("mode", "prefix", "postfix")
			typ, pattern := c09type(kind)
			must(log4g.GetManager().SetConfig(one(output(typ, "o", "f", "file", dir+file, "size", "1", "pattern", pattern, "name_mode", mode))))
			l := log4g.GetLogger("root")
			var want []string
			d := strings.TrimPrefix(dir, fsRoot+"/")
			for i := 1; i <= 3; i++ {
				l.Info(i)
				k := fmt.Sprint(i)
				if kind == "time" {
					k = now().Format("2006")
				}
				if mode == "prefix" {
					want = append(want, d+k+"."+file)
				} else {
					want = append(want, d+file+"."+k)
				}
				vs.Advance(366 * 24 * time.Hour)
			}
			l.Info("last")
			t := tree()
			for i, n := range want {
				if t[n] != fmt.Sprintf("%d\n", i+1) {
					vs.Fail("backup %d is not at %s: %s", i+1, n, show(t))
				}
			}
			if t[d+file] != "last\n" {
				vs.Fail("current file: %s", show(t))
			}
			obs("%s", strings.Join(want, " "))
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "threshold", Quick: 0,
		Desc: "all upper/lower case spellings of the 8 level names and 12 unknown names as threshold of a console, size-rolling, time-rolling, syslog and asynchronous console output; all levels",
		Body: func() {
			begin()
			kind := pick("kind", "console", "size", "time", "syslog", "async")
			name, thr := "", api.All
			if k := vs.Choose(9, 0, "name"); k < 8 {
				thr = []api.Level{api.All, api.Trace, api.Debug, api.Info, api.Warn, api.Error, api.Critical, api.Off}[k]
				n := len(levelNames[thr])
				bits := vs.Choose(1<<n, 0, "case")
				b := []byte(levelNames[thr])
				for i := range b {
					if bits>>i&1 == 1 {
						b[i] += 'a' - 'A'
					}
				}
				name = string(b)
			} else {
				name = pick("unknown", "-", "", "none", "warning", "err", "crit", "INF", "dbg", "uninitialized", "info2", "i", "5")
			}
			typ := map[string]string{"console": "console", "async": "console", "size": "size_rolling_file", "time": "time_rolling_file", "syslog": "syslog"}[kind]
			kv := []string{"file", fsRoot + "/l/f", "pattern", "2006", "threshold", name}
			if kind == "async" {
				kv = append(kv, "async", "true")
			}
			must(log4g.GetManager().SetConfig(one(output(typ, "o", "f", kv...))))
			l := log4g.GetLogger("root")
			want := ""
			for i, q := range levels {
				call(l, methods[2*i], q, "", levelNames[q])
				if q >= thr {
					want += levelNames[q] + "\n"
				}
			}
			log4g.GetManager().Close()
			have := console()
			switch kind {
			case "size", "time":
				have = tree()["l/f"]
			case "syslog":
				have = ""
				for _, r := range sysRecords() {
					have += r.Msg
				}
			}
			if have != want {
				vs.Fail("threshold %q on %s: wrote %q, expected %q", name, kind, have, want)
			}
			obs("%s", have)
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "queue", Quick: 0, Opts: vs.Options{StepLimit: 40000000},
		Desc: "queue_size values 1..12, 999..1001, large, clamped, invalid: the logging call that fills the queue is the first that waits for the output",
		Body: func() {
			begin()
			var l []intVal
			for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 100, 999, 1000, 1001, 2000, 50000, 99999, 100000} {
				l = append(l, intVal{fmt.Sprint(n), n})
			}
			for _, s := range []string{"100001", "150000", "1000000"} {
				l = append(l, intVal{s, 100000})
			}
			for _, s := range []string{"-", "", "0", "-1", "-1000", "abc", "5x", "1.5"} {
				l = append(l, intVal{s, 1000})
			}
			v := pick("queue_size", l...)
			must(log4g.GetManager().SetConfig(one(output("console", "o", "f", "async", "true", "queue_size", v.text, "batch_num", "1"))))
			lg := log4g.GetLogger("root")
			vs.WaitIdle()
			n := 0
			for n <= v.n+5 && len(vos.Console()) == 0 {
				lg.Info("x")
				n++
			}
			if n <= v.n || n > v.n+2 {
				vs.Fail("queue_size %q means %d records, but logging call %d waited for the output first", v.text, v.n, n)
			}
			obs("%d", n)
		}})
	drv.Add(drv.Scenario{Prop: "C09", Name: "batch", Quick: 0, Opts: vs.Options{StepLimit: 40000000},
		Desc: "batch_num values 1..25, 499..501, clamped, invalid: records are written in groups of exactly that number",
		Body: func() {
			begin()
			var l []intVal
			for n := 1; n <= 25; n++ {
				l = append(l, intVal{fmt.Sprint(n), n})
			}
			for _, n := range []int{100, 499, 500} {
				l = append(l, intVal{fmt.Sprint(n), n})
			}
			for _, s := range []string{"501", "1000", "100000"} {
				l = append(l, intVal{s, 500})
			}
			for _, s := range []string{"-", "", "0", "-1", "-20", "abc", "5x", "1.5"} {
				l = append(l, intVal{s, 20})
			}
			v := pick("batch_num", l...)
			must(log4g.GetManager().SetConfig(one(output("console", "o", "f", "async", "true", "batch_num", v.text))))
			lg := log4g.GetLogger("root")
			each := flip("output runs after each record")
			total := 2*v.n + 1
			for i := 1; i <= total; i++ {
				lg.Info(i)
				if each {
					vs.WaitIdle()
					if have, want := len(vos.Console()), i/v.n; have != want {
						vs.Fail("batch_num %q means %d records, but after %d records there were %d writes", v.text, v.n, i, have)
					}
				}
			}
			vs.WaitIdle()
			var want []int
			for i := v.n; i <= total; i += v.n {
				want = append(want, v.n)
			}
			if c := chunks(); fmt.Sprint(c) != fmt.Sprint(want) {
				vs.Fail("batch_num %q means %d records, but %d records were written in groups of %v", v.text, v.n, total, c)
			}
			obs("%s", strconv.Itoa(v.n))
		}})
}
