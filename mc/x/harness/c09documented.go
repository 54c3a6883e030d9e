//go:build go1.23

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// readme is the configuration the documentation shows, with a logger; %s are
// the parameters it has as comments.
const readme = `formats:
  - name: f1     # Name of format for output reference
    type: text   # Currently only text
    layout: "%%{time} %%{level} %%{module} %%{pid:6d} >> %%{msg} (%%{longfile}:%%{line}) \n"
outputs:
  - name: c1          # Name of output for logger reference
    type: console     # Ouput log content into console
    format: f1        # Referenced formatter name
%[1]s
  - name: r1
    type: size_rolling_file # The type of rolling 
    format: f1
    file: log/rf.log   # The current written output file name
    file_perm: 0640    # The file permissions being written
    back_perm: 0550    # The file permissions that have been backup rolling
    dir_perm: 0750     # The direction permissions
    size: 1M           # When this value is exceeded, make a backup rolling
    backups: 5         # The number of backup rolling
%[2]s
%[1]s
  - name: r2
    type: time_rolling_file # The type of rolling
    format: f1
    file: log/rf2.log
    file_perm: 0640
    back_perm: 0550
    dir_perm: 0750
    pattern: 2006-01-02   # The date format for backup rolling
    backups: 5
%[2]s
%[1]s
  - name: s1
    type: syslog
    format: f1
    prefix: module
loggers:
  - name: root
    level: all
    outputs: [c1, r1, r2, s1]
`

func init() {
	drv.Add(drv.Scenario{Prop: "C09", Name: "documented", Quick: 0,
		Desc: "the configuration of the documentation, as YAML text, with each of its commented parameters absent or present: sizes, names, number, permissions and contents of all files, and what the other outputs get",
		Body: func() {
			old := syscall.Umask(0)
			defer syscall.Umask(old)
			begin()
			var common, rolling []string
			async, thr := flip("async"), flip("threshold")
			if async {
				common = append(common, "async: true       # Whether to start asynchrony ouput log content", "queue_size: 100   # The length of the queue when enable asynchronous",
					"batch_num: 10     # Batch 10 items submitted to the target together when enable asynchronous")
			}
			if thr {
				common = append(common, "threshold: info")
			}
			arch := pick("archive", "", "gzip", "zip")
			if arch != "" {
				rolling = append(rolling, "archive: "+arch+"     # The archive type of the backup logs, zip or gzip")
			}
			mode := pick("name_mode", "", "prefix", "postfix")
			if mode != "" {
				rolling = append(rolling, "name_mode: "+mode+" # The backup name type, prefix or postfix")
			}
			in := func(l []string) string {
				if len(l) == 0 {
					return ""
				}
				return "    " + strings.Join(l, "\n    ")
			}
			text := fmt.Sprintf(readme, in(common), in(rolling))
			if vs.Verbose() {
				vs.Note("%s", text)
			}
			nm := func(base, k string) string {
				if mode == "prefix" {
					return "log/" + k + "." + base
				}
				return "log/" + base + "." + k
			}
			existing := flip("files before")
			if existing {
				for i := 1; i <= 5; i++ {
					write(nm("rf.log", fmt.Sprint(i)), "old")
					write(nm("rf2.log", fmt.Sprintf("2001-01-0%d", i)), "old")
				}
				sparse("log/rf.log", mb)
				write("log/rf2.log", "yesterday\n")
				y := vs.Now().Add(-24 * time.Hour)
				os.Chtimes(fsRoot+"/log/rf2.log", y, y)
				os.Chmod(fsRoot+"/log/rf.log", 0640)
				os.Chmod(fsRoot+"/log/rf2.log", 0640)
			}
			yesterday := vs.Now().Add(-24 * time.Hour).Format("2006-01-02")
			if err := log4g.GetManager().LoadConfig([]byte(text), "yaml"); err != nil {
				vs.Fail("the documented configuration is rejected: %v", err)
			}
			l := log4g.GetLogger("a/b")
			n := 1
			if async {
				n = 10
			}
			for i := 0; i < n; i++ {
				if thr {
					l.Debug("below the threshold")
				}
				l.Infof("record %d", i)
			}
			vs.WaitIdle()
			check := func(where, s string) {
				lines := strings.Split(s, "\n")
				if len(lines) != n+1 || lines[n] != "" {
					vs.Fail("%s has %d lines, %d expected: %q", where, len(lines)-1, n, s)
				}
				for i, x := range lines[:n] {
					if !strings.Contains(x, fmt.Sprintf(" INFO a/b %6d >> record %d (", os.Getpid(), i)) || !strings.HasSuffix(x, ") ") {
						vs.Fail("%s, line %d: %q", where, i+1, x)
					}
				}
			}
			check("the console", console())
			sys := ""
			for _, r := range sysRecords() {
				if !strings.Contains(r.Msg, "below the threshold") { // no threshold in the example
					sys += r.Msg
				}
			}
			check("syslog", sys)
			t := tree()
			check("log/rf.log", t["log/rf.log"])
			check("log/rf2.log", t["log/rf2.log"])
			want := []string{"log/rf.log", "log/rf2.log"}
			perm := func(f string, m os.FileMode) {
				if fi, err := os.Stat(fsRoot + "/" + f); err != nil || fi.Mode().Perm() != m {
					vs.Fail("%s has not the permissions %o: %v %v", f, m, fi, err)
				}
			}
			if !existing {
				perm("log", 0750)
			}
			perm("log/rf.log", 0640)
			perm("log/rf2.log", 0640)
			if existing {
				for i := 2; i <= 5; i++ {
					want = append(want, nm("rf.log", fmt.Sprint(i)), nm("rf2.log", fmt.Sprintf("2001-01-0%d", i)))
				}
				for _, b := range []struct{ removed, added, data string }{{nm("rf.log", "1"), nm("rf.log", "6"), strings.Repeat("\x00", int(mb))},
					{nm("rf2.log", "2001-01-01"), nm("rf2.log", yesterday), "yesterday\n"}} {
					want = append(want, b.added)
					perm(b.added, 0550)
					if t[b.added] != b.data {
						vs.Fail("%s has %d bytes, %d expected", b.added, len(t[b.added]), len(b.data))
					}
					if arch == "" {
						continue
					}
					f := b.removed + map[string]string{"gzip": ".gz", "zip": ".zip"}[arch]
					want = append(want, f)
					if d, err := unpack(arch, []byte(t[f])); err != nil || d != "old" {
						vs.Fail("%s, archive of a backup removed: %q %v", f, d, err)
					}
				}
			}
			sort.Strings(want)
			if have := fileNames(statAll()); fmt.Sprint(have) != fmt.Sprint(want) {
				vs.Fail("files %v, expected %v", have, want)
			}
			obs("%v %v %s %s", async, thr, arch, mode)
		}})
}
