//go:build go1.23

package main

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/verifx/vs"
)

// roller describes one rolling output and reads its files independently of the
// code under test.
type roller struct {
	kind    string // "size" or "time"
	dir     string // relative to the scratch directory, with trailing slash
	file    string
	prefix  bool
	limit   int
	n       int // backups
	pattern string
	archive string
	extra   []string
	written string // file's path in the configuration, if written in another way
}

// oddPaths are paths of files, and if written in another way that way.
var oddPaths = []string{"l/a[1].log", "l/*.log", "l/a b.log", "l/лог.txt", "l/7", "l/1.log", "l/.hidden", "l/-x", "l/f.", "l/f..g", "l/a%sb%d", "l/f.log.gz", "l/f.zip", "l/_", "l/f.1", "l/2024-01-01", "l/\\", "l/a?b",
	"d[x]/f", "a b/f", "1/f", "f/f", "d.log/deep/er/f", "f", "l/f l//f", "l/f l/./f", "l/f l/x/../f", "l/m/f ./l/m//f"}

// at puts the output's file to a path.
func (r *roller) at(p string) {
	if i := strings.Index(p, "/f "); i >= 0 {
		r.written = p[i+3:]
		p = p[:i+2]
	}
	i := strings.LastIndex(p, "/")
	r.dir, r.file = p[:i+1], p[i+1:]
}

func (r *roller) config() *api.Config {
	typ, mode := "size_rolling_file", "postfix"
	if r.kind == "time" {
		typ = "time_rolling_file"
	}
	if r.prefix {
		mode = "prefix"
	}
	file := r.dir + r.file
	if r.written != "" {
		file = r.written
	}
	kv := []string{"file", fsRoot + "/" + file, "name_mode", mode, "backups", strconv.Itoa(r.n)}
	if r.kind == "time" {
		kv = append(kv, "pattern", r.pattern)
	} else {
		kv = append(kv, "size", strconv.Itoa(r.limit))
	}
	if r.archive != "" {
		kv = append(kv, "archive", r.archive)
	}
	return one(output(typ, "o", "f", append(kv, r.extra...)...))
}

func (r *roller) start() api.Logger {
	must(log4g.GetManager().SetConfig(r.config()))
	return log4g.GetLogger("root")
}

func (r *roller) name(key string) string {
	if r.prefix {
		return key + "." + r.file
	}
	return r.file + "." + key
}

// key returns the number or period of a backup's file name.
func (r *roller) key(name string) (string, bool) {
	var k string
	if r.prefix {
		if k = strings.TrimSuffix(name, "."+r.file); k == name {
			return "", false
		}
	} else if k = strings.TrimPrefix(name, r.file+"."); k == name {
		return "", false
	}
	if r.kind == "size" {
		n, err := strconv.Atoi(k)
		return k, err == nil && n > 0 && strconv.Itoa(n) == k
	}
	t, err := time.Parse(r.pattern, k)
	return k, err == nil && t.Format(r.pattern) == k
}

func (r *roller) less(a, b string) bool {
	if r.kind == "size" {
		x, _ := strconv.Atoi(a)
		y, _ := strconv.Atoi(b)
		return x < y
	}
	x, _ := time.Parse(r.pattern, a)
	y, _ := time.Parse(r.pattern, b)
	return x.Before(y)
}

type backup struct {
	key, content string
}

// read returns the backups in order and the current file; ok tells whether the latter exists.
func (r *roller) read() (l []backup, cur string, ok bool) {
	d := filepath.Join(fsRoot, r.dir)
	es, _ := os.ReadDir(d)
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		if e.Name() == r.file {
			b, err := os.ReadFile(filepath.Join(d, r.file))
			if err != nil {
				vs.Fail("current file: %v", err)
			}
			cur, ok = string(b), true
			continue
		}
		if k, is := r.key(e.Name()); is {
			b, err := os.ReadFile(filepath.Join(d, e.Name()))
			if err != nil {
				vs.Fail("backup: %v", err)
			}
			l = append(l, backup{k, string(b)})
		}
	}
	sort.Slice(l, func(i, j int) bool { return r.less(l[i].key, l[j].key) })
	return
}

func showB(l []backup, cur string) string {
	s := ""
	for _, b := range l {
		s += fmt.Sprintf("%s=%q ", b.key, clip(b.content))
	}
	return s + fmt.Sprintf("current=%q", clip(cur))
}

// sizeModel is what C10 prescribes: all backups ever made and the current file.
type sizeModel struct {
	r    *roller
	full []string // contents of all backups, also of those removed by retention
	cur  string
	seen map[string]bool // numbers that have been used
	max  string
}

func newSizeModel(r *roller) *sizeModel {
	m := &sizeModel{r: r, seen: map[string]bool{}, max: "0"}
	l, cur, _ := r.read()
	for _, b := range l {
		m.full = append(m.full, b.content)
		m.seen[b.key] = true
		m.max = b.key
	}
	m.cur = cur
	return m
}

// log notes one write.
func (m *sizeModel) log(s string) {
	if len(m.cur) >= m.r.limit {
		m.full = append(m.full, m.cur)
		m.cur = ""
	}
	m.cur += s
}

// check compares the files with the model.
func (m *sizeModel) check(when string) {
	l, cur, _ := m.r.read()
	if cur != m.cur {
		vs.Fail("%s: the current file is %q, expected %q; files %s, all backups so far %q", when, cur, m.cur, showB(l, cur), m.full)
	}
	if len(l) > len(m.full) {
		vs.Fail("%s: %d backups where %d files have reached the limit: %s", when, len(l), len(m.full), showB(l, cur))
	}
	if len(l) < min(m.r.n, len(m.full)) {
		vs.Fail("%s: only %d backups are left of %d with backups=%d: %s", when, len(l), len(m.full), m.r.n, showB(l, cur))
	}
	tail := m.full[len(m.full)-len(l):]
	for i, b := range l {
		if b.content != tail[i] {
			vs.Fail("%s: backup %s contains %q, expected %q; files %s, all backups so far %q", when, b.key, b.content, tail[i], showB(l, cur), m.full)
		}
		if !m.seen[b.key] {
			if m.r.less(b.key, m.max) {
				vs.Fail("%s: new backup number %s is below the existing number %s", when, b.key, m.max)
			}
			m.seen[b.key] = true
		}
	}
	if len(l) > 0 {
		m.max = l[len(l)-1].key
	}
}

// arch is one archive found beside the log files.
type arch struct {
	name    string // file name
	kind    string
	roll    string // key of the backup it is named after, "" if unknown
	content string
}

func unpack(kind string, b []byte) (string, error) {
	if kind == "zip" {
		z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			return "", err
		}
		if len(z.File) != 1 {
			return "", fmt.Errorf("%d entries", len(z.File))
		}
		f, err := z.File[0].Open()
		if err != nil {
			return "", err
		}
		c, err := io.ReadAll(f)
		return string(c), err
	}
	g, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return "", err
	}
	c, err := io.ReadAll(g)
	return string(c), err
}

// archives returns the readable archives of the configured kind, by key.
// A file that looks like a finished archive of this output but is none is a violation.
func (r *roller) archives() []arch {
	var l []arch
	if r.archive == "" {
		return nil
	}
	es, _ := os.ReadDir(filepath.Join(fsRoot, r.dir))
	for _, e := range es {
		if !e.Type().IsRegular() || e.Name() == r.file {
			continue
		}
		if _, is := r.key(e.Name()); is {
			continue
		}
		n := e.Name()
		a := arch{name: n, kind: r.archive}
		for _, x := range []string{".zip", ".gz", ".gzip"} {
			if k, is := r.key(strings.TrimSuffix(n, x)); is && strings.HasSuffix(n, x) {
				a.roll = k
				a.kind = "gzip"
				if x == ".zip" {
					a.kind = "zip"
				}
			}
		}
		b, err := os.ReadFile(filepath.Join(fsRoot, r.dir, n))
		if err != nil {
			vs.Fail("archive: %v", err)
		}
		if a.content, err = unpack(a.kind, b); err != nil {
			if a.roll != "" {
				vs.Fail("archive %s is not a readable %s archive: %v", n, a.kind, err)
			}
			continue
		}
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return r.less(l[i].roll, l[j].roll) })
	return l
}

// state is everything a rolling output keeps.
type state struct {
	backups []backup
	cur     string
	ok      bool
	archs   []arch
}

func (r *roller) state() state {
	var s state
	s.backups, s.cur, s.ok = r.read()
	s.archs = r.archives()
	return s
}

func (s state) String() string {
	t := ""
	for _, a := range s.archs {
		t += fmt.Sprintf("[%s]=%q ", a.name, clip(a.content))
	}
	return t + showB(s.backups, s.cur)
}

func (s state) archived(r *roller, b backup) bool {
	for _, a := range s.archs {
		if a.kind == r.archive && a.content == b.content && strings.Contains(a.name, r.name(b.key)) {
			return true
		}
	}
	return false
}

// conserved checks that nothing was lost from one state to a later one.
func conserved(r *roller, a, b state, when string) {
	for _, x := range a.archs {
		found := false
		for _, y := range b.archs {
			found = found || (x.name == y.name && x.content == y.content)
		}
		if !found {
			vs.Fail("%s: archive %s=%q was lost or changed: %v", when, x.name, x.content, b)
		}
	}
	has := func(x backup) bool {
		for _, y := range b.backups {
			if x.key == y.key {
				if x.content != y.content {
					vs.Fail("%s: backup %s changed from %q to %q", when, x.key, x.content, y.content)
				}
				return true
			}
		}
		return false
	}
	for _, x := range a.backups {
		if has(x) {
			continue
		}
		if r.archive != "" {
			if !b.archived(r, x) {
				vs.Fail("%s: backup %s=%q is gone without a complete archive: %v", when, x.key, x.content, b)
			}
			continue
		}
		// only retention may remove it: enough newer ones are there, no older one is
		newer := 0
		for _, y := range b.backups {
			if r.less(x.key, y.key) {
				newer++
			}
		}
		if newer < r.n {
			vs.Fail("%s: backup %s=%q is gone although only %d newer ones exist: before %v, after %v", when, x.key, x.content, newer, a, b)
		}
	}
	if strings.HasPrefix(b.cur, a.cur) {
		return
	}
	for i := len(b.backups) - 1; i >= 0; i-- {
		y := b.backups[i]
		if strings.HasPrefix(y.content, a.cur) {
			old := false
			for _, x := range a.backups {
				old = old || x.key == y.key
			}
			if !old {
				return
			}
		}
	}
	for _, y := range b.archs { // retention removed and archived it at once
		if strings.HasPrefix(y.content, a.cur) && r.n == 0 {
			return
		}
	}
	vs.Fail("%s: the content %q of the current file is lost: before %v, after %v", when, a.cur, a, b)
}
