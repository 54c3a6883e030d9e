//go:build go1.23

package main

import (
	"bytes"
	stdgzip "compress/gzip"
	"errors"
	"fmt"
	"io"
	"path"
	"strings"
	"time"

	"github.com/xtfly/log4g/internal/archive"
	"github.com/xtfly/log4g/internal/archive/gzip"
	"github.com/xtfly/log4g/internal/archive/tar"
	"github.com/xtfly/log4g/internal/archive/zip"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/hook"
	"github.com/xtfly/log4g/verifx/vos"
	"github.com/xtfly/log4g/verifx/vs"
)

// standard makes an archive with the standard library.
func standard(kind string, es []entry) string {
	switch kind {
	case "zip":
		return pkzip(es...)
	case "tar":
		return ptar(es...)
	case "tar.gz":
		return pgzip(ptar(es...))
	}
	return pgzip(es[0].data)
}

// damage cuts s off somewhere or changes one byte of it.
func damage(s string) (string, string) {
	at := vs.Choose(len(s), 0, "at byte")
	how := vs.Choose(4, 0, "damage")
	if how == 0 {
		return s[:at], fmt.Sprintf("cut off after %d of %d bytes", at, len(s))
	}
	mask := []byte{0, 1, 0x80, 0xff}[how]
	b := []byte(s)
	b[at] ^= mask
	return string(b), fmt.Sprintf("byte %d of %d changed by %#x", at, len(s), mask)
}

var errMedium = errors.New("the medium fails")

// badReader fails from byte n on.
type badReader struct {
	s      string
	at, n  int
	failed bool
}

func (r *badReader) Read(p []byte) (int, error) {
	if r.at >= len(r.s) {
		return 0, io.EOF
	}
	m := copy(p, r.s[r.at:])
	if r.at+m > r.n {
		m = max(0, r.n-r.at)
		r.at += m
		r.failed = true
		return m, errMedium
	}
	r.at += m
	return m, nil
}

func (r *badReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.s)) {
		return 0, io.EOF
	}
	m := copy(p, r.s[off:])
	if int(off) <= r.n && r.n < int(off)+m {
		r.failed = true
		return r.n - int(off), errMedium
	}
	if m < len(p) {
		return m, io.EOF
	}
	return m, nil
}

// badWriter takes n bytes and then fails, for good or once.
type badWriter struct {
	bytes.Buffer
	n      int
	once   bool
	failed bool
}

func (w *badWriter) Write(p []byte) (int, error) {
	if w.failed && !w.once {
		return 0, errMedium
	}
	if !w.failed && w.Len()+len(p) > w.n {
		m := max(0, w.n-w.Len())
		w.Buffer.Write(p[:m])
		w.failed = true
		return m, errMedium
	}
	return w.Buffer.Write(p)
}

func (w *badWriter) Close() error { return nil }

func newReader(kind string, r interface {
	io.Reader
	io.ReaderAt
}, size int) (archive.Reader, error) {
	var in io.Reader = r
	switch kind {
	case "zip":
		z, err := zip.NewReader(r, int64(size))
		if err != nil {
			return nil, err
		}
		return z, nil
	case "tar":
		return tar.NewReader(in), nil
	}
	g, err := gzip.NewReader(in, "given")
	if err != nil {
		return nil, err
	}
	if kind == "gzip" {
		return g, nil
	}
	return tar.NewReader(g), nil
}

func newWriter(kind string, w io.WriteCloser) archive.WriteCloser {
	switch kind {
	case "zip":
		return zip.NewWriter(w)
	case "tar":
		return tar.NewWriter(w)
	case "tar.gz":
		g := gzip.NewWriter(w)
		return tar.NewWriteMultiCloser(g, g)
	}
	return gzip.NewWriter(w)
}

// readAll reads what there is up to an error.
func readAll(r archive.Reader) (l []entry, err error) {
	for i := 0; i < 1000; i++ {
		n, err := r.NextFile()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return l, err
		}
		b, err := io.ReadAll(r)
		if err != nil {
			return l, err
		}
		l = append(l, entry{n, string(b)})
	}
	return nil, errors.New("the archive does not end")
}

func eqEntries(named bool, a, b []entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		// writers name what has no name after the file
		if a[i].data != b[i].data || named && b[i].name != "" && a[i].name != b[i].name {
			return false
		}
	}
	return true
}

func init() {
	sources := [][]entry{{{"f.log.1", "record one\nrecord two\n"}}, {{"f.log.1", "record\n"}, {"d/2", "zz\x00\n"}}, {{"x", noise(300)}, {"y", ""}}}
	damaged := func(kinds []string, ns int) func() {
		return func() {
			begin()
			from := kinds[vs.Choose(len(kinds), 0, "from")]
			es := sources[vs.Choose(ns, 0, "entries")]
			if from == "gzip" {
				es = es[:1]
			}
			src, how := damage(standard(from, es))
			want, werr := peek(from, src)
			what := fmt.Sprintf("%s %s", from, how)
			var have []entry
			r, err := newReader(from, strings.NewReader(src), len(src))
			if err == nil {
				have, err = readAll(r)
			}
			if werr != nil && err == nil {
				vs.Fail("%s: %v read without an error (standard library: %v)", what, have, werr)
			}
			if werr == nil && (err != nil || !eqEntries(from != "gzip", have, want)) {
				vs.Fail("%s: read %v, %v; want %v", what, have, err, want)
			}
			for _, to := range []string{"zip", "tar", "tar.gz", "gzip"} {
				r, err := newReader(from, strings.NewReader(src), len(src))
				if err != nil {
					break
				}
				d := newPacker(to)
				err = archive.Copy(d.w, r)
				for _, n := range names(tree()) {
					if !strings.HasSuffix(n, "/") {
						vs.Fail("copying a %s left file %s behind", what, n)
					}
				}
				if err != nil {
					continue // may also be the target's refusal
				}
				l, terr := peek(to, d.close())
				if werr != nil && terr == nil {
					vs.Fail("%s: copied to %s as %v without an error (standard library: %v)", what, to, l, werr)
				}
				if werr == nil && terr == nil && len(want) > 0 && !eqEntries(to != "gzip" && from != "gzip", l, want) {
					vs.Fail("%s: copied to %s as %v, want %v", what, to, l, want)
				}
			}
			obs("%s %v %v", from, want, werr)
		}
	}
	drv.Add(drv.Scenario{Prop: "C21", Name: "damaged", Quick: 0,
		Desc: "archives of 1 or 2 small files in zip, gzipped tar and gzip, cut off at every byte, or with every byte changed in 3 ways: reading and copying to each kind reports an error whenever the standard library does, and otherwise gives what that gives",
		Body: damaged([]string{"zip", "tar.gz", "gzip"}, 2)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "damaged-tar", Quick: -1, Thorough: 0,
		Desc: "the same for tar, and a third set of files", Body: damaged([]string{"tar", "zip", "tar.gz", "gzip"}, 3)})
	faults := func(from, to []string, ns int) func() {
		return func() {
			begin()
			from, to := from[vs.Choose(len(from), 0, "from")], to[vs.Choose(len(to), 0, "to")]
			es := sources[vs.Choose(ns, 0, "entries")]
			if from == "gzip" || to == "gzip" {
				es = es[:1]
			}
			want := append([]entry{}, es...)
			if from == "gzip" {
				want[0].name = "given"
			}
			s := standard(from, es)
			if flip("the source fails") {
				br := &badReader{s: s, n: vs.Choose(len(s), 0, "at byte")}
				r, err := newReader(from, br, len(s))
				d := newPacker(to)
				if err == nil {
					err = archive.Copy(d.w, r)
				}
				if err == nil {
					verify(to, d.close(), want, fmt.Sprintf("copy from %s to %s, reading fails at byte %d", from, to, br.n))
				} else if !br.failed {
					vs.Fail("copy from %s to %s: %v", from, to, err)
				}
				obs("%s %s %v", from, to, err == nil)
				return
			}
			full := newPacker(to)
			must(archive.Copy(full.w, opened(from, s, "given")))
			size := len(full.close())
			bw := &badWriter{n: vs.Choose(size, 0, "at byte"), once: flip("once")}
			w := newWriter(to, bw)
			var err error
			direct := flip("not copied")
			if direct {
				for _, e := range want {
					if err == nil {
						err = w.NextFile(e.name, fakeInfo{e})
					}
					if err == nil {
						_, err = w.Write([]byte(e.data))
					}
				}
			} else {
				err = archive.Copy(w, opened(from, s, "given"))
			}
			cerr := w.Close()
			if bw.failed && err == nil && cerr == nil {
				vs.Fail("copy from %s to %s (direct %v): writing failed after %d of %d bytes, and nobody is told", from, to, direct, bw.n, size)
			}
			if !bw.failed {
				if err != nil || cerr != nil {
					vs.Fail("copy from %s to %s: %v, %v", from, to, err, cerr)
				}
				verify(to, bw.String(), want, fmt.Sprintf("copy from %s to %s", from, to))
			}
			obs("%s %s %v", from, to, bw.failed)
		}
	}
	drv.Add(drv.Scenario{Prop: "C21", Name: "faults", Quick: 0,
		Desc: "copying and adding 1 or 2 small files (zip, gzipped tar, gzip) while the source or the target fails at every byte, once or for good: an error is returned, or the copy is complete",
		Body: faults([]string{"zip", "tar.gz", "gzip"}, []string{"zip", "tar.gz", "gzip"}, 2)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "faults-tar", Quick: -1, Thorough: 0,
		Desc: "the same with tar, and a third set of files", Body: faults([]string{"tar", "zip", "tar.gz", "gzip"}, []string{"tar", "zip", "tar.gz", "gzip"}, 3)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "buffer-faults", Quick: 1, Thorough: 3,
		Desc: "copying 1 or 2 files from each kind to each other kind while one (thorough: up to three) file operations on the temporary file fail: an error is returned, or the copy is complete; a second copy without failures is",
		Body: func() {
			begin()
			kinds := []string{"zip", "tar", "tar.gz", "gzip"}
			from, to := kinds[vs.Choose(4, 0, "from")], kinds[vs.Choose(4, 0, "to")]
			es := sources[vs.Choose(3, 0, "entries")]
			if from == "gzip" || to == "gzip" {
				es = es[:1]
			}
			want := append([]entry{}, es...)
			if from == "gzip" {
				want[0].name = "given"
			}
			s := standard(from, es)
			d := newPacker(to)
			vos.C.Faults = true
			err := archive.Copy(d.w, opened(from, s, "given"))
			vos.C.Faults = false
			what := fmt.Sprintf("copy from %s to %s (%s)", from, to, vos.C.HitWhat)
			if err == nil {
				verify(to, d.close(), want, what)
			} else if vos.C.Hit == 0 {
				vs.Fail("%s: %v", what, err)
			}
			e := newPacker(to)
			must(archive.Copy(e.w, opened(from, s, "given")))
			verify(to, e.close(), want, "after "+what)
			obs("%s %s %v", from, to, err == nil)
		}})
	drv.Add(drv.Scenario{Prop: "C21", Name: "rolled-damaged", Quick: 0,
		Desc: "two rolls are added to one archive file (zip, gzipped tar) that is cut off at every byte, or has a byte changed: its entries are kept if it is readable, else the file and the rolls stay; the archive is then taken away, and a further roll adds what waits",
		Body: func() {
			begin()
			if hook.NewRoller == nil {
				return
			}
			c := hook.Roller{Time: flip("time"), Path: fsRoot + "/l/f", ArchivePath: fsRoot + "/arch/a", Archive: pick("archive", "zip", "gzip"),
				Pattern: "2006-01-02", Limit: 4, Keep: 1}
			kind := map[string]string{"zip": "zip", "gzip": "tar.gz"}[c.Archive]
			src, how := damage(standard(kind, sources[1]))
			write("arch/a", src)
			want, werr := peek(kind, src)
			whole := ""
			if z, err := stdgzip.NewReader(strings.NewReader(src)); err == nil {
				if b, err := io.ReadAll(z); err == nil {
					whole = string(b)
				}
			}
			w := hook.NewRoller(c)
			for i := 0; i < 4; i++ {
				if i == 3 {
					if now := tree()["arch/a"]; now == src {
						remove("arch/a")
						want = nil
					}
				}
				vs.Advance(24 * time.Hour)
				if _, err := w.Write([]byte(fmt.Sprintf("record %d\n", i))); err != nil {
					vs.Fail("write: %v", err)
				}
				if i < 2 {
					continue
				}
				what := fmt.Sprintf("existing %s %s, write %d", kind, how, i)
				t := tree()
				var l []entry
				if t["arch/a"] != src || werr == nil {
					var err error
					if l, err = peek(kind, t["arch/a"]); err != nil {
						vs.Fail("%s: the archive is unreadable: %v", what, err)
					}
				}
				count := map[string]int{}
				kept := 0
				for k, e := range l {
					if k < len(want) && e == want[k] || e.data == whole && whole != "" {
						kept++
						continue
					}
					count[e.data]++
				}
				for n, d := range t {
					if strings.HasPrefix(n, "l/") && path.Base(n) != "l" {
						count[d]++
					}
				}
				if t["arch/a"] != src && (werr == nil && kept < len(want) || werr != nil && i < 3 && kept == 0) {
					vs.Fail("%s: the archive was %v, %v, and is now %v", what, want, werr, l)
				}
				for k := 0; k <= i; k++ {
					if d := fmt.Sprintf("record %d\n", k); count[d] != 1 {
						vs.Fail("%s: %q is kept %d times: %v, archive %v", what, d, count[d], names(t), l)
					}
				}
			}
			obs("%v %v", c, werr)
		}})
	drv.Add(drv.Scenario{Prop: "C21", Name: "rolled-faults", Quick: 1, Thorough: 2,
		Desc: "two rolls are added to one archive file (zip, gzipped tar; new, or with 2 entries) while one (thorough: up to two) file operations fail: the archive stays readable with its entries first, every record is in it or in the files, and once nothing fails what is due is added",
		Body: func() {
			begin()
			if hook.NewRoller == nil {
				return
			}
			c := hook.Roller{Time: flip("time"), Path: fsRoot + "/l/f", ArchivePath: fsRoot + "/arch/a", Archive: pick("archive", "zip", "gzip"),
				Pattern: "2006-01-02", Limit: 4, Keep: 1, Prefix: flip("prefix")}
			kind := map[string]string{"zip": "zip", "gzip": "tar.gz"}[c.Archive]
			var want []entry
			if flip("existing archive") {
				want = sources[1]
				write("arch/a", standard(kind, want))
			}
			w := hook.NewRoller(c)
			lost := map[int]bool{}
			for i := 0; i < 6; i++ {
				vs.Advance(24 * time.Hour)
				vos.C.Faults = i >= 2 && i < 4
				before := vos.C.Hit
				_, err := w.Write([]byte(fmt.Sprintf("record %d\n", i)))
				vos.C.Faults = false
				if err != nil && vos.C.Hit == before {
					vs.Fail("write %d: %v, without a failure", i, err)
				}
				lost[i] = err != nil
				what := fmt.Sprintf("write %d, failing: %s", i, vos.C.HitWhat)
				t := tree()
				var l []entry
				if a, is := t["arch/a"]; is {
					if l, err = peek(kind, a); err != nil {
						vs.Fail("%s: the archive is unreadable: %v", what, err)
					}
				}
				if len(l) < len(want) {
					vs.Fail("%s: the archive had %v and has %v", what, want, l)
				}
				for k, e := range want {
					if l[k] != e {
						vs.Fail("%s: the archive had %v and has %v", what, want, l)
					}
				}
				all, files := "", 0
				for _, e := range l[len(want):] {
					all += e.data
				}
				for n, d := range t {
					if strings.HasPrefix(n, "l/") && n != "l/" {
						files++
						all += d
					}
				}
				for k := 0; k <= i; k++ {
					if d := fmt.Sprintf("record %d\n", k); !lost[k] && !strings.Contains(all, d) {
						vs.Fail("%s: %q is neither in the archive nor in a file: %v, archive %v", what, d, names(t), l)
					}
				}
				if i == 5 && files > 2 {
					vs.Fail("%s: what is due has not been archived: %v", what, names(t))
				}
			}
			w.Close()
			obs("%v %s", c, vos.C.HitWhat)
		}})
}
