//go:build go1.23

package main

import (
	stdtar "archive/tar"
	stdzip "archive/zip"
	"bytes"
	stdgzip "compress/gzip"
	"fmt"
	"io"
	"os"
	"path"
	"strings"
	"time"

	"github.com/xtfly/log4g/internal/archive"
	"github.com/xtfly/log4g/internal/archive/gzip"
	"github.com/xtfly/log4g/internal/archive/tar"
	"github.com/xtfly/log4g/internal/archive/zip"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/hook"
	"github.com/xtfly/log4g/verifx/vs"
)

// entry is a file in an archive.
type entry struct{ name, data string }

func (e entry) String() string {
	d := e.data
	if len(d) > 20 {
		d = fmt.Sprintf("%s... %d bytes", d[:16], len(d))
	}
	n := e.name
	if len(n) > 30 {
		n = fmt.Sprintf("%s... %d bytes", n[:20], len(n))
	}
	return fmt.Sprintf("%q=%q", n, d)
}

type fakeInfo struct{ entry }

func (f fakeInfo) Name() string       { return "info-" + path.Base(f.name) }
func (f fakeInfo) Size() int64        { return int64(len(f.data)) }
func (f fakeInfo) Mode() os.FileMode  { return 0640 }
func (f fakeInfo) ModTime() time.Time { return vs.Now() }
func (f fakeInfo) IsDir() bool        { return false }
func (f fakeInfo) Sys() interface{}   { return nil }

func noise(n int) string {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	return string(b)
}

var entryNames = []string{"f.log.1", "dir/sub/1.f.log", "é漢 \\x", strings.Repeat("n", 101), strings.Repeat("long/", 60) + "f", "f.log.1.gz"}
var oddNames = []string{"/var/log/a", "./a", "a//b", "../a", "a b ", " a", "C:\\x\\y", "a:b", "%41", "A", ".a", "...", "\xff\xfe", "a\nb", "~", "dir.d/f.log", "dir.d/../f.log", "f.tar.gz", "-", strings.Repeat("é", 60), strings.Repeat("x", 100), strings.Repeat("d/", 50) + "f", strings.Repeat("z", 256)}
var entryData = []string{"record\n", "", noise(511) + "\n", strings.Repeat("\x00", 1024), noise(70000), pkzip(entry{"x", "y"})}

func pkzip(es ...entry) string {
	var b bytes.Buffer
	w := stdzip.NewWriter(&b)
	for _, e := range es {
		h := &stdzip.FileHeader{Name: e.name, Method: stdzip.Deflate}
		f, _ := w.CreateHeader(h)
		f.Write([]byte(e.data))
	}
	w.Close()
	return b.String()
}

func ptar(es ...entry) string {
	var b bytes.Buffer
	w := stdtar.NewWriter(&b)
	for _, e := range es {
		w.WriteHeader(&stdtar.Header{Name: e.name, Mode: 0600, Size: int64(len(e.data)), Typeflag: stdtar.TypeReg})
		w.Write([]byte(e.data))
	}
	w.Close()
	return b.String()
}

func pgzip(s string) string {
	var b bytes.Buffer
	w := stdgzip.NewWriter(&b)
	w.Write([]byte(s))
	w.Close()
	return b.String()
}

// peek reads an archive with the standard library alone.
func peek(kind, b string) (l []entry, err error) {
	switch kind {
	case "zip":
		z, err := stdzip.NewReader(strings.NewReader(b), int64(len(b)))
		if err != nil {
			return nil, err
		}
		for _, f := range z.File {
			r, err := f.Open()
			if err != nil {
				return l, err
			}
			c, err := io.ReadAll(r)
			if err != nil {
				return l, err
			}
			l = append(l, entry{f.Name, string(c)})
		}
	case "tar", "tar.gz":
		var r io.Reader = strings.NewReader(b)
		if kind == "tar.gz" {
			if r, err = stdgzip.NewReader(r); err != nil {
				return nil, err
			}
		}
		t := stdtar.NewReader(r)
		for {
			h, err := t.Next()
			if err == io.EOF {
				return l, nil
			}
			if err != nil {
				return l, err
			}
			c, err := io.ReadAll(t)
			if err != nil {
				return l, err
			}
			l = append(l, entry{h.Name, string(c)})
		}
	case "gzip":
		r, err := stdgzip.NewReader(strings.NewReader(b))
		if err != nil {
			return nil, err
		}
		c, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		l = append(l, entry{"", string(c)})
	}
	return l, nil
}

type memCloser struct {
	*bytes.Buffer
	closed int
}

func (m *memCloser) Close() error { m.closed++; return nil }

// packer is an archive being written with the library.
type packer struct {
	w     archive.WriteCloser
	b     *memCloser
	kind  string
	inner *gzip.Writer
}

func newPacker(kind string) *packer {
	p := &packer{kind: kind, b: &memCloser{Buffer: &bytes.Buffer{}}}
	switch kind {
	case "zip":
		p.w = zip.NewWriter(p.b)
	case "tar":
		p.w = tar.NewWriter(p.b)
	case "tar.gz":
		p.inner = gzip.NewWriter(p.b)
		p.w = tar.NewWriteMultiCloser(p.inner, p.inner)
	case "gzip":
		p.w = gzip.NewWriter(p.b)
	}
	return p
}

func (p *packer) add(e entry, chunk int) error {
	if err := p.w.NextFile(e.name, fakeInfo{e}); err != nil {
		return err
	}
	d := e.data
	for len(d) > 0 {
		n := min(chunk, len(d))
		if m, err := p.w.Write([]byte(d[:n])); err != nil || m != n {
			return fmt.Errorf("write: %d of %d: %v", m, n, err)
		}
		d = d[n:]
	}
	return nil
}

func (p *packer) close() string {
	if err := p.w.Close(); err != nil {
		vs.Fail("closing the %s: %v", p.kind, err)
	}
	return p.b.String()
}

func opened(kind, b, name string) archive.Reader {
	switch kind {
	case "zip":
		r, err := zip.NewReader(strings.NewReader(b), int64(len(b)))
		must(err)
		return r
	case "tar":
		return tar.NewReader(strings.NewReader(b))
	case "tar.gz":
		g, err := gzip.NewReader(strings.NewReader(b), name)
		must(err)
		return tar.NewReader(g)
	}
	g, err := gzip.NewReader(strings.NewReader(b), name)
	must(err)
	return g
}

// readBack reads an archive with the library; skip tells which entries are
// passed over without reading them.
func readBack(kind, b string, chunk, skip int) (l []entry) {
	r := opened(kind, b, "given")
	for {
		n, err := r.NextFile()
		if err == io.EOF {
			if _, err := r.NextFile(); err != io.EOF {
				vs.Fail("%s: NextFile after the end: %v", kind, err)
			}
			return l
		}
		if err != nil {
			vs.Fail("%s: NextFile: %v", kind, err)
		}
		if skip>>len(l)&1 == 1 {
			l = append(l, entry{n, ""})
			continue
		}
		var c bytes.Buffer
		buf := make([]byte, chunk)
		for {
			m, err := r.Read(buf)
			c.Write(buf[:m])
			if err == io.EOF {
				break
			}
			if err != nil {
				vs.Fail("%s: reading %q: %v", kind, n, err)
			}
		}
		l = append(l, entry{n, c.String()})
	}
}

func sameEntries(kind, what string, have, want []entry) {
	if len(have) != len(want) {
		vs.Fail("%s: %d entries %v, want %d %v", what, len(have), have, len(want), want)
	}
	for i := range have {
		if have[i].data != want[i].data || kind != "gzip" && have[i].name != want[i].name {
			vs.Fail("%s: entry %d is %v, want %v", what, i, have[i], want[i])
		}
	}
}

// verify reads b with the standard library and with the library itself.
func verify(kind, b string, want []entry, what string) {
	l, err := peek(kind, b)
	if err != nil {
		vs.Fail("%s: the %s is unreadable: %v", what, kind, err)
	}
	sameEntries(kind, what+" (standard library)", l, want)
	sameEntries(kind, what, readBack(kind, b, 4096, 0), want)
}

func pickEntries(max int, nn, nd int) []entry {
	n := vs.Choose(max+1, 0, "files")
	var l []entry
	for i := 0; i < n; i++ {
		l = append(l, entry{entryNames[vs.Choose(nn, 0, "name")], entryData[vs.Choose(nd, 0, "content")]})
	}
	return l
}

func init() {
	roundtrip := func(max, nn, nd int) func() {
		return func() {
			begin()
			kind := pick("kind", "zip", "tar", "tar.gz", "gzip")
			chunk := pick("chunk", 1<<20, 1000)
			es := pickEntries(max, nn, nd)
			if kind == "gzip" && len(es) != 1 {
				if len(es) > 1 {
					p := newPacker(kind)
					must(p.add(es[0], chunk))
					if p.add(es[1], chunk) == nil {
						vs.Fail("gzip took a second file without an error")
					}
				}
				return
			}
			p := newPacker(kind)
			for _, e := range es {
				if err := p.add(e, chunk); err != nil {
					vs.Fail("%s: adding %v: %v", kind, e, err)
				}
			}
			b := p.close()
			verify(kind, b, es, kind+" written with the library")
			for skip := 1; skip < 1<<len(es); skip++ {
				want := append([]entry{}, es...)
				for i := range want {
					if skip>>i&1 == 1 {
						want[i].data = ""
					}
				}
				sameEntries(kind, fmt.Sprintf("%s, passing over %b", kind, skip), readBack(kind, b, 4096, skip), want)
			}
			obs("%s %d %v", kind, chunk, es)
		}
	}
	drv.Add(drv.Scenario{Prop: "C21", Name: "roundtrip", Quick: 0,
		Desc: "0 to 2 files, each with 6 names and 6 contents (empty, binary, larger than the copy buffer, itself an archive), in zip, tar, gzipped tar and gzip, written in two chunk sizes; read back with the library, also passing over files, and with the standard library",
		Body: roundtrip(2, 6, 6)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "roundtrip3", Quick: -1, Thorough: 0,
		Desc: "0 to 3 files of 5 names and 6 contents", Body: roundtrip(3, 5, 6)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "many", Quick: 0, Opts: vs.Options{StepLimit: 1000000},
		Desc: "archives of 20, 65, 130 or 300 files of 0..700 bytes, or 3 of up to 5 MB, with short or long names: written, copied from each kind to each kind, and read back",
		Body: func() {
			begin()
			from, to := pick("from", "zip", "tar", "tar.gz"), pick("to", "zip", "tar", "tar.gz")
			n := pick("files", 3, 20, 65, 130, 300)
			name := pick("name", "n", strings.Repeat("d/", 20)+strings.Repeat("n", 90))
			var es []entry
			for i := 0; i < n; i++ {
				d := strings.Repeat(fmt.Sprintf("%d,", i), i%7*50)
				if n == 3 {
					d = strings.Repeat(fmt.Sprintf("%d,", i), i*1300000)
				}
				es = append(es, entry{fmt.Sprintf("%s%d", name, i), d})
			}
			p := newPacker(from)
			for _, e := range es {
				must(p.add(e, 5000))
			}
			src := p.close()
			verify(from, src, es, "written")
			q := newPacker(to)
			must(archive.Copy(q.w, opened(from, src, "copied")))
			verify(to, q.close(), es, "copied")
			obs("%d", n)
		}})
	copying := func(max, more, nn, nd int) func() {
		return func() {
			begin()
			from, to := pick("from", "zip", "tar", "tar.gz", "gzip"), pick("to", "zip", "tar", "tar.gz", "gzip")
			es := pickEntries(max, nn, nd)
			var src string
			theirs := flip("source made by the standard library")
			if from == "gzip" && len(es) != 1 {
				return
			}
			switch {
			case theirs && from == "zip":
				src = pkzip(es...)
			case theirs && from == "gzip":
				src = pgzip(es[0].data)
			case theirs && from == "tar":
				src = ptar(es...)
			case theirs:
				src = pgzip(ptar(es...))
			default:
				p := newPacker(from)
				for _, e := range es {
					must(p.add(e, 5000))
				}
				src = p.close()
			}
			before := entry{"already/there", "first\n"}
			after := entry{"added later", noise(600)}
			var want []entry
			d := newPacker(to)
			around := to != "gzip" && flip("entries before and after")
			if around {
				must(d.add(before, 100))
				want = append(want, before)
			}
			want = append(want, es...)
			if from == "gzip" {
				want[len(want)-1].name = "given"
			}
			err := archive.Copy(d.w, opened(from, src, "given"))
			if to == "gzip" && len(es) > 1 {
				if err == nil {
					vs.Fail("%d files copied from %s to gzip without an error", len(es), from)
				}
				return
			}
			if err != nil {
				vs.Fail("copy from %s to %s: %v", from, to, err)
			}
			if around {
				must(d.add(after, 100))
				want = append(want, after)
			}
			if to == "gzip" && len(es) == 0 {
				want = []entry{{}}
			}
			b := d.close()
			verify(to, b, want, fmt.Sprintf("copy from %s to %s", from, to))
			for _, n := range names(tree()) {
				if !strings.HasSuffix(n, "/") {
					vs.Fail("copying left file %s behind", n)
				}
			}
			obs("%s %s %v %v", from, to, theirs, es)
		}
	}
	drv.Add(drv.Scenario{Prop: "C21", Name: "copy", Quick: 0,
		Desc: "copy 0 to 2 files (4 names, 5 contents) from each kind to each kind, source written by the library or by the standard library, with and without entries already in the target and added afterwards",
		Body: copying(2, 1, 4, 5)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "copy3", Quick: -1, Thorough: 0,
		Desc: "the same with 0 to 3 files (3 names, 6 contents)", Body: copying(3, 1, 3, 6)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "names", Quick: 0,
		Desc: "two files with each pair of 23 odd names (absolute, with .. or //, blanks, backslashes, not UTF-8, at the length limits of tar), in zip, tar and gzipped tar, read back, and copied from each kind to each kind",
		Body: func() {
			begin()
			from, to := pick("from", "zip", "tar", "tar.gz"), pick("to", "zip", "tar", "tar.gz")
			es := []entry{{oddNames[vs.Choose(len(oddNames), 0, "first name")], "1\n"}, {oddNames[vs.Choose(len(oddNames), 0, "second name")], noise(300)}}
			p := newPacker(from)
			for _, e := range es {
				if err := p.add(e, 1000); err != nil {
					vs.Fail("%s: adding %v: %v", from, e, err)
				}
			}
			b := p.close()
			verify(from, b, es, from+" written with the library")
			d := newPacker(to)
			if err := archive.Copy(d.w, opened(from, b, "given")); err != nil {
				vs.Fail("copy from %s to %s: %v", from, to, err)
			}
			verify(to, d.close(), es, "copy from "+from+" to "+to)
			obs("%s %s %q %q", from, to, es[0].name, es[1].name)
		}})
	rolledBody := func(calls int) func() {
		return func() {
			begin()
			if hook.NewRoller == nil {
				return
			}
			c := hook.Roller{Time: flip("time"), Path: fsRoot + "/l/f", ArchivePath: fsRoot + "/arch/a", Archive: pick("archive", "zip", "gzip"),
				Pattern: "2006-01-02", Limit: 4, Keep: 1 + vs.Choose(2, 0, "backups"), Prefix: flip("prefix")}
			kind := map[string]string{"zip": "zip", "gzip": "tar.gz"}[c.Archive]
			var want []entry
			switch vs.Choose(3, 0, "existing archive") {
			case 1:
				want = []entry{{"x/other", noise(700)}}
			case 2:
				want = []entry{{"one", ""}, {"f.1", "older"}, {strings.Repeat("d/", 70) + "two", noise(40000)}}
			}
			if want != nil {
				s := pkzip(want...)
				if kind == "tar.gz" {
					s = pgzip(ptar(want...))
				}
				write("arch/a", s)
			}
			data := []string{"record one\n", noise(70000), "zz\x00\n\n"}
			w := hook.NewRoller(c)
			var rolls []entry
			for i := 0; i < calls; i++ {
				if i > 0 && flip("restart") {
					w.Close()
					w = hook.NewRoller(c)
				}
				vs.Advance(24 * time.Hour)
				d := data[(i+vs.Choose(2, 0, "content"))%3]
				if _, err := w.Write([]byte(d)); err != nil {
					vs.Fail("write: %v", err)
				}
				name := fmt.Sprintf("%d", i+1)
				if c.Time {
					name = vs.Now().Format(c.Pattern)
				}
				if c.Prefix {
					name += ".f"
				} else {
					name = "f." + name
				}
				rolls = append(rolls, entry{name, d})
				gone := len(rolls) - 1 - c.Keep
				if gone < 0 {
					gone = 0
				}
				exp := append([]entry{}, want...)
				exp = append(exp, rolls[:gone]...)
				if len(exp) == 0 {
					continue
				}
				l, err := peek(kind, tree()["arch/a"])
				if err != nil {
					vs.Fail("call %d: the archive is unreadable: %v", i, err)
				}
				for k := range l {
					if k >= len(want) { // rolled files may be stored with their directory
						l[k].name = path.Base(l[k].name)
					}
				}
				sameEntries(kind, fmt.Sprintf("archive after call %d", i), l, exp)
			}
			obs("%v", c)
		}
	}
	drv.Add(drv.Scenario{Prop: "C21", Name: "rolled", Quick: 0,
		Desc: "4 rollovers whose rolls are added to one archive file (zip, gzipped tar), which is new or has entries already; size and time rolling, both name modes, restarts anywhere",
		Body: rolledBody(4)})
	drv.Add(drv.Scenario{Prop: "C21", Name: "rolled-long", Quick: -1, Thorough: 0,
		Desc: "the same with 7 rollovers", Body: rolledBody(7)})
}
