//go:build go1.23

// Package vos replaces package os in instrumented code. Files live on the real
// file system, but only below Root may anything be created, changed or removed.
// Every operation can be a scheduling point, can fail on the explorer's choice,
// or can be the point at which the simulated process dies.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/verifx/vs"
)

// Ctl is the harness's control over the file system of one execution.
type Ctl struct {
	Root     string // mutations outside are refused
	Sched    bool   // operations are scheduling points
	Faults   bool   // operations may fail (explorer choice, cost 1)
	FaultOps string // space separated operation kinds that may fail, "" for all
	Outage   string // space separated operation kinds that all fail
	OutageAt string // base name of the only file they fail for, "" for all
	Crash    bool   // mutating operations may be the last (explorer choice, cost 1)
	Hit      int    // faults injected so far
	HitWhat  string
	Unpriv   bool // permission bits count, as they do for the owner of the files
	Crashed  bool // the simulated process is dead: operations have no effect
	Escaped  []string
	Muts     int // mutating operations performed
	MkTmp    int
	OnOp     func(op, path string)
}

// C is the control block of the current execution.
var C Ctl

var open []*File

var console, errout sink

type sink struct{ recs []string }

// Console returns what was written to standard output, one string per Write.
func Console() []string { return console.recs }

// Errors is what has been written to standard error.
func Errors() []string { return errout.recs }

// Stdouts of instrumented code.
var (
	Stdin  = &File{name: "/dev/stdin", std: os.Stdin}
	Stdout = &File{name: "/dev/stdout", sink: &console}
	Stderr = &File{name: "/dev/stderr", sink: &errout}
)

// ErrInjected is the cause of injected failures.
var ErrInjected = syscall.EIO

var errDead = errors.New("vos: process is dead")

func init() {
	vs.Printed = func(s string) { errout.recs = append(errout.recs, s) }
}

func init() { vs.AtEnd(func() { closeAll(); C = Ctl{}; console.recs = nil; errout.recs = nil }) }

//go:noinline
func closeAll() {
	for _, f := range open {
		if f.f != nil {
			f.f.Close()
			f.f = nil
			f.gone = true
		}
	}
	open = nil
}

// Handles are the files open now: names, and what identifies the files.
func Handles() (names []string, files []os.FileInfo) {
	for _, f := range open {
		if f.f != nil {
			fi, err := f.f.Stat()
			if err != nil {
				panic(err)
			}
			names, files = append(names, f.name), append(files, fi)
		}
	}
	return
}

// Reboot closes all files of the dead process and brings the file system back.
func Reboot() {
	closeAll()
	C.Crashed = false
}

func inert() bool { return C.Crashed || vs.Killed() }

// guard reports an error if path may not be changed.
func guard(op, path string) error {
	if C.Root == "" {
		return &fs.PathError{Op: op, Path: path, Err: syscall.EPERM}
	}
	p, err := filepath.Abs(path)
	if err != nil {
		return err
	}
	if p != C.Root && !strings.HasPrefix(p, C.Root+"/") {
		C.Escaped = append(C.Escaped, op+" "+path)
		return &fs.PathError{Op: op, Path: path, Err: syscall.EPERM}
	}
	return nil
}

// allowed reports whether the owner of path may use it so: bits 4, 2 and 1 for
// read, write and search; true if it does not exist.
func allowed(path string, bits os.FileMode) bool {
	fi, err := os.Stat(path)
	return err != nil || fi.Mode().Perm()>>6&bits == bits
}

// reach reports an error if permissions keep the owner from finding path or,
// with change, from making, renaming or removing it.
func reach(op, path string, change bool) error {
	if !C.Unpriv || !vs.Active() {
		return nil
	}
	p, err := filepath.Abs(path)
	if err != nil || !strings.HasPrefix(p, C.Root+"/") {
		return nil
	}
	first := true
	for d := filepath.Dir(p); strings.HasPrefix(d, C.Root); d = filepath.Dir(d) {
		if _, err := os.Stat(d); err != nil {
			continue
		}
		need := os.FileMode(1)
		if first && change {
			need = 3
		}
		first = false
		if !allowed(d, need) {
			return &fs.PathError{Op: op, Path: path, Err: syscall.EACCES}
		}
	}
	return nil
}

// mayOpen is reach for opening a file.
func mayOpen(name string, flag int) error {
	if !C.Unpriv || !vs.Active() {
		return nil
	}
	p, err := filepath.Abs(name)
	if err != nil || p != C.Root && !strings.HasPrefix(p, C.Root+"/") {
		return nil
	}
	_, err = os.Stat(p)
	if err := reach("open", name, err != nil && flag&os.O_CREATE != 0); err != nil {
		return err
	}
	bits := os.FileMode(4)
	switch {
	case flag&os.O_RDWR != 0:
		bits = 6
	case flag&os.O_WRONLY != 0:
		bits = 2
	}
	if !allowed(p, bits) {
		return &fs.PathError{Op: "open", Path: name, Err: syscall.EACCES}
	}
	return nil
}

func faultable(op string) bool {
	if !C.Faults {
		return false
	}
	if C.FaultOps == "" {
		return true
	}
	for _, o := range strings.Fields(C.FaultOps) {
		if o == op {
			return true
		}
	}
	return false
}

// enter is called before every operation. It returns a non-nil error when the
// operation shall fail without effect.
//
//go:noinline
func enter(op, path string, mut bool) error {
	if inert() {
		return &fs.PathError{Op: op, Path: path, Err: errDead}
	}
	if !vs.Active() {
		return nil
	}
	if C.Sched {
		vs.Point(op)
		if inert() {
			return &fs.PathError{Op: op, Path: path, Err: errDead}
		}
	}
	if C.OnOp != nil {
		C.OnOp(op, path)
	}
	if mut {
		C.Muts++
		if C.Crash && vs.Choose(2, 1, "crash before "+op+" "+path) == 1 {
			die(op, path)
		}
	}
	if down(op, path) {
		hit(op, path)
		return &fs.PathError{Op: op, Path: path, Err: ErrInjected}
	}
	if faultable(op) && vs.Choose(2, 1, "fail "+op+" "+path) == 1 {
		hit(op, path)
		return &fs.PathError{Op: op, Path: path, Err: ErrInjected}
	}
	return nil
}

func down(op, path string) bool {
	if C.Outage == "" || C.OutageAt != "" && C.OutageAt != filepath.Base(path) {
		return false
	}
	for _, o := range strings.Fields(C.Outage) {
		if o == op {
			return true
		}
	}
	return false
}

func hit(op, path string) {
	C.Hit++
	C.HitWhat += op + " " + filepath.Base(path) + ";"
	if vs.Verbose() {
		vs.Note("   fault: %s %s", op, path)
	}
}

func die(op, path string) {
	C.HitWhat += "crash at " + op + " " + filepath.Base(path) + ";"
	if vs.Verbose() {
		vs.Note("   crash: %s %s", op, path)
	}
	C.Crashed = true
	vs.Crash()
}

func touch(path string) {
	if C.Root != "" && ex() {
		os.Chtimes(path, vs.Now(), vs.Now())
	}
}

func ex() bool { return vs.Cur() != nil }

// File is os.File.
type File struct {
	name string
	f    *os.File
	std  *os.File
	sink *sink
	wr   bool
	gone bool
	dir  []os.FileInfo
	read bool
	tmp  bool // of CreateTemp
}

func wrap(f *os.File, name string, wr bool) *File {
	w := &File{name: name, f: f, wr: wr}
	open = append(open, w)
	return w
}

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: err}
}

// OpenFile is os.OpenFile.
//
//go:noinline
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	wr := flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0
	mut := false
	if wr {
		if _, err := os.Lstat(name); err != nil || flag&os.O_TRUNC != 0 {
			mut = true
		}
	}
	if err := enter("open", name, mut); err != nil {
		return nil, err
	}
	if wr {
		if err := guard("open", name); err != nil {
			return nil, err
		}
	}
	if err := mayOpen(name, flag); err != nil {
		return nil, err
	}
	_, serr := os.Lstat(name)
	vs.RaceOff()
	f, err := os.OpenFile(name, flag, perm)
	vs.RaceOn()
	if err != nil {
		return nil, err
	}
	if wr && (serr != nil || flag&os.O_TRUNC != 0) {
		touch(name)
	}
	return wrap(f, name, wr), nil
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.sink == nil && f.std == nil && f.f == nil {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *File) os() *os.File {
	if f.std != nil {
		return f.std
	}
	return f.f
}

// Name is os.File.Name.
func (f *File) Name() string { return f.name }

// Write is os.File.Write.
//
//go:noinline
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.sink != nil {
		if vs.Killed() {
			return len(b), nil
		}
		vs.RaceReadBytes(b)
		if C.Sched {
			vs.Point("write stdout")
		}
		f.sink.recs = append(f.sink.recs, string(b))
		return len(b), nil
	}
	if inert() {
		return 0, perr("write", f.name, errDead)
	}
	vs.RaceReadBytes(b)
	if vs.Active() {
		if C.Sched {
			vs.Point("write")
			if inert() {
				return 0, perr("write", f.name, errDead)
			}
			if err := f.check("write"); err != nil {
				return 0, err
			}
		}
		if C.OnOp != nil {
			C.OnOp("write", f.name)
		}
		C.Muts++
		if C.Crash && len(b) > 0 {
			n := 2
			if len(b) > 1 {
				n = 3
			}
			switch vs.Choose(n, 1, "crash before/within write "+f.name) {
			case 1:
				die("write", f.name)
			case 2:
				if guardFile(f) == nil {
					f.f.Write(b[:len(b)/2])
					touchf(f)
				}
				die("torn write", f.name)
			}
		}
		if down("write", f.name) {
			hit("write", f.name)
			return 0, perr("write", f.name, ErrInjected)
		}
		if faultable("write") {
			n := 2
			if len(b) > 1 {
				n = 3
			}
			switch vs.Choose(n, 1, "fail write "+f.name) {
			case 1:
				hit("write", f.name)
				return 0, perr("write", f.name, ErrInjected)
			case 2:
				hit("short write", f.name)
				n, _ := f.f.Write(b[:len(b)/2])
				touch(f.name)
				return n, perr("write", f.name, syscall.ENOSPC)
			}
		}
	}
	if err := guardFile(f); err != nil {
		return 0, err
	}
	vs.RaceOff()
	n, err := f.f.Write(b)
	vs.RaceOn()
	touchf(f)
	return n, err
}

func guardFile(f *File) error {
	if !f.wr {
		return nil // the real call fails with EBADF
	}
	return guard("write", f.name)
}

func touchf(f *File) {
	if C.Root == "" || !ex() {
		return
	}
	t := vs.Now().UnixMicro() // truncated, as file systems do
	tv := syscall.Timeval{Sec: t / 1e6, Usec: t % 1e6}
	syscall.Futimes(int(f.f.Fd()), []syscall.Timeval{tv, tv})
}

// WriteString is os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt is os.File.WriteAt.
//
//go:noinline
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if err := enter("write", f.name, true); err != nil {
		return 0, err
	}
	if err := guardFile(f); err != nil {
		return 0, err
	}
	vs.RaceReadBytes(b)
	n, err := f.os().WriteAt(b, off)
	touchf(f)
	return n, err
}

// Read is os.File.Read.
//
//go:noinline
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := enter("read", f.name, false); err != nil {
		return 0, err
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	vs.RaceOff()
	n, err := f.os().Read(b)
	vs.RaceOn()
	vs.RaceWriteBytes(b[:n])
	return n, err
}

// ReadAt is os.File.ReadAt.
//
//go:noinline
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := enter("read", f.name, false); err != nil {
		return 0, err
	}
	vs.RaceOff()
	n, err := f.os().ReadAt(b, off)
	vs.RaceOn()
	return n, err
}

// Seek is os.File.Seek.
//
//go:noinline
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if err := enter("seek", f.name, false); err != nil {
		return 0, err
	}
	f.read, f.dir = false, nil
	return f.os().Seek(off, whence)
}

// Close is os.File.Close. An injected failure closes the file all the same, and
// leaves a temporary file without the second half of its content, as when
// writes held back until then have failed.
//
//go:noinline
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.sink != nil || f.std != nil {
		return nil
	}
	err := enter("close", f.name, false)
	if inert() {
		return err
	}
	if f.f == nil { // closed by another thread meanwhile
		return perr("close", f.name, os.ErrClosed)
	}
	vs.RaceOff()
	if fi, e := f.f.Stat(); e == nil && err != nil && f.tmp {
		f.f.Truncate(fi.Size() / 2)
	}
	cerr := f.f.Close()
	vs.RaceOn()
	f.f = nil
	for i, o := range open {
		if o == f {
			open = append(open[:i:i], open[i+1:]...)
			break
		}
	}
	if err == nil {
		err = cerr
	}
	return err
}

// Sync is os.File.Sync.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.sink != nil || f.std != nil {
		return nil
	}
	return enter("sync", f.name, false)
}

// Truncate is os.File.Truncate.
//
//go:noinline
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := enter("truncate", f.name, true); err != nil {
		return err
	}
	if err := guard("truncate", f.name); err != nil {
		return err
	}
	err := f.os().Truncate(n)
	touchf(f)
	return err
}

// Stat is os.File.Stat.
//
//go:noinline
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.sink != nil {
		return os.Stdout.Stat()
	}
	if err := enter("fstat", f.name, false); err != nil {
		return nil, err
	}
	return f.os().Stat()
}

// Chmod is os.File.Chmod.
func (f *File) Chmod(m os.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if err := enter("chmod", f.name, true); err != nil {
		return err
	}
	if err := guard("chmod", f.name); err != nil {
		return err
	}
	return f.os().Chmod(m)
}

// Fd is os.File.Fd.
func (f *File) Fd() uintptr {
	if f == nil || f.os() == nil {
		return ^uintptr(0)
	}
	return f.os().Fd()
}

// Readdir is os.File.Readdir, in name order.
//
//go:noinline
func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if err := enter("readdir", f.name, false); err != nil {
		return nil, err
	}
	if !f.read {
		vs.RaceOff()
		l, err := list(f.os())
		vs.RaceOn()
		if err != nil {
			return nil, err
		}
		sort.Slice(l, func(i, j int) bool { return (l[i].Name() < l[j].Name()) != vs.MapReverse })
		f.dir, f.read = l, true
	}
	if n <= 0 {
		l := f.dir
		f.dir = nil
		return l, nil
	}
	if len(f.dir) == 0 {
		return nil, io.EOF
	}
	if n > len(f.dir) {
		n = len(f.dir)
	}
	l := f.dir[:n:n]
	f.dir = f.dir[n:]
	return l, nil
}

// list reads a directory without the pool of buffers in package os, whose own
// synchronisation the race detector does not see here.
func list(d *os.File) (l []os.FileInfo, err error) {
	fd, buf := int(d.Fd()), make([]byte, 8192)
	var names []string
	for {
		n, err := syscall.ReadDirent(fd, buf)
		if err == syscall.EINTR {
			continue
		} else if err != nil {
			return nil, perr("readdirent", d.Name(), err)
		} else if n <= 0 {
			break
		}
		_, _, names = syscall.ParseDirent(buf[:n], -1, names)
	}
	for _, n := range names {
		fi, err := os.Lstat(d.Name() + "/" + n)
		if os.IsNotExist(err) {
			continue
		} else if err != nil {
			return nil, err
		}
		l = append(l, fi)
	}
	return l, nil
}

func removeAll(path string) error {
	err := os.Remove(path)
	if err == nil || os.IsNotExist(err) {
		return nil
	}
	fi, serr := os.Lstat(path)
	if serr != nil || !fi.IsDir() {
		return err
	}
	d, err := os.Open(path)
	if err != nil {
		return err
	}
	l, err := list(d)
	d.Close()
	for _, e := range l {
		if rerr := removeAll(path + "/" + e.Name()); rerr != nil && err == nil {
			err = rerr
		}
	}
	if err != nil {
		return err
	}
	return os.Remove(path)
}

// Readdirnames is os.File.Readdirnames.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var s []string
	for _, fi := range l {
		s = append(s, fi.Name())
	}
	return s, err
}

// ReadDir is os.File.ReadDir.
func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	l, err := f.Readdir(n)
	var s []os.DirEntry
	for _, fi := range l {
		s = append(s, fs.FileInfoToDirEntry(fi))
	}
	return s, err
}

// Remaining methods of os.File.
func (f *File) SetDeadline(time.Time) error      { return nil }
func (f *File) SetReadDeadline(time.Time) error  { return nil }
func (f *File) SetWriteDeadline(time.Time) error { return nil }
func (f *File) Chown(int, int) error             { return f.check("chown") }
func (f *File) Chdir() error                     { return perr("chdir", f.name, syscall.EPERM) }

func mutate(op, path string, do func() error) error {
	if err := enter(op, path, true); err != nil {
		return err
	}
	if err := guard(op, path); err != nil {
		return err
	}
	if err := reach(op, path, op != "chmod" && op != "chtimes" && op != "chown" && op != "truncate"); err != nil {
		return err
	}
	vs.RaceOff()
	err := do()
	vs.RaceOn()
	return err
}

// Remove is os.Remove.
//
//go:noinline
func Remove(name string) error {
	return mutate("remove", name, func() error { return os.Remove(name) })
}

// RemoveAll is os.RemoveAll.
//
//go:noinline
func RemoveAll(path string) error {
	return mutate("remove", path, func() error {
		if p, err := filepath.Abs(path); err != nil || !strings.HasPrefix(p, C.Root+"/") {
			return syscall.EPERM
		}
		return removeAll(path)
	})
}

// Rename is os.Rename.
//
//go:noinline
func Rename(o, n string) error {
	if err := enter("rename", o, true); err != nil {
		return &os.LinkError{Op: "rename", Old: o, New: n, Err: err.(*fs.PathError).Err}
	}
	for _, p := range []string{o, n} {
		if err := guard("rename", p); err != nil {
			return err
		}
		if err := reach("rename", p, true); err != nil {
			return err
		}
	}
	return os.Rename(o, n)
}

// Link is os.Link.
//
//go:noinline
func Link(o, n string) error {
	return mutate("link", n, func() error {
		if err := guard("link", o); err != nil {
			return err
		}
		return os.Link(o, n)
	})
}

// Symlink is os.Symlink.
func Symlink(o, n string) error {
	return mutate("symlink", n, func() error { return os.Symlink(o, n) })
}

// Mkdir is os.Mkdir.
//
//go:noinline
func Mkdir(name string, perm os.FileMode) error {
	return mutate("mkdir", name, func() error { return os.Mkdir(name, perm) })
}

// MkdirAll is os.MkdirAll.
//
//go:noinline
func MkdirAll(path string, perm os.FileMode) error {
	if fi, err := os.Stat(path); err == nil && fi.IsDir() {
		if inert() {
			return perr("mkdir", path, errDead)
		}
		return enter("mkdir", path, false)
	}
	return mutate("mkdir", path, func() error { return os.MkdirAll(path, perm) })
}

// Chmod is os.Chmod.
//
//go:noinline
func Chmod(name string, m os.FileMode) error {
	return mutate("chmod", name, func() error { return os.Chmod(name, m) })
}

// Chtimes is os.Chtimes.
func Chtimes(name string, a, m time.Time) error {
	return mutate("chtimes", name, func() error { return os.Chtimes(name, a, m) })
}

// Chown is os.Chown.
func Chown(name string, u, g int) error { return mutate("chown", name, func() error { return nil }) }

// Lchown is os.Lchown.
func Lchown(name string, u, g int) error { return Chown(name, u, g) }

// Chdir is os.Chdir.
func Chdir(string) error { return syscall.EPERM }

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	return mutate("truncate", name, func() error {
		if C.Unpriv && vs.Active() && !allowed(name, 2) {
			return perr("truncate", name, syscall.EACCES)
		}
		return os.Truncate(name, n)
	})
}

// Stat is os.Stat.
//
//go:noinline
func Stat(name string) (os.FileInfo, error) {
	if err := enter("stat", name, false); err != nil {
		return nil, err
	}
	if err := reach("stat", name, false); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

// Lstat is os.Lstat.
//
//go:noinline
func Lstat(name string) (os.FileInfo, error) {
	if err := enter("stat", name, false); err != nil {
		return nil, err
	}
	if err := reach("stat", name, false); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile is os.WriteFile.
func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]os.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

// TempDir is os.TempDir: a directory of the execution.
func TempDir() string {
	if C.Root == "" {
		return os.TempDir()
	}
	d := C.Root + "/tmp"
	if _, err := os.Lstat(d); err != nil {
		os.Mkdir(d, 0777)
	}
	return d
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	C.MkTmp++
	// like the real function, never the name of an existing file
	for {
		n := fmt.Sprintf("%09d", C.MkTmp)
		p := pattern + n
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			p = pattern[:i] + n + pattern[i+1:]
		}
		p = filepath.Join(dir, p)
		if _, err := os.Lstat(p); err != nil {
			return p
		}
		C.MkTmp++
	}
}

// CreateTemp is os.CreateTemp with deterministic names.
func CreateTemp(dir, pattern string) (*File, error) {
	f, err := OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
	if f != nil {
		f.tmp = true
	}
	return f, err
}

// MkdirTemp is os.MkdirTemp with deterministic names.
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

// CopyFS is os.CopyFS.
func CopyFS(string, fs.FS) error { return syscall.EPERM }

// Exit is os.Exit.
func Exit(code int) { vs.Fatal(fmt.Sprintf("os.Exit(%d) called", code)) }

// NewFile is os.NewFile.
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	f := os.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{name: name, std: f}
}

// Pipe is os.Pipe.
func Pipe() (*File, *File, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return wrap(r, "|0", false), wrap(w, "|1", false), nil
}
