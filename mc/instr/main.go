// Command instr writes instrumented copies of the Go packages of a module to a
// scratch directory, together with an overlay file for the go command:
// synchronisation, time, files, signals and syslog go through the verifx shim
// packages, package state can be re-initialised between executions.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

var shims = map[string]string{ // std package -> shim directory
	"sync":        "vsync",
	"sync/atomic": "vatomic",
	"time":        "vtime",
	"os":          "vos",
	"io/ioutil":   "vioutil",
	"os/signal":   "vsignal",
	"log/syslog":  "vsyslog",
	"fmt":         "vfmt",
}

var (
	repo    = flag.String("repo", "/repo", "module directory")
	xdir    = flag.String("x", "", "directory of the verifx packages")
	access  = flag.String("access", "", "directory of in-package accessor files (DIR/<pkg path>/*.go)")
	out     = flag.String("out", "", "output directory")
	modfile = flag.String("modfile", "", "copy of go.mod")
	only    = flag.String("root", ".", "root package pattern")
)

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(1)
}

func main() {
	flag.Parse()
	args := []string{"list", "-mod=mod"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Module", *only)
	for s := range shims {
		args = append(args, s)
	}
	sort.Strings(args[len(args)-len(shims):])
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		fatal("no packages")
	}
	modPath := pkgs[0].Module.Path
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	os.MkdirAll(filepath.Join(*out, "src"), 0777)
	nf := 0
	for _, p := range pkgs {
		for path, text := range instrument(fset, imp, p, modPath) {
			nf++
			dst := filepath.Join(*out, "src", fmt.Sprintf("%03d_%s", nf, filepath.Base(path)))
			if err := os.WriteFile(dst, []byte(text), 0666); err != nil {
				fatal(err)
			}
			overlay[path] = dst
		}
	}
	// shim and harness packages
	filepath.Walk(*xdir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(*xdir, path)
			overlay[filepath.Join(*repo, "verifx", rel)] = path
		}
		return nil
	})
	if *access != "" {
		filepath.Walk(*access, func(path string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
				rel, _ := filepath.Rel(*access, path)
				overlay[filepath.Join(*repo, rel)] = path
			}
			return nil
		})
	}
	for std, shim := range shims {
		sp, err := imp.Import(std)
		if err != nil {
			fatal(err)
		}
		dst := filepath.Join(*out, "src", "pass_"+shim+".go")
		if err := os.WriteFile(dst, []byte(passthrough(std, shim, sp)), 0666); err != nil {
			fatal(err)
		}
		overlay[filepath.Join(*repo, "verifx", shim, "zz_pass.go")] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0666); err != nil {
		fatal(err)
	}
}

// passthrough re-exports everything of std that the shim does not declare.
func passthrough(std, shim string, sp *types.Package) string {
	have := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(*xdir, shim, "*.go"))
	fs := token.NewFileSet()
	for _, f := range files {
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			fatal(err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.23\n\npackage %s\n\nimport std %q\n\n", shim, std)
	fmt.Fprintf(&b, "var _ = 0\n")
	n := 0
	for _, name := range sp.Scope().Names() {
		o := sp.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		return fmt.Sprintf("//go:build go1.23\n\npackage %s\n", shim)
	}
	return b.String()
}

const vsName = "vsx__"

type file struct {
	path string
	ast  *ast.File
	src  []byte
	tail strings.Builder
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	f    *file
	n    int

	rename map[*ast.Ident]string
}

func instrument(fset *token.FileSet, imp types.Importer, p pkgInfo, modPath string) map[string]string {
	var files []*file
	var asts []*ast.File
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal(err)
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		files = append(files, &file{path: path, ast: a, src: src})
		asts = append(asts, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	conf.Check(p.ImportPath, fset, asts, info) // errors: the real build will report them
	r := &rewriter{fset: fset, info: info, rename: map[*ast.Ident]string{}}

	fileOf := func(pos token.Pos) *file {
		for _, f := range files {
			if f.ast.FileStart <= pos && pos <= f.ast.FileEnd {
				return f
			}
		}
		return files[0]
	}
	var calls []string
	k := 0
	// zero values
	for _, f := range files {
		r.f = f
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				if len(v.Values) > 0 || v.Type == nil {
					continue
				}
				for _, n := range v.Names {
					if n.Name == "_" {
						continue
					}
					k++
					fn := fmt.Sprintf("vsxreset_%d", k)
					fmt.Fprintf(&f.tail, "func %s() { %s = *new(%s) }\n", fn, n.Name, r.text(v.Type))
					calls = append(calls, fn)
				}
			}
		}
	}
	// initialisers
	for _, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		r.f = f
		var lhs []string
		blank := true
		for _, l := range in.Lhs {
			lhs = append(lhs, l.Name())
			blank = blank && l.Name() == "_"
		}
		if blank {
			continue
		}
		k++
		fn := fmt.Sprintf("vsxreset_%d", k)
		rhs := r.text(in.Rhs)
		if len(lhs) == 2 {
			if u, ok := unparen(in.Rhs).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				rhs = r.recv2(u)
			}
		}
		fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), rhs)
		calls = append(calls, fn)
	}
	// init functions
	for _, f := range files {
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				k++
				fn := fmt.Sprintf("vsxinit_%d", k)
				r.rename[fd.Name] = fn
				calls = append(calls, fn)
			}
		}
	}
	if len(calls) > 0 {
		fmt.Fprintf(&files[0].tail, "func init() { %s.RegisterReset(func() { ", vsName)
		for _, c := range calls {
			fmt.Fprintf(&files[0].tail, "%s(); ", c)
		}
		fmt.Fprintf(&files[0].tail, "}) }\n")
	}
	for id, o := range info.Uses {
		// with TryLock a held lock is visible: releasing must be a scheduling point
		if (id.Name == "TryLock" || id.Name == "TryRLock") && o.Pkg() != nil && o.Pkg().Path() == "sync" {
			fmt.Fprintf(&files[0].tail, "func init() { %s.UnlockPoints = true }\n", vsName)
			break
		}
	}
	res := map[string]string{}
	for _, f := range files {
		r.f = f
		body := r.text(f.ast)
		res[f.path] = fmt.Sprintf("//go:build go1.21\n\n%s\nvar _ = %s.Active\n%s", body, vsName, f.tail.String())
	}
	return res
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

type edit struct {
	a, b int
	s    string
}

// text returns the instrumented source text of n.
func (r *rewriter) text(n ast.Node) string {
	a, b := n.Pos(), n.End()
	if s, ok := r.special(n); ok {
		return s
	}
	var eds []edit
	if f, ok := n.(*ast.File); ok {
		a, b = f.FileStart, f.FileEnd
		e := r.off(f.Name.End())
		eds = append(eds, edit{e, e, fmt.Sprintf("; import %s \"github.com/xtfly/log4g/verifx/vs\"", vsName)})
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if c.Pos() < f.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
					eds = append(eds, edit{r.off(c.Pos()), r.off(c.End()), "//"})
				}
			}
		}
	}
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if s, ok := r.special(c); ok {
			eds = append(eds, edit{r.off(c.Pos()), r.off(c.End()), s})
			return false
		}
		return true
	})
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].a < eds[j].a })
	var sb strings.Builder
	p := r.off(a)
	for _, e := range eds {
		if e.a < p {
			continue
		}
		sb.Write(r.f.src[p:e.a])
		sb.WriteString(e.s)
		p = e.b
	}
	sb.Write(r.f.src[p:r.off(b)])
	return sb.String()
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) recv2(u *ast.UnaryExpr) string {
	return fmt.Sprintf("%s.Recv2(%s)", vsName, r.text(u.X))
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) texts(l []ast.Expr) string {
	var s []string
	for _, e := range l {
		s = append(s, r.text(e))
	}
	return strings.Join(s, ", ")
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return types.Typ[types.Invalid]
	}
	return tv.Type.Underlying()
}

// special returns the replacement of a node that is rewritten.
func (r *rewriter) special(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.Ident:
		if nn, ok := r.rename[n]; ok {
			return nn, true
		}
	case *ast.ImportSpec:
		path, _ := strconv.Unquote(n.Path.Value)
		if shim, ok := shims[path]; ok {
			name := path[strings.LastIndex(path, "/")+1:]
			if n.Name != nil {
				name = n.Name.Name
			}
			return fmt.Sprintf("%s \"github.com/xtfly/log4g/verifx/%s\"", name, shim), true
		}
	case *ast.GoStmt:
		return r.goStmt(n), true
	case *ast.SendStmt:
		return fmt.Sprintf("%s.Sender(%s)(%s)", vsName, r.text(n.Chan), r.text(n.Value)), true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return fmt.Sprintf("%s.Recv(%s)", vsName, r.text(n.X)), true
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := isRecv(n.Rhs[0]); ok {
				return fmt.Sprintf("%s %s %s", r.texts(n.Lhs), n.Tok, r.recv2(u)), true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := isRecv(n.Values[0]); ok {
				t := ""
				if n.Type != nil {
					t = " " + r.text(n.Type)
				}
				return fmt.Sprintf("%s, %s%s = %s", n.Names[0].Name, n.Names[1].Name, t, r.recv2(u)), true
			}
		}
	case *ast.CallExpr:
		if r.isBuiltin(n.Fun, "close") {
			return fmt.Sprintf("%s.Close(%s)", vsName, r.texts(n.Args)), true
		}
		if r.isBuiltin(n.Fun, "println") || r.isBuiltin(n.Fun, "print") {
			return fmt.Sprintf("%s.Println(%s)", vsName, r.texts(n.Args)), true
		}
	case *ast.RangeStmt:
		switch r.under(n.X).(type) {
		case *types.Chan:
			return r.rangeIter(n, "ChanIter", "V"), true
		case *types.Map:
			return r.rangeIter(n, "MapIter", "K"), true
		}
	case *ast.SelectStmt:
		return r.selectStmt(n, ""), true
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, n.Label.Name), true
		}
	}
	return "", false
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeIter(n *ast.RangeStmt, ctor, first string) string {
	r.n++
	it := fmt.Sprintf("vsxit%d", r.n)
	asg := ""
	var l, v []string
	if !isBlank(n.Key) {
		l, v = append(l, r.text(n.Key)), append(v, it+"."+first)
	}
	if !isBlank(n.Value) {
		l, v = append(l, r.text(n.Value)), append(v, it+".V")
	}
	if len(l) > 0 {
		asg = fmt.Sprintf("%s %s %s; ", strings.Join(l, ", "), n.Tok, strings.Join(v, ", "))
	}
	body := r.text(n.Body)
	return fmt.Sprintf("for %s := %s.%s(%s); %s.Next(); { %s%s", it, vsName, ctor, r.text(n.X), it, asg, body[1:])
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	c := n.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return fmt.Sprintf("%s.Go(%s)", vsName, r.text(fl))
	}
	if tv, ok := r.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		return fmt.Sprintf("%s.Go(func() { %s })", vsName, r.text(c))
	}
	r.n++
	var l, v, args []string
	fn := fmt.Sprintf("vsxf%d", r.n)
	l, v = append(l, fn), append(v, r.text(c.Fun))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok { // f(g()) with several results
			return fmt.Sprintf("%s.Go(func() { %s })", vsName, r.text(c))
		}
		an := fmt.Sprintf("vsxa%d_%d", r.n, i)
		l, v = append(l, an), append(v, r.text(a))
		args = append(args, an)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	return fmt.Sprintf("{ %s := %s; %s.Go(func() { %s(%s%s) }) }", strings.Join(l, ", "), strings.Join(v, ", "), vsName, fn, strings.Join(args, ", "), dots)
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label string) string {
	r.n++
	id := r.n
	var pre, body strings.Builder
	var names []string
	hasDefault := false
	i := 0
	for _, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		stmts := ""
		for _, s := range cc.Body {
			stmts += r.text(s) + "\n"
		}
		if cc.Comm == nil {
			hasDefault = true
			fmt.Fprintf(&body, "case -1:\n%s", stmts)
			continue
		}
		name := fmt.Sprintf("vsxc%d_%d", id, i)
		head := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := %s.MkSend(%s)(%s); ", name, vsName, r.text(c.Chan), r.text(c.Value))
			head = name + ".Do()"
		case *ast.ExprStmt:
			u, _ := isRecv(c.X)
			fmt.Fprintf(&pre, "%s := %s.MkRecv(%s); ", name, vsName, r.text(u.X))
			head = name + ".Get()"
		case *ast.AssignStmt:
			u, _ := isRecv(c.Rhs[0])
			fmt.Fprintf(&pre, "%s := %s.MkRecv(%s); ", name, vsName, r.text(u.X))
			get := ".Get()"
			if len(c.Lhs) == 2 {
				get = ".Get2()"
			}
			head = fmt.Sprintf("%s %s %s%s", r.texts(c.Lhs), c.Tok, name, get)
		}
		fmt.Fprintf(&body, "case %d:\n%s\n%s", i, head, stmts)
		names = append(names, name)
		i++
	}
	lab := ""
	if label != "" {
		lab = label + ": "
	}
	cases := ""
	for _, nm := range names {
		cases += ", " + nm
	}
	return fmt.Sprintf("{ %s%sswitch %s.Select(%v%s) {\n%sdefault: panic(\"unreachable\") } }", pre.String(), lab, vsName, hasDefault, cases, body.String())
}
