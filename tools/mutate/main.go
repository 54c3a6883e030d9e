// Command mutate lists small syntactic changes of Go files: one JSON object
// {file, line, desc, edits: [[start, end, text]...]} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit [3]interface{}

var (
	fset = token.NewFileSet()
	src  []byte
	name string
	out  = json.NewEncoder(os.Stdout)
)

func off(p token.Pos) int          { return fset.Position(p).Offset }
func text(n ast.Node) string       { return string(src[off(n.Pos()):off(n.End())]) }
func rep(n ast.Node, s string) edit { return edit{off(n.Pos()), off(n.End()), s} }

func emit(n ast.Node, desc string, e ...edit) {
	p := fset.Position(n.Pos())
	out.Encode(map[string]interface{}{"file": name, "line": p.Line, "desc": desc, "edits": e})
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.OR: {"&"}, token.AND: {"|"},
}

func isMsg(c *ast.CallExpr) bool {
	t := text(c.Fun)
	for _, s := range []string{"fmt.Errorf", "errors.New", "log.Println", "panic", "println", "newCannotOpenFileError"} {
		if t == s {
			return true
		}
	}
	return false
}

func stmts(l []ast.Stmt) {
	for i, s := range l {
		switch s := s.(type) {
		case *ast.ExprStmt:
			emit(s, "drop "+short(text(s)), rep(s, "_ = 0"))
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit(s, "drop "+short(text(s)), rep(s, "_ = 0"))
			}
		case *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
			emit(s, "drop "+short(text(s)), rep(s, "_ = 0"))
		case *ast.DeferStmt:
			emit(s, "drop "+short(text(s)), rep(s, "_ = 0"))
			if len(text(s)) < 200 {
				emit(s, "no defer "+short(text(s)), edit{off(s.Pos()), off(s.Pos()) + 5, ""})
			}
		case *ast.IfStmt:
			if s.Init == nil {
				emit(s, "if true "+short(text(s.Cond)), rep(s.Cond, "true || "+"("+text(s.Cond)+")"))
				emit(s, "if false "+short(text(s.Cond)), rep(s.Cond, "false && "+"("+text(s.Cond)+")"))
			} else {
				emit(s, "if false "+short(text(s.Cond)), rep(s.Cond, "false && "+"("+text(s.Cond)+")"))
			}
		case *ast.BranchStmt:
			if s.Label == nil {
				switch s.Tok {
				case token.CONTINUE:
					emit(s, "continue -> break", rep(s, "break"))
					emit(s, "drop continue", rep(s, "_ = 0"))
				case token.BREAK:
					emit(s, "drop break", rep(s, "_ = 0"))
				}
			}
		}
		// swap with the next one
		if i+1 < len(l) {
			a, b := s, l[i+1]
			_, r := b.(*ast.ReturnStmt)
			if !r && len(text(a)) < 400 && len(text(b)) < 400 {
				emit(a, "swap "+short(text(a))+" / "+short(text(b)), edit{off(a.Pos()), off(b.End()), text(b) + "\n" + text(a)})
			}
		}
	}
}

func main() {
	for _, f := range os.Args[2:] {
		name = f
		var err error
		src, err = os.ReadFile(os.Args[1] + "/" + f)
		if err != nil {
			panic(err)
		}
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		skip := map[ast.Node]bool{}
		ast.Inspect(a, func(n ast.Node) bool {
			if skip[n] {
				return false
			}
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.FuncDecl:
				if n.Body != nil && n.Name.Name != "String" || n.Recv == nil {
					locks(n)
				}
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					emit(n, fmt.Sprintf("%s: %s -> %s", short(text(n)), n.Op, t), edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), t})
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n, "drop ! "+short(text(n)), rep(n, text(n.X)))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n, fmt.Sprintf("%s -> %d", n.Value, v+1), rep(n, fmt.Sprint(v+1)))
						if v > 0 {
							emit(n, fmt.Sprintf("%s -> %d", n.Value, v-1), rep(n, fmt.Sprint(v-1)))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && len(s) < 60 {
						if s == "" {
							emit(n, `"" -> "x"`, rep(n, `"x"`))
						} else {
							emit(n, short(n.Value)+" -> shorter", rep(n, strconv.Quote(s[:len(s)-1])))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n, "true -> false", rep(n, "false"))
				} else if n.Name == "false" {
					emit(n, "false -> true", rep(n, "true"))
				}
			case *ast.CallExpr:
				if isMsg(n) {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if n.List != nil {
					emit(n, "drop case "+short(text(n)), rep(n, ""))
				}
				if len(n.Body) > 0 {
					emit(n, "empty case "+short(text(n)), edit{off(n.Colon) + 1, off(n.End()), ""})
				}
			case *ast.CommClause:
				stmts(n.Body)
				emit(n, "drop case "+short(text(n)), rep(n, ""))
			case *ast.KeyValueExpr:
				if len(text(n)) < 120 {
					e := off(n.End())
					for e < len(src) && (src[e] == ' ' || src[e] == ',') {
						e++
					}
					emit(n, "drop entry "+short(text(n)), edit{off(n.Pos()), e, ""})
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if t := text(r); t == "err" || t == "e" {
						emit(n, "return nil for "+t, rep(r, "nil"))
					} else if t == "nil" {
					}
				}
			}
			return true
		})
	}
}

// locks drops all lock operations of a function together, one receiver at a time.
func locks(f *ast.FuncDecl) {
	m := map[string][]edit{}
	var first = map[string]ast.Node{}
	var order []string
	ast.Inspect(f, func(n ast.Node) bool {
		var c *ast.CallExpr
		var s ast.Stmt
		switch n := n.(type) {
		case *ast.ExprStmt:
			c, _ = n.X.(*ast.CallExpr)
			s = n
		case *ast.DeferStmt:
			c, s = n.Call, n
		}
		if c == nil {
			return true
		}
		if se, ok := c.Fun.(*ast.SelectorExpr); ok {
			switch se.Sel.Name {
			case "Lock", "Unlock", "RLock", "RUnlock":
				k := text(se.X)
				if first[k] == nil {
					first[k] = s
					order = append(order, k)
				}
				m[k] = append(m[k], rep(s, "_ = 0"))
			}
		}
		return true
	})
	for _, k := range order {
		emit(first[k], "no locking of "+k+" in "+f.Name.Name, m[k]...)
	}
}
