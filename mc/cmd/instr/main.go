// Command instr writes instrumented copies of Go packages and the overlay file that puts them in place:
//
//	instr [-nosplit] OUT DIR...
//
// Before every statement of every function a scheduling point is inserted, package sync is replaced by its cooperative
// stand-in, and assignments to fields that read and write in one statement are split around a scheduling point.
// Line numbers stay as they are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at, end int
	text    string
}

func main() {
	nosplit := flag.Bool("nosplit", false, "do not split assignments")
	flag.Parse()
	out := flag.Arg(0)
	replace := map[string]string{}
	n := 0
	for _, dir := range flag.Args()[1:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			panic(err)
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			res, ok := instrument(f, src, !*nosplit)
			if !ok {
				continue
			}
			n++
			dst := filepath.Join(out, fmt.Sprintf("%03d_%s", n, filepath.Base(f)))
			if err := os.WriteFile(dst, res, 0644); err != nil {
				panic(err)
			}
			replace[f] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		panic(err)
	}
}

func instrument(name string, src []byte, split bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	base := filepath.Base(filepath.Dir(name)) + "/" + filepath.Base(name)
	var eds []edit
	points := 0
	point := func(p token.Pos) string {
		points++
		return fmt.Sprintf("verifsched.Y(%q); ", fmt.Sprintf("%s:%d", base, fset.Position(p).Line))
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			eds = append(eds, edit{off(s.Pos()), off(s.Pos()), point(s.Pos())})
			if !split {
				continue
			}
			if e, ok := splitAssign(s, src, off, point); ok {
				eds = append(eds, e)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(clauseFree(x.List))
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	sync := false
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			sync = true
			text := `"verif/mc/sched/syncx"`
			if im.Name == nil {
				text = "sync " + text
			}
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	if points == 0 && !sync {
		return nil, false
	}
	if points > 0 {
		eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), `; import verifsched "verif/mc/sched"`})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
	var b []byte
	pos := 0
	for _, e := range eds {
		if e.at < pos {
			// inside of a replaced assignment
			continue
		}
		b = append(b, src[pos:e.at]...)
		b = append(b, e.text...)
		pos = e.end
	}
	b = append(b, src[pos:]...)
	return b, true
}

// clauseFree drops the clauses of switch and select bodies.
func clauseFree(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
		default:
			r = append(r, s)
		}
	}
	return r
}

// plain: x, x.y, x.y.z, *x
func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plain(x.X)
	case *ast.StarExpr:
		return plain(x.X)
	case *ast.ParenExpr:
		return plain(x.X)
	}
	return false
}

func contains(e ast.Node, f func(ast.Node) bool) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if n != nil && f(n) {
			found = true
		}
		return !found
	})
	return found
}

// splitAssign rewrites x.y = f(...), x.y += v and x.y++ so that another thread may run between reading and writing.
func splitAssign(s ast.Stmt, src []byte, off func(token.Pos) int, point func(token.Pos) string) (edit, bool) {
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if _, ok := x.X.(*ast.SelectorExpr); !ok || !plain(x.X) {
			return edit{}, false
		}
		l := text(x.X)
		return edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ verifT := %s; verifT%s; %s%s = verifT }", l, x.Tok, point(s.Pos()), l)}, true
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !plain(x.Lhs[0]) {
			return edit{}, false
		}
		if _, ok := x.Lhs[0].(*ast.Ident); ok {
			return edit{}, false
		}
		l, r := text(x.Lhs[0]), text(x.Rhs[0])
		if strings.Contains(r, "\n") || contains(x.Rhs[0], func(n ast.Node) bool { _, ok := n.(*ast.FuncLit); return ok }) {
			return edit{}, false
		}
		if x.Tok != token.ASSIGN {
			op := strings.TrimSuffix(x.Tok.String(), "=")
			return edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ verifT := %s; verifT = verifT %s (%s); %s%s = verifT }", l, op, r, point(s.Pos()), l)}, true
		}
		if _, ok := x.Rhs[0].(*ast.CallExpr); !ok {
			return edit{}, false
		}
		return edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ verifT := %s; %s%s = verifT }", r, point(s.Pos()), l)}, true
	}
	return edit{}, false
}
