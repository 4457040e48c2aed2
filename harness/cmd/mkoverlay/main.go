// Command mkoverlay writes copies of the Go files under a source tree in which
// package sync is replaced by package vsync and go statements by vsync.Go, and
// the overlay file for "go build -overlay". It says "uncontrolled: why" if the
// code synchronises in ways that vsync does not cover.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const vsync = "github.com/chronos-tachyon/flate/verifharness/vsync"

func main() {
	root, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	why := map[string]bool{}
	n := 0
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if fi.IsDir() {
			if b := filepath.Base(path); path != root && (strings.HasPrefix(b, ".") || b == "cmd" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(path), filepath.Base(path)); err != nil || !ok {
			return nil
		}
		b, w, changed := rewrite(path)
		for _, x := range w {
			why[rel+": "+x] = true
		}
		if changed {
			n++
			dst := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
			if err := os.WriteFile(dst, b, 0o666); err != nil {
				panic(err)
			}
			replace[path] = dst
		}
		return nil
	})
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o666); err != nil {
		panic(err)
	}
	for w := range why {
		fmt.Println("uncontrolled:", w)
	}
	fmt.Println("rewritten:", n)
}

func rewrite(path string) (out []byte, why []string, changed bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, []string{err.Error()}, false
	}
	name := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			name = "sync"
			if im.Name != nil {
				name = im.Name.Name
			} else {
				im.Name = ast.NewIdent("sync")
			}
			im.Path.Value = strconv.Quote(vsync)
			changed = true
		case "sync/atomic":
			why = append(why, "sync/atomic")
		}
	}
	known := map[string]bool{"Mutex": true, "RWMutex": true, "Locker": true, "Map": true, "Cond": true, "NewCond": true, "WaitGroup": true, "Once": true, "Pool": true}
	needGo := false
	fix := func(list []ast.Stmt) {
		for i, s := range list {
			g, ok := s.(*ast.GoStmt)
			if !ok {
				if l, isl := s.(*ast.LabeledStmt); isl {
					if _, ok := l.Stmt.(*ast.GoStmt); ok {
						why = append(why, "labelled go statement")
					}
				}
				continue
			}
			needGo = true
			list[i] = goCall(g, "verifvsync")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			fix(x.List)
		case *ast.CaseClause:
			fix(x.Body)
		case *ast.CommClause:
			fix(x.Body)
		case *ast.SelectStmt:
			why = append(why, "select")
		case *ast.ChanType:
			why = append(why, "channel")
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && name != "" && id.Name == name && id.Obj == nil && !known[x.Sel.Name] {
				why = append(why, "sync."+x.Sel.Name)
			}
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" && id.Obj == nil {
				switch x.Sel.Name {
				case "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick":
					why = append(why, "time."+x.Sel.Name)
				}
			}
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "runtime" && id.Obj == nil && x.Sel.Name == "Gosched" {
				why = append(why, "runtime.Gosched")
			}
		}
		return true
	})
	if needGo {
		changed = true
	}
	if !changed {
		return
	}
	var buf bytes.Buffer
	f.Comments = keepDirectives(f)
	if err := printer.Fprint(&buf, fset, f); err != nil {
		return nil, []string{err.Error()}, false
	}
	b := buf.String()
	if needGo {
		// after the package clause
		i := strings.Index(b, "\npackage ")
		if strings.HasPrefix(b, "package ") {
			i = -1
		}
		j := i + 1 + strings.IndexByte(b[i+1:], '\n') + 1
		b = b[:j] + "\nimport verifvsync " + strconv.Quote(vsync) + "\n" + b[j:]
	}
	return []byte(b), why, true
}

// keepDirectives drops comments, which could otherwise end up in odd places.
func keepDirectives(f *ast.File) (out []*ast.CommentGroup) {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") || strings.HasPrefix(c.Text, "// +build") {
				out = append(out, g)
				break
			}
		}
	}
	return
}

// goCall turns "go f(a, b)" into a call of vsync.Go with f and its arguments
// evaluated first, as the language says.
func goCall(g *ast.GoStmt, pkg string) ast.Stmt {
	call := g.Call
	var lhs, rhs []ast.Expr
	tmp := func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.BasicLit:
			return e
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				return e
			}
		}
		id := ast.NewIdent(fmt.Sprintf("verifgo%d", len(lhs)))
		lhs = append(lhs, id)
		rhs = append(rhs, e)
		return ast.NewIdent(id.Name)
	}
	fun := call.Fun
	if _, ok := fun.(*ast.FuncLit); !ok {
		fun = tmp(fun)
	}
	var args []ast.Expr
	for _, a := range call.Args {
		args = append(args, tmp(a))
	}
	c2 := &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis.IsValid() {
		c2.Ellipsis = 1
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c2}}}}
	spawn := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{body}}}
	if len(lhs) == 0 {
		return spawn
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, spawn}}
}
