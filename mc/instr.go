package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Preparation of the code under test for the controlled scheduler: a copy of
// every source file with a call before every statement (and after every
// read of an atomic variable), at which the scheduler
// may stop the evaluation that makes it. The copies replace the originals
// through the overlay of the go command; nothing else changes and no line
// moves.

const pointPkg = "github.com/jtcaraball/goexpdt/mcpoint"

const pointSrc = `// Package mcpoint is where the scheduler gets control.
package mcpoint

// Hook is called at every point.
var Hook func(site int)

// P is a point.
func P(site int) {
	if h := Hook; h != nil {
		h(site)
	}
}

// V is a point after the evaluation of an expression.
func V[T any](site int, v T) T {
	P(site)
	return v
}
`

type insertion struct {
	at   int
	text string
}

// instrument writes to out the copies and overlay.json for the module in dir.
func instrument(dir, out string) error {
	os.RemoveAll(out)
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	repl := map[string]string{}
	site := 0
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		b := d.Name()
		if d.IsDir() {
			if p != dir && (b[0] == '.' || b[0] == '_' || b == "testdata" || b == "vendor" || b == "examples") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			return nil // the build says so
		}
		if f.Name.Name == "main" {
			return nil
		}
		at := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
		var ins []insertion
		before := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				site++
				ins = append(ins, insertion{at(s.Pos()), fmt.Sprintf("mcpoint_.P(%d); ", site)})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				before(n.List)
			case *ast.CaseClause:
				before(n.Body)
			case *ast.CommClause:
				before(n.Body)
			case *ast.CallExpr: // reading an atomic variable
				s, ok := n.Fun.(*ast.SelectorExpr)
				if !ok || !strings.HasPrefix(s.Sel.Name, "Load") {
					break
				}
				x, _ := s.X.(*ast.Ident)
				if s.Sel.Name == "Load" && len(n.Args) == 0 || x != nil && x.Name == "atomic" {
					site++
					ins = append(ins, insertion{at(n.Pos()), fmt.Sprintf("mcpoint_.V(%d, ", site)}, insertion{at(n.End()), ")"})
				}
			}
			return true
		})
		if len(ins) == 0 {
			return nil
		}
		ins = append(ins, insertion{at(f.Name.End()), fmt.Sprintf("; import mcpoint_ %q", pointPkg)})
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
		var o strings.Builder
		last := 0
		for _, i := range ins {
			o.Write(src[last:i.at])
			o.WriteString(i.text)
			last = i.at
		}
		o.Write(src[last:])
		to := filepath.Join(out, fmt.Sprintf("%d.go", len(repl)))
		repl[p] = to
		return os.WriteFile(to, []byte(o.String()), 0o644)
	})
	if err != nil {
		return err
	}
	to := filepath.Join(out, "mcpoint.go")
	if err := os.WriteFile(to, []byte(pointSrc), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(dir, "mcpoint", "mcpoint.go")] = to
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}
