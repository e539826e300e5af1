// Command instr writes copies of the Go files of one directory in which every
// statement is preceded by a call of link.Y(n), and an overlay file that makes
// the go command use the copies. Y only ever yields the processor, so the
// instrumented program behaves like the original one under another schedule.
//
//	instr DIR OUTDIR FIRST
//
// It prints one line "n file:line function" per point.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	next, _ := strconv.Atoi(os.Args[3])
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	sort.Strings(names)
	replace := map[string]string{}
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		check(err)
		type ins struct {
			off  int
			text string
		}
		list := []ins{{fset.Position(f.Name.End()).Offset, `; import verifpt "github.com/funny/link"`}}
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			add := func(stmts []ast.Stmt) {
				for _, s := range stmts {
					if _, empty := s.(*ast.EmptyStmt); empty {
						continue
					}
					p := fset.PositionFor(s.Pos(), false)
					list = append(list, ins{p.Offset, fmt.Sprintf("verifpt.Y(%d);", next)})
					fmt.Printf("%d %s:%d %s\n", next, filepath.Base(name), p.Line, fn.Name.Name)
					next++
				}
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ForStmt:
					if plain(n.Body) {
						return false
					}
				case *ast.RangeStmt:
					if plain(n.Body) {
						return false
					}
				case *ast.BlockStmt:
					add(caseless(n.List))
				case *ast.CaseClause:
					add(n.Body)
				case *ast.CommClause:
					add(n.Body)
				}
				return true
			})
		}
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b strings.Builder
		last := 0
		for _, i := range list {
			b.Write(src[last:i.off])
			b.WriteString(i.text)
			last = i.off
		}
		b.Write(src[last:])
		b.WriteString("\nvar _ = verifpt.Y\n")
		cp := filepath.Join(out, filepath.Base(name))
		check(os.WriteFile(cp, []byte(b.String()), 0644))
		replace[name] = cp
	}
	data, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), data, 0644))
}

// plain says whether a loop body only computes: it calls nothing, not even a
// builtin, assigns to plain variables only, and neither sends nor receives. Points in it would only cost time.
func plain(b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			ok = false
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if _, local := l.(*ast.Ident); !local {
					ok = false
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// caseless drops the clauses of a switch or select body, which are not statements.
func caseless(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
		default:
			out = append(out, s)
		}
	}
	return out
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
