// Command instrument writes copies of Go files with a call of verifPoint before every statement of
// every function. The calls are put on the line of the statement, so positions stay the same.
// usage: instrument OUTDIR FILE...
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	for _, path := range os.Args[2:] {
		src, err := os.ReadFile(path)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		check(err)
		var at []int
		mark := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				// the block of a switch or select holds clauses
				for _, s := range b.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				mark(b.List)
			case *ast.CaseClause:
				mark(b.Body)
			case *ast.CommClause:
				mark(b.Body)
			}
			return true
		})
		sort.Ints(at)
		var out strings.Builder
		last := 0
		for _, o := range at {
			out.Write(src[last:o])
			out.WriteString("verifPoint();")
			last = o
		}
		out.Write(src[last:])
		name := strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "_")
		check(os.WriteFile(filepath.Join(os.Args[1], name), []byte(out.String()), 0644))
		fmt.Println(path, filepath.Join(os.Args[1], name))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}
