// Package inst inserts a scheduling point before every statement of Go files.
package inst

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Yields returns the source with calls of mc/sched.Y before each statement.
func Yields(src []byte) ([]byte, int, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, 0, nil
	}
	sort.Ints(at)
	var b strings.Builder
	pk := fs.Position(f.Name.End()).Offset
	b.Write(src[:pk])
	b.WriteString("; import vsched__ \"mc/sched\"")
	last := pk
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("vsched__.Y(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), len(at), nil
}

// Overlay instruments all files and writes an overlay file for go build.
func Overlay(files []string, dir string) (string, int, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", 0, err
	}
	repl := map[string]string{}
	total := 0
	for i, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return "", 0, err
		}
		out, n, err := Yields(src)
		if err != nil {
			return "", 0, err
		}
		if n == 0 {
			continue
		}
		total += n
		q := filepath.Join(dir, strings.TrimSuffix(filepath.Base(p), ".go")+"_"+itoa(i)+".go")
		if err := os.WriteFile(q, out, 0o644); err != nil {
			return "", 0, err
		}
		repl[p] = q
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	p := filepath.Join(dir, "overlay.json")
	return p, total, os.WriteFile(p, j, 0o644)
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}
