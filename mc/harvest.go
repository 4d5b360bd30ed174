package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// constInt is the value of an expression of integer literals.
func constInt(x ast.Expr) (int64, bool) {
	switch t := x.(type) {
	case *ast.ParenExpr:
		return constInt(t.X)
	case *ast.BasicLit:
		if t.Kind == token.INT {
			i, err := strconv.ParseInt(t.Value, 0, 64)
			return i, err == nil
		}
	case *ast.BinaryExpr:
		a, ok1 := constInt(t.X)
		b, ok2 := constInt(t.Y)
		if !ok1 || !ok2 || a < 0 || b < 0 || a > 1<<30 || b > 1<<30 {
			return 0, false
		}
		switch t.Op {
		case token.SHL:
			if b < 31 {
				return a << uint(b), true
			}
		case token.MUL:
			return a * b, true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		}
	}
	return 0, false
}

// Harvest are the literals of the current sources of the code under test: inputs
// that its shortcuts and special cases, whatever they are, may be about.
type Harvest struct {
	Names   []string // identifiers
	Strings []string
	Ints    []int
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func harvest(tests bool) Harvest {
	return harvestIn(tests, "*.go", "scim/schema/*.go", "scim/*.go")
}

func harvestIn(tests bool, pats ...string) Harvest {
	strs := map[string]bool{}
	ints := map[int]bool{}
	names := map[string]bool{}
	var files []string
	for _, pat := range pats {
		fs, _ := filepath.Glob(filepath.Join(repoDir(), pat))
		files = append(files, fs...)
	}
	for _, f := range files {
		isTest := strings.HasSuffix(f, "_test.go")
		if isTest && !tests {
			continue
		}
		tree, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		n := 0
		ast.Inspect(tree, func(x ast.Node) bool {
			switch t := x.(type) {
			case *ast.CompositeLit:
				// The transition tables are no literals to inject, they would drown the others
				if len(t.Elts) > 64 {
					allBasic := true
					for _, e := range t.Elts {
						if _, ok := e.(*ast.BasicLit); !ok {
							allBasic = false
						}
					}
					if allBasic {
						return false
					}
				}
			case *ast.ImportSpec:
				return false
			case *ast.Ident:
				if !isTest && len(t.Name) <= 24 {
					names[t.Name] = true
				}
			case *ast.BinaryExpr: // 64 << 10 and such
				if i, ok := constInt(t); ok && !isTest && i >= 0 && i <= 1<<24 {
					ints[int(i)] = true
				}
			case *ast.BasicLit:
				n++
				switch t.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(t.Value); err == nil && len(s) > 0 && len(s) <= 4096 {
						strs[s] = true
					}
				case token.INT:
					if !isTest {
						if i, err := strconv.ParseInt(t.Value, 0, 64); err == nil && i >= 0 && i <= 1<<24 {
							ints[int(i)] = true
						}
					}
				case token.CHAR:
					if s, err := strconv.Unquote(t.Value); err == nil && !isTest {
						strs[s] = true
					}
				}
			}
			return true
		})
	}
	var h Harvest
	for n := range names {
		h.Names = append(h.Names, n)
	}
	sort.Strings(h.Names)
	for s := range strs {
		h.Strings = append(h.Strings, s)
	}
	sort.Slice(h.Strings, func(i, j int) bool {
		if len(h.Strings[i]) != len(h.Strings[j]) {
			return len(h.Strings[i]) < len(h.Strings[j])
		}
		return h.Strings[i] < h.Strings[j]
	})
	for i := range ints {
		h.Ints = append(h.Ints, i)
	}
	sort.Ints(h.Ints)
	return h
}
