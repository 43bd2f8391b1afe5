package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument places a scheduling point (simYield_) before every statement of
// the proxy's package and splits the read-modify-write statements on shared
// locations in two, so that the simulated scheduler can interleave goroutines
// wherever the Go memory model lets a real machine interleave them.  The
// transformation keeps the sequential meaning of every function.
//
// It returns the overlay entries (file -> instrumented file), the number of
// sites and a table of sites for reports.
func instrument(repo, dir string, rmw bool) (map[string]string, []string, error) {
	ents, err := os.ReadDir(repo)
	if err != nil {
		return nil, nil, err
	}
	out := map[string]string{}
	sites := []string{"-"}
	fset := token.NewFileSet()
	var files []string
	for _, e := range ents {
		n := e.Name()
		if !e.IsDir() && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files = append(files, n)
		}
	}
	sort.Strings(files)
	type parsed struct {
		name string
		src  []byte
		f    *ast.File
	}
	var ps []parsed
	pkgVars := map[string]bool{}
	pkg := ""
	for _, n := range files {
		src, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, nil, err
		}
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, err
		}
		if f.Name.Name == "main" || ignoredFile(src) {
			continue
		}
		pkg = f.Name.Name
		ps = append(ps, parsed{n, src, f})
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						pkgVars[id.Name] = true
					}
				}
			}
		}
	}
	for _, p := range ps {
		type edit struct {
			off, end int
			text     string
		}
		var edits []edit
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		text := func(n ast.Node) string { return string(p.src[off(n.Pos()):off(n.End())]) }
		site := func(n ast.Node, what string) int {
			pos := fset.Position(n.Pos())
			sites = append(sites, fmt.Sprintf("%s:%d%s", p.name, pos.Line, what))
			return len(sites) - 1
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				n := site(s, "")
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("simYield_(%d); ", n)})
				if !rmw {
					continue
				}
				if t := split(s, pkgVars, text, func() int { return site(s, "+") }); t != "" {
					// keep the line count of what is replaced
					old := text(s)
					if d := strings.Count(old, "\n") - strings.Count(t, "\n"); d > 0 {
						t += strings.Repeat("\n", d)
					}
					edits = append(edits, edit{off(s.Pos()), off(s.End()), t})
				}
			}
		}
		ast.Inspect(p.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					edits = append(edits, edit{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, fmt.Sprintf(" simYield_(%d) ", site(x, ""))})
				}
			}
			return true
		})
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b bytes.Buffer
		last := 0
		for _, e := range edits {
			if e.off < last {
				continue // inside a statement that was replaced whole
			}
			b.Write(p.src[last:e.off])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(p.src[last:])
		dst := filepath.Join(dir, "inst", p.name)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return nil, nil, err
		}
		if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
			return nil, nil, err
		}
		out[filepath.Join(repo, p.name)] = dst
	}
	if pkg == "" {
		return nil, nil, fmt.Errorf("no Go package at %s", repo)
	}
	dst := filepath.Join(dir, "inst", "zz_verifsim.go")
	helper := fmt.Sprintf("package %s\n\nimport \"runtime\"\n\n// SimSites_ is the number of scheduling points.\nconst SimSites_ = %d\n\nfunc simYield_(n uint32) { runtime.SimYield(n) }\n", pkg, len(sites))
	if err := os.WriteFile(dst, []byte(helper), 0o644); err != nil {
		return nil, nil, err
	}
	out[filepath.Join(repo, "zz_verifsim.go")] = dst
	return out, sites, nil
}

func ignoredFile(src []byte) bool {
	for _, l := range strings.SplitN(string(src), "\n", 20) {
		if strings.HasPrefix(l, "//go:build") && strings.Contains(l, "ignore") {
			return true
		}
	}
	return false
}

// simple reports whether e is a location without side effects: a name, or
// fields of one.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	}
	return false
}

// shared reports whether e may be visible to another goroutine.
func shared(e ast.Expr, pkgVars map[string]bool) bool {
	if !simple(e) {
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		return pkgVars[x.Name]
	}
	return true
}

func simpleIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := e.(*ast.IndexExpr)
	if !ok || !simple(x.X) {
		return nil, false
	}
	switch i := x.Index.(type) {
	case *ast.Ident, *ast.BasicLit:
		return x, true
	case *ast.BinaryExpr:
		_, a := i.X.(*ast.Ident)
		_, b := i.Y.(*ast.BasicLit)
		return x, a && b
	}
	return nil, false
}

func split(s ast.Stmt, pkgVars map[string]bool, text func(ast.Node) string, site func() int) string {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if shared(x.X, pkgVars) {
			v := text(x.X)
			return fmt.Sprintf("{ simT_ := %s; simYield_(%d); %s = simT_ %c 1 }", v, site(), v, x.Tok.String()[0])
		}
	case *ast.AssignStmt:
		switch x.Tok {
		case token.ADD_ASSIGN, token.SUB_ASSIGN, token.MUL_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN:
			if len(x.Lhs) == 1 && shared(x.Lhs[0], pkgVars) && !strings.Contains(text(x.Rhs[0]), "func") {
				v := text(x.Lhs[0])
				op := strings.TrimSuffix(x.Tok.String(), "=")
				return fmt.Sprintf("{ simT_ := %s %s (%s); simYield_(%d); %s = simT_ }", v, op, text(x.Rhs[0]), site(), v)
			}
		case token.ASSIGN:
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 && shared(x.Lhs[0], pkgVars) {
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) > 0 && text(c.Args[0]) == text(x.Lhs[0]) && !strings.Contains(text(c), "func") {
						v := text(x.Lhs[0])
						return fmt.Sprintf("{ simT_ := %s; simYield_(%d); %s = simT_ }", text(c), site(), v)
					}
				}
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 2 {
				a, ok1 := simpleIndex(x.Lhs[0])
				b, ok2 := simpleIndex(x.Lhs[1])
				_, ok3 := simpleIndex(x.Rhs[0])
				_, ok4 := simpleIndex(x.Rhs[1])
				if ok1 && ok2 && ok3 && ok4 {
					return fmt.Sprintf("{ simT_, simU_ := %s, %s; simYield_(%d); %s = simT_; simYield_(%d); %s = simU_ }", text(x.Rhs[0]), text(x.Rhs[1]), site(), text(a), site(), text(b))
				}
			}
		}
	}
	return ""
}
