// Command instrument rewrites packages of the module for controlled
// scheduling: sync and os/exec are replaced by stand-ins, and goroutine
// starts, channel operations and (for the fine mode) statements get gates.
//
//	instrument OVERLAY.json OUTDIR pkg...
//
// It adds the rewritten files to the overlay and prints what it replaced.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const base = "github.com/bab-sh/bab/internal/zzverif/"

type listed struct {
	Dir, ImportPath string
	GoFiles         []string
	Imports         []string
	EmbedFiles      []string
	Standard        bool
	Module          *struct{ Path string }
}

func fail(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(1) }

func main() {
	overlayFile, outDir, roots := os.Args[1], os.Args[2], os.Args[3:]
	data, err := os.ReadFile(overlayFile)
	if err != nil {
		fail(err)
	}
	var overlay struct{ Replace map[string]string }
	if err := json.Unmarshal(data, &overlay); err != nil {
		fail(err)
	}
	cmd := exec.Command("go", append([]string{"list", "-deps", "-json=Dir,ImportPath,GoFiles,Imports,EmbedFiles,Standard,Module"}, roots...)...)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fail("go list:", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	n := 0
	for dec.More() {
		var p listed
		if err := dec.Decode(&p); err != nil {
			fail(err)
		}
		if p.Standard || p.Module == nil || p.Module.Path != "github.com/bab-sh/bab" || len(p.EmbedFiles) > 0 {
			continue
		}
		root := false
		for _, r := range roots {
			if strings.HasSuffix(p.ImportPath, strings.TrimPrefix(r, ".")) {
				root = true
			}
		}
		relevant := root
		for _, i := range p.Imports {
			if i == "sync" || i == "os/exec" || i == "sync/atomic" {
				relevant = true
			}
		}
		if !relevant {
			continue
		}
		for _, f := range p.GoFiles {
			src := filepath.Join(p.Dir, f)
			dst := filepath.Join(outDir, strings.ReplaceAll(strings.TrimPrefix(src, "/"), "/", "_"))
			if err := rewrite(src, dst, root); err != nil {
				fail(src, err)
			}
			overlay.Replace[src] = dst
			n++
		}
		fmt.Println("instrumented", p.ImportPath)
	}
	if n == 0 {
		fail("nothing to instrument")
	}
	data, _ = json.Marshal(overlay)
	if err := os.WriteFile(overlayFile, data, 0o644); err != nil {
		fail(err)
	}
}

type rw struct {
	fine bool
	used bool
	done map[ast.Node]bool
	n    int
}

func rewrite(src, dst string, fine bool) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, nil, 0)
	if err != nil {
		return err
	}
	r := &rw{fine: fine, done: map[ast.Node]bool{}}
	seen, skip := map[ast.Node]bool{}, map[ast.Node]bool{}
	for _, im := range f.Imports {
		swap := map[string]string{`"sync"`: "vsync", `"os/exec"`: "fakeexec", `"sync/atomic"`: "vatomic"}[im.Path.Value]
		if swap == "" {
			continue
		}
		if im.Name == nil {
			name := strings.Trim(im.Path.Value, `"`)
			im.Name = ast.NewIdent(name[strings.LastIndex(name, "/")+1:])
		}
		im.Path.Value = `"` + base + swap + `"`
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n != nil {
			if seen[n] {
				return false
			}
			seen[n] = true
		}
		switch v := n.(type) {
		case *ast.SwitchStmt:
			skip[v.Body] = true
		case *ast.TypeSwitchStmt:
			skip[v.Body] = true
		case *ast.SelectStmt:
			skip[v.Body] = true
		case *ast.BlockStmt:
			if !skip[v] {
				v.List = r.list(v.List)
			}
		case *ast.CaseClause:
			v.Body = r.list(v.Body)
		case *ast.CommClause:
			v.Body = r.list(v.Body)
		}
		return true
	})
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + base + `sched"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	f.Comments = nil
	var b bytes.Buffer
	b.WriteString("// Instrumented copy, generated.\n")
	if err := (&printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}).Fprint(&b, token.NewFileSet(), strip(f)); err != nil {
		return err
	}
	return os.WriteFile(dst, b.Bytes(), 0o644)
}

// strip drops doc comments, which would be printed at odd places.
func strip(f *ast.File) *ast.File {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GenDecl:
			v.Doc = nil
		case *ast.FuncDecl:
			v.Doc = nil
		case *ast.Field:
			v.Doc, v.Comment = nil, nil
		case *ast.ValueSpec:
			v.Doc, v.Comment = nil, nil
		case *ast.TypeSpec:
			v.Doc, v.Comment = nil, nil
		case *ast.ImportSpec:
			v.Doc, v.Comment = nil, nil
		}
		return true
	})
	return f
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rw) stmt(name string) ast.Stmt {
	r.used = true
	return &ast.ExprStmt{X: call(name)}
}

func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		inner := s
		for {
			l, ok := inner.(*ast.LabeledStmt)
			if !ok {
				break
			}
			inner = l.Stmt
		}
		if isGate(inner) {
			out = append(out, s)
			continue
		}
		switch v := inner.(type) {
		case *ast.GoStmt:
			if r.done[v] {
				out = append(out, s)
				continue
			}
			r.done[v] = true
			if g := r.goStmt(v); g != nil && inner == s {
				out = append(out, r.stmt("Stmt"), g)
				continue
			}
			out = append(out, r.stmt("Pre"), s)
		case *ast.SelectStmt:
			if r.done[v] {
				out = append(out, s)
				continue
			}
			r.done[v] = true
			for _, c := range v.Body.List {
				cc := c.(*ast.CommClause)
				cc.Body = append([]ast.Stmt{r.stmt("Post")}, cc.Body...)
			}
			out = append(out, r.stmt("Pre"))
			if inner == s {
				if c := r.chosen(v); c != nil {
					out = append(out, c)
					continue
				}
			}
			out = append(out, s)
		case *ast.DeferStmt, *ast.DeclStmt, *ast.LabeledStmt, *ast.BlockStmt, *ast.EmptyStmt:
			out = append(out, s)
		default:
			send, recv := chanOps(inner)
			switch {
			case send || recv:
				out = append(out, r.stmt("Pre"), s)
				if simple(inner) {
					out = append(out, r.stmt("Post"))
				}
			case r.fine:
				out = append(out, r.stmt("Stmt"), s)
			default:
				out = append(out, s)
			}
		}
	}
	return out
}

func isGate(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "zzsched"
}

// simple statements may be followed by another gate.
func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt:
		return true
	}
	return false
}

// chanOps finds channel operations outside of nested blocks and functions.
func chanOps(s ast.Stmt) (send, recv bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SendStmt:
			send = true
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				recv = true
			}
		case *ast.CallExpr:
			if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "close" {
				send = true
			}
		}
		return true
	})
	return
}

// goStmt makes the started function enter and leave the scheduler.
func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	lit, ok := g.Call.Fun.(*ast.FuncLit)
	if !ok {
		return nil
	}
	r.used = true
	r.n++
	r.done[g] = true
	tok := ast.NewIdent(fmt.Sprintf("zztok%d", r.n))
	lit.Body.List = append([]ast.Stmt{
		&ast.ExprStmt{X: call("Enter", tok)},
		&ast.DeferStmt{Call: call("Leave", tok)},
	}, lit.Body.List...)
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{tok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Spawn")}},
		g,
	}}
}

// chosen makes the choice among ready cases one of the scheduler: the chosen
// case is tried first.
func (r *rw) chosen(s *ast.SelectStmt) ast.Stmt {
	n := len(s.Body.List)
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			// With a default nothing blocks; one case and a default has no choice.
			if n <= 2 {
				return nil
			}
		}
		bad := false
		ast.Inspect(cc, func(x ast.Node) bool {
			if _, ok := x.(*ast.LabeledStmt); ok {
				bad = true
			}
			return true
		})
		if bad {
			return nil
		}
	}
	if n < 2 {
		return nil
	}
	sw := &ast.SwitchStmt{Tag: call("Choose", &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}), Body: &ast.BlockStmt{}}
	for i, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var body ast.Stmt = s
		if cc.Comm != nil {
			one := &ast.SelectStmt{Body: &ast.BlockStmt{List: []ast.Stmt{
				cc,
				&ast.CommClause{Body: []ast.Stmt{s}},
			}}}
			r.done[one] = true
			body = one
		}
		clause := &ast.CaseClause{Body: []ast.Stmt{body}}
		if i < n-1 {
			clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}
		}
		sw.Body.List = append(sw.Body.List, clause)
	}
	return sw
}
