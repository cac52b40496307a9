package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// Native replay under a recorded schedule: the packages under test and the harnesses are
// compiled with their synchronisation calls routed through native/vsched.

var shimImports = map[string]string{
	"sync":        zz + "/vsync",
	"sync/atomic": zz + "/vatomic",
	"time":        zz + "/vtime",
	"context":     zz + "/vcontext",
	"runtime":     zz + "/vruntime",
}

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	n    int
	used bool
}

func id(s string) *ast.Ident                        { return ast.NewIdent(s) }
func vs(name string) ast.Expr                       { return &ast.SelectorExpr{X: id("vsched"), Sel: id(name)} }
func callE(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func intLit(n int) ast.Expr {
	if n < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: intLit(-n)}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
}
func (r *rewriter) tmp(p string) string { r.n++; return fmt.Sprintf("_vs%s%d", p, r.n) }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) file(f *ast.File) {
	comm := map[ast.Node]bool{} // statements that belong to select clauses
	two := map[ast.Expr]bool{}  // receives with a second result
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			if x.Comm != nil {
				comm[x.Comm] = true
				switch c := x.Comm.(type) {
				case *ast.ExprStmt:
					comm[unparen(c.X)] = true
				case *ast.AssignStmt:
					comm[unparen(c.Rhs[0])] = true
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := isRecv(x.Rhs[0]); ok {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := isRecv(x.Values[0]); ok {
					two[u] = true
				}
			}
		}
		return true
	})
	isChan := func(e ast.Expr) bool {
		t := r.info.TypeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	rangeChan := map[*ast.RangeStmt]bool{}
	closeCall := map[*ast.CallExpr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.RangeStmt:
			rangeChan[x] = isChan(x.X)
		case *ast.CallExpr:
			if i, ok := unparen(x.Fun).(*ast.Ident); ok && i.Name == "close" {
				if _, ok := r.info.Uses[i].(*types.Builtin); ok {
					closeCall[x] = true
				}
			}
		}
		return true
	})
	constArg := func(e ast.Expr) bool {
		tv, ok := r.info.Types[e]
		return ok && (tv.Value != nil || tv.IsNil())
	}
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !comm[x] {
				r.used = true
				fn := "Recv"
				if two[x] {
					fn = "Recv2"
				}
				c.Replace(callE(vs(fn), x.X))
			}
		case *ast.SendStmt:
			if !comm[x] {
				r.used = true
				c.Replace(&ast.ExprStmt{X: callE(callE(vs("SendTo"), x.Chan), x.Value)})
			}
		case *ast.CallExpr:
			if closeCall[x] {
				r.used = true
				x.Fun = vs("Close")
			}
		case *ast.RangeStmt:
			if rangeChan[x] {
				r.used = true
				x.X = callE(vs("Range"), x.X)
			}
		case *ast.GoStmt:
			r.used = true
			b := &ast.BlockStmt{}
			fn := x.Call.Fun
			fv := r.tmp("f")
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(fv)}, Tok: token.DEFINE, Rhs: []ast.Expr{fn}})
			var args []ast.Expr
			for _, a := range x.Call.Args {
				if constArg(a) {
					args = append(args, a)
					continue
				}
				av := r.tmp("a")
				b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(av)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				args = append(args, id(av))
			}
			call := &ast.CallExpr{Fun: id(fv), Args: args, Ellipsis: 0}
			if x.Call.Ellipsis.IsValid() {
				call.Ellipsis = 1
			}
			b.List = append(b.List, &ast.ExprStmt{X: callE(vs("Go"), &ast.FuncLit{
				Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})})
			c.Replace(b)
		case *ast.SelectStmt:
			r.used = true
			c.Replace(r.sel(x))
		}
		return true
	})
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to := shimImports[p]; to != "" {
			if im.Name == nil {
				im.Name = id(filepath.Base(p))
			}
			im.Path.Value = strconv.Quote(to)
			im.EndPos = 0
		}
	}
	if r.used {
		astutil.AddImport(r.fset, f, zz+"/vsched")
	}
}

// sel turns a select into a switch over the case vsched runs.
func (r *rewriter) sel(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: callE(vs("Block"))}
	}
	s := r.tmp("s")
	lhs := []ast.Expr{}
	rhs := []ast.Expr{}
	var cases []ast.Expr
	var clauses []ast.Stmt
	def := false
	k := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		ch := r.tmp("c")
		body := cc.Body
		recv := func(e ast.Expr) {
			u, _ := isRecv(e)
			lhs = append(lhs, id(ch))
			rhs = append(rhs, u.X)
			cases = append(cases, callE(vs("CR"), id(ch)))
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			lhs = append(lhs, id(ch))
			rhs = append(rhs, callE(callE(vs("SendCase"), c.Chan), c.Value))
			cases = append(cases, id(ch))
		case *ast.ExprStmt:
			recv(c.X)
		case *ast.AssignStmt:
			recv(c.Rhs[0])
			fn := "Val1"
			if len(c.Lhs) == 2 {
				fn = "Val"
			}
			a := &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{callE(vs(fn), id(ch), id(s))}}
			body = append([]ast.Stmt{a}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(k)}, Body: body})
		k++
	}
	if !def {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: callE(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vsched: no case"`})}}})
	}
	lhs = append(lhs, id(s))
	rhs = append(rhs, callE(vs("NewSel")))
	d := "false"
	if def {
		d = "true"
	}
	return &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		Tag:  callE(&ast.SelectorExpr{X: id(s), Sel: id("Run")}, append([]ast.Expr{id(d)}, cases...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
}

// stripPos clears comments: the printer would misplace them among rewritten nodes.
func printFile(fset *token.FileSet, f *ast.File) ([]byte, error) {
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Doc != nil {
				keep := false
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						keep = true
					}
				}
				if !keep {
					x.Doc = nil
				}
			}
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.File:
			x.Doc = nil
		}
		return true
	})
	var b bytes.Buffer
	err := format.Node(&b, fset, f)
	return b.Bytes(), err
}

// instrument writes rewritten copies of the module's packages under dir and returns the
// overlay entries that put them in place.
func instrument(repo, verif, scratch, modfile string, pkgs []string) (map[string]string, error) {
	ov := overlayMap(repo, verif)
	contents := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		contents[dst] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Fset: fset, BuildFlags: []string{"-modfile=" + modfile}, Env: append(os.Environ(), "CGO_ENABLED=0"), Overlay: contents,
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zz+"/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	n := 0
	var rerr error
	packages.Visit(initial, nil, func(p *packages.Package) {
		if rerr != nil || (p.PkgPath != repoMod && !strings.HasPrefix(p.PkgPath, repoMod+"/")) || p.PkgPath == zz+"/vx" || p.PkgPath == zz+"/vmodel" {
			return
		}
		if len(p.Errors) > 0 {
			rerr = fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
			return
		}
		for i, f := range p.Syntax {
			dst := p.CompiledGoFiles[i]
			r := &rewriter{info: p.TypesInfo, fset: fset}
			r.file(f)
			b, err := printFile(fset, f)
			if err != nil {
				rerr = fmt.Errorf("%s: %v", dst, err)
				return
			}
			n++
			to := filepath.Join(scratch, fmt.Sprintf("rw%03d_%s", n, filepath.Base(dst)))
			if rerr = os.WriteFile(to, b, 0o644); rerr != nil {
				return
			}
			out[dst] = to
		}
	})
	if rerr != nil {
		return nil, rerr
	}
	root := filepath.Join(verif, "native")
	for _, d := range []string{"vsched", "vsync", "vatomic", "vtime", "vcontext", "vruntime"} {
		fs, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		for _, f := range fs {
			out[filepath.Join(repo, "internal", "zzverif", d, filepath.Base(f))] = f
		}
	}
	return out, nil
}
