// Package instr rewrites Go source so that a cooperative scheduler controls
// it: a call of vsched.Point before every statement, go statements that start
// scheduled threads, deterministic stand-ins for what package sync has, channel
// operations that wait virtually, maps that are iterated over in a fixed order,
// and package variables that have their initial values in each execution. It
// knows nothing of what the code does.
package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const pkg = "verif_vsched"

// Mode of the inserted points.
type Mode int

const (
	Sched Mode = iota // Point()
	Lib               // LibPoint(): only when library points are on
)

// file rewrites one source file; t is nil if there are no types.
func file(f *ast.File, src []byte, mode Mode, t *typed) ([]byte, error) {
	syncName := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	fn := "Point"
	if mode == Lib {
		fn = "LibPoint"
	}
	r := &rewriter{fn: fn, sync: syncName, t: t, file: f}
	for _, d := range f.Decls {
		r.decl(d)
	}
	if t != nil {
		t.resets(r)
	}
	if r.points == 0 && !r.changed {
		return src, nil
	}
	// The comments would be misplaced among the inserted statements; build
	// constraints come before the package clause and are kept.
	var head []string
	for _, c := range f.Comments {
		if c.End() < f.Package {
			for _, l := range c.List {
				if strings.HasPrefix(l.Text, "//go:build") {
					head = append(head, l.Text)
				}
			}
		}
	}
	f.Comments = nil
	f.Doc = nil
	stripDocs(f)
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
		Name: ast.NewIdent(pkg), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/mc/vsched")}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	// keep imports used
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel(pkg, "Used")}}}})
	if syncName != "" && syncName != "_" && syncName != "." {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")}, Type: sel(syncName, "Locker")}}})
	}
	var b bytes.Buffer
	for _, h := range head {
		fmt.Fprintln(&b, h)
		fmt.Fprintln(&b)
	}
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func sel(x, n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(n)} }

var standIns = map[string]bool{"Pool": true, "Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Cond": true, "NewCond": true}

type rewriter struct {
	t       *typed
	file    *ast.File
	fn      string
	sync    string
	points  int
	changed bool
}

func (r *rewriter) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		r.types(d)
		if d.Body != nil {
			r.block(d.Body)
		}
	case *ast.GenDecl:
		r.types(d)
		r.exprs(d)
	}
}

// types replaces the stand-ins everywhere below n.
func (r *rewriter) types(n ast.Node) {
	if r.sync == "" {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == r.sync && standIns[s.Sel.Name] {
				x.Name = pkg
				r.changed = true
			}
		}
		return true
	})
}

// exprs finds function literals and channel operations below n.
func (r *rewriter) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			r.block(n.Body)
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r.receive(n)
			}
		case *ast.CallExpr:
			return !r.builtin(n)
		}
		return true
	})
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
		if len(b.List) == 0 {
			b.List = []ast.Stmt{r.point()}
		}
	}
}

func (r *rewriter) point() ast.Stmt {
	r.points++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel(pkg, r.fn)}}
}

func (r *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		_, empty := s.(*ast.EmptyStmt)
		if !empty {
			out = append(out, r.point())
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		r.exprs(nilStmt(s.Init))
		r.exprs(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.ForStmt:
		r.exprs(nilStmt(s.Init))
		if s.Cond != nil {
			r.exprs(s.Cond)
		}
		r.exprs(nilStmt(s.Post))
		r.block(s.Body)
	case *ast.RangeStmt:
		r.exprs(s.X)
		r.block(s.Body)
		return r.rangeStmt(s)
	case *ast.SendStmt:
		return r.send(s)
	case *ast.SwitchStmt:
		r.exprs(nilStmt(s.Init))
		if s.Tag != nil {
			r.exprs(s.Tag)
		}
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		r.exprs(nilStmt(s.Init))
		r.exprs(s.Assign)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		if t := r.selectStmt(s); t != nil {
			return t
		}
		r.clauses(s.Body)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.GoStmt:
		r.exprs(s.Call)
		return r.goStmt(s)
	default:
		r.exprs(s)
	}
	return s
}

// nilStmt turns a nil Stmt into a nil Node.
func nilStmt(s ast.Stmt) ast.Node {
	if s == nil {
		return nil
	}
	return s
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, x := range c.List {
				r.exprs(x)
			}
			body := r.list(c.Body)
			c.Body = body
		case *ast.CommClause:
			r.exprs(nilStmt(c.Comm))
			c.Body = r.list(c.Body)
		}
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	r.changed = true
	c := s.Call
	name := "Go"
	if c.Ellipsis.IsValid() {
		name = "GoVariadic"
	}
	args := append([]ast.Expr{c.Fun}, c.Args...)
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel(pkg, name), Args: args}}
}

// Dir rewrites the non-test files of a directory into out and adds them to
// the overlay map. Exports maps import paths to files of export data; without
// it nothing is done that takes types.
func Dir(dir, out string, mode func(base string) Mode, overlay map[string]string, exports map[string]string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, p := range fs {
		base := filepath.Base(p)
		if strings.HasSuffix(base, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, base); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files, srcs, names = append(files, f), append(srcs, src), append(names, base)
	}
	var t *typed
	if exports != nil && len(files) > 0 {
		t = check(fset, files, exports)
	}
	for k, f := range files {
		if t != nil {
			t.last = k == len(files)-1
		}
		dst, err := file(f, srcs[k], mode(names[k]), t)
		if err != nil {
			return err
		}
		q := filepath.Join(out, filepath.Base(dir)+"-"+names[k])
		if err := os.MkdirAll(out, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(q, dst, 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(dir, names[k])] = q
	}
	return nil
}
