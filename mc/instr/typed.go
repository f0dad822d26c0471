package instr

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"strconv"
	"strings"
)

// typed is what is known of a package's types.
type typed struct {
	pkg   *types.Package
	info  *types.Info
	last  bool // the file being rewritten is the last one
	order []string
	inits []string
	n     int
	fns   map[string]string // variable to the function that resets it
}

// check type-checks a package; nil if that fails.
func check(fset *token.FileSet, files []*ast.File, exports map[string]string) *typed {
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(f)
	})
	t := &typed{fns: map[string]string{}, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}}
	bad := false
	conf := types.Config{Importer: imp, Error: func(error) { bad = true }}
	p, _ := conf.Check(files[0].Name.Name, fset, files, t.info)
	if bad || p == nil {
		return nil
	}
	t.pkg = p
	return t
}

// text writes a type so that it can be used in file f; "" if it cannot.
func (t *typed) text(f *ast.File, ty types.Type) string {
	ok := true
	s := types.TypeString(ty, func(p *types.Package) string {
		if p == t.pkg {
			return ""
		}
		for _, im := range f.Imports {
			if path, _ := strconv.Unquote(im.Path.Value); path == p.Path() {
				if im.Name == nil {
					return p.Name()
				}
				if im.Name.Name != "_" && im.Name.Name != "." {
					return im.Name.Name
				}
			}
		}
		ok = false
		return "x"
	})
	if !ok || strings.Contains(s, "invalid type") {
		return ""
	}
	// stand-ins have other names
	for n := range standIns {
		if strings.Contains(s, "sync."+n) {
			s = strings.ReplaceAll(s, "sync."+n, pkg+"."+n)
		}
	}
	return s
}

func (r *rewriter) typeOf(x ast.Expr) types.Type {
	if r.t == nil {
		return nil
	}
	return r.t.info.TypeOf(x)
}

func (r *rewriter) chanOf(x ast.Expr) *types.Chan {
	if ty := r.typeOf(x); ty != nil {
		c, _ := ty.Underlying().(*types.Chan)
		return c
	}
	return nil
}

func parseExpr(s string) ast.Expr {
	x, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	return clean(x)
}

func (r *rewriter) typeExpr(ty types.Type) ast.Expr {
	if s := r.t.text(r.file, ty); s != "" {
		return parseExpr(s)
	}
	return nil
}

func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }

// receive makes <-ch into <-Rx(ch).(T).
func (r *rewriter) receive(n *ast.UnaryExpr) {
	if r.chanOf(n.X) == nil {
		return
	}
	if te := r.typeExpr(r.typeOf(n.X)); te != nil {
		n.X = &ast.TypeAssertExpr{X: call(sel(pkg, "Rx"), n.X), Type: te}
		r.changed = true
	}
}

// builtin rewrites calls of make, close, len and cap for channels; it reports
// whether the call is done with.
func (r *rewriter) builtin(n *ast.CallExpr) bool {
	id, ok := n.Fun.(*ast.Ident)
	if !ok || r.t == nil || len(n.Args) == 0 {
		return false
	}
	if _, ok := r.t.info.Uses[id].(*types.Builtin); !ok {
		return false
	}
	if id.Name == "make" && len(n.Args) > 1 {
		if ty := r.typeOf(n.Args[0]); ty != nil {
			if _, ok := ty.Underlying().(*types.Slice); ok {
				for i := 1; i < len(n.Args); i++ {
					r.exprs(n.Args[i])
					n.Args[i] = call(sel(pkg, "Alloc"), call(ast.NewIdent("int"), n.Args[i]))
				}
				r.changed = true
				return true
			}
		}
	}
	if r.chanOf(n.Args[0]) == nil {
		return false
	}
	switch id.Name {
	case "close":
		n.Fun = sel(pkg, "Close")
	case "len":
		n.Fun = sel(pkg, "ChanLen")
	case "cap":
		n.Fun = sel(pkg, "ChanCap")
	case "make":
		te := r.typeExpr(r.typeOf(n.Args[0]))
		te2 := r.typeExpr(r.typeOf(n.Args[0]))
		if te == nil || te2 == nil {
			return false
		}
		var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
		if len(n.Args) > 1 {
			r.exprs(n.Args[1])
			size = call(ast.NewIdent("int"), n.Args[1])
		}
		c := ast.NewIdent("verif_n")
		n.Fun = &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{c}, Type: ast.NewIdent("int")}}}, Results: &ast.FieldList{List: []*ast.Field{{Type: te}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.TypeAssertExpr{
				X: call(sel(pkg, "Made"), call(ast.NewIdent("make"), n.Args[0], call(sel(pkg, "Room"), c)), c), Type: te2}}}}},
		}
		n.Args = []ast.Expr{size}
		r.changed = true
		return true
	default:
		return false
	}
	r.changed = true
	return false
}

// pure reports whether evaluating x again gives the same.
func pure(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

func define(name string, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
}

func convert(te, x ast.Expr) ast.Expr { return call(&ast.ParenExpr{X: te}, x) }

func (r *rewriter) send(s *ast.SendStmt) ast.Stmt {
	c := r.chanOf(s.Chan)
	if c == nil {
		r.exprs(s)
		return s
	}
	te, el := r.typeExpr(r.typeOf(s.Chan)), r.typeExpr(c.Elem())
	r.exprs(s.Chan)
	r.exprs(s.Value)
	if te == nil || el == nil {
		return s
	}
	r.changed = true
	ch := &ast.TypeAssertExpr{X: call(sel(pkg, "Tx"), ast.NewIdent("verif_c")), Type: te}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("verif_c"), ast.NewIdent("verif_v")}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Chan, convert(el, s.Value)}},
		&ast.SendStmt{Chan: ch, Value: ast.NewIdent("verif_v")},
	}}
}

// selectStmt makes a select statement into a switch on Select(...).
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if r.t == nil {
		return nil
	}
	type cs struct {
		send bool
		ch   ast.Expr
		val  ast.Expr
		el   ast.Expr
		recv *ast.UnaryExpr
	}
	var cases []cs
	def := "false"
	for _, x := range s.Body.List {
		cc := x.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			continue
		}
		var k cs
		find := func(x ast.Expr) bool {
			for {
				p, ok := x.(*ast.ParenExpr)
				if !ok {
					break
				}
				x = p.X
			}
			u, ok := x.(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				return false
			}
			k.recv, k.ch = u, u.X
			return true
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			k.send, k.ch, k.val = true, c.Chan, c.Value
			t := r.chanOf(c.Chan)
			if t == nil {
				return nil
			}
			if k.el = r.typeExpr(t.Elem()); k.el == nil {
				return nil
			}
		case *ast.ExprStmt:
			if !find(c.X) {
				return nil
			}
		case *ast.AssignStmt:
			if len(c.Rhs) != 1 || !find(c.Rhs[0]) {
				return nil
			}
		default:
			return nil
		}
		if r.chanOf(k.ch) == nil {
			return nil
		}
		cases = append(cases, k)
	}
	r.changed = true
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	args := []ast.Expr{ast.NewIdent(def)}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	k := 0
	for _, x := range s.Body.List {
		cc := x.(*ast.CommClause)
		if cc.Comm == nil {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		c := cases[k]
		r.exprs(c.ch)
		name := fmt.Sprintf("verif_c%d", k)
		init.Lhs = append(init.Lhs, ast.NewIdent(name))
		init.Rhs = append(init.Rhs, c.ch)
		var op ast.Stmt = cc.Comm
		fn := "R"
		if c.send {
			fn = "S"
			r.exprs(c.val)
			v := fmt.Sprintf("verif_v%d", k)
			init.Lhs = append(init.Lhs, ast.NewIdent(v))
			init.Rhs = append(init.Rhs, convert(c.el, c.val))
			op = &ast.SendStmt{Chan: ast.NewIdent(name), Value: ast.NewIdent(v)}
		} else {
			if a, ok := cc.Comm.(*ast.AssignStmt); ok {
				for _, l := range a.Lhs {
					r.exprs(l)
				}
			}
			c.recv.X = ast.NewIdent(name)
		}
		args = append(args, call(sel(pkg, fn), ast.NewIdent(name)))
		body := append([]ast.Stmt{op}, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
		k++
	}
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	sw.Tag = call(sel(pkg, "Select"), args...)
	return sw
}

// rangeStmt: ranges over channels receive virtually, ranges over maps are in
// a fixed order.
func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	if r.t == nil {
		return s
	}
	ty := r.typeOf(s.X)
	if ty == nil {
		return s
	}
	switch u := ty.Underlying().(type) {
	case *types.Chan:
		te, el := r.typeExpr(ty), r.typeExpr(u.Elem())
		if te == nil || el == nil {
			return s
		}
		r.changed = true
		in := &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{ast.NewIdent("verif_c"), ast.NewIdent("verif_ok")}, Rhs: []ast.Expr{s.X, ast.NewIdent("false")}}
		var to ast.Expr = ast.NewIdent("_")
		if s.Key != nil {
			to = s.Key
			if id, ok := s.Key.(*ast.Ident); s.Tok == token.DEFINE && (!ok || id.Name != "_") {
				in.Lhs = append(in.Lhs, s.Key)
				in.Rhs = append(in.Rhs, &ast.StarExpr{X: call(ast.NewIdent("new"), el)})
			}
		}
		rx := &ast.UnaryExpr{Op: token.ARROW, X: &ast.TypeAssertExpr{X: call(sel(pkg, "Rx"), ast.NewIdent("verif_c")), Type: te}}
		body := []ast.Stmt{
			&ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{to, ast.NewIdent("verif_ok")}, Rhs: []ast.Expr{rx}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent("verif_ok")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		return &ast.ForStmt{Init: in, Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}
	case *types.Map:
		k := r.typeExpr(u.Key())
		if k == nil || !pure(s.X) || !ordered(u.Key()) {
			return s
		}
		r.changed = true
		x := func() ast.Expr { return &ast.IndexExpr{X: s.X, Index: ast.NewIdent("verif_k")} }
		body := []ast.Stmt{&ast.IfStmt{
			Init: &ast.AssignStmt{Tok: token.DEFINE, Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("verif_ok")}, Rhs: []ast.Expr{x()}},
			Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent("verif_ok")},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
		}}
		set := func(l, v ast.Expr) {
			if l == nil {
				return
			}
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			body = append(body, &ast.AssignStmt{Tok: s.Tok, Lhs: []ast.Expr{l}, Rhs: []ast.Expr{v}})
		}
		set(s.Key, ast.NewIdent("verif_k"))
		set(s.Value, x())
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent("verif_k"), Tok: token.DEFINE,
			X:    &ast.TypeAssertExpr{X: call(sel(pkg, "Keys"), s.X), Type: &ast.ArrayType{Elt: k}},
			Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}
	}
	return s
}

// ordered: Keys can sort them.
func ordered(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !ordered(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return ordered(u.Elem())
	}
	return false
}

// resets adds functions that give the package variables of the file their
// initial values, and to the last file one that calls them all in order.
func (t *typed) resets(r *rewriter) {
	f := r.file
	add := func(name string, body ...ast.Stmt) {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
	t.n++
	k := 0
	for _, d := range append([]ast.Decl{}, f.Decls...) {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				k++
				n := fmt.Sprintf("verif_init%d_%d", t.n, k)
				d.Name = ast.NewIdent(n)
				t.inits = append(t.inits, n)
				add("init", &ast.ExprStmt{X: call(ast.NewIdent(n))})
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				for i, name := range v.Names {
					obj := t.info.Defs[name]
					if name.Name == "_" || obj == nil || obj.Type().String() == "error" {
						continue
					}
					k++
					fn := fmt.Sprintf("verif_reset%d_%d", t.n, k)
					switch {
					case len(v.Values) == 0:
						add(fn, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("verif_z")}, Type: v.Type}}}},
							&ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{ast.NewIdent(name.Name)}, Rhs: []ast.Expr{ast.NewIdent("verif_z")}})
						t.order = append(t.order, fn) // before all others
					case len(v.Values) == len(v.Names):
						add(fn, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: []ast.Expr{ast.NewIdent(name.Name)}, Rhs: []ast.Expr{v.Values[i]}})
						t.fns[name.Name] = fn
					case i == 0:
						var lhs []ast.Expr
						for _, n := range v.Names {
							lhs = append(lhs, ast.NewIdent(n.Name))
							t.fns[n.Name] = fn
						}
						add(fn, &ast.AssignStmt{Tok: token.ASSIGN, Lhs: lhs, Rhs: v.Values})
					}
				}
			}
		}
	}
	if !t.last {
		if k > 0 {
			r.changed = true
		}
		return
	}
	done := map[string]bool{}
	for _, in := range t.info.InitOrder {
		for _, l := range in.Lhs {
			if fn := t.fns[l.Name()]; fn != "" && !done[fn] {
				done[fn] = true
				t.order = append(t.order, fn)
			}
		}
	}
	if len(t.order)+len(t.inits) == 0 {
		return
	}
	r.changed = true
	var body []ast.Stmt
	for _, fn := range append(t.order, t.inits...) {
		body = append(body, &ast.ExprStmt{X: call(ast.NewIdent(fn))})
	}
	add("verif_reset", body...)
	add("init", &ast.ExprStmt{X: call(sel(pkg, "OnStart"), ast.NewIdent("verif_reset"))})
}

// clean removes positions, which belong to another file.
func clean(x ast.Expr) ast.Expr { return x }
