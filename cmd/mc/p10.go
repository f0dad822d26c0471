package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/mc/ref"
	"verif/mc/res"
)

// A mutant is a specification text with the name of what was done to it.
type mutant struct{ name, src string }

// tokenAlphabet has every kind of token, and things that are no token.
var tokenAlphabet = []string{
	"const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "opaque", "string", "unsigned", "int", "hyper", "float", "double", "quadruple", "bool", "program", "version",
	"xyz", "node", "DEC", "3", "0x3", "=", ";", "<", ">", "[", "]", "{", "}", ",", ":", "*", "(", ")",
}

var nonTokens = []string{
	"-", "-1", "+", "@", "#", "$", "%", "&", "!", "~", "^", "?", "|", "\\", ".", "...", "/", "\"s\"", "'c'", "`r`", "1.5", "1e3", "2i", "0b11", "0o17", "1_0", "0x", "0xg", "09", "12ab", ":=", "==", "<<", "&&", "->", "*/", "/*", "/* open", "\x00", "\xff", "\u00e9", "a\u00e9", "++",
}

// fragments of several tokens: constructs the generator cannot translate, and
// declarations in wrong places.
var fragments = []string{
	"float f ;", "double f ;", "quadruple f ;", "float f < > ;", "double * f ;", "float f [ 3 ] ;",
	"enum { IA = 1 } f ;", "enum { IA = 1 } * f ;", "struct { float g ; } f ;", "union switch ( int k ) { case 1 : quadruple g ; } f ;",
	"union switch ( void ) { case 1 : int g ; } f ;", "union switch ( int k ) { default : float g ; } f ;",
	"struct { struct { double g < 3 > ; } h [ 2 ] ; } f < 2 > ;",
	"int ;", "int f", "int f , g ;", "int f [ ] ;", "int f < 3 ;", "string f ;", "string f [ 3 ] ;", "opaque f ;", "string * f ;", "opaque * f ;", "int * f [ 3 ] ;", "int f [ 3 ] [ 3 ] ;", "int * * f ;", "void f ;", "unsigned f ;", "unsigned bool f ;", "unsigned unsigned int f ;", "struct s f ;", "enum e f ;", "typedef int f ;", "const F = 1 ;", "case 1 : int f ;", "default : int f ;", "; int f ;", "{ int f ; }", "struct { int g ; } ;", "enum { } f ;", "union switch ( int k ) { default : void ; case 1 : void ; } f ;", "union switch ( int k ) { default : void ; default : void ; } f ;", "union switch int k { case 1 : void ; } f ;", "union ( int k ) { case 1 : void ; } f ;", "union switch ( int k ) { case : void ; } f ;", "union switch ( int k ) { int g ; } f ;", "union switch ( int k ) { case 1 , 2 : void ; } f ;",
}

var topFragments = []string{
	"const A = ;", "const A = B ;", "const = 3 ;", "const A 3 ;", "const A = 3", "const A = - 3 ;", "enum a { } ;", "enum a { A } ;", "enum a { A = 1 , } ;", "enum a { A = 1 ; } ;", "enum { A = 1 } ;", "enum a { A = 1 }", "struct { int a ; } ;", "struct a ;", "struct a { int b ; }", "struct a { int b } ;", "union a { case 1 : void ; } ;", "union a switch ( int b ) ;", "union a switch ( int b ) { case 1 : void } ;", "union a switch ( void ) { case 1 : int c ; } ;", "union a switch ( float b ) { case 1 : int c ; } ;", "union a switch ( double b ) { default : void ; } ;",
	"typedef float a ;", "typedef double a < 2 > ;", "typedef quadruple a ;", "typedef quadruple * a ;", "typedef enum { A = 1 } a ;", "typedef enum { A = 1 } a [ 2 ] ;", "typedef int ;", "typedef a ;", "typedef int a", "typedef string a ;", "typedef opaque a ;", "typedef int a , b ;",
	"program P { version V { float F ( void ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( double ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( struct { int a ; } ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { union switch ( int k ) { case 1 : void ; } F ( void ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( enum { A = 1 } ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( quadruple ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( int , int ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( void ) = A ; } = 1 ; } = 1 ;", "program P { version V { void F ( void ) = 1 ; } = 1 ; }", "program P { version V { void F ( void ) = 1 ; } = 1 } = 1 ;", "program P { void F ( void ) = 1 ; } = 1 ;", "program P { version V { string F ( void ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( string ) = 1 ; } = 1 ; } = 1 ;", "program P { version V { void F ( opaque ) = 1 ; } = 1 ; } = 1 ;",
	"int a ;", "void ;", "}", "{", "version V { } = 1 ;", "case 1 :", "xyz", "3", "= 3 ;", "; ;",
}

func render(toks []string) string { return strings.Join(toks, " ") + "\n" }

func (e *env) p10mutants() []mutant {
	src := read(filepath.Join(e.verif, "spec", "layout.x"))
	lx, err := ref.Lex(src)
	if err != nil {
		die("%v", err)
	}
	var toks []string
	for _, t := range lx {
		toks = append(toks, t.Text)
	}
	var out []mutant
	add := func(name string, parts ...[]string) {
		var all []string
		for _, p := range parts {
			all = append(all, p...)
		}
		out = append(out, mutant{name, render(all)})
	}
	n := len(toks)
	add("unchanged", toks)
	for i := 0; i <= n; i++ {
		for _, a := range append(append([]string{}, tokenAlphabet...), nonTokens...) {
			add(fmt.Sprintf("insert %q before token %d", a, i), toks[:i], []string{a}, toks[i:])
		}
		if i == n {
			break
		}
		add(fmt.Sprintf("delete token %d %q", i, toks[i]), toks[:i], toks[i+1:])
		add(fmt.Sprintf("duplicate token %d %q", i, toks[i]), toks[:i+1], toks[i:])
		if i+1 < n {
			add(fmt.Sprintf("swap tokens %d and %d", i, i+1), toks[:i], []string{toks[i+1], toks[i]}, toks[i+2:])
		}
		for _, a := range append(append([]string{}, tokenAlphabet...), nonTokens...) {
			if a != toks[i] {
				add(fmt.Sprintf("replace token %d %q by %q", i, toks[i], a), toks[:i], []string{a}, toks[i+1:])
			}
		}
		add(fmt.Sprintf("end before token %d", i), toks[:i])
		for j := i + 2; j <= n && j <= i+12; j++ {
			add(fmt.Sprintf("delete tokens %d..%d", i, j-1), toks[:i], toks[j:])
		}
		if e.thorough() {
			for j := i + 13; j <= n; j++ {
				add(fmt.Sprintf("delete tokens %d..%d", i, j-1), toks[:i], toks[j:])
			}
			for j := i + 1; j < n; j++ {
				add(fmt.Sprintf("delete tokens %d and %d", i, j), toks[:i], toks[i+1:j], toks[j+1:])
				if j > i+1 {
					add(fmt.Sprintf("swap tokens %d and %d", i, j), toks[:i], []string{toks[j]}, toks[i+1:j], []string{toks[i]}, toks[j+1:])
				}
			}
		}
	}
	for i := range src {
		out = append(out, mutant{fmt.Sprintf("truncate at byte %d", i), src[:i]})
		if e.thorough() {
			out = append(out, mutant{fmt.Sprintf("delete byte %d", i), src[:i] + src[i+1:]})
			for _, b := range []byte{0, 0x80, 0xff, '/', '*', '"', '\'', '`', '-', '.', '_', 'x', '0', '\n', '\r'} {
				out = append(out, mutant{fmt.Sprintf("byte %d becomes %q", i, b), src[:i] + string([]byte{b}) + src[i+1:]})
			}
		}
	}
	// untranslatable or misplaced declarations, at every place of one
	for i := 0; i <= n; i++ {
		inner := i > 0 && (toks[i-1] == ";" || toks[i-1] == "{" || toks[i-1] == ":") && i < n
		depth := 0
		for _, t := range toks[:i] {
			if t == "{" {
				depth++
			}
			if t == "}" {
				depth--
			}
		}
		if inner && depth > 0 {
			for _, f := range fragments {
				add(fmt.Sprintf("insert %q before token %d", f, i), toks[:i], strings.Fields(f), toks[i:])
			}
			// in place of the declaration there
			if j := i; toks[i-1] == ":" || toks[i] != "}" {
				for j < n && toks[j] != ";" {
					j++
				}
				if j < n {
					for _, f := range fragments {
						add(fmt.Sprintf("replace tokens %d..%d by %q", i, j, f), toks[:i], strings.Fields(f), toks[j+1:])
					}
				}
			}
		}
		if depth == 0 && (i == 0 || toks[i-1] == ";") {
			for _, f := range topFragments {
				add(fmt.Sprintf("insert %q before token %d", f, i), toks[:i], strings.Fields(f), toks[i:])
			}
		}
	}
	for _, f := range topFragments {
		out = append(out, mutant{"only " + f, f + "\n"})
	}
	for _, s := range []string{"", "\n", "/* nothing */\n", "/*", "/* open", "/*/", "const A = 1; /* open", "const A = 1; /* open *", "/* a */ const A = 1; /* open\n\n", "const A = 1; /", "const A = 1; *"} {
		out = append(out, mutant{fmt.Sprintf("all of %q", s), s})
	}
	return append(out, largeSpecs()...)
}

// largeSpecs are large in one respect, as they are and with something wrong at
// the end.
func largeSpecs() []mutant {
	var out []mutant
	add := func(name string, src string) {
		out = append(out, mutant{"large: " + name, src})
		out = append(out, mutant{"large and wrong: " + name, src + "typedef float wrong;\n"})
		out = append(out, mutant{"large and cut: " + name, strings.TrimRight(src, "; \n")})
	}
	rep := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	for _, n := range []int{100, 255, 256, 257, 1000, 1024, 4097, 12000} {
		add(fmt.Sprintf("%d constants", n), rep(n, func(i int) string { return fmt.Sprintf("const C%d = %d;\n", i, i) }))
		add(fmt.Sprintf("%d enumerators", n), "enum e {"+rep(n, func(i int) string { return fmt.Sprintf("%sE%d = %d", []string{"", ","}[min(i, 1)], i, i) })+"};\n")
		add(fmt.Sprintf("%d numbered cases", n), "union u switch (int k) {"+rep(n, func(i int) string { return fmt.Sprintf("case %d: int f%d;", i, i) })+"};\n")
		if n > 2000 {
			continue
		}
		add(fmt.Sprintf("%d typedefs", n), rep(n, func(i int) string { return fmt.Sprintf("typedef opaque t%d<%d>;", i, i+1) }))
		add(fmt.Sprintf("%d fields", n), "struct s {"+rep(n, func(i int) string { return fmt.Sprintf("int f%d;", i) })+"};\n")
		add(fmt.Sprintf("%d labels", n), "union u switch (int k) {"+rep(n, func(i int) string { return fmt.Sprintf("case %d:\n", i) })+" int f; default: void; };\n")
		add(fmt.Sprintf("%d procedures", n), "program P { version V {"+rep(n, func(i int) string { return fmt.Sprintf("int F%d(int) = %d;", i, i) })+"} = 1; } = 2;\n")
		add(fmt.Sprintf("%d versions", n), "program P {"+rep(n, func(i int) string { return fmt.Sprintf("version V%d { void F%d(void) = 0; } = %d;", i, i, i) })+"} = 2;\n")
		add(fmt.Sprintf("%d programs", n), rep(n, func(i int) string {
			return fmt.Sprintf("program P%d { version V%d { void F%d(void) = 0; } = 1; } = %d;", i, i, i, i)
		}))
		add(fmt.Sprintf("names of %d letters", n), "const C"+strings.Repeat("x", n)+" = 1; struct s"+strings.Repeat("y", n)+" { int f"+strings.Repeat("z", n)+"; };\n")
	}
	for _, n := range []int{2, 5, 10, 20, 40, 80} {
		add(fmt.Sprintf("structs nested %d deep", n), "struct s {"+rep(n, func(i int) string { return "struct {" })+"int a;"+rep(n, func(i int) string { return fmt.Sprintf("} b%d;", i) })+"};\n")
		add(fmt.Sprintf("unions nested %d deep", n), "struct s {"+rep(n, func(i int) string { return fmt.Sprintf("union switch (int k%d) { case 1:", i) })+"int a;"+rep(n, func(i int) string { return fmt.Sprintf("default: void; } b%d;", i) })+"};\n")
	}
	// the last declaration at every distance around a power of two
	for _, n := range []int{1 << 9, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 20} {
		for d := -20; d <= 4; d++ {
			add(fmt.Sprintf("the last declaration at %d%+d", n, d), "const FIRST = 1;\n/*"+strings.Repeat("-", n+d-21)+"*/\nconst LAST = 2;\n")
		}
	}
	return out
}

const oldOut = "package p // the old output\n"
const oldTypes = "package p // the old types\n"

func p10(e *env) *res.Result {
	r := newResult(e.prop)
	muts := e.p10mutants()
	type variant struct {
		name  string
		files map[string]string
		args  []string
	}
	variants := []variant{
		{"outputs exist", map[string]string{"o.go": oldOut, "t.go": oldTypes}, withTypes},
		{"outputs missing", map[string]string{}, withoutTypes},
		{"outputs missing, separate types", map[string]string{}, withTypes},
		{"output exists", map[string]string{"o.go": oldOut, "t.go": oldTypes}, withoutTypes},
		{"stale temporary output", map[string]string{"o.go": oldOut, "t.go": oldTypes, "o.go.tmp": "stale"}, withTypes},
		{"stale temporary types", map[string]string{"o.go": oldOut, "t.go": oldTypes, "t.go.tmp": "stale"}, withTypes},
	}
	type cs struct{ m, v int }
	var cases []cs
	seen := map[string]bool{}
	k := 0
	for i, m := range muts {
		if seen[m.src] || (e.only != "" && e.only != m.name) {
			continue
		}
		seen[m.src] = true
		k++
		for v := range variants {
			switch {
			case i == 0:
			case v < 2 && (e.thorough() || v == k%2):
			case v >= 2 && v < 4 && k%16 == v:
			case v >= 4 && k%64 == v:
			default:
				continue
			}
			cases = append(cases, cs{i, v})
		}
	}
	var mu sync.Mutex
	done := e.parallel(len(cases), func(g *genRun, k int) bool {
		m, v := muts[cases[k].m], variants[cases[k].v]
		o := g.run(m.src, v.files, v.args...)
		what, why := judge(m.src, o, v.files, v.args)
		mu.Lock()
		defer mu.Unlock()
		r.Evaluations++
		r.Traces++
		r.Transitions += int64(strings.Count(m.src, " "))
		r.Outcomes[what]++
		if why != "" {
			lx, _ := ref.Lex(m.src)
			r.Violations = append(r.Violations, res.Violation{Key: m.name + " / " + v.name, Detail: fmt.Sprintf("%s (%s): %s\n(%d tokens) generator: %s", m.name, v.name, why, len(lx), o.msg), Replay: map[string]any{"case": m.name, "variant": v.name, "specification": m.src, "args": v.args}})
		}
		return len(r.Violations) < 8
	})
	r.States = int64(len(seen))
	if done < len(cases) {
		r.Exhaustive = false
		r.Notes = append(r.Notes, fmt.Sprintf("%d of %d cases", done, len(cases)))
	}
	r.Samples = append(r.Samples, muts[1].name, muts[len(muts)/3].name, muts[len(muts)/2].name, muts[len(muts)-20].name)
	r.Bounds["mutants"] = fmt.Sprintf("%d specifications: spec/layout.x with every token deleted, duplicated, swapped, replaced by and preceded by each of %d tokens and %d non-tokens, spans of up to 12 tokens deleted, cut after every token and byte, and %d fragments inserted or exchanged at every place (thorough: all spans, pairs of deletions, pairs of swaps, bytes deleted and replaced); outputs existing or missing, separate types file or not, stale temporaries", len(seen), len(tokenAlphabet), len(nonTokens), len(fragments)+len(topFragments))
	return r
}

// judge compares one run with the reference reading of the specification.
func judge(src string, o outcome, before map[string]string, args []string) (what, why string) {
	spec, err := ref.Parse(src)
	bad := err != nil
	reason := ""
	if bad {
		reason = err.Error()
	} else if len(spec.Unsupported) > 0 {
		bad = true
		reason = "not translatable: " + strings.Join(spec.Unsupported, ", ")
	}
	if !o.ok {
		what = "refused, wrong"
		if !bad {
			what = "refused, though well-formed (semantic errors, names Go does not allow)"
		}
		for n, s := range before {
			if strings.HasSuffix(n, ".tmp") {
				continue
			}
			if t, ok := o.files[n]; !ok {
				return what, "refused, and the existing " + n + " is gone"
			} else if t != s {
				return what, "refused, but the existing " + n + " was changed"
			}
		}
		for n := range o.files {
			if _, ok := before[n]; !ok && n != "in.x" {
				return what, "refused, but it left the file " + n
			}
		}
		return what, ""
	}
	what = "translated"
	if bad {
		return what, "exit status 0 for a wrong specification: " + reason
	}
	want := map[string]bool{"in.x": true, "o.go": true}
	hasTypes := false
	for i, a := range args {
		if a == "-t" {
			hasTypes = true
			want[args[i+1]] = true
		}
	}
	for n := range before {
		want[n] = true
	}
	for n := range o.files {
		if !want[n] {
			return what, "it left the file " + n
		}
	}
	for n, s := range before {
		if strings.HasSuffix(n, ".tmp") || n == "o.go" || (n == "t.go" && hasTypes) {
			continue
		}
		if o.files[n] != s {
			return what, "the unrelated file " + n + " was changed"
		}
	}
	outs := []string{o.files["o.go"]}
	if hasTypes {
		outs = append(outs, o.files["t.go"])
	}
	return what, complete(spec, outs)
}

type goOut struct {
	types   map[string]ast.Expr
	consts  map[string]bool
	methods map[string]bool // "Type.Method"
	funcs   map[string]*ast.FuncDecl
}

// complete reports what of the specification is missing in the output.
func complete(spec *ref.Spec, outs []string) string {
	g := goOut{map[string]ast.Expr{}, map[string]bool{}, map[string]bool{}, map[string]*ast.FuncDecl{}}
	for _, s := range outs {
		f, err := parser.ParseFile(token.NewFileSet(), "out.go", s, 0)
		if err != nil {
			return "exit status 0, but the output is not Go: " + err.Error()
		}
		if f.Name.Name != "p" {
			return "the package name is " + f.Name.Name
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					g.funcs[d.Name.Name] = d
					continue
				}
				t := d.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					g.methods[id.Name+"."+d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						g.types[sp.Name.Name] = sp.Type
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							g.consts[n.Name] = true
						}
					}
				}
			}
		}
	}
	var miss []string
	need := func(ok bool, f string, a ...any) {
		if !ok {
			miss = append(miss, fmt.Sprintf(f, a...))
		}
	}
	last := map[string]*ref.Def{}
	for _, d := range spec.Defs {
		last[ref.GoName(d.Name)] = d
	}
	for _, d := range spec.Defs {
		switch d.Kind {
		case "const":
			need(g.consts[d.Name], "constant %s", d.Name)
		case "program":
			need(g.consts[ref.GoName(d.Name)], "program number %s", d.Name)
			for _, v := range d.Prog.Vers {
				need(g.consts[ref.GoName(v.Name)], "version number %s", v.Name)
				reg := g.funcs[ref.GoName(d.Name)+"_"+ref.GoName(v.Name)+"_regs"]
				need(reg != nil, "registrations of %s %s", d.Name, v.Name)
				ids := map[string]bool{}
				it, _ := g.types[ref.GoName(d.Name)+"_"+ref.GoName(v.Name)+"_handler"].(*ast.InterfaceType)
				need(it != nil, "handler interface of %s %s", d.Name, v.Name)
				if it != nil {
					for _, m := range it.Methods.List {
						for _, x := range m.Names {
							ids[x.Name] = true
						}
					}
				}
				for _, c := range v.Procs {
					need(g.consts[ref.GoName(c.Name)], "procedure number %s", c.Name)
					need(it == nil || ids[ref.GoName(c.Name)], "handler method %s", c.Name)
				}
			}
		default:
			if d.Name == "" {
				continue
			}
			n := ref.GoName(d.Name)
			need(g.types[n] != nil, "type %s", d.Name)
			need(g.methods[n+".Xdr"], "Xdr method of %s", d.Name)
			if d.Kind == "enum" {
				for _, it := range d.T.Items {
					need(g.consts[ref.GoName(it.Name)], "enumerator %s", it.Name)
				}
			}
			if st, ok := g.types[n].(*ast.StructType); ok && last[n] == d && (d.Kind == "struct" || d.Kind == "union") {
				have := map[string]bool{}
				for _, f := range st.Fields.List {
					for _, x := range f.Names {
						have[x.Name] = true
					}
				}
				for _, f := range members(d.T) {
					need(have[ref.GoName(f)], "field %s of %s", f, d.Name)
				}
			}
		}
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		return "exit status 0, but the output lacks: " + strings.Join(miss, ", ")
	}
	return ""
}

func members(t *ref.Type) []string {
	var out []string
	add := func(f ref.Field) {
		if f.Name != "" {
			out = append(out, f.Name)
		}
	}
	for _, f := range t.Fields {
		add(f)
	}
	if t.Kind == ref.KUnion {
		add(t.Disc)
		for _, a := range t.Arms {
			add(a.Body)
		}
		if t.Default != nil {
			add(*t.Default)
		}
	}
	return out
}
