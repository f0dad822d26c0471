package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc/ref"
	"verif/mc/res"
)

// p25: what the generator writes is a function of the specification and the
// options, and each option does what it is for.

type conf25 struct {
	spec  string
	types bool
	uns   bool
	ct    string
	pkg   string
	debug bool
}

func (k conf25) String() string {
	return fmt.Sprintf("%s -t=%v -unsigned-enum=%v -const-type=%q -p=%q -d=%v", k.spec, k.types, k.uns, k.ct, k.pkg, k.debug)
}

// paths of one run.
type run25 struct {
	dir, in, out, tout string // the last three as given to the generator
}

type outcome25 struct {
	code      int
	out, tout string // contents, "" if missing
	log       string
}

func (e *env) run25(k conf25, r run25) outcome25 {
	args := []string{"-i", r.in, "-o", r.out}
	if k.pkg != "" {
		args = append(args, "-p", k.pkg)
	}
	if k.types {
		args = append(args, "-t", r.tout)
	}
	if k.uns {
		args = append(args, "-unsigned-enum")
	}
	if k.ct != "" {
		args = append(args, "-const-type", k.ct)
	}
	if k.debug {
		args = append(args, "-d")
	}
	c := exec.Command(e.generator(), args...)
	c.Dir = r.dir
	var b bytes.Buffer
	c.Stderr = &b
	err := c.Run()
	o := outcome25{log: b.String()}
	if err != nil {
		o.code = 1
	}
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(r.dir, p)
	}
	x, _ := os.ReadFile(abs(r.out))
	o.out = string(x)
	x, _ = os.ReadFile(abs(r.tout))
	o.tout = string(x)
	return o
}

// bare is Go source without comments and with another package name.
func bare(src, pkg string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return "does not parse: " + err.Error()
	}
	f.Name.Name = pkg
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return err.Error()
	}
	return regexp.MustCompile(`\n+`).ReplaceAllString(b.String(), "\n")
}

// api describes what a package declares, one entry per name.
type api struct {
	pkg  string
	decl map[string]string // name -> kind, type, value
	in   map[string]string // name -> file it is declared in
	obj  map[string]types.Object
}

func api25(srcs map[string]string, exports map[string]string) (*api, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for n := range srcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, srcs[n], 0)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) { return os.Open(exports[p]) })}
	p, err := conf.Check("p", fset, files, nil)
	if err != nil {
		return nil, err
	}
	a := &api{pkg: p.Name(), decl: map[string]string{}, in: map[string]string{}, obj: map[string]types.Object{}}
	q := func(o *types.Package) string {
		if o == p {
			return ""
		}
		return o.Name()
	}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		d := ""
		switch o := o.(type) {
		case *types.Const:
			d = "const " + types.TypeString(o.Type(), q) + " = " + o.Val().ExactString()
		case *types.TypeName:
			d = "type " + types.TypeString(o.Type().Underlying(), q)
			if t, ok := o.Type().(*types.Named); ok {
				var ms []string
				for i := 0; i < t.NumMethods(); i++ {
					ms = append(ms, t.Method(i).Name()+types.TypeString(t.Method(i).Type(), q))
				}
				sort.Strings(ms)
				d += " " + strings.Join(ms, "; ")
			}
		case *types.Func:
			d = "func " + types.TypeString(o.Type(), q)
		default:
			d = types.ObjectString(o, q)
		}
		a.decl[n], a.obj[n] = d, o
		a.in[n] = fset.Position(o.Pos()).Filename
	}
	return a, nil
}

func diff25(a, b map[string]string) string {
	var out []string
	for n, d := range a {
		if b[n] != d {
			out = append(out, fmt.Sprintf("%s: %q / %q", n, d, b[n]))
		}
	}
	for n, d := range b {
		if _, ok := a[n]; !ok {
			out = append(out, fmt.Sprintf("%s: \"\" / %q", n, d))
		}
	}
	sort.Strings(out)
	if len(out) > 5 {
		out = append(out[:5], "...")
	}
	return strings.Join(out, "\n")
}

func p25(e *env) *res.Result {
	e.generator()
	exports := e.exports("./xdr")
	if exports == nil {
		die("no export data of the xdr package")
	}
	top := filepath.Join(e.scratch, "p25")
	specs := map[string]string{}
	for _, n := range []string{"cover", "names", "layout"} {
		specs[n] = read(filepath.Join(e.verif, "spec", n+".x"))
	}
	for _, n := range []string{"rfc1057", "rfc1813"} {
		if b, err := os.ReadFile(filepath.Join(e.repo, n, "prot.x")); err == nil {
			specs["repository "+n] = string(b)
		}
	}
	small := map[string]string{
		"empty":                      "",
		"constants":                  "const A = 1; const b = 0x10;\n",
		"enumeration":                "enum color { RED = 1, blue = 2 };\n",
		"structure":                  "struct s { int a; string b<3>; };\n",
		"program":                    "program P { version V { int F(hyper) = 1; } = 2; } = 3;\n",
		"constants of the same size": "const B = 2; const a = 0x20;\n",
		"structure of the same size": "struct t { int b; string c<4>; };\n",
		"other":                      "struct s { hyper a<2>; }; enum color { RED = 3 }; const A = 2; program P { version V { void F(int) = 4; } = 2; } = 3;\n",
	}
	for n, s := range small {
		specs[n] = s
	}
	var names []string
	for n := range specs {
		names = append(names, n)
		f := strings.ReplaceAll(n, " ", "_") + ".x"
		write(filepath.Join(top, "in", f), []byte(specs[n]))
		write(filepath.Join(top, "elsewhere", "deep", "er", "copy of "+f), []byte(specs[n]))
	}
	sort.Strings(names)
	inOf := func(n string) string {
		return filepath.Join(top, "in", strings.ReplaceAll(n, " ", "_")+".x")
	}
	var confs []conf25
	for _, n := range names {
		for m := 0; m < 4; m++ {
			for _, ct := range []string{"", "uint32", "int64", "uint64"} {
				confs = append(confs, conf25{spec: n, types: m&1 != 0, uns: m&2 != 0, ct: ct, pkg: "pk"})
			}
		}
	}
	r := res.New(e.prop, "", time.Duration(e.remaining())*time.Second)
	var mu sync.Mutex
	count := func(n int) {
		mu.Lock()
		r.Evaluations += int64(n)
		mu.Unlock()
	}
	fail := func(key, f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		r.Violate(key, map[string]string{"Case": key}, f, a...)
	}
	step := func(parts ...string) {
		mu.Lock()
		defer mu.Unlock()
		var bs [][]byte
		for _, p := range parts {
			bs = append(bs, []byte(p))
		}
		r.State(bs...)
		r.Traces++
		r.Transitions++
	}
	serial := 0
	newdir := func() string {
		mu.Lock()
		serial++
		d := filepath.Join(top, fmt.Sprintf("d%d", serial))
		mu.Unlock()
		os.MkdirAll(d, 0o755)
		return d
	}
	parallel := func(n int, f func(i int)) {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i := 0; i < n; i++ {
			mu.Lock()
			stop := r.Stop() || r.Expired()
			mu.Unlock()
			if stop {
				break
			}
			wg.Add(1)
			sem <- struct{}{}
			go func(i int) {
				defer func() { <-sem; wg.Done() }()
				f(i)
			}(i)
		}
		wg.Wait()
	}

	// Each configuration on its own, several times in several ways.
	first := map[conf25]outcome25{}
	apis := map[conf25]*api{}
	var fm sync.Mutex
	parallel(len(confs), func(i int) {
		k := confs[i]
		d := newdir()
		defer os.RemoveAll(d)
		at := run25{d, inOf(k.spec), filepath.Join(d, "o.go"), filepath.Join(d, "t.go")}
		o := e.run25(k, at)
		count(1)
		if o.code != 0 {
			fail(k.String()+":refused", "%s: refused: %s", k, o.log)
			return
		}
		fm.Lock()
		first[k] = o
		fm.Unlock()
		step(k.String(), o.out, o.tout)
		same := func(what string, b outcome25, exact bool) {
			count(1)
			step(k.String(), what)
			if exact && b == o {
				return
			}
			if b.code == o.code && bare(b.out, "p") == bare(o.out, "p") && (!k.types || bare(b.tout, "p") == bare(o.tout, "p")) && !exact {
				return
			}
			fail(k.String()+":"+what, "%s: %s: the output differs (exit %d/%d)\n%s", k, what, o.code, b.code, textDiff(o.out+"\n"+o.tout, b.out+"\n"+b.tout))
		}
		o.log = ""
		again := func(k conf25, at run25) outcome25 {
			b := e.run25(k, at)
			b.log = ""
			return b
		}
		same("once more over its own output", again(k, at), true)
		d2 := newdir()
		defer os.RemoveAll(d2)
		same("in another directory with relative paths", again(k, run25{d2, relative(d2, inOf(k.spec)), "o.go", "t.go"}), false)
		os.MkdirAll(filepath.Join(d2, "x", "y"), 0o755)
		same("with other file names", again(k, run25{filepath.Join(d2, "x"), filepath.Join(top, "elsewhere", "deep", "er", "copy of "+filepath.Base(inOf(k.spec))), "../other name.go", "y/types.x.go"}), false)
		kd := k
		kd.debug = true
		same("with -d", again(kd, run25{d2, inOf(k.spec), "od.go", "td.go"}), false)
		for _, p := range []string{"", "main", "another_2"} {
			kp := k
			kp.pkg = p
			b := again(kp, run25{d2, inOf(k.spec), "op" + p + ".go", "tp" + p + ".go"})
			same("with package "+p, b, false)
			if p == "" {
				p = "main" // the documented default
			}
			for _, s := range []string{b.out, b.tout} {
				if s == "" {
					continue
				}
				if f, err := parser.ParseFile(token.NewFileSet(), "", s, parser.PackageClauseOnly); err != nil || f.Name.Name != p {
					fail(k.String()+":package", "%s: with package %q a file has another package clause (%v)", k, p, err)
				}
			}
		}
		srcs := map[string]string{"o.go": o.out}
		if k.types {
			srcs["t.go"] = o.tout
		} else if o.tout != "" {
			fail(k.String()+":types", "%s: a types file is written although none is asked for", k)
		}
		a, err := api25(srcs, exports)
		if err != nil {
			fail(k.String()+":compile", "%s: the output does not compile: %v", k, err)
			return
		}
		fm.Lock()
		apis[k] = a
		fm.Unlock()
	})

	// What the options change.
	for _, k := range confs {
		a := apis[k]
		if a == nil {
			continue
		}
		spec, err := ref.Parse(specs[k.spec])
		if err == nil {
			err = spec.Resolve()
		}
		if err != nil {
			die("%s: %v", k.spec, err)
		}
		base := k
		base.types = false
		if b := apis[base]; b != nil && b != a {
			step(k.String(), "types")
			if s := diff25(a.decl, b.decl); s != "" {
				fail(k.String()+":types file", "%s: the two files together declare something else than the single one:\n%s", k, s)
			}
		}
		defs := map[string]string{}
		for _, d := range spec.Defs {
			switch {
			case d.Kind == "const":
				defs[d.Name] = "const"
			case d.Kind == "program":
			case d.Name != "":
				defs[ref.GoName(d.Name)] = d.Kind
				if d.Kind == "enum" {
					for _, it := range d.T.Items {
						defs[ref.GoName(it.Name)] = "enumerator"
					}
				}
			}
		}
		for n, kind := range defs {
			o := a.obj[n]
			if o == nil {
				continue // P08's and P11's business
			}
			step(k.String(), n)
			if k.types && a.in[n] != "t.go" {
				fail(k.String()+":place", "%s: %s is not in the types file", k, n)
			}
			switch kind {
			case "enum":
				want := "int32"
				if k.uns {
					want = "uint32"
				}
				if got := o.Type().Underlying().String(); got != want {
					fail(k.String()+":enum", "%s: enumeration %s is %s", k, n, got)
				}
			case "const":
				want := "untyped int"
				if k.ct != "" {
					want = k.ct
				}
				c, ok := o.(*types.Const)
				if !ok || c.Type().String() != want || c.Val().Kind() != constant.Int {
					fail(k.String()+":const", "%s: constant %s has type %s", k, n, o.Type())
				}
			}
		}
		// -unsigned-enum changes enumerations, -const-type constants, only
		other := k
		other.uns, other.ct = false, ""
		if b := apis[other]; b != nil && b != a {
			for n, d := range b.decl {
				if kind := defs[n]; kind == "const" || kind == "enum" {
					continue
				}
				step(k.String(), "unchanged", n)
				if a.decl[n] != d {
					fail(k.String()+":scope", "%s: %s becomes %q from %q", k, n, a.decl[n], d)
				}
			}
		}
	}

	// Every run after every other, with the same output files.
	var seq []conf25
	ns := []string{"empty", "constants", "enumeration", "structure", "program", "other", "constants of the same size", "structure of the same size"}
	if e.thorough() {
		ns = names
	}
	for _, n := range ns {
		for m := 0; m < 4; m++ {
			seq = append(seq, conf25{spec: n, types: m&1 != 0, uns: m&2 != 0, ct: []string{"", "uint32"}[m&1], pkg: "pk"})
		}
	}
	bad := filepath.Join(top, "bad.x")
	write(bad, []byte("struct s { int a }; "))
	parallel(len(seq), func(i int) {
		for j := range seq {
			for _, failing := range []bool{false, true} {
				d := newdir()
				at := run25{d, inOf(seq[i].spec), "o.go", "t.go"}
				p := e.run25(seq[i], at)
				if failing {
					f := at
					f.in = bad
					e.run25(seq[(i+j)%len(seq)], f)
				}
				at.in = inOf(seq[j].spec)
				o := e.run25(seq[j], at)
				count(2)
				step(seq[i].String(), seq[j].String(), fmt.Sprint(failing))
				want := first[seq[j]]
				want.log, o.log = "", ""
				if !seq[j].types {
					want.tout = p.tout // left alone
				}
				if o.code != want.code || bare(o.out, "p") != bare(want.out, "p") || bare(o.tout, "p") != bare(want.tout, "p") {
					fail("sequence", "%s after %s (a failing run between: %v): the output differs from the one in an empty directory\n%s", seq[j], seq[i], failing, textDiff(want.out+want.tout, o.out+o.tout))
				}
				os.RemoveAll(d)
			}
		}
	})
	os.RemoveAll(top)
	r.Bounds["configurations"] = fmt.Sprintf("%d specifications with every combination of -t, -unsigned-enum and 4 -const-type values; each run twice, in another directory with relative paths, with other file names, with -d, and with 4 package names", len(names))
	r.Bounds["histories"] = fmt.Sprintf("every ordered pair of %d runs over the same output files, with and without a failing run in between", len(seq))
	r.Outcomes["configurations"] = int64(len(apis))
	return &r.Result
}

func relative(d, p string) string {
	s, err := filepath.Rel(d, p)
	if err != nil {
		return p
	}
	return s
}

func textDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		g, h := "", ""
		if i < len(x) {
			g = x[i]
		}
		if i < len(y) {
			h = y[i]
		}
		if g != h {
			return fmt.Sprintf("line %d: %q / %q", i+1, g, h)
		}
	}
	return "no difference in the text"
}
