package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/mc/ref"
	"verif/mc/res"
)

// tgt is a package of codecs to be registered with the codec worker.
type tgt struct {
	name    string // directory in the work module
	src     string // specification it has to implement
	imp     string // import path of a package outside the work module
	dir     string // where its sources are
	noProgs bool
	dropped string
}

type decls struct{ types, consts, funcs map[string]bool }

func scanDecls(dir string) decls {
	d := decls{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") || filepath.Base(f) == "reg.go" {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, x := range a.Decls {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					d.funcs[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						d.types[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							d.consts[n.Name] = true
						}
					}
				}
			}
		}
	}
	return d
}

func goProcType(t *ref.Type, q string) string {
	switch t.Kind {
	case ref.KVoid:
		return ""
	case ref.KInt:
		return "xdr.Int32"
	case ref.KUint:
		return "xdr.Uint32"
	case ref.KHyper:
		return "xdr.Int64"
	case ref.KUhyper:
		return "xdr.Uint64"
	case ref.KBool:
		return "xdr.Bool"
	}
	return q + ref.GoName(t.Name)
}

// writeReg writes the file that makes a package's codecs known to the worker.
func (e *env) writeReg(w string, t *tgt) {
	spec, err := ref.Parse(t.src)
	if err == nil {
		err = spec.Resolve()
	}
	if err != nil {
		die("%s: %v", t.name, err)
	}
	d := scanDecls(t.dir)
	q := ""
	pkg := t.name
	if t.imp != "" {
		q = "p."
		pkg = t.name
	}
	var b, h strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"verif/mc/codec\"\n\t\"github.com/zeldovich/go-rpcgen/xdr\"\n", pkg)
	if t.imp != "" {
		fmt.Fprintf(&b, "\tp %q\n", t.imp)
	}
	fmt.Fprintf(&b, ")\n\nvar _ xdr.Xdrable\n\nfunc Target() *codec.Target {\n\tt := &codec.Target{Name: %q, Src: specSrc, New: map[string]func() xdr.Xdrable{}, Consts: map[string]uint64{}}\n", t.name)
	seen := map[string]bool{}
	num := func(goName string) {
		if d.consts[goName] && !seen[goName] {
			seen[goName] = true
			fmt.Fprintf(&b, "\tt.Consts[%q] = uint64(%s%s)\n", goName, q, goName)
		}
	}
	for _, df := range spec.Defs {
		switch df.Kind {
		case "const":
			num(df.Name)
		case "program":
			p := df.Prog
			num(ref.GoName(p.Name))
			for _, v := range p.Vers {
				num(ref.GoName(v.Name))
				for _, c := range v.Procs {
					num(ref.GoName(c.Name))
				}
				if t.noProgs {
					continue
				}
				base := ref.GoName(p.Name) + "_" + ref.GoName(v.Name)
				if !d.funcs[base+"_regs"] {
					continue
				}
				hn := "verifH_" + base
				fmt.Fprintf(&b, "\tt.Progs = append(t.Progs, codec.Prog{Name: %q, Vers: %q, Regs: func(r *codec.Recorder) []xdr.ProcRegistration { return %s%s_regs(%s{r}) }})\n", p.Name, v.Name, q, base, hn)
				fmt.Fprintf(&h, "type %s struct{ rec *codec.Recorder }\n", hn)
				for _, c := range v.Procs {
					at, rt := goProcType(c.Arg, q), goProcType(c.Res, q)
					fmt.Fprintf(&h, "func (h %s) %s(", hn, ref.GoName(c.Name))
					if at != "" {
						fmt.Fprintf(&h, "a %s", at)
					}
					fmt.Fprintf(&h, ")")
					if rt != "" {
						fmt.Fprintf(&h, " (r %s)", rt)
					}
					ap, rp := "nil", "nil"
					if at != "" {
						ap = "&a"
					}
					if rt != "" {
						rp = "&r"
					}
					fmt.Fprintf(&h, " { h.rec.Call(%q, %s, %s); return }\n", ref.GoName(c.Name), ap, rp)
				}
			}
		default:
			if df.Kind == "enum" {
				for _, it := range df.T.Items {
					num(ref.GoName(it.Name))
				}
			}
			if df.Name != "" && d.types[ref.GoName(df.Name)] {
				fmt.Fprintf(&b, "\tt.New[%q] = func() xdr.Xdrable { return new(%s%s) }\n", df.Name, q, ref.GoName(df.Name))
			}
		}
	}
	fmt.Fprintf(&b, "\treturn t\n}\n\n%s\nconst specSrc = %s\n", h.String(), strconv.Quote(t.src))
	if t.imp != "" {
		fmt.Fprintf(&b, "\nvar _ = p.%s\n", anyExported(d))
	}
	write(filepath.Join(w, t.name, "reg.go"), []byte(b.String()))
}

func anyExported(d decls) string {
	for _, m := range []map[string]bool{d.consts} {
		var ks []string
		for k := range m {
			if ast.IsExported(k) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			return ks[0]
		}
	}
	die("no exported constant to refer to")
	return ""
}

func (e *env) committedTargets() []*tgt {
	var out []*tgt
	for _, r := range []string{"rfc1057", "rfc1813"} {
		out = append(out, &tgt{
			name: "c" + r[3:], src: read(filepath.Join(e.verif, "spec", r+".x")),
			imp: "github.com/zeldovich/go-rpcgen/" + r, dir: filepath.Join(e.repo, r),
		})
	}
	return out
}

// genTarget generates a package in the work module; nil if refused.
func (e *env) genTarget(w, name, src string, opts ...string) (*tgt, error) {
	dir := filepath.Join(w, name)
	if err := e.generate(dir, name, src, opts...); err != nil {
		return nil, err
	}
	return &tgt{name: name, src: src, dir: dir}, nil
}

var errLine = regexp.MustCompile(`(?m)(?:^|[ /])([cg][0-9a-z_]*)/[A-Za-z0-9_]+\.go:\d+`)

// buildCodec builds the codec worker over the targets, leaving out what does
// not compile; dropped targets are marked.
func (e *env) buildCodec(w string, ts []*tgt, extra ...string) string {
	return e.buildWorker(w, "codec", ts, extra...)
}

// buildWorker builds the worker of package verif/mc/<kind>.
func (e *env) buildWorker(w, kind string, ts []*tgt, extra ...string) string {
	bin := filepath.Join(e.scratch, kind+"worker")
	last := ""
	for round := 0; round < 8; round++ {
		var m strings.Builder
		m.WriteString("package main\n\nimport (\n\t\"verif/mc/codec\"\n")
		if kind != "codec" {
			fmt.Fprintf(&m, "\t\"verif/mc/%s\"\n", kind)
		}
		for _, t := range ts {
			if t.dropped == "" {
				e.writeReg(w, t)
				fmt.Fprintf(&m, "\t\"mcwork/%s\"\n", t.name)
			}
		}
		if kind == "codec" {
			m.WriteString(workImports(extra))
		}
		fmt.Fprintf(&m, ")\n\nfunc main() {\n\t%s.Main([]*codec.Target{\n", kind)
		for _, t := range ts {
			if t.dropped == "" {
				fmt.Fprintf(&m, "\t\t%s.Target(),\n", t.name)
			}
		}
		m.WriteString("\t})\n}\n")
		write(filepath.Join(w, kind+"main", "main.go"), []byte(m.String()))
		out, err := e.build(w, "./"+kind+"main", bin, extra...)
		if err == nil {
			return bin
		}
		last = out
		hit := map[string]bool{}
		for _, mm := range errLine.FindAllStringSubmatch(out, -1) {
			hit[mm[1]] = true
		}
		progress := false
		for _, t := range ts {
			if t.dropped != "" || !hit[t.name] {
				continue
			}
			progress = true
			if !t.noProgs && strings.Contains(out, t.name+"/reg.go") && strings.Contains(t.src, "program") {
				t.noProgs = true
			} else {
				t.dropped = out
			}
		}
		if !progress {
			break
		}
		os.Remove(bin)
	}
	die("the %s worker does not build:\n%s", kind, last)
	return ""
}

func workImports(extra []string) string {
	for _, x := range extra {
		if x == "-overlay" {
			return "\t_ \"verif/mc/budget\"\n"
		}
	}
	return ""
}

func codecCheck(e *env) *res.Result {
	w := e.workdir()
	ts := e.committedTargets()
	var notes []string
	var viol []res.Violation
	gen := e.prop == "P11" || e.prop == "P12" // properties of what is generated
	add := func(name, src string, opts ...string) {
		t, err := e.genTarget(w, name, src, opts...)
		if err != nil {
			notes = append(notes, fmt.Sprintf("generator refused %s: %v", name, err))
			if gen {
				viol = append(viol, res.Violation{Key: name + ":refused", Detail: fmt.Sprintf("the generator refused the specification with options %q: %v", opts, err), Replay: name})
			}
			return
		}
		ts = append(ts, t)
	}
	switch e.prop {
	case "P02", "P03", "P04", "P05", "P06", "P24":
		add("gcover", read(filepath.Join(e.verif, "spec", "cover.x")))
	case "P11", "P12":
		src := read(filepath.Join(e.verif, "spec", "names.x"))
		k := 0
		for _, o := range optionSets() {
			add(fmt.Sprintf("gnames%d", k), src, e.expand(w, fmt.Sprintf("gnames%d", k), o)...)
			k++
		}
	}
	var extra []string
	if e.prop == "P03" {
		extra = e.budgetOverlay(w, ts)
	}
	bin := e.buildCodec(w, ts, extra...)
	for _, t := range ts {
		switch {
		case t.dropped != "" && t.imp != "":
			notes = append(notes, t.name+" does not fit its specification and was left out: "+t.dropped)
			if e.prop == "P07" {
				viol = append(viol, res.Violation{Key: t.name + ":shape", Detail: t.name + " does not have the declarations of its specification:\n" + t.dropped, Replay: t.name})
			}
		case t.dropped != "":
			notes = append(notes, t.name+" does not compile and was left out: "+t.dropped)
			if gen {
				viol = append(viol, res.Violation{Key: t.name + ":compile", Detail: "the generated package does not compile, or lacks declarations:\n" + t.dropped, Replay: t.name})
			}
		case t.noProgs && e.prop == "P12":
			viol = append(viol, res.Violation{Key: t.name + ":stubs", Detail: t.name + ": the service stubs do not have the declared methods", Replay: t.name})
		}
	}
	args := []string{}
	if e.only != "" {
		args = append(args, "-case", e.only)
	}
	r := e.shardsRun(bin, args...)
	r.Notes = append(r.Notes, notes...)
	r.Violations = append(r.Violations, viol...)
	return r
}

// optionSets are the generator option combinations; TYPES stands for a
// separate types file.
func optionSets() [][]string {
	var out [][]string
	for m := 0; m < 8; m++ {
		var o []string
		if m&1 != 0 {
			o = append(o, "-unsigned-enum")
		}
		if m&2 != 0 {
			o = append(o, "-const-type", "uint32")
		}
		if m&4 != 0 {
			o = append(o, "-t", "TYPES")
		}
		out = append(out, o)
	}
	return append(out, []string{"-const-type", "int64"})
}

func (e *env) expand(w, name string, o []string) []string {
	var out []string
	for _, s := range o {
		if s == "TYPES" {
			s = filepath.Join(w, name, "types.go")
		}
		out = append(out, s)
	}
	return out
}

func sortTargets(ts []*tgt) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].name < ts[j].name })
}
