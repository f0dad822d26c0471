package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	"verif/mc/ref"
	"verif/mc/res"
)

// preamble has the named types and numbers that the generated declarations
// refer to.
const preamble = `
const SZ = 3;
const lowsz = 2;
const HX = 0x4;
const OC = 03;
enum sizes { ES1 = 1, es2 = 2, ES3 = 3 };
enum e { ea = 0, EB = 1, ec = 5, ED = 0x7fffffff };
enum f { fa = 010, fb = SZ, fc = 0 };
struct s { int a; opaque b<3>; };
union u switch (int d) { case 0: void; case 1: int x; default: string y<3>; };
typedef int tint;
typedef tint ttint;
typedef unsigned int tuint;
typedef unsigned hyper tuh;
typedef hyper th;
typedef bool tbool;
typedef e tenum;
typedef opaque topq<3>;
typedef opaque tfix[3];
typedef string tstr<4>;
typedef int tarr[2];
typedef int tvar<2>;
typedef s *topt;
typedef topq ttopq;
typedef u tu;
struct lst { int v; lst *next; };
`

// decls returns declarations for the given name: every base type with every
// declarator, and every form of size.
func declForms(all bool) []func(n string) string {
	var out []func(string) string
	add := func(f string) {
		out = append(out, func(n string) string { return strings.ReplaceAll(f, "@", n) })
	}
	sizes := []string{"3", "SZ", "0x3", "lowsz", "ES3", "03", "es2", "HX", "OC", "1"}
	bases := []string{"int", "unsigned int", "hyper", "unsigned hyper", "bool", "e", "s", "u", "tint", "ttint", "tuint", "tuh", "th", "tbool", "tenum", "topq", "tfix", "tstr", "tarr", "tvar", "topt", "ttopq", "tu", "lst", "f",
		"struct { int ia; opaque ib<2>; }", "union switch (bool ik) { case TRUE: int ix; case FALSE: void; }"}
	for k, b := range bases {
		z := func(j int) string { return sizes[(k*3+j)%len(sizes)] }
		add(b + " @")
		add(b + " @[" + z(0) + "]")
		add(b + " @<" + z(1) + ">")
		add(b + " @<>")
		add(b + " *@")
	}
	add("opaque @<>")
	add("string @<>")
	for _, z := range sizes {
		add("opaque @[" + z + "]")
		add("opaque @<" + z + ">")
		add("string @<" + z + ">")
		if all {
			add("int @[" + z + "]")
			add("s @<" + z + ">")
		}
	}
	return out
}

// wraps are the contexts of a declaration; inner ones can be composed.
type wrap func(decl func(n string) string, n string) string

func topContexts() []wrap {
	return []wrap{
		func(d func(string) string, n string) string { return "typedef " + d(n) + ";" },
		func(d func(string) string, n string) string {
			return "struct " + n + " { int before; " + d("mid") + "; opaque after<3>; };"
		},
		func(d func(string) string, n string) string {
			return "struct " + n + " { " + d("first") + "; " + d("last") + "; };"
		},
		func(d func(string) string, n string) string {
			return "union " + n + " switch (int d) { case 1: " + d("arm") + "; case 2: case 3: int z; default: void; };"
		},
		func(d func(string) string, n string) string {
			return "union " + n + " switch (e d) { case EB: void; case ea: case ec: " + d("arm") + "; default: " + d("other") + "; };"
		},
	}
}

// innerContexts turn a declaration into one that contains it.
func innerContexts() []func(d func(string) string) func(string) string {
	mk := func(f string) func(d func(string) string) func(string) string {
		return func(d func(string) string) func(string) string {
			return func(n string) string {
				return strings.ReplaceAll(strings.ReplaceAll(f, "@D", d("v_"+n)), "@", n)
			}
		}
	}
	return []func(d func(string) string) func(string) string{
		mk("struct { int p; @D; } @"),
		mk("struct { @D; } @<2>"),
		mk("struct { @D; } @[2]"),
		mk("struct { @D; } *@"),
		mk("union switch (unsigned int k) { case 7: @D; default: int z; } @"),
		mk("union switch (bool k) { case TRUE: @D; case FALSE: void; } @<>"),
		mk("union switch (e k) { case EB: case ec: void; case ea: bool w; default: @D; } @[2]"),
		mk("union switch (tint k) { case SZ: int z; default: @D; } *@"),
	}
}

// unions returns unions over every kind of discriminant.
func unionForms() []func(n string) string {
	type disc struct {
		d      string
		labels []string
	}
	discs := []disc{
		{"int d", []string{"0", "1", "0x10", "017", "SZ", "lowsz", "HX", "2147483647"}},
		{"unsigned int d", []string{"0", "SZ", "4294967295", "0x80000000", "lowsz", "ES1"}},
		{"bool d", []string{"TRUE", "FALSE"}},
		{"bool d", []string{"FALSE", "TRUE"}},
		{"e d", []string{"ea", "EB", "ec", "ED"}},
		{"e d", []string{"ec", "ea"}},
		{"f d", []string{"fa", "fb", "fc"}},
		{"tint d", []string{"3", "lowsz", "ES1", "0"}},
		{"ttint d", []string{"HX", "0"}},
		{"tuint d", []string{"3", "lowsz", "0xffffffff"}},
		{"tbool d", []string{"TRUE", "FALSE"}},
		{"tenum d", []string{"EB", "ec", "ea"}},
	}
	bodies := []string{"void", "int b@", "opaque b@<3>", "s b@", "lst *b@", "void", "string b@[0]", "tvar b@", "struct { int q; } b@"}
	bodies[6] = "opaque b@[3]"
	defs := []string{"", "default: void;", "default: hyper other;", "default: u other;"}
	var out []func(string) string
	for di, d := range discs {
		for k := 1; k <= len(d.labels); k++ {
			// ways of grouping the first k labels into arms of consecutive labels
			if k > 3 && k < len(d.labels) {
				continue
			}
			for g := 0; g < 1<<(k-1); g++ {
				if k > 3 && g != 0 && g != 1<<(k-1)-1 && g != 5 {
					continue
				}
				for fi, df := range defs {
					d, g, df, k, di, fi := d, g, df, k, di, fi
					out = append(out, func(n string) string {
						var b strings.Builder
						fmt.Fprintf(&b, "union %s switch (%s) {", n, d.d)
						for j := 0; j < k; j++ {
							fmt.Fprintf(&b, " case %s:", d.labels[j])
							if j == k-1 || g>>j&1 == 1 {
								fmt.Fprintf(&b, " %s;", strings.ReplaceAll(bodies[(di+3*fi+j+g)%len(bodies)], "@", fmt.Sprint(j)))
							}
						}
						fmt.Fprintf(&b, " %s };", df)
						return b.String()
					})
				}
			}
		}
	}
	return out
}

// structForms: field sequences and recursion.
func otherForms() []string {
	return []string{
		"struct @ { void; };",
		"struct @ { int a; void; bool b; };",
		"enum @ { @a = 0 };",
		"enum @ { @a = 1, @B = @a, @c = SZ, @D = lowsz, @e = ES3, @f = 0x7fffffff, @g = 017 };",
		"struct @ { int x; @ *next; };",
		"struct @ { @ *left; int x; @ *right; };",
		"struct @ { @ kids<2>; };",
		"struct @ { @ kids<>; int x; };",
		"union @ switch (int d) { case 1: @ *more; default: void; };",
		"union @ switch (bool d) { case TRUE: @ more<2>; case FALSE: int x; };",
		"typedef struct { int v; @ *next; } @;",
		"typedef @e *@; struct @e { int v; @ next; };",
		"struct @a { @b *b; int x; }; struct @b { hyper y; @a *a; };",
		"struct @a { @b b<2>; }; struct @b { @c c[2]; }; typedef struct { int p; } @c;",
		"typedef @y @x; typedef @z @y; typedef unsigned hyper @z;",
		"typedef @y @x<2>; typedef @z @y<2>; typedef opaque @z<2>;",
		"typedef @y @x[2]; typedef @z @y<2>; typedef string @z<2>;",
		"typedef @y *@x; typedef @z *@y; typedef bool *@z;",
		"struct @ { struct { struct { struct { int a; opaque b<3>; } d<2>; } c[2]; } b; int e; };",
		"struct @ { int a<2>; struct { int a<2>; struct { int a<2>; } b<2>; } b<2>; };",
		"struct @ { struct { opaque o[4]; } i[2]; struct { struct { hyper h; } j[2]; } k[2]; };",
	}
}

type group struct{ text string }

func (e *env) p08groups() []group {
	var out []group
	k := 0
	name := func() string { k++; return fmt.Sprintf("t%d", k) }
	tops := topContexts()
	inner := innerContexts()
	for _, d := range declForms(true) {
		for _, w := range tops {
			out = append(out, group{w(d, name())})
		}
	}
	for _, d := range declForms(false) {
		for ii, in := range inner {
			for wi, w := range tops {
				if wi != 0 && wi != 1 && wi != 3+ii%2 {
					continue
				}
				if !e.thorough() && wi != ii%2 {
					continue
				}
				out = append(out, group{w(in(d), name())})
			}
		}
	}
	// three levels
	few := []func(string) string{}
	for i, d := range declForms(false) {
		if e.thorough() || i%9 == 0 || i >= 135 {
			few = append(few, d)
		}
	}
	for a, in1 := range inner {
		for b, in2 := range inner {
			for di, d := range few {
				if (e.thorough() && (di+a+b)%3 != 0) || (!e.thorough() && (di+a*3+b*5)%8 != 0) {
					continue
				}
				out = append(out, group{tops[(a+b+di)%len(tops)](in1(in2(d)), name())})
			}
		}
	}
	for _, u := range unionForms() {
		out = append(out, group{u(name())})
	}
	for _, o := range otherForms() {
		out = append(out, group{strings.ReplaceAll(o, "@", name())})
	}
	return out
}

func join(gs []group, reverse bool) string {
	var b strings.Builder
	b.WriteString(preamble)
	for i := range gs {
		g := gs[i]
		if reverse {
			g = gs[len(gs)-1-i]
		}
		b.WriteString(g.text)
		b.WriteString("\n")
	}
	return b.String()
}

func p08(e *env) *res.Result {
	w := e.workdir()
	var ts []*tgt
	var viol []res.Violation
	var notes []string
	groups := e.p08groups()
	const per = 150
	total := 0
	e.generator()
	type job struct {
		name string
		gs   []group
		src  string
		opts []string
		gold string
	}
	var jobs []job
	opts := optionSets()
	n := 0
	for i := 0; i < len(groups); i += per {
		j := i + per
		if j > len(groups) {
			j = len(groups)
		}
		sets := []int{0, 7}
		if e.thorough() {
			sets = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
		} else if i/per%4 == 0 {
			sets = []int{0, 7, 1 + i/per/4%6}
		}
		for _, s := range sets {
			name := fmt.Sprintf("gg%d", n)
			n++
			jobs = append(jobs, job{name: name, gs: groups[i:j], src: join(groups[i:j], n%2 == 1), opts: e.expand(w, name, opts[s])})
		}
	}
	for _, r := range []string{"rfc1057", "rfc1813"} {
		src := read(filepath.Join(e.repo, r, "prot.x"))
		gold := read(filepath.Join(e.verif, "spec", r+".x"))
		for s, o := range opts {
			name := fmt.Sprintf("gr%s%d", r[3:], s)
			jobs = append(jobs, job{name: name, src: src, gold: gold, opts: e.expand(w, name, o)})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, jb := range jobs {
		wg.Add(1)
		go func(jb job) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if jb.gold == "" {
				if s, err := ref.Parse(jb.src); err != nil {
					die("own specification: %v", err)
				} else if err := s.Resolve(); err != nil {
					die("own specification: %v", err)
				}
			}
			t, err := e.genTarget(w, jb.name, jb.src, jb.opts...)
			mu.Lock()
			defer mu.Unlock()
			total += len(jb.gs)
			if err != nil {
				what := "a specification of the repository"
				if jb.gold == "" {
					what = e.culprit(w, jb.name, jb.gs, jb.opts)
				}
				viol = append(viol, res.Violation{Key: "refused", Detail: fmt.Sprintf("the generator refused %s (options %v): %v", what, jb.opts, err), Replay: map[string]any{"specification": what, "options": jb.opts}})
				return
			}
			if jb.gold != "" {
				t.src = jb.gold
			}
			ts = append(ts, t)
		}(jb)
	}
	wg.Wait()
	sortTargets(ts)
	bin := e.buildCodec(w, ts)
	live := 0
	for _, t := range ts {
		if t.dropped == "" {
			live++
			continue
		}
		viol = append(viol, res.Violation{Key: "compile", Detail: "the output for a specification does not compile or lacks its declarations: " + t.name + "\n" + clip(t.dropped, 1500), Replay: map[string]any{"target": t.name, "specification": t.src}})
	}
	var args []string
	if e.only != "" {
		args = append(args, "-case", e.only)
	}
	var r *res.Result
	if live > 0 {
		r = e.shardsRun(bin, args...)
	} else {
		r = newResult(e.prop)
	}
	r.Violations = append(viol, r.Violations...)
	r.Notes = append(r.Notes, notes...)
	r.Bounds["specifications"] = fmt.Sprintf("%d declaration groups: 27 base types x 5 declarators and 10 forms of sizes, in typedefs, structs, union arms and defaults, inside 8 kinds of inline structs and unions up to depth 3; %d unions over 12 discriminants; recursion; the repository's specifications; %d generated packages over %d option sets", len(groups), len(unionForms()), len(jobs), len(opts))
	// large ones are not refused, and nothing of them is lost
	var large []mutant
	for _, m := range largeSpecs() {
		if strings.HasPrefix(m.name, "large: ") && (e.only == "" || e.only == m.name) {
			large = append(large, m)
		}
	}
	done := e.parallel(len(large), func(g *genRun, k int) bool {
		m := large[k]
		args := [][]string{withTypes, withoutTypes}[k%2]
		o := g.run(m.src, nil, args...)
		why := "refused: " + clip(o.msg, 500)
		if o.ok {
			_, why = judge(m.src, o, nil, args)
		}
		mu.Lock()
		defer mu.Unlock()
		r.Evaluations++
		r.Outcomes["large specifications"]++
		if why != "" {
			r.Violations = append(r.Violations, res.Violation{Key: m.name, Detail: m.name + ": " + why, Replay: map[string]any{"case": m.name, "specification": m.src}})
		}
		return len(r.Violations) < 8
	})
	if done < len(large) {
		r.Exhaustive = false
	}
	r.Bounds["large"] = fmt.Sprintf("%d specifications with up to 12000 constants, enumerators or cases, 1024 fields, labels, procedures, versions or programs, names of 1024 letters, 80 levels of nesting, and a last declaration at every distance around 2^k up to 2^20: translated completely", len(large))
	r.Outcomes["packages"] = int64(live)
	r.Outcomes["definitions"] = int64(total)
	return r
}

// culprit finds a smallest refused part.
func (e *env) culprit(w, name string, gs []group, opts []string) string {
	dir := name + "x"
	refused := func(gs []group) bool {
		return e.generate(filepath.Join(w, dir), "p", join(gs, false), stripTypes(opts)...) != nil
	}
	if refused(nil) {
		return preamble
	}
	for _, g := range gs {
		if refused([]group{g}) {
			return g.text
		}
	}
	return fmt.Sprintf("a specification of %d definitions", len(gs))
}

func stripTypes(o []string) []string {
	var out []string
	for i := 0; i < len(o); i++ {
		if o[i] == "-t" {
			i++
			continue
		}
		out = append(out, o[i])
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
