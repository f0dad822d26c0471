package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc/ref"
	"verif/mc/res"
)

// genRun is one run of the generator in a directory of its own.
type genRun struct {
	e   *env
	dir string
	bin string
}

func (e *env) genRuns(n int) []*genRun {
	var out []*genRun
	for i := 0; i < n; i++ {
		d := filepath.Join(e.scratch, fmt.Sprintf("gen%d", i))
		os.MkdirAll(d, 0o755)
		out = append(out, &genRun{e, d, e.generator()})
	}
	return out
}

// outcome of a run: exit status zero or not, and all files of the directory.
type outcome struct {
	ok    bool
	files map[string]string
	msg   string
}

func (g *genRun) clean() {
	es, _ := os.ReadDir(g.dir)
	for _, x := range es {
		os.RemoveAll(filepath.Join(g.dir, x.Name()))
	}
}

// run starts from the given files, besides the specification in.x.
func (g *genRun) run(src string, files map[string]string, args ...string) outcome {
	g.clean()
	put := func(n, s string) {
		if err := os.WriteFile(filepath.Join(g.dir, n), []byte(s), 0o644); err != nil {
			die("%v", err)
		}
	}
	put("in.x", src)
	for n, s := range files {
		put(n, s)
	}
	c := exec.Command(g.bin, args...)
	c.Dir = g.dir
	var msg clipped
	c.Stdout, c.Stderr = &msg, &msg
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			die("running the generator: %v", err)
		}
	}
	o := outcome{ok: err == nil, files: map[string]string{}, msg: string(msg)}
	es, _ := os.ReadDir(g.dir)
	for _, x := range es {
		b, _ := os.ReadFile(filepath.Join(g.dir, x.Name()))
		o.files[x.Name()] = string(b)
	}
	return o
}

// clipped keeps the first bytes written to it.
type clipped []byte

func (c *clipped) Write(p []byte) (int, error) {
	if n := 800 - len(*c); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		*c = append(*c, p[:n]...)
	}
	return len(p), nil
}

// parallel feeds the cases to the runs; f returns false to stop.
func (e *env) parallel(n int, f func(g *genRun, k int) bool) (done int) {
	gs := e.genRuns(8)
	var mu sync.Mutex
	next, stop := 0, false
	var wg sync.WaitGroup
	var failed any
	for _, g := range gs {
		wg.Add(1)
		go func(g *genRun) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					failed, stop = p, true
					mu.Unlock()
				}
			}()
			for {
				mu.Lock()
				k := next
				next++
				quit := stop || k >= n || time.Now().After(e.deadline)
				mu.Unlock()
				if quit {
					return
				}
				more := f(g, k)
				mu.Lock()
				done++
				stop = stop || !more
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	return done
}

var withTypes = []string{"-i", "in.x", "-o", "o.go", "-t", "t.go", "-p", "p"}
var withoutTypes = []string{"-i", "in.x", "-o", "o.go", "-p", "p"}

var separators = []string{
	" ", "\t", "\n", "\r\n", "\n\n\n", " \t \n ", "\r\n\t\r\n",
	"/**/", "/* c */", " /* c */ ", "/* c */\n", "\n/* c */", "\n/* c */\n",
	"/*\n*/", "/* a\n b\n c */", "/*\r\n*/", "/***/", "/* * / */", "/* /* */", "/* // */", "/*/ */",
	"/* ; */", "/* } ; */\n", "/* const HIDDEN = 1; */", "\n/*\n * struct hidden { int a; };\n */\n", "/* \" ' ` \\ */",
	"/* a *//* b */", "/* a */\n/* b */\n", " /* a */ /* b */ ", "/* a\n */ /* b\n */\n",
	"/*a*//*b*//*c*/", "/* a */ /* b */ /* c */ /* d */", "/* a */\n/* b */\n/* c */\n/* d */\n/* e */\n", "\n\n/* a\n */\n\n/* b */ /**/\n",
	"\n\n\n\n\n\n\n\n\n\n/*\n\n\n*/\n\n\n", strings.Repeat(" ", 70), strings.Repeat("/* x */ ", 9), "/* " + strings.Repeat("long ", 60) + "*/",
	"/*\n% c */", "/*\n%c\n*/", "/*\n# c */", "/*\n#if 0\n*/", "/* \\\n*/", "/*\n//*/", "/*\n  * c\n  **/", "/*@*/", "/*\t*/",
	"/* \xc3\xa9 */", "/*line x.go:1*/", "/*if*/ /*%#*/",
}

// bigSeparators are longer than any buffer that reads a specification
// piecemeal is likely to have.
var bigSeparators = []string{
	strings.Repeat(" ", 70000), strings.Repeat("\n", 66000), "/* " + strings.Repeat("x", 140000) + " */", strings.Repeat("/* y */\n", 9000),
	"/*" + strings.Repeat("\n", 5000) + "*/", strings.Repeat("\t", 1<<20), "/*" + strings.Repeat("*", 1<<20) + "/",
}

func sepName(s string) string {
	if len(s) > 700 {
		return fmt.Sprintf("%q...%d", s[:4], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// layout renders tokens with the separator of each gap; gap 0 precedes the
// first token.
func layout(toks []ref.Token, sep func(gap int) string) string {
	var b strings.Builder
	for i, t := range toks {
		b.WriteString(sep(i))
		b.WriteString(t.Text)
	}
	b.WriteString(sep(len(toks)))
	return b.String()
}

func word(t ref.Token) bool { return t.Kind == "id" || t.Kind == "num" }

// minimal is the least separator a gap needs.
func minimal(toks []ref.Token, g int) string {
	if g > 0 && g < len(toks) && word(toks[g-1]) && word(toks[g]) {
		return " "
	}
	return ""
}

type layoutCase struct {
	spec  int
	name  string
	gap   int // -1: every gap
	gap2  int // -1: none
	sep   string
	sep2  string
	tight bool // the other gaps have the least separator, not a space
	crlf  bool
}

func p09(e *env) *res.Result {
	r := newResult(e.prop)
	srcs := []string{read(filepath.Join(e.verif, "spec", "layout.x")), read(filepath.Join(e.verif, "spec", "rfc1057.x")), read(filepath.Join(e.verif, "spec", "rfc1813.x"))}
	names := []string{"layout", "rfc1057", "rfc1813"}
	var toks [][]ref.Token
	for i, s := range srcs {
		t, err := ref.Lex(s)
		if err != nil {
			die("%s: %v", names[i], err)
		}
		toks = append(toks, t)
	}
	var cases []layoutCase
	add := func(c layoutCase) {
		if e.only == "" || e.only == fmt.Sprintf("%s/%d/%d/%s/%q/%v", names[c.spec], c.gap, c.gap2, sepName(c.sep), c.sep2, c.tight) {
			cases = append(cases, c)
		}
	}
	for s := range srcs {
		n := len(toks[s]) + 1
		for _, sp := range append([]string{""}, separators...) {
			if sp != "" {
				add(layoutCase{spec: s, gap: -1, gap2: -1, sep: sp})
			}
			if s > 0 && !e.thorough() {
				continue
			}
			for g := 0; g < n; g++ {
				if sp == "" && minimal(toks[s], g) != "" {
					continue
				}
				add(layoutCase{spec: s, gap: g, gap2: -1, sep: sp})
				if s == 0 && sp != "" {
					add(layoutCase{spec: s, gap: g, gap2: -1, sep: sp, tight: true})
				}
			}
		}
		if s == 0 {
			for k, sp := range bigSeparators {
				for g := 0; g < n; g++ {
					if len(sp) < 1<<20 || g%16 == k%16 {
						add(layoutCase{spec: s, gap: g, gap2: -1, sep: sp})
					}
				}
			}
		}
		add(layoutCase{spec: s, gap: -2, gap2: -1})
		// two neighbouring gaps, with separators that open or end something
		if s == 0 {
			two := []string{"\n", "/* c */", "/* a\n b */", "\r\n"}
			for g := 0; g+1 < n; g++ {
				for _, a := range two {
					for _, b := range two {
						add(layoutCase{spec: s, gap: g, gap2: g + 1, sep: a, sep2: b, tight: g%2 == 0})
					}
				}
			}
		}
		// any two gaps
		if s == 0 {
			for g := 0; g < n; g++ {
				for h := g + 2; h < n; h++ {
					if !e.thorough() && (g*7+h)%16 != 0 {
						continue
					}
					add(layoutCase{spec: s, gap: g, gap2: h, sep: "\n/* c */\n", sep2: "/* d */"})
				}
			}
		}
	}
	gapText := func(c layoutCase) string {
		t := toks[c.spec]
		return layout(t, func(g int) string {
			base := " "
			if c.tight || c.gap == -2 {
				base = minimal(t, g)
			}
			switch {
			case c.gap == -1 || c.gap == g:
				return c.sep
			case c.gap2 == g && c.gap2 >= 0:
				return c.sep2
			}
			return base
		})
	}
	type ref2 struct{ o, t string }
	base := make([]ref2, len(srcs))
	g0 := e.genRuns(1)[0]
	for s := range srcs {
		o := g0.run(layout(toks[s], func(int) string { return " " }), nil, withTypes...)
		base[s] = ref2{o.files["o.go"], o.files["t.go"]}
		if !o.ok {
			r.Violations = append(r.Violations, res.Violation{Key: "base", Detail: fmt.Sprintf("the specification %s on one line is refused: %s", names[s], o.msg), Replay: names[s]})
			return r
		}
		// as it is laid out in the file
		o = g0.run(srcs[s], nil, withTypes...)
		if !o.ok || o.files["o.go"] != base[s].o || o.files["t.go"] != base[s].t {
			r.Violations = append(r.Violations, res.Violation{Key: "asis", Detail: fmt.Sprintf("the specification %s gives another output when it is written on one line", names[s]), Replay: names[s]})
		}
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	done := e.parallel(len(cases), func(g *genRun, k int) bool {
		c := cases[k]
		src := gapText(c)
		o := g.run(src, nil, withTypes...)
		id := fmt.Sprintf("%s/%d/%d/%s/%q/%v", names[c.spec], c.gap, c.gap2, sepName(c.sep), c.sep2, c.tight)
		mu.Lock()
		defer mu.Unlock()
		r.Evaluations++
		r.Transitions += int64(len(toks[c.spec]))
		r.Traces++
		seen[fmt.Sprint(c.spec, "/", c.gap)] = true
		switch {
		case !o.ok:
			r.Outcomes["refused"]++
			r.Violations = append(r.Violations, res.Violation{Key: "refused " + id, Detail: fmt.Sprintf("case %s: the same tokens, separated differently, are refused: %s\n%s", id, o.msg, excerpt(toks[c.spec], c.gap, c.sep)), Replay: map[string]any{"case": id, "specification": src}})
		case o.files["o.go"] != base[c.spec].o || o.files["t.go"] != base[c.spec].t:
			r.Outcomes["different"]++
			r.Violations = append(r.Violations, res.Violation{Key: "differs " + id, Detail: fmt.Sprintf("case %s: the same tokens, separated differently, give another output\n%s\n%s", id, excerpt(toks[c.spec], c.gap, c.sep), firstDiff(base[c.spec].o+base[c.spec].t, o.files["o.go"]+o.files["t.go"])), Replay: map[string]any{"case": id, "specification": src}})
		default:
			r.Outcomes["same output"]++
		}
		return len(r.Violations) < 8
	})
	r.States = int64(len(seen))
	if done < len(cases) {
		r.Exhaustive = false
		r.Notes = append(r.Notes, fmt.Sprintf("%d of %d layouts", done, len(cases)))
	}
	r.Samples = append(r.Samples, fmt.Sprintf("%q", clip(gapText(cases[0]), 120)), fmt.Sprintf("%q", clip(gapText(cases[len(cases)/2]), 120)))
	r.Bounds["layouts"] = fmt.Sprintf("%d separators, and %d of 64 KB to 1 MB; each in every token gap of spec/layout.x (%d tokens, every construct), the others being spaces or nothing; all gaps at once; neighbouring and distant pairs of gaps; the same for the RFC specifications with all gaps at once (thorough: each gap)", len(separators), len(bigSeparators), len(toks[0]))
	return r
}

func excerpt(toks []ref.Token, gap int, sep string) string {
	if gap < 0 {
		return "(in every gap)"
	}
	a, b := "", ""
	for i := gap - 4; i < gap; i++ {
		if i >= 0 {
			a += toks[i].Text + " "
		}
	}
	for i := gap; i < gap+4 && i < len(toks); i++ {
		b += " " + toks[i].Text
	}
	return fmt.Sprintf("... %s[%q]%s ...", a, sep, b)
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "(end)"
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("line %d: %q instead of %q", i+1, o, x[i])
		}
	}
	return "additional lines"
}

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
