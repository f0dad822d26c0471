// Command mc checks one property of the repository's working tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/res"
)

type env struct {
	verif, repo, scratch string
	prop, tier           string
	replay               string
	shards               int
	start                time.Time
	deadline             time.Time
	only                 string
	choices              string
	bound                int
}

// fatal is an error of the check, not of the code under test.
type fatal string

func die(f string, a ...any) { panic(fatal(fmt.Sprintf(f, a...))) }

func (e *env) thorough() bool { return e.tier == "thorough" }

// remaining seconds for exploration.
func (e *env) remaining() int {
	n := int(time.Until(e.deadline) / time.Second)
	if n < 20 {
		n = 20
	}
	return n
}

var checks = map[string]func(*env) *res.Result{
	"P01": codecCheck, "P02": codecCheck, "P03": codecCheck, "P04": codecCheck,
	"P05": codecCheck, "P06": codecCheck, "P07": codecCheck, "P08": p08,
	"P09": p09, "P10": p10, "P11": codecCheck, "P12": codecCheck,
	"P13": schedCheck, "P14": schedCheck, "P15": schedCheck, "P16": schedCheck,
	"P17": schedCheck, "P18": schedCheck, "P19": schedCheck, "P20": schedCheck,
	"P21": schedCheck, "P22": schedCheck, "P23": schedCheck,
	"P24": codecCheck, "P25": p25, "P26": p26, "P27": schedCheck,
}

func main() {
	e := &env{start: time.Now(), shards: 8}
	limit := 0
	evdir := ""
	flag.StringVar(&e.verif, "verif", "/verif", "")
	flag.StringVar(&e.scratch, "scratch", "", "")
	flag.StringVar(&e.prop, "prop", "", "")
	flag.StringVar(&e.tier, "tier", "quick", "")
	flag.StringVar(&e.replay, "replay", "", "replay file")
	flag.StringVar(&e.only, "case", "", "restrict to one case")
	flag.StringVar(&e.choices, "choices", "", "replay one schedule of the case")
	flag.IntVar(&e.bound, "bound", 0, "bound of the replayed schedule")
	flag.StringVar(&evdir, "evidence", "", "")
	flag.IntVar(&e.shards, "shards", e.shards, "")
	flag.IntVar(&limit, "limit", 0, "seconds of exploration")
	flag.Parse()
	e.repo = os.Getenv("MC_REPO")
	if e.repo == "" {
		e.repo = "/repo"
	}
	if limit == 0 {
		limit = 420
		if e.thorough() {
			limit = 780
		}
	}
	e.deadline = e.start.Add(time.Duration(limit) * time.Second)
	if evdir == "" {
		evdir = filepath.Join(e.verif, "evidence")
	}
	f := checks[e.prop]
	if f == nil || (e.tier != "quick" && e.tier != "thorough") {
		fmt.Fprintln(os.Stderr, "mc: unknown property or tier")
		os.Exit(2)
	}
	var r *res.Result
	func() {
		defer func() {
			if p := recover(); p != nil {
				if m, ok := p.(fatal); ok {
					fmt.Fprintln(os.Stderr, "mc:", string(m))
					os.Exit(2)
				}
				panic(p)
			}
		}()
		r = f(e)
	}()
	os.Exit(e.report(r, evdir))
}

// known returns the keys of the known findings of this property.
func (e *env) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(e.verif, "known-findings"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+e.prop+" key=")
		if !ok {
			continue
		}
		key, text, _ := strings.Cut(rest, " ")
		out[key] = text
	}
	return out
}

func (e *env) report(r *res.Result, evdir string) int {
	os.MkdirAll(evdir, 0o755)
	known := e.known()
	var bad []res.Violation
	seen := map[string]bool{}
	for _, v := range r.Violations {
		if t, ok := known[v.Key]; ok {
			if !seen[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop, t)
			}
			seen[v.Key] = true
			continue
		}
		if !seen[v.Key] {
			bad = append(bad, v)
		}
		seen[v.Key] = true
	}
	sort.SliceStable(bad, func(i, j int) bool { return len(bad[i].Detail) < len(bad[j].Detail) })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(r.Samples) > 12 {
		r.Samples = r.Samples[:12]
	}
	if len(r.Notes) > 40 {
		r.Notes = append(r.Notes[:40], fmt.Sprintf("... %d more", len(r.Notes)-40))
	}
	cov := map[string]any{
		"states": r.States, "transitions": r.Transitions,
		"traces_validated_against_impl": r.Traces,
		"evaluations":                   r.Evaluations,
		"samples":                       r.Samples,
		"exhaustive":                    r.Exhaustive,
		"outcomes":                      r.Outcomes,
		"bounds":                        r.Bounds,
		"notes":                         r.Notes,
	}
	ev := map[string]any{
		"property": e.prop, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(e.start).Seconds(), "violations": len(bad),
		"assumptions": assumptions(e.prop),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, e.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d traces compared, exhaustive within bounds: %v, %.1f s\n",
		e.prop, e.tier, r.Evaluations, r.States, r.Transitions, r.Traces, r.Exhaustive, time.Since(e.start).Seconds())
	var ks []string
	for k, n := range r.Outcomes {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		fmt.Println("  outcomes:", strings.Join(ks, ", "))
	}
	for _, n := range r.Notes {
		fmt.Println("  note:", n)
	}
	for i, v := range bad {
		if i >= 5 {
			break
		}
		p := filepath.Join(evdir, fmt.Sprintf("%s.replay%d.json", e.prop, i))
		b, _ := json.MarshalIndent(map[string]any{"property": e.prop, "key": v.Key, "detail": v.Detail, "replay": v.Replay}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Println(indent(v.Detail))
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, p)
	}
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func indent(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return "  " + strings.ReplaceAll(s, "\n", "\n  ")
}

func newResult(prop string) *res.Result {
	return &res.Result{Prop: prop, Exhaustive: true, Outcomes: map[string]int64{}, Bounds: map[string]string{}}
}

func merge(a, b *res.Result) {
	a.Evaluations += b.Evaluations
	a.States += b.States
	a.Transitions += b.Transitions
	a.Traces += b.Traces
	for k, v := range b.Outcomes {
		a.Outcomes[k] += v
	}
	for k, v := range b.Bounds {
		a.Bounds[k] = v
	}
	a.Samples = append(a.Samples, b.Samples...)
	a.Violations = append(a.Violations, b.Violations...)
	for _, n := range b.Notes {
		dup := false
		for _, m := range a.Notes {
			dup = dup || m == n
		}
		if !dup {
			a.Notes = append(a.Notes, n)
		}
	}
	a.Exhaustive = a.Exhaustive && b.Exhaustive
}
