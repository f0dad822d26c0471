package main

import (
	"encoding/json"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mc/instr"
)

// overlay instruments source directories and returns the build flags that
// put the instrumented files in place of the original ones.
func (e *env) overlay(dirs []string, mode func(dir, base string) instr.Mode, exports map[string]string) []string {
	m := map[string]string{}
	out := filepath.Join(e.scratch, "instr")
	for i, d := range dirs {
		if err := instr.Dir(d, filepath.Join(out, string(rune('a'+i%26))+filepath.Base(d)), func(base string) instr.Mode { return mode(d, base) }, m, exports); err != nil {
			die("instrumenting %s: %v", d, err)
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": m})
	f := filepath.Join(e.scratch, "overlay.json")
	write(f, b)
	return []string{"-overlay", f}
}

// budgetOverlay counts the statements of the runtime and of all codecs.
func (e *env) budgetOverlay(w string, ts []*tgt) []string {
	dirs := []string{filepath.Join(e.repo, "xdr")}
	for _, t := range ts {
		dirs = append(dirs, t.dir)
	}
	return e.overlay(dirs, func(dir, base string) instr.Mode { return instr.Lib }, nil)
}

// exports finds the export data of all packages that the given packages of
// the repository depend on; nil if that does not work.
func (e *env) exports(pkgs ...string) map[string]string {
	c := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, pkgs...)...)
	c.Dir = e.repo
	out, err := c.Output()
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if f := strings.SplitN(l, "\t", 2); len(f) == 2 {
			m[f[0]] = f[1]
		}
	}
	return m
}
