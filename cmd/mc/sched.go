package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"verif/mc/instr"
	"verif/mc/res"
)

// schedCheck explores the RPC server and client: their sources are
// instrumented so that a scheduler decides every interleaving.
func schedCheck(e *env) *res.Result {
	w := e.workdir()
	var ts []*tgt
	var notes []string
	gen := map[string]string{"P22": "names", "P23": "cover"}[e.prop]
	if gen != "" {
		ts = e.committedTargets()
		if t, err := e.genTarget(w, "g"+gen, read(filepath.Join(e.verif, "spec", gen+".x"))); err == nil {
			ts = append(ts, t)
		} else {
			notes = append(notes, fmt.Sprintf("generator refused spec/%s.x: %v", gen, err))
		}
	}
	dirs := []string{filepath.Join(e.repo, "xdr"), filepath.Join(e.repo, "rfc1057")}
	if e.prop == "P23" {
		dirs = []string{filepath.Join(e.repo, "xdr")}
		for _, t := range ts {
			dirs = append(dirs, t.dir)
		}
	}
	mode := func(dir, base string) instr.Mode {
		if e.prop == "P23" || filepath.Base(dir) == "xdr" || base == "xdr.go" || base == "types.go" {
			return instr.Lib
		}
		return instr.Sched
	}
	// What takes types is left out where it does not compile.
	var extra []string
	exports := e.exports("./rfc1057", "./xdr")
	for {
		extra = e.overlay(dirs, mode, exports)
		if exports == nil {
			fmt.Fprintln(os.Stderr, "instrumented without types")
			break
		}
		write(filepath.Join(w, "probe", "main.go"), []byte("package main\n\nimport (\n\t_ \"github.com/zeldovich/go-rpcgen/rfc1057\"\n\t_ \"github.com/zeldovich/go-rpcgen/xdr\"\n)\n\nfunc main() {}\n"))
		out, err := e.build(w, "./probe", filepath.Join(e.scratch, "probe"), extra...)
		if err == nil {
			break
		}
		fmt.Fprintln(os.Stderr, out)
		exports = nil
	}
	bin := e.buildWorker(w, "sched", ts, extra...)
	var args []string
	if e.only != "" {
		args = append(args, "-case", e.only)
	}
	if e.choices != "" {
		args = append(args, "-choices", e.choices)
	}
	if e.bound > 0 {
		args = append(args, "-bound", strconv.Itoa(e.bound))
	}
	r := e.shardsRun(bin, args...)
	r.Notes = append(r.Notes, notes...)
	r.Exhaustive = r.Exhaustive && len(notes) == 0
	for _, t := range ts {
		if t.dropped != "" {
			r.Notes = append(r.Notes, t.name+" does not fit its specification and was left out: "+t.dropped)
			r.Exhaustive = false
		}
		if t.noProgs {
			r.Notes = append(r.Notes, t.name+": the service stubs do not have the declared methods")
			r.Exhaustive = false
		}
	}
	return r
}
