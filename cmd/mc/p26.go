package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc/res"
)

// p26: whatever system call of the generator fails, and wherever it is
// killed, success means complete output, and later runs are not misled.
//
// The generator runs under strace, which makes the n-th call of one kind fail
// or kills the process there, for every kind and every n.

var calls26 = []string{
	"openat", "open", "creat", "read", "pread64", "write", "pwrite64", "close", "unlinkat", "unlink",
	"renameat", "renameat2", "rename", "ftruncate", "truncate", "fsync", "fdatasync", "link", "linkat",
	"fchmod", "fchmodat", "chmod", "fstat", "newfstatat", "lseek", "mkdirat", "copy_file_range", "sendfile",
}

type fault26 struct {
	call  string
	what  string // an error, or KILL
	n     int
	after bool // from the n-th on
}

func (f fault26) String() string {
	s := fmt.Sprintf("%s #%d", f.call, f.n)
	if f.after {
		s += " and all later ones"
	}
	if f.what == "KILL" {
		return "killed at " + s
	}
	return s + " failing with " + f.what
}

type conf26 struct {
	spec  string
	types bool
	old   bool // the output files exist already
}

func (k conf26) String() string {
	return fmt.Sprintf("%s -t=%v, output files exist=%v", k.spec, k.types, k.old)
}

func p26(e *env) *res.Result {
	e.generator()
	top := filepath.Join(e.scratch, "p26")
	r := res.New(e.prop, "", time.Duration(e.remaining())*time.Second)

	// The main goroutine stays on the main thread, so that strace counts the
	// calls of the generator alone and always in the same way.
	lock := filepath.Join(top, "lock.go")
	write(lock, []byte("package main\n\nimport \"runtime\"\n\nfunc init() { runtime.LockOSThread() }\n"))
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{
		filepath.Join(e.repo, "xdr.go"):                 filepath.Join(e.scratch, "yacc", "xdr.go"),
		filepath.Join(e.repo, "zz_verif_lockthread.go"): lock,
	}})
	write(filepath.Join(top, "overlay.json"), ov)
	bin := filepath.Join(top, "go-rpcgen")
	if out, err := command(e.repo, 5*time.Minute, "go", "build", "-overlay", filepath.Join(top, "overlay.json"), "-o", bin, "."); err != nil {
		die("building go-rpcgen: %v\n%s", err, out)
	}
	if out, err := command(top, time.Minute, "strace", "-f", "-qq", "-e", "trace=openat", "-o", filepath.Join(top, "probe"), "/bin/true"); err != nil {
		r.Notes = append(r.Notes, fmt.Sprintf("strace cannot run here: %v %s", err, out))
		r.Exhaustive = false
		return &r.Result
	}

	specs := map[string]string{
		"empty":     "",
		"types":     "const K = 3; enum e { A = 1, B = 2 }; struct s { e x; int a<K>; }; typedef s *link; union u switch (e t) { case A: s y; default: void; };\n",
		"programs":  "typedef opaque data<>; program P { version V { data F(data) = 1; void G(void) = 2; } = 2; } = 3;\n",
		"unions":    "union u switch (int t) { case 1: int a; case 2: case 3: hyper b; default: string c<9>; };\n",
		"refused":   "struct s { int a };",
		"cut short": "struct s { int a; }; struct t { int b;",
		"long":      long26(),
	}
	if e.thorough() {
		for _, n := range []string{"cover", "names"} {
			specs[n] = read(filepath.Join(e.verif, "spec", n+".x"))
		}
	}
	var names []string
	for n := range specs {
		names = append(names, n)
		write(filepath.Join(top, strings.ReplaceAll(n, " ", "_")+".x"), []byte(specs[n]))
	}
	sort.Strings(names)
	var confs []conf26
	for _, n := range names {
		for m := 0; m < 4; m++ {
			confs = append(confs, conf26{n, m&1 != 0, m&2 != 0})
		}
	}

	const oldOut, oldTypes = "package old\n\nvar _ = 1 // an older output, longer than some of the new ones, which must not shine through\n", "package old\n\nvar _ = 2 // an older types file\n"
	prepare := func(k conf26, d string) {
		os.MkdirAll(d, 0o755)
		if k.old {
			write(filepath.Join(d, "o.go"), []byte(oldOut))
			write(filepath.Join(d, "t.go"), []byte(oldTypes))
		}
	}
	type files struct{ o, t string }
	state := func(d string) files {
		get := func(n string) string {
			b, err := os.ReadFile(filepath.Join(d, n))
			if err != nil {
				return "(missing)"
			}
			return string(b)
		}
		return files{get("o.go"), get("t.go")}
	}
	args := func(k conf26) []string {
		a := []string{"-i", filepath.Join(top, strings.ReplaceAll(k.spec, " ", "_")+".x"), "-o", "o.go", "-p", "pk"}
		if k.types {
			a = append(a, "-t", "t.go")
		}
		return a
	}
	// run gives the exit status, -1 after a signal, -2 if it does not end.
	run := func(d, name string, a ...string) (int, string) {
		c := exec.Command(name, a...)
		c.Dir = d
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		var b bytes.Buffer
		c.Stderr = &b
		if err := c.Start(); err != nil {
			die("%s: %v", name, err)
		}
		t := time.AfterFunc(20*time.Second, func() { c.Process.Kill() })
		err := c.Wait()
		if !t.Stop() {
			return -2, b.String()
		}
		var x *exec.ExitError
		switch {
		case err == nil:
			return 0, b.String()
		case errors.As(err, &x):
			return x.ExitCode(), b.String()
		}
		die("%s: %v", name, err)
		return 0, ""
	}

	// Which calls each configuration makes, and what it should write.
	var mu sync.Mutex
	counts := make([]map[string]int, len(confs))
	want := make([]files, len(confs))
	good := make([]bool, len(confs))
	for i, k := range confs {
		d := filepath.Join(top, fmt.Sprintf("c%d", i))
		prepare(k, d)
		log := filepath.Join(top, fmt.Sprintf("log%d", i))
		code, msg := run(d, "strace", append([]string{"-f", "-qq", "-e", "trace=" + valid26(top), "-o", log, bin}, args(k)...)...)
		good[i] = code == 0
		if (k.spec == "refused" || k.spec == "cut short") == good[i] {
			die("%s: exit status %d: %s", k, code, msg)
		}
		counts[i] = map[string]int{}
		main := ""
		for _, l := range strings.Split(read(log), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 || !strings.Contains(f[1], "(") {
				continue
			}
			if main == "" {
				main = f[0]
			}
			if f[0] == main {
				counts[i][f[1][:strings.Index(f[1], "(")]]++
			}
		}
		want[i] = state(d)
		os.RemoveAll(d)
	}

	// What a faulty run of a long specification leaves behind is then there
	// when specifications that give a little less, byte by byte, are
	// translated.
	const family = 90
	member := func(n int) string { return filepath.Join(top, fmt.Sprintf("f%d.x", n)) }
	fargs := func(k conf26, n int) []string { a := args(k); a[1] = member(n); return a }
	var fwant [2][family + 1]files
	{
		d := filepath.Join(top, "family")
		for n := 1; n <= family; n++ {
			write(member(n), []byte("typedef int "+strings.Repeat("t", n)+";\n"))
			for m := range fwant {
				os.MkdirAll(d, 0o755)
				if code, msg := run(d, bin, fargs(conf26{"", m != 0, false}, n)...); code != 0 {
					die("exit status %d: %s", code, msg)
				}
				fwant[m][n] = state(d)
				os.RemoveAll(d)
			}
		}
	}
	seen := map[string]bool{}
	left := func(d string) (map[string]string, bool) {
		all := map[string]string{}
		es, err := os.ReadDir(d)
		if err != nil {
			die("%v", err)
		}
		var key []string
		for _, x := range es {
			b, _ := os.ReadFile(filepath.Join(d, x.Name()))
			all[x.Name()] = string(b)
			key = append(key, x.Name(), string(b))
		}
		mu.Lock()
		defer mu.Unlock()
		h := strings.Join(key, "\x00")
		if seen[h] {
			return nil, false
		}
		seen[h] = true
		return all, true
	}

	type job struct {
		i int
		f fault26
	}
	var jobs []job
	total := 0
	for i := range confs {
		for _, c := range calls26 {
			for n := 1; n <= counts[i][c]; n++ {
				total++
				for _, what := range []string{"ENOSPC", "EIO", "EINTR", "KILL"} {
					jobs = append(jobs, job{i, fault26{c, what, n, false}})
					if what == "ENOSPC" || what == "EIO" {
						jobs = append(jobs, job{i, fault26{c, what, n, true}})
					}
				}
			}
		}
	}
	outcome := func(s string) {
		mu.Lock()
		r.Outcome(s)
		mu.Unlock()
	}
	fail := func(k conf26, f fault26, what, format string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		key := fmt.Sprintf("%s:%s", k, f)
		r.Violate(key+":"+what, map[string]string{"Configuration": k.String(), "Specification": specs[k.spec], "Fault": f.String()}, "%s: %s: %s", k, f, fmt.Sprintf(format, a...))
	}
	same := func(a, b files, types bool) bool {
		return bare(a.o, "p") == bare(b.o, "p") && (!types || bare(a.t, "p") == bare(b.t, "p"))
	}
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for j := range next {
				i, f := jobs[j].i, jobs[j].f
				k := confs[i]
				d := filepath.Join(top, fmt.Sprintf("w%d.%d", w, j))
				prepare(k, d)
				before := state(d)
				inj := fmt.Sprintf("inject=%s:error=%s:when=%d", f.call, f.what, f.n)
				if f.what == "KILL" {
					inj = fmt.Sprintf("inject=%s:signal=KILL:when=%d", f.call, f.n)
				}
				if f.after {
					inj += "+"
				}
				code, msg := run(d, "strace", append([]string{"-f", "-qq", "-e", "trace=" + f.call, "-e", inj, "-o", "/dev/null", bin}, args(k)...)...)
				after := state(d)
				mu.Lock()
				r.Evaluations++
				r.Traces++
				r.Transitions += 2
				r.State([]byte(k.String()), []byte(after.o), []byte(after.t), []byte(fmt.Sprint(code)))
				mu.Unlock()
				switch {
				case code == -2:
					outcome("fault: did not end")
					fail(k, f, "hang", "the generator does not end")
				case code == 0 && !good[i]:
					fail(k, f, "accepted", "a specification that is refused otherwise is accepted")
				case code == 0:
					outcome("fault: reported success")
					if !same(after, want[i], k.types) {
						fail(k, f, "incomplete", "exit status 0, but the output differs from what it should be\n%s", textDiff(want[i].o+want[i].t, after.o+after.t))
					}
				default:
					outcome("fault: reported failure")
					if k.spec == "refused" || k.spec == "cut short" {
						if after != before {
							fail(k, f, "touched", "the specification is wrong, but an output file changed: %s", textDiff(before.o+before.t, after.o+after.t))
						}
					}
				}
				_ = msg
				if k.spec == "long" && !k.old {
					if fs, fresh := left(d); fresh {
						outcome("distinct sets of files left by a faulty run")
						m := 0
						if k.types {
							m = 1
						}
						for n := 1; n <= family; n++ {
							fd := d + ".f"
							os.MkdirAll(fd, 0o755)
							for name, b := range fs {
								write(filepath.Join(fd, name), []byte(b))
							}
							code, _ := run(fd, bin, fargs(k, n)...)
							end := state(fd)
							os.RemoveAll(fd)
							mu.Lock()
							r.Evaluations++
							r.Traces++
							r.Transitions++
							mu.Unlock()
							if code == 0 && !same(end, fwant[m][n], k.types) {
								fail(k, f, "over", "a later run for \"typedef int t..t;\" (%d letters) exits with status 0, but its output differs from what it should be\n%s", n, textDiff(fwant[m][n].o+fwant[m][n].t, end.o+end.t))
								break
							}
							if code != 0 && end != after {
								fail(k, f, "over", "a later run for \"typedef int t..t;\" (%d letters) fails and changes output files", n)
								break
							}
						}
					}
				}
				// the next run in the same place, undisturbed
				code2, msg2 := run(d, bin, args(k)...)
				last := state(d)
				switch {
				case code2 == 0 && !good[i]:
					fail(k, f, "accepted", "the next run accepts a specification that is refused otherwise")
				case code2 == 0:
					outcome("next run: success")
					if !same(last, want[i], k.types) {
						fail(k, f, "next", "the next run exits with status 0, but its output differs from what it should be\n%s", textDiff(want[i].o+want[i].t, last.o+last.t))
					}
				default:
					outcome("next run: refusal")
					if last != after {
						fail(k, f, "next", "the next run fails and changes output files: %s", msg2)
					}
				}
				// and a run for another specification there
				other := conf26{spec: "empty", types: k.types, old: k.old}
				if k.spec == "empty" {
					other.spec = "unions"
				}
				code3, _ := run(d, bin, args(other)...)
				if code3 == 0 {
					end := state(d)
					for x, c := range confs {
						if c == other && !same(end, want[x], k.types) {
							fail(k, f, "other", "a later run for another specification exits with status 0, but its output differs from what it should be\n%s", textDiff(want[x].o+want[x].t, end.o+end.t))
						}
					}
				}
				os.RemoveAll(d)
			}
		}(w)
	}
	for j := range jobs {
		mu.Lock()
		stop := r.Stop() || r.Expired()
		mu.Unlock()
		if stop {
			break
		}
		next <- j
	}
	close(next)
	wg.Wait()
	r.Bounds["faults"] = fmt.Sprintf("%d configurations (%d specifications, with and without -t, output files missing or existing); each of their %d file system calls fails with ENOSPC, EIO or EINTR, alone or (the first two) with all later calls of its kind, or is where the process is killed", len(confs), len(names), total)
	r.Bounds["histories"] = "each faulty run is followed by a run for the same specification and one for another over the files it left; every distinct set of files that a faulty run of the long specification leaves is followed, in turn, by runs for 90 specifications whose outputs differ by one byte in length"
	os.RemoveAll(top)
	return &r.Result
}

// valid26 is the list of calls that strace here knows.
func valid26(dir string) string {
	var ok []string
	for _, c := range calls26 {
		if _, err := command(dir, time.Minute, "strace", "-qq", "-e", "trace="+c, "-o", "/dev/null", "/bin/true"); err == nil {
			ok = append(ok, c)
		}
	}
	return strings.Join(ok, ",")
}

func long26() string {
	var b strings.Builder
	for n := 0; n < 8; n++ {
		fmt.Fprintf(&b, "const K%d = %d; typedef int t%d;\n", n, n, n)
	}
	return b.String()
}
