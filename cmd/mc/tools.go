package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/mc/res"
)

// command runs a tool and returns its combined output.
func command(dir string, timeout time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	b, err := c.CombinedOutput()
	return string(b), err
}

func write(p string, b []byte) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func read(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	return string(b)
}

// generator builds go-rpcgen from the working tree, parser included, without
// writing in the repository.
func (e *env) generator() string {
	bin := filepath.Join(e.scratch, "go-rpcgen")
	if _, err := os.Stat(bin); err == nil {
		return bin
	}
	d := filepath.Join(e.scratch, "yacc")
	os.MkdirAll(d, 0o755)
	yacc := "/opt/vp/gobin/goyacc"
	if _, err := os.Stat(yacc); err != nil {
		yacc = "goyacc"
	}
	out, err := command(d, 2*time.Minute, yacc, "-o", filepath.Join(d, "xdr.go"), "-p", "xdr", filepath.Join(e.repo, "xdr.y"))
	if err != nil {
		die("goyacc: %v\n%s", err, out)
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(e.repo, "xdr.go"): filepath.Join(d, "xdr.go")}})
	write(filepath.Join(d, "overlay.json"), ov)
	out, err = command(e.repo, 5*time.Minute, "go", "build", "-overlay", filepath.Join(d, "overlay.json"), "-o", bin, ".")
	if err != nil {
		die("building go-rpcgen: %v\n%s", err, out)
	}
	return bin
}

// generate runs the generator; a refusal is returned as error.
func (e *env) generate(dir, pkg, src string, opts ...string) error {
	os.MkdirAll(dir, 0o755)
	in := filepath.Join(e.scratch, fmt.Sprintf("in-%s.x", filepath.Base(dir)))
	write(in, []byte(src))
	args := append([]string{"-i", in, "-o", filepath.Join(dir, "xdr.go"), "-p", pkg}, opts...)
	out, err := command(dir, 2*time.Minute, e.generator(), args...)
	if err != nil {
		if len(out) > 600 {
			out = out[:600]
		}
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// workdir creates the module the workers are built in.
func (e *env) workdir() string {
	w := filepath.Join(e.scratch, "work")
	write(filepath.Join(w, "go.mod"), []byte(fmt.Sprintf(`module mcwork

go 1.25

require (
	github.com/zeldovich/go-rpcgen v0.0.0
	verif v0.0.0
)

replace verif => %s

replace github.com/zeldovich/go-rpcgen => %s
`, e.verif, e.repo)))
	if b, err := os.ReadFile(filepath.Join(e.repo, "go.sum")); err == nil {
		write(filepath.Join(w, "go.sum"), b)
	}
	return w
}

func (e *env) build(w, pkg, bin string, extra ...string) (string, error) {
	args := append([]string{"build", "-o", bin}, extra...)
	return command(w, 10*time.Minute, "go", append(args, pkg)...)
}

// shardsRun runs the worker once per shard and merges the results.
func (e *env) shardsRun(bin string, args ...string) *res.Result {
	total := newResult(e.prop)
	n := e.shards
	type one struct {
		r    *res.Result
		err  string
		viol *res.Violation
	}
	outs := make([]one, n)
	var wg sync.WaitGroup
	limit := e.remaining()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := filepath.Join(e.scratch, fmt.Sprintf("shard%d", i))
			os.MkdirAll(d, 0o755)
			of := filepath.Join(d, "out.json")
			os.Remove(of)
			a := append([]string{"-prop", e.prop, "-tier", e.tier, "-shard", fmt.Sprint(i), "-n", fmt.Sprint(n), "-out", of, "-limit", fmt.Sprint(limit)}, args...)
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit+75)*time.Second)
			defer cancel()
			c := exec.CommandContext(ctx, bin, a...)
			c.Dir = d
			var eb bytes.Buffer
			both := &tail{b: &eb} // one writer: a single pipe and no race
			c.Stdout, c.Stderr = both, both
			err := c.Run()
			if b, rerr := os.ReadFile(of); rerr == nil && err == nil {
				var r res.Result
				if jerr := json.Unmarshal(b, &r); jerr != nil {
					outs[i].err = jerr.Error()
				} else {
					outs[i].r = &r
				}
				return
			}
			st := eb.String()
			if len(st) > 6000 {
				st = st[:3000] + "\n...\n" + st[len(st)-3000:]
			}
			prog, _ := os.ReadFile(filepath.Join(d, e.prop+".progress"))
			// A crash of the process inside the code under test is a
			// violation; anything else an error of the check.
			inRepo := strings.Contains(st, "github.com/zeldovich/go-rpcgen/") || strings.Contains(st, "mcwork/g")
			crash := strings.Contains(st, "goroutine ") || strings.Contains(st, "out of memory") || strings.Contains(st, "stack overflow")
			if ctx.Err() == nil && crash && inRepo {
				outs[i].viol = &res.Violation{Key: "crash", Detail: fmt.Sprintf("the process crashed in the code under test: %v\nlast recorded case: %s\n%s", err, prog, st), Replay: string(prog)}
				return
			}
			outs[i].err = fmt.Sprintf("shard %d: %v\n%s", i, err, st)
		}(i)
	}
	wg.Wait()
	errs := ""
	for _, o := range outs {
		if o.r != nil {
			merge(total, o.r)
		}
		if o.viol != nil {
			total.Violations = append(total.Violations, *o.viol)
			total.Exhaustive = false
		}
		if o.err != "" {
			errs += o.err + "\n"
		}
	}
	if errs != "" {
		if len(total.Violations) == 0 {
			die("%s", errs)
		}
		total.Exhaustive = false
		total.Notes = append(total.Notes, "a worker failed")
	}
	return total
}

// tail keeps the first and last part of a noisy stderr.
type tail struct {
	b *bytes.Buffer
	n int
}

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() > 1<<20 {
		t.b.Truncate(1 << 19)
	}
	t.b.Write(p)
	return len(p), nil
}
