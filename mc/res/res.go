// Package res is the result format workers hand to the driver.
package res

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"sync"
	"time"
)

type Violation struct {
	Key    string // short, stable: identifies the failing input or schedule class
	Detail string
	Replay any
}

type Result struct {
	Prop        string
	Evaluations int64 // executions of the real code
	States      int64 // distinct states
	Transitions int64
	Traces      int64 // executions compared step by step with the model
	Outcomes    map[string]int64
	Samples     []string
	Violations  []Violation
	Known       []string
	Notes       []string
	Exhaustive  bool
	Bounds      map[string]string
}

// Run collects a result; safe for use from a single goroutine.
type Run struct {
	Result
	seen     map[uint64]struct{}
	seed     maphash.Seed
	deadline time.Time
	out      string
	vkeys    map[string]bool
	mu       sync.Mutex
}

func New(prop, out string, limit time.Duration) *Run {
	r := &Run{seen: map[uint64]struct{}{}, seed: maphash.MakeSeed(), out: out, vkeys: map[string]bool{}}
	r.Prop = prop
	r.Exhaustive = true
	r.Outcomes = map[string]int64{}
	r.Bounds = map[string]string{}
	r.deadline = time.Now().Add(limit)
	return r
}

// Expired reports that the internal deadline passed; the run is then not
// exhaustive.
func (r *Run) Expired() bool {
	if time.Now().After(r.deadline) {
		if r.Exhaustive {
			r.Exhaustive = false
			r.Notes = append(r.Notes, "internal deadline reached before the space was exhausted")
		}
		return true
	}
	return false
}

// State records a state by its canonical bytes.
func (r *Run) State(parts ...[]byte) bool {
	var h maphash.Hash
	h.SetSeed(r.seed)
	for _, p := range parts {
		var l [4]byte
		l[0], l[1], l[2], l[3] = byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), byte(len(p)>>24)
		h.Write(l[:])
		h.Write(p)
	}
	k := h.Sum64()
	if _, ok := r.seen[k]; ok {
		return false
	}
	r.seen[k] = struct{}{}
	r.States++
	return true
}

func (r *Run) Outcome(s string) { r.Outcomes[s]++ }

func (r *Run) Sample(f string, a ...any) {
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

// SampleEvery keeps the few first and then ever rarer samples.
func (r *Run) Violate(key string, replay any, f string, a ...any) {
	if r.vkeys[key] || len(r.Violations) >= 20 {
		return
	}
	r.vkeys[key] = true
	d := fmt.Sprintf(f, a...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	r.Violations = append(r.Violations, Violation{key, d, replay})
}

// Stop reports whether enough violations were found to stop exploring.
func (r *Run) Stop() bool { return len(r.Violations) >= 5 }

func (r *Run) Save() {
	b, err := json.Marshal(r.Result)
	if err != nil {
		panic(err)
	}
	if r.out == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(r.out, b, 0o644); err != nil {
		panic(err)
	}
}
