// Package codec explores the XDR runtime and generated codecs against the
// reference model of package ref.
package codec

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/mc/enum"
	"verif/mc/ref"
	"verif/mc/res"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// Target is one package of codecs together with the specification it has to
// implement.
type Target struct {
	Name   string
	Src    string // specification text
	New    map[string]func() xdr.Xdrable
	Consts map[string]uint64 // Go constant name -> value
	Progs  []Prog
	spec   *ref.Spec
}

// Prog is one generated program version.
type Prog struct {
	Name, Vers string
	Regs       func(rec *Recorder) []xdr.ProcRegistration
}

// Recorder is called by generated handler implementations.
type Recorder struct {
	Call func(method string, arg xdr.Xdrable, res xdr.Xdrable)
}

func (t *Target) Spec() *ref.Spec {
	if t.spec == nil {
		s, err := ref.Parse(t.Src)
		if err == nil {
			err = s.Resolve()
		}
		if err != nil {
			panic(err)
		}
		t.spec = s
	}
	return t.spec
}

// Ctx is one worker's context.
type Ctx struct {
	R       *res.Run
	Targets []*Target
	Thor    bool
	Shard   int
	N       int
	Case    string
	Prop    string
}

// Work is called for instrumented builds with the statement budget.
var (
	ResetWork func(limit int64)
	WorkDone  func() int64
)

func Main(targets []*Target) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	n := flag.Int("n", 1, "")
	out := flag.String("out", "", "")
	limit := flag.Int("limit", 600, "")
	only := flag.String("case", "", "")
	flag.Parse()
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	c := &Ctx{R: res.New(*prop, *out, time.Duration(*limit)*time.Second), Targets: targets, Thor: *tier == "thorough", Shard: *shard, N: *n, Case: *only, Prop: *prop}
	f := map[string]func(*Ctx){
		"P01": P01, "P02": P02, "P03": P03, "P04": P04, "P05": P05, "P06": P06,
		"P07": P07, "P08": P07, "P11": P11, "P12": P12,
		"P24": P24,
	}[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	go c.watchdog()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if he, ok := p.(harnessErr); ok {
					c.R.Save()
					fmt.Fprintln(os.Stderr, "harness:", string(he))
					os.Exit(3)
				}
				panic(p)
			}
		}()
		f(c)
	}()
	c.R.Transitions += ref.Steps
	c.R.Save()
}

type harnessErr string

// current case, for the watchdog
var (
	caseNo   int64
	caseDesc string
)

func (c *Ctx) watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		n := caseNo
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > 90*time.Second && n > 0 {
			c.R.Violate("hang:"+caseDesc, caseDesc, "no progress for 90 s in %s", caseDesc)
			c.R.Save()
			os.Exit(0)
		}
	}
}

// item is one type of one target.
type item struct {
	tg  *Target
	def *ref.Def
	t   *ref.Type
	mk  func() xdr.Xdrable
}

func (it *item) key() string { return it.tg.Name + "." + it.def.Name }

// items lists the types assigned to this shard.
func (c *Ctx) items(targets ...string) []*item {
	var out []*item
	i := 0
	for _, tg := range c.Targets {
		if len(targets) > 0 {
			ok := false
			for _, t := range targets {
				ok = ok || strings.HasPrefix(tg.Name, t)
			}
			if !ok {
				continue
			}
		}
		for _, d := range tg.Spec().Defs {
			if d.T == nil || d.Name == "" {
				continue
			}
			mk := tg.New[d.Name]
			it := &item{tg, d, ref.DefType(d), mk}
			i++
			if i%c.N != c.Shard {
				continue
			}
			var err error
			if mk == nil {
				err = fmt.Errorf("there is no Go type for it")
			} else {
				err = ref.Shape(it.t, reflect.TypeOf(mk()).Elem())
			}
			if err != nil {
				// P07 and P08 own this; the other properties say nothing
				// about a type that is not there.
				if c.Prop == "P07" || c.Prop == "P08" {
					c.R.Violate(it.key()+":type", it.key(), "%s: %v", it.key(), err)
				} else {
					c.R.Notes = append(c.R.Notes, it.key()+": "+err.Error())
				}
				continue
			}
			if c.Case != "" && it.key() != c.Case {
				continue
			}
			out = append(out, it)
		}
	}
	return out
}

// guarded real-code operations

func protect(f func()) (p any, stack string) {
	defer func() {
		if p = recover(); p != nil {
			stack = string(debug.Stack())
			if i := strings.Index(stack, "panic("); i > 0 {
				stack = stack[i:]
			}
		}
	}()
	f()
	return nil, ""
}

func encode(x xdr.Xdrable) (b []byte, err error, pan string) {
	p, st := protect(func() { b, err = xdr.EncodeBuf(x) })
	if p != nil {
		pan = fmt.Sprintf("panic: %v\n%s", p, st)
	}
	return
}

func decode(b []byte, x xdr.Xdrable) (err error, pan string) {
	p, st := protect(func() { err = xdr.DecodeBuf(b, x) })
	if p != nil {
		pan = fmt.Sprintf("panic: %v\n%s", p, st)
	}
	return
}

func (it *item) toGo(v *ref.Val) xdr.Xdrable {
	x := it.mk()
	ref.ToGo(it.t, v, reflect.ValueOf(x).Elem())
	return x
}

func (it *item) fromGo(x xdr.Xdrable) *ref.Val {
	return ref.FromGo(it.t, reflect.ValueOf(x).Elem())
}

func (it *item) wire(v *ref.Val) []byte {
	b, err := ref.Encode(nil, it.t, v, false)
	if err != nil {
		panic(err)
	}
	return b
}

type rp struct {
	Target, Type string
	Value        string
	Wire         string
	Note         string
}

func (it *item) rp(v *ref.Val, wire []byte, note string) rp {
	r := rp{Target: it.tg.Name, Type: it.def.Name, Note: note}
	if v != nil {
		r.Value = v.String()
	}
	if len(wire) > 4096 {
		r.Wire = fmt.Sprintf("%x.. (%d bytes)", wire[:64], len(wire))
	} else {
		r.Wire = fmt.Sprintf("%x", wire)
	}
	return r
}

func short(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%x..(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// poison fills every field of a Go value with non-zero content.
func poison(g reflect.Value, depth int) {
	switch g.Kind() {
	case reflect.Bool:
		g.SetBool(true)
	case reflect.Int32, reflect.Int64:
		g.SetInt(0x5a5a5a5a)
	case reflect.Uint32, reflect.Uint64:
		g.SetUint(0xa5a5a5a5)
	case reflect.String:
		g.SetString("poison!")
	case reflect.Slice:
		n := 2
		if depth > 5 {
			n = 0
		}
		s := reflect.MakeSlice(g.Type(), n, n)
		for i := 0; i < n; i++ {
			poison(s.Index(i), depth+1)
		}
		g.Set(s)
	case reflect.Array:
		for i := 0; i < g.Len(); i++ {
			poison(g.Index(i), depth+1)
		}
	case reflect.Uint8:
		g.SetUint(0xee)
	case reflect.Ptr:
		if depth < 6 {
			p := reflect.New(g.Type().Elem())
			poison(p.Elem(), depth+1)
			g.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			poison(g.Field(i), depth+1)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

var _ = bytes.Equal
var _ = enum.New
