package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// P11: named values.
func P11(c *Ctx) {
	c.R.Bounds["names"] = "every constant, enumerator, program, version and procedure of every target; every enumerator encoded and decoded"
	for ti, tg := range c.Targets {
		if ti%c.N != c.Shard {
			continue
		}
		s := tg.Spec()
		check := func(name string, v int64) {
			caseNo++
			c.R.Evaluations++
			c.R.State([]byte(tg.Name), []byte(name))
			got, ok := tg.Consts[name]
			if !ok || got != uint64(v) {
				c.R.Violate(tg.Name+"."+name, map[string]string{"target": tg.Name, "name": name, "want": fmt.Sprint(v), "got": fmt.Sprint(got)}, "%s: %s is %d (present %v), specified %d", tg.Name, name, got, ok, v)
			}
			c.R.Traces++
			if c.R.Evaluations%61 == 1 {
				c.R.Sample("%s.%s = %d", tg.Name, name, v)
			}
		}
		for _, d := range s.Defs {
			switch d.Kind {
			case "const":
				check(d.Name, d.Val)
			case "enum":
				for _, it := range d.T.Items {
					check(ref.GoName(it.Name), it.Val)
					c.enumWire(tg, d, it)
				}
			case "program":
				check(ref.GoName(d.Name), d.Prog.Num)
				for _, v := range d.Prog.Vers {
					check(ref.GoName(v.Name), v.Num)
					for _, p := range v.Procs {
						check(ref.GoName(p.Name), p.Num)
					}
				}
			}
		}
	}
}

func (c *Ctx) enumWire(tg *Target, d *ref.Def, it ref.Item) {
	mk := tg.New[d.Name]
	if mk == nil {
		return
	}
	i := &item{tg, d, ref.DefType(d), mk}
	x := mk()
	g := reflect.ValueOf(x).Elem()
	if g.CanUint() {
		g.SetUint(tg.Consts[ref.GoName(it.Name)])
	} else {
		g.SetInt(int64(tg.Consts[ref.GoName(it.Name)]))
	}
	c.R.Evaluations++
	b, err, pan := encode(x)
	want := binary.BigEndian.AppendUint32(nil, uint32(it.Val))
	if err != nil || pan != "" || !bytes.Equal(b, want) {
		c.R.Violate(i.key()+":"+it.Name, i.rp(nil, want, it.Name), "%s: enumerator %s encodes as %x, specified %x (%v %s)", i.key(), it.Name, b, want, err, pan)
	}
}

// P12: stubs.
func P12(c *Ctx) {
	cap := 300
	o := enum.Opts{Dev: 1, MaxRec: 1, ArrMax: 2}
	if c.Thor {
		cap = 20000
	}
	c.R.Bounds["calls"] = fmt.Sprintf("every procedure: up to %d argument values x rotating result values, up to %d result values, every truncation of the first 12 argument encodings", cap, cap)
	idx := 0
	for _, tg := range c.Targets {
		s := tg.Spec()
		for _, d := range s.Defs {
			if d.Prog == nil {
				continue
			}
			for vi := range d.Prog.Vers {
				v := &d.Prog.Vers[vi]
				idx++
				c.stubs(tg, d.Prog, v, o, cap, idx)
				if c.R.Expired() || c.R.Stop() {
					return
				}
			}
		}
	}
}

func (c *Ctx) stubs(tg *Target, p *ref.Program, v *ref.Version, o enum.Opts, cap, idx int) {
	key := tg.Name + "." + p.Name + "." + v.Name
	var mk func(*Recorder) []xdr.ProcRegistration
	for _, pr := range tg.Progs {
		if pr.Name == p.Name && pr.Vers == v.Name {
			mk = pr.Regs
		}
	}
	if mk == nil {
		c.R.Violate(key+":table", key, "%s: there is no usable registration table", key)
		return
	}
	type call struct {
		method string
		arg    *ref.Val
	}
	var calls []call
	var argT, resT *ref.Type
	var resV *ref.Val
	rec := &Recorder{}
	byName := map[string]*ref.Proc{}
	for i := range v.Procs {
		byName[ref.GoName(v.Procs[i].Name)] = &v.Procs[i]
	}
	rec.Call = func(m string, arg, res xdr.Xdrable) {
		k := call{method: m}
		pr := byName[m]
		if pr != nil && arg != nil {
			k.arg = ref.FromGo(pr.Arg, reflect.ValueOf(arg).Elem())
		}
		calls = append(calls, k)
		if res != nil && pr != nil && resV != nil && pr.Res == resT {
			ref.ToGo(pr.Res, resV, reflect.ValueOf(res).Elem())
		}
	}
	regs := mk(rec)
	bad := func(what, f string, a ...any) {
		c.R.Violate(key+":"+what, map[string]string{"program": key, "what": what}, "%s: %s: %s", key, what, fmt.Sprintf(f, a...))
	}
	table := map[uint32]xdr.ProcRegistration{}
	for _, r := range regs {
		if int64(r.Prog) != p.Num || int64(r.Vers) != v.Num {
			bad("table", "entry for program %d version %d, expected %d %d", r.Prog, r.Vers, p.Num, v.Num)
		}
		if _, dup := table[r.Proc]; dup {
			bad("table", "two entries for procedure %d", r.Proc)
		}
		table[r.Proc] = r
	}
	if len(regs) != len(v.Procs) {
		bad("table", "%d entries for %d procedures", len(regs), len(v.Procs))
	}
	for pi := range v.Procs {
		pr := &v.Procs[pi]
		idx++
		if idx%c.N != c.Shard {
			continue
		}
		pkey := key + "." + pr.Name
		if c.Case != "" && c.Case != pkey {
			continue
		}
		r, ok := table[uint32(pr.Num)]
		if !ok {
			bad("table", "no entry for procedure %s = %d", pr.Name, pr.Num)
			continue
		}
		argT, resT = pr.Arg, pr.Res
		void := []*ref.Val{{}}
		args, ress := void, void
		if argT.Kind != ref.KVoid {
			args, _ = enum.All(argT, o, cap)
		}
		if resT.Kind != ref.KVoid {
			ress, _ = enum.All(resT, o, cap)
		}
		n := len(args)
		if len(ress) > n {
			n = len(ress)
		}
		for k := 0; k < n; k++ {
			caseNo++
			caseDesc = pkey
			av := args[k%len(args)]
			resV = ress[k%len(ress)]
			aw, _ := ref.Encode(nil, argT, av, false)
			rw, _ := ref.Encode(nil, resT, resV, false)
			calls = nil
			c.R.Evaluations++
			c.R.Traces++
			c.R.State([]byte(pkey), aw, rw)
			var out []byte
			var herr, eerr error
			pan, st := protect(func() {
				xs := xdr.MakeReader(append(append([]byte{}, aw...), trailer...))
				var res xdr.Xdrable
				res, herr = r.Handler(xs)
				if herr != nil {
					return
				}
				w := xdr.MakeWriter(nil)
				if res != nil {
					res.Xdr(w)
				}
				out, eerr = w.WriteBuf(), w.Error()
			})
			fail := func(f string, a ...any) {
				c.R.Violate(pkey+":call", map[string]string{"proc": pkey, "arg": fmt.Sprintf("%x", aw), "res": fmt.Sprintf("%x", rw)}, "%s: argument %s: %s", pkey, av, fmt.Sprintf(f, a...))
			}
			switch {
			case pan != nil:
				fail("panic %v\n%s", pan, st)
			case herr != nil:
				fail("error %v", herr)
			case len(calls) != 1 || calls[0].method != ref.GoName(pr.Name):
				fail("calls made: %v", calls)
			case argT.Kind != ref.KVoid && !ref.Equal(calls[0].arg, av):
				fail("method received %s", calls[0].arg)
			case eerr != nil || !bytes.Equal(out, rw):
				fail("result %s: got %s (%v) want %s", resV, short(out), eerr, short(rw))
			}
			if c.R.Stop() {
				return
			}
			if c.R.Evaluations%997 == 1 {
				c.R.Sample("%s(%s) = %s", pkey, av, resV)
			}
		}
		if argT.Kind == ref.KVoid {
			continue
		}
		for k := 0; k < len(args) && k < 12; k++ {
			aw, _ := ref.Encode(nil, argT, args[k], false)
			for cut := 0; cut < len(aw); cut++ {
				calls = nil
				c.R.Evaluations++
				c.R.Traces++
				c.R.State([]byte(pkey), aw[:cut], []byte("cut"))
				var herr error
				pan, st := protect(func() { _, herr = r.Handler(xdr.MakeReader(append([]byte{}, aw[:cut]...))) })
				if pan != nil || herr == nil || len(calls) != 0 {
					c.R.Violate(pkey+":undecodable", map[string]string{"proc": pkey, "arg": fmt.Sprintf("%x", aw[:cut])}, "%s: undecodable argument %x: error %v, calls %v, panic %v %s", pkey, aw[:cut], herr, calls, pan, st)
					break
				}
			}
		}
		// a state already in error
		calls = nil
		var herr error
		aw, _ := ref.Encode(nil, argT, args[0], false)
		xs := xdr.MakeReader(aw)
		xs.SetError("earlier")
		pan, _ := protect(func() { _, herr = r.Handler(xs) })
		if pan != nil || herr == nil || len(calls) != 0 {
			c.R.Violate(pkey+":errstate", pkey, "%s: argument state in error: error %v calls %v panic %v", pkey, herr, calls, pan)
		}
	}
}
