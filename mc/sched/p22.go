package sched

import (
	"fmt"
	"reflect"

	"verif/mc/codec"
	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// proc is one procedure of one target, with values.
type proc struct {
	key        string
	tg         *codec.Target
	prog, vers uint32
	num        uint32
	name       string
	arg, res   *ref.Type
	mkArg      func() xdr.Xdrable
	mkRes      func() xdr.Xdrable
	args, ress []*ref.Val
}

func (c *Ctx) procs(o enum.Opts, cap int) []*proc {
	var out []*proc
	mk := func(tg *codec.Target, t *ref.Type) func() xdr.Xdrable {
		switch t.Kind {
		case ref.KVoid:
			return func() xdr.Xdrable { return &xdr.Void{} }
		case ref.KInt:
			return func() xdr.Xdrable { return new(xdr.Int32) }
		case ref.KUint:
			return func() xdr.Xdrable { return new(xdr.Uint32) }
		case ref.KHyper:
			return func() xdr.Xdrable { return new(xdr.Int64) }
		case ref.KUhyper:
			return func() xdr.Xdrable { return new(xdr.Uint64) }
		case ref.KBool:
			return func() xdr.Xdrable { return new(xdr.Bool) }
		}
		return tg.New[t.Name]
	}
	vals := func(t *ref.Type) []*ref.Val {
		if t.Kind == ref.KVoid {
			return []*ref.Val{{}}
		}
		v, _ := enum.All(t, o, cap)
		return v
	}
	for _, tg := range c.Targets {
		for _, d := range tg.Spec().Defs {
			if d.Prog == nil {
				continue
			}
			for _, v := range d.Prog.Vers {
				for _, p := range v.Procs {
					q := &proc{key: tg.Name + "." + p.Name, tg: tg, prog: uint32(d.Prog.Num), vers: uint32(v.Num), num: uint32(p.Num), name: ref.GoName(p.Name), arg: p.Arg, res: p.Res, mkArg: mk(tg, p.Arg), mkRes: mk(tg, p.Res)}
					if q.mkArg == nil || q.mkRes == nil {
						c.R.Notes = append(c.R.Notes, q.key+": no Go type")
						continue
					}
					q.args, q.ress = vals(p.Arg), vals(p.Res)
					out = append(out, q)
				}
			}
		}
	}
	return out
}

// remote is a server with all services of all targets, each implemented by a
// method that records its argument and returns what has been arranged.
type remote struct {
	x      *X
	s      *rfc1057.Server
	result map[string]func(arg *ref.Val) *ref.Val // by Go method name and argument
	got    map[string][]string
	byName map[string]*proc
	slow   bool
	held   []heldRes
}

// heldRes is a result that a caller still has.
type heldRes struct {
	call22
	v xdr.Xdrable
}

func (x *X) remote(targets []*codec.Target, ps []*proc) *remote {
	r := &remote{x: x, s: rfc1057.MakeServer(), got: map[string][]string{}, byName: map[string]*proc{}, result: map[string]func(*ref.Val) *ref.Val{}}
	for _, p := range ps {
		r.byName[p.tg.Name+"."+p.name] = p
	}
	for _, tg := range targets {
		tg := tg
		rec := &codec.Recorder{}
		rec.Call = func(m string, arg, res xdr.Xdrable) {
			p := r.byName[tg.Name+"."+m]
			if p == nil {
				return
			}
			a := &ref.Val{}
			if arg != nil && p.arg.Kind != ref.KVoid {
				a = ref.FromGo(p.arg, reflect.ValueOf(arg).Elem())
			}
			r.got[p.key] = append(r.got[p.key], a.String())
			if r.slow {
				yield()
			}
			if f := r.result[p.key]; f != nil && res != nil && p.res.Kind != ref.KVoid {
				if v := f(a); v != nil {
					ref.ToGo(p.res, v, reflect.ValueOf(res).Elem())
				}
			}
		}
		for _, pr := range tg.Progs {
			r.s.RegisterMany(pr.Regs(rec))
		}
	}
	return r
}

type call22 struct {
	p        *proc
	arg, res *ref.Val
}

// do makes a call and compares; it runs in a client thread.
func (r *remote) do(cl *rfc1057.Client, k call22) bool {
	x := r.x
	arg, res := k.p.mkArg(), k.p.mkRes()
	if k.p.arg.Kind != ref.KVoid {
		ref.ToGo(k.p.arg, k.arg, reflect.ValueOf(arg).Elem())
	}
	cred := rfc1057.Opaque_auth{Flavor: rfc1057.AUTH_UNIX, Body: pattern(20, 3)}
	err := cl.Call(k.p.num, cred, rfc1057.Opaque_auth{}, arg, res)
	if err != nil {
		x.Fail("error", "%s(%s): the call returned %v", k.p.key, k.arg, err)
		return false
	}
	if k.p.res.Kind != ref.KVoid {
		if got := ref.FromGo(k.p.res, reflect.ValueOf(res).Elem()); !ref.Equal(got, k.res) {
			x.Fail("result", "%s(%s): the call returned %s, the method %s", k.p.key, k.arg, got, k.res)
			return false
		}
	}
	if k.p.arg.Kind != ref.KVoid {
		if got := ref.FromGo(k.p.arg, reflect.ValueOf(arg).Elem()); !ref.Equal(got, k.arg) {
			x.Fail("argument", "%s(%s): after the call the caller's argument is %s", k.p.key, k.arg, got)
			return false
		}
	}
	// results of earlier calls stay what they are
	for _, h := range r.held {
		if got := ref.FromGo(h.p.res, reflect.ValueOf(h.v).Elem()); !ref.Equal(got, h.res) {
			x.Fail("held", "the result of the earlier call %s(%s) was %s and is %s after %s(%s)", h.p.key, h.arg, h.res, got, k.p.key, k.arg)
			return false
		}
	}
	if k.p.res.Kind != ref.KVoid {
		r.held = append(r.held, heldRes{k, res})
	}
	return true
}

// P22: client, stubs and server together.
func P22(c *Ctx) {
	cap, dev := 400, 1
	if c.Thor {
		cap, dev = 4000, 2
	}
	ps := c.procs(enum.Opts{Dev: dev, MaxRec: 1, ArrMax: 2}, cap)
	if len(ps) == 0 {
		c.R.Notes = append(c.R.Notes, "no procedures")
		c.R.Exhaustive = false
		return
	}
	start := func(x *X, n int) (*remote, []*rfc1057.Client, [][2]*Conn, func(p *proc, i int) *rfc1057.Client) {
		r := x.remote(c.Targets, ps)
		var conns [][2]*Conn
		for i := 0; i < n; i++ {
			a, b := x.pipe()
			conns = append(conns, [2]*Conn{a, b})
			x.Go("Server.Run", func() {
				if err := r.s.Run(b); err == nil {
					x.Fail("serving", "Run returned without an error")
				}
			})
		}
		mk := func(p *proc, i int) *rfc1057.Client { return rfc1057.MakeClient(conns[i][0], p.prog, p.vers) }
		return r, nil, conns, mk
	}
	end := func(x *X, conns [][2]*Conn) {
		x.S.Run()
		for _, k := range conns {
			k[1].eof = true
		}
		if !x.S.Run() {
			x.Fail("stuck", "not everything ended: %s", list(x.S.Unfinished()))
		}
		for _, k := range conns {
			if k[0].rpos != len(k[0].in) {
				x.Fail("surplus", "%d bytes were sent to a client that nobody asked for", len(k[0].in)-k[0].rpos)
			}
		}
	}
	received := func(x *X, r *remote, calls []call22) {
		want := map[string]map[string]int{}
		for _, k := range calls {
			if want[k.p.key] == nil {
				want[k.p.key] = map[string]int{}
			}
			a := k.arg
			if k.p.arg.Kind == ref.KVoid {
				a = &ref.Val{}
			}
			want[k.p.key][a.String()]++
		}
		for key, l := range r.got {
			for _, a := range l {
				if want[key] == nil || want[key][a] == 0 {
					x.Fail("received", "%s was called with %s, which nobody passed", key, a)
					return
				}
				want[key][a]--
			}
		}
		for key, m := range want {
			for a, n := range m {
				if n > 0 {
					x.Fail("received", "%s was not called with %s", key, a)
				}
			}
		}
	}
	c.R.Bounds["values"] = fmt.Sprintf("%d procedures, each with up to %d argument and result values (every shape, every single leaf varied)", len(ps), cap)
	for _, p := range ps {
		p := p
		n := len(p.args)
		if len(p.ress) > n {
			n = len(p.ress)
		}
		c.explore("values "+p.key, Opts{}, func(x *X) {
			i := x.Pick((n+15)/16, 0) * 16
			x.Ch.Freeze()
			x.S.Horizon = 1 << 40
			r, _, conns, mk := start(x, 1)
			var calls []call22
			for j := i; j < i+16 && j < n; j++ {
				calls = append(calls, call22{p, p.args[j%len(p.args)], p.ress[j%len(p.ress)]})
			}
			cur := 0
			r.result[p.key] = func(*ref.Val) *ref.Val { return calls[cur].res }
			x.Go("client", func() {
				cl := mk(p, 0)
				for cur = range calls {
					if !r.do(cl, calls[cur]) {
						return
					}
					c.R.Traces++
				}
			})
			end(x, conns)
			received(x, r, calls)
			x.Observe(fmt.Sprint(p.key, i))
		})
	}
	// sequences over a few procedures, with failing calls in between
	few := pickProcs(ps)
	val := func(l []*ref.Val, i int) *ref.Val { return l[i*7%len(l)] }
	depth := 3
	if c.Thor {
		depth = 4
	}
	c.R.Bounds["sequences"] = fmt.Sprintf("all sequences of %d calls over %d procedures and 4 kinds of failing calls, on one connection", depth, len(few))
	c.explore("sequences", Opts{Split: true}, func(x *X) {
		var seq []int
		for i := 0; i < depth; i++ {
			seq = append(seq, x.Pick(len(few)+4, 0))
		}
		x.Ch.Freeze()
		r, _, conns, mk := start(x, 1)
		var calls []call22
		for i, s := range seq {
			if s < len(few) {
				calls = append(calls, call22{few[s], val(few[s].args, i+1), val(few[s].ress, i+2)})
			}
		}
		cur := 0
		for _, p := range few {
			r.result[p.key] = func(*ref.Val) *ref.Val {
				if cur < len(calls) {
					return calls[cur].res
				}
				return nil
			}
		}
		x.Go("client", func() {
			cls := map[[2]uint32]*rfc1057.Client{}
			base := mk(few[0], 0)
			for _, s := range seq {
				if s < len(few) {
					p := few[s]
					cl := cls[[2]uint32{p.prog, p.vers}]
					if cl == nil {
						cl = mk(p, 0)
						cls[[2]uint32{p.prog, p.vers}] = cl
					}
					if !r.do(cl, calls[cur]) {
						return
					}
					cur++
					continue
				}
				var err error
				none := rfc1057.Opaque_auth{}
				v := &xdr.Void{}
				switch s - len(few) {
				case 0:
					err = base.Call(9999, none, none, v, v)
				case 1:
					err = rfc1057.MakeClient(conns[0][0], 4242, 1).Call(0, none, none, v, v)
				case 2:
					err = base.Call(few[0].num, none, none, &Bad{Before: 2}, v)
				case 3:
					err = base.Call(few[0].num, rfc1057.Opaque_auth{Body: pattern(401, 1)}, none, v, v)
				}
				if err == nil {
					x.Fail("false success", "failing call of kind %d returned success", s-len(few))
					return
				}
			}
		})
		end(x, conns)
		received(x, r, calls)
		x.Observe(fmt.Sprint(seq))
	})
	// several clients at once
	b := 1
	if c.Thor {
		b = 2
	}
	c.R.Bounds["clients"] = fmt.Sprintf("every pair of %d procedures called by two clients at once, two calls each, and three clients, up to %d preemptions", len(few), b)
	for _, nc := range []int{2, 3} {
		nc := nc
		bb := b
		if nc == 3 {
			bb = b - 1
		}
		c.explore(fmt.Sprintf("%d clients", nc), Opts{Bound: bb, Split: true, Pool: true, Delay: true}, func(x *X) {
			var sel []int
			for i := 0; i < nc; i++ {
				sel = append(sel, x.Pick(len(few), 0))
			}
			r, _, conns, mk := start(x, nc)
			r.slow = true
			var all []call22
			per := make([][]call22, nc)
			answers := map[string]map[string]*ref.Val{}
			for i, s := range sel {
				for j := 0; j < 2; j++ {
					p := few[(s+j*i)%len(few)]
					a := val(p.args, 1+2*i+j)
					as := a.String()
					if p.arg.Kind == ref.KVoid {
						as = (&ref.Val{}).String()
					}
					if answers[p.key] == nil {
						answers[p.key] = map[string]*ref.Val{}
					}
					v := answers[p.key][as]
					if v == nil {
						v = val(p.ress, 2+2*i+j)
						answers[p.key][as] = v
					}
					k := call22{p, a, v}
					per[i] = append(per[i], k)
					all = append(all, k)
				}
			}
			for key, m := range answers {
				m := m
				r.result[key] = func(a *ref.Val) *ref.Val { return m[a.String()] }
			}
			for i := range per {
				i := i
				x.Go("client", func() {
					for _, k := range per[i] {
						if !r.do(mk(k.p, i), k) {
							return
						}
					}
				})
			}
			end(x, conns)
			received(x, r, all)
			x.Observe(fmt.Sprint(sel))
		})
	}
}

// pickProcs chooses procedures of different shapes.
func pickProcs(ps []*proc) []*proc {
	var out []*proc
	want := []string{"NFSPROC3_NULL", "NFSPROC3_GETATTR", "NFSPROC3_LOOKUP", "NFSPROC3_READ", "NFSPROC3_WRITE", "NFSPROC3_READDIR", "MOUNTPROC3_MNT", "MOUNTPROC3_EXPORT", "PMAPPROC_DUMP", "PMAPPROC_GETPORT", "PMAPPROC_CALLIT", "PMAPPROC_SET", "FIRST_CALL", "FIRST_PICK", "FIRST_OPT", "FIRST_BOOL", "FIRST_UHYPER", "Second_enum"}
	for _, n := range want {
		for _, p := range ps {
			if p.name == n {
				out = append(out, p)
			}
		}
	}
	if len(out) < 3 {
		out = ps
		if len(out) > 12 {
			out = out[:12]
		}
	}
	return out
}
