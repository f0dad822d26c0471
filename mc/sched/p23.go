package sched

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"reflect"

	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// job is what one thread does: it returns what came out, and a function that
// looks at the same results again later.
type job struct {
	name string
	run  func() (later func() string)
	want string
}

// P23: codecs on different states run concurrently.
func P23(c *Ctx) {
	b := 2
	if c.Thor {
		b = 3
	}
	prims := primJobs()
	c.R.Bounds["primitives"] = fmt.Sprintf("every pair of %d primitive operations (each primitive encoding, decoding, failing), on states of their own, with every schedule of up to %d preemptions between statements; every triple in order of 6 of them with up to %d deviations", len(prims), b, b)
	for i, p := range prims {
		for _, q := range prims[i:] {
			p, q := p, q
			c.explore(fmt.Sprintf("%s | %s", p.name, q.name), Opts{Bound: b, Lib: true}, func(x *X) { together(x, p, q) })
		}
	}
	six := []job{prims[1], prims[4], prims[len(prims)/2], prims[len(prims)-5], prims[len(prims)-4], prims[len(prims)-1]}
	for i := range six {
		for j := range six {
			for k := range six {
				p, q, r := six[i], six[j], six[k]
				c.explore(fmt.Sprintf("%s | %s | %s", p.name, q.name, r.name), Opts{Bound: b, Lib: true, Delay: true}, func(x *X) { together(x, p, q, r) })
			}
		}
	}
	cap := 2
	lim := int64(300) // statements of an operation up to which two preemptions are explored
	if c.Thor {
		cap, lim = 12, 1500
	}
	c.R.Bounds["types"] = fmt.Sprintf("every type of the committed packages and of a generated one: encoding and decoding of up to %d values in pairs of threads, also of one value or one input that both use: every schedule of one preemption between statements, of two where the operations have at most %d statements together", cap, lim)
	for _, tg := range c.Targets {
		for _, d := range tg.Spec().Defs {
			mk := tg.New[d.Name]
			if d.T == nil || d.Name == "" || mk == nil {
				continue
			}
			t := ref.DefType(d)
			if ref.Shape(t, reflect.TypeOf(mk()).Elem()) != nil {
				continue // P07's and P08's business
			}
			vals, _ := enum.All(t, enum.Opts{Dev: 1, MaxRec: 1, ArrMax: 2}, cap)
			name := tg.Name + "." + d.Name
			for i, v := range vals {
				u := vals[(i+1)%len(vals)]
				for _, pr := range [][2]job{
					{encJob(t, mk, v), encJob(t, mk, u)},
					{encJob(t, mk, v), decJob(t, mk, u, false)},
					{decJob(t, mk, v, false), decJob(t, mk, u, false)},
					{tripJob(t, mk, v), tripJob(t, mk, u)},
				} {
					pr := pr
					c.pair23(fmt.Sprintf("%s %d: %s | %s", name, i, pr[0].name, pr[1].name), lim, func(x *X) { together(x, pr[0], pr[1]) })
				}
				v := v
				c.pair23(fmt.Sprintf("%s %d: one value", name, i), lim, func(x *X) {
					e := mk()
					ref.ToGo(t, v, reflect.ValueOf(e).Elem())
					j := encJob(t, func() xdr.Xdrable { return e }, v)
					together(x, j, j)
				})
				c.pair23(fmt.Sprintf("%s %d: one input", name, i), lim, func(x *X) {
					w, _ := ref.Encode(nil, t, v, false)
					in := append([]byte{}, w...)
					j := decFrom(t, mk, v, func() []byte { return in })
					together(x, j, j)
				})
			}
			if c.R.Stop() || c.R.Expired() {
				return
			}
		}
	}
}

// pair23 explores with two preemptions what is short enough.
func (c *Ctx) pair23(name string, lim int64, body func(x *X)) {
	b := 1
	if c.Only == "" {
		y := c.one(name, Opts{Lib: true}, replayOf(0, nil), body)
		if y.S.Steps() <= lim {
			b = 2
		}
	} else if c.rbound > 0 {
		b = c.rbound
	}
	c.explore(name, Opts{Bound: b, Lib: true}, body)
}

func together(x *X, js ...job) {
	var all []func()
	for k, j := range js {
		k, j := k, j
		x.Go(j.name, func() {
			later := j.run()
			check := func(when string) {
				if got := later(); got != j.want {
					x.Fail("result", "thread %d (%s): %s gives %s instead of %s", k, j.name, when, got, j.want)
				}
			}
			check("next to the others")
			all = append(all, func() { check("after all have ended, what it returned") })
		})
	}
	if !x.S.Run() {
		x.Fail("stuck", "threads do not end: %v", x.S.Unfinished())
		return
	}
	for _, f := range all {
		f()
	}
	x.Observe("as alone")
}

func encJob(t *ref.Type, mk func() xdr.Xdrable, v *ref.Val) job {
	w, _ := ref.Encode(nil, t, v, false)
	return job{"encode", func() func() string {
		e := mk()
		if reflect.ValueOf(e).Elem().IsZero() {
			ref.ToGo(t, v, reflect.ValueOf(e).Elem())
		}
		b, err := xdr.EncodeBuf(e)
		return func() string { return fmt.Sprintf("%x %v", b, err) }
	}, fmt.Sprintf("%x %v", w, nil)}
}

func decJob(t *ref.Type, mk func() xdr.Xdrable, v *ref.Val, _ bool) job {
	w, _ := ref.Encode(nil, t, v, false)
	return decFrom(t, mk, v, func() []byte { return append([]byte{}, w...) })
}

func decFrom(t *ref.Type, mk func() xdr.Xdrable, v *ref.Val, in func() []byte) job {
	return job{"decode", func() func() string {
		b := in()
		was := append([]byte{}, b...)
		d := mk()
		err := xdr.DecodeBuf(b, d)
		return func() string {
			if !bytes.Equal(b, was) {
				return fmt.Sprintf("changed input %x", b)
			}
			return fmt.Sprintf("%s %v", full(t, ref.FromGo(t, reflect.ValueOf(d).Elem())), err)
		}
	}, fmt.Sprintf("%s %v", full(t, v), nil)}
}

// full is an injective description of a value.
func full(t *ref.Type, v *ref.Val) string {
	w, _ := ref.Encode(nil, t, v, false)
	return fmt.Sprintf("value %x", w)
}

// tripJob encodes and decodes what comes out.
func tripJob(t *ref.Type, mk func() xdr.Xdrable, v *ref.Val) job {
	return job{"encode and decode", func() func() string {
		e := mk()
		ref.ToGo(t, v, reflect.ValueOf(e).Elem())
		b, err := xdr.EncodeBuf(e)
		d := mk()
		err2 := xdr.DecodeBuf(b, d)
		return func() string {
			return fmt.Sprintf("%s %v %v", full(t, ref.FromGo(t, reflect.ValueOf(d).Elem())), err, err2)
		}
	}, fmt.Sprintf("%s %v %v", full(t, v), nil, nil)}
}

// primJobs: each primitive, writing and reading, and failing.
func primJobs() []job {
	var out []job
	add := func(name, want string, f func() func() string) { out = append(out, job{name, f, want}) }
	state := func(xs *xdr.XdrState) string { return fmt.Sprintf("%v", xs.Error() != nil) }
	type prim struct {
		name string
		wire []byte
		enc  func(xs *xdr.XdrState)
		dec  func(xs *xdr.XdrState) func() string
		want string
	}
	var ps []prim
	ps = append(ps, prim{"bool", []byte{0, 0, 0, 1}, func(xs *xdr.XdrState) { v := true; xdr.XdrBool(xs, &v) },
		func(xs *xdr.XdrState) func() string {
			var v bool
			xdr.XdrBool(xs, &v)
			return func() string { return fmt.Sprint(v) }
		}, "true"})
	ps = append(ps, prim{"int", []byte{0x81, 2, 3, 4}, func(xs *xdr.XdrState) { v := int32(-0x7efdfcfc); xdr.XdrS32(xs, &v) },
		func(xs *xdr.XdrState) func() string {
			var v int32
			xdr.XdrS32(xs, &v)
			return func() string { return fmt.Sprint(v) }
		}, fmt.Sprint(int32(-0x7efdfcfc))})
	ps = append(ps, prim{"unsigned", []byte{0x85, 6, 7, 8}, func(xs *xdr.XdrState) { v := uint32(0x85060708); xdr.XdrU32(xs, &v) },
		func(xs *xdr.XdrState) func() string {
			var v uint32
			xdr.XdrU32(xs, &v)
			return func() string { return fmt.Sprint(v) }
		}, fmt.Sprint(uint32(0x85060708))})
	ps = append(ps, prim{"hyper", []byte{0x91, 2, 3, 4, 5, 6, 7, 9}, func(xs *xdr.XdrState) { v := int64(-0x6efdfcfbfaf9f8f7); xdr.XdrS64(xs, &v) },
		func(xs *xdr.XdrState) func() string {
			var v int64
			xdr.XdrS64(xs, &v)
			return func() string { return fmt.Sprint(v) }
		}, fmt.Sprint(int64(-0x6efdfcfbfaf9f8f7))})
	ps = append(ps, prim{"unsigned hyper", []byte{0xa1, 2, 3, 4, 5, 6, 7, 8}, func(xs *xdr.XdrState) { v := uint64(0xa102030405060708); xdr.XdrU64(xs, &v) },
		func(xs *xdr.XdrState) func() string {
			var v uint64
			xdr.XdrU64(xs, &v)
			return func() string { return fmt.Sprint(v) }
		}, fmt.Sprint(uint64(0xa102030405060708))})
	for _, n := range []int{1, 5, 8} {
		n := n
		data := enum.Bytes(n, n)
		padded := append(append([]byte{}, data...), make([]byte, (4-n%4)%4)...)
		sized := append([]byte{0, 0, 0, byte(n)}, padded...)
		ps = append(ps, prim{fmt.Sprintf("opaque[%d]", n), padded, func(xs *xdr.XdrState) { v := append([]byte{}, data...); xdr.XdrArray(xs, v) },
			func(xs *xdr.XdrState) func() string {
				v := make([]byte, n)
				xdr.XdrArray(xs, v)
				return func() string { return fmt.Sprintf("%x", v) }
			}, fmt.Sprintf("%x", data)})
		ps = append(ps, prim{fmt.Sprintf("opaque<%d>", n), sized, func(xs *xdr.XdrState) { v := append([]byte{}, data...); xdr.XdrVarArray(xs, 9, &v) },
			func(xs *xdr.XdrState) func() string {
				var v []byte
				xdr.XdrVarArray(xs, 9, &v)
				return func() string { return fmt.Sprintf("%x", v) }
			}, fmt.Sprintf("%x", data)})
		ps = append(ps, prim{fmt.Sprintf("string<%d>", n), sized, func(xs *xdr.XdrState) { v := string(data); xdr.XdrString(xs, -1, &v) },
			func(xs *xdr.XdrState) func() string {
				var v string
				xdr.XdrString(xs, -1, &v)
				return func() string { return fmt.Sprintf("%x", v) }
			}, fmt.Sprintf("%x", data)})
	}
	for _, p := range ps {
		p := p
		add("write "+p.name, fmt.Sprintf("%x false", p.wire), func() func() string {
			xs := xdr.MakeWriter(nil)
			p.enc(xs)
			b := xs.WriteBuf()
			return func() string { return fmt.Sprintf("%x %s", b, state(xs)) }
		})
		add("read "+p.name, p.want+" false", func() func() string {
			xs := xdr.MakeReader(append([]byte{}, p.wire...))
			f := p.dec(xs)
			return func() string { return f() + " " + state(xs) }
		})
		add("read too little of "+p.name, "true", func() func() string {
			xs := xdr.MakeReader(append([]byte{}, p.wire[:len(p.wire)-1]...))
			p.dec(xs)
			return func() string { return state(xs) }
		})
	}
	for _, n := range []int{5, 6, 7} {
		n := n
		data := append(enum.Bytes(n, n), 0xff, 0xee, 0xdd)[:8]
		sized := append([]byte{0, 0, 0, byte(n)}, data...)
		// whether this is accepted is left open
		add(fmt.Sprintf("read opaque[%d] with other padding", n), "", func() func() string {
			xdr.XdrArray(xdr.MakeReader(append([]byte{}, data...)), make([]byte, n))
			return func() string { return "" }
		})
		add(fmt.Sprintf("read opaque<%d> with other padding", n), "", func() func() string {
			var v []byte
			xdr.XdrVarArray(xdr.MakeReader(append([]byte{}, sized...)), -1, &v)
			return func() string { return "" }
		})
		add(fmt.Sprintf("read string<%d> with other padding", n), "", func() func() string {
			var v string
			xdr.XdrString(xdr.MakeReader(append([]byte{}, sized...)), -1, &v)
			return func() string { return "" }
		})
	}
	for _, n := range []int{0, 300, 1500, 5000, 70000} {
		n := n
		data := enum.Bytes(n, n)
		wire := append(binary.BigEndian.AppendUint32(nil, uint32(n)), data...)
		add(fmt.Sprintf("EncodeBuf of %d bytes", n), fmt.Sprintf("%x <nil>", sum(wire)), func() func() string {
			v := blob(append([]byte{}, data...))
			b, err := xdr.EncodeBuf(&v)
			return func() string { return fmt.Sprintf("%x %v", sum(b), err) }
		})
		add(fmt.Sprintf("DecodeBuf of %d bytes", n), fmt.Sprintf("%x <nil>", sum(data)), func() func() string {
			var v blob
			err := xdr.DecodeBuf(append([]byte{}, wire...), &v)
			return func() string { return fmt.Sprintf("%x %v", sum(v), err) }
		})
	}
	add("write too long string", "true", func() func() string {
		xs := xdr.MakeWriter(nil)
		v := "abcdef"
		xdr.XdrString(xs, 5, &v)
		return func() string { return state(xs) }
	})
	add("write too long opaque", "true", func() func() string {
		xs := xdr.MakeWriter(nil)
		v := []byte("abcdef")
		xdr.XdrVarArray(xs, 5, &v)
		return func() string { return state(xs) }
	})
	return out
}

// blob is an unbounded opaque.
type blob []byte

func (b *blob) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, (*[]byte)(b)) }

func sum(b []byte) []byte {
	h := sha256.Sum256(b)
	return append(h[:8], binary.BigEndian.AppendUint32(nil, uint32(len(b)))...)
}
