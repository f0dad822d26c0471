package codec

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// P05: decoding into a used destination equals decoding into a fresh one.
func P05(c *Ctx) {
	o := enum.Opts{Dev: 0, MaxRec: 1, ArrMax: 2}
	cap := 110
	if c.Thor {
		cap = 700
		o.ArrMax = 3
	}
	c.R.Bounds["pairs"] = fmt.Sprintf("all ordered pairs of the first %d shapes of each type plus the values with one leaf deviation against the default shapes, plus a destination filled with garbage", cap)
	for _, it := range c.items() {
		if c.R.Expired() || c.R.Stop() {
			return
		}
		vals, full := enum.All(it.t, o, cap)
		if !full {
			c.R.Outcome("types with more shapes than the pair bound")
		}
		// length deviations matter too: empty and shorter strings
		o1 := o
		o1.Dev, o1.NoShape = 1, true
		dev, _ := enum.All(it.t, o1, 150)
		wires := make([][]byte, len(vals))
		for i, v := range vals {
			wires[i] = it.wire(v)
		}
		pair := func(old, new_ *ref.Val, ow, nw []byte) bool {
			caseNo++
			caseDesc = it.key()
			c.R.Evaluations += 2
			c.R.Traces++
			c.R.State([]byte(it.key()), ow, nw)
			x := it.mk()
			if old == nil {
				poison(reflect.ValueOf(x).Elem(), 0)
			} else if err, pan := decode(ow, x); err != nil || pan != "" {
				return true // P07's business
			}
			return c.into(it, x, old, new_, nw, "")
		}
		for j, nv := range vals {
			pair(nil, nv, []byte("poison"), wires[j])
			for i, ov := range vals {
				if !pair(ov, nv, wires[i], wires[j]) {
					break
				}
			}
			if c.R.Stop() || j&15 == 0 && c.R.Expired() {
				return
			}
		}
		for _, nv := range dev {
			nw := it.wire(nv)
			pair(nil, nv, []byte("poison"), nw)
			for k := 0; k < len(vals) && k < 12; k++ {
				pair(vals[k], nv, wires[k], nw)
				pair(nv, vals[k], nw, wires[k])
			}
			if c.R.Stop() {
				return
			}
		}
		// old values whose opaque fields share storage
		for i, ov := range vals {
			if i >= 24 {
				break
			}
			for j, nv := range vals {
				if j >= 24 {
					break
				}
				x := it.mk()
				if err, pan := decode(wires[i], x); err != nil || pan != "" {
					break
				}
				var fs []reflect.Value
				byteFields(it.t, reflect.ValueOf(x).Elem(), &fs)
				if len(fs) == 0 {
					break
				}
				arr := bytes.Repeat([]byte{0xd7}, 300)
				for k, f := range fs {
					f.SetBytes(arr[k%3 : k%3+f.Len()%200])
				}
				c.R.Evaluations += 2
				c.R.Traces++
				if !c.into(it, x, ov, nv, wires[j], "with opaque fields that share storage") {
					break
				}
			}
		}
		// an old value left behind by a decode that failed half way
		for k := 0; k < len(vals) && k < 12; k++ {
			for cut := 0; cut < len(wires[k]); cut += 4 {
				x := it.mk()
				poison(reflect.ValueOf(x).Elem(), 0)
				decode(wires[k][:cut], x)
				for j := 0; j < len(vals) && j < 12; j++ {
					c.R.Evaluations += 2
					c.R.Traces++
					if !c.into(it, x, vals[k], vals[j], wires[j], fmt.Sprintf("after a decode cut at %d", cut)) {
						break
					}
				}
			}
		}
	}
}

func (c *Ctx) into(it *item, x xdr.Xdrable, old, nv *ref.Val, nw []byte, note string) bool {
	err, pan := decode(nw, x)
	if pan != "" || err != nil {
		c.R.Violate(it.key()+":redecode", it.rp(nv, nw, "old value "+old.String()+" "+note), "%s: decoding %s over old value %s failed: %v %s %s", it.key(), nv, old, err, pan, note)
		return false
	}
	got := it.fromGo(x)
	if !ref.Equal(got, nv) {
		c.R.Violate(it.key()+":stale", it.rp(nv, nw, "old value "+old.String()+" "+note), "%s: decoding %s (wire %s) over old value %s %s gives %s", it.key(), nv, short(nw), old, note, got)
		return false
	}
	if c.R.Evaluations%50021 < 2 {
		c.R.Sample("%s: %s over %s", it.key(), nv, old)
	}
	return true
}

// byteFields collects addressable []byte values of the meaningful part of g.
func byteFields(t *ref.Type, g reflect.Value, out *[]reflect.Value) {
	switch t.Kind {
	case ref.KOpaqueVar:
		*out = append(*out, g)
	case ref.KArray, ref.KVarArray:
		for i := 0; i < g.Len(); i++ {
			byteFields(t.Elem, g.Index(i), out)
		}
	case ref.KOpt:
		if !g.IsNil() {
			byteFields(t.Elem, g.Elem(), out)
		}
	case ref.KStruct:
		for _, f := range t.Fields {
			if f.T.Kind != ref.KVoid {
				byteFields(f.T, g.FieldByName(ref.GoName(f.Name)), out)
			}
		}
	case ref.KUnion:
		u := ref.FromGo(t.Disc.T, g.FieldByName(ref.GoName(t.Disc.Name))).U
		if f, ok := t.ArmOf(uint32(u)); ok && f.T.Kind != ref.KVoid {
			byteFields(f.T, g.FieldByName(ref.GoName(f.Name)), out)
		}
	case ref.KRef:
		if t.Def.Kind == "typedef" && t.Def.T.Kind == ref.KOpt {
			g = g.FieldByName("P")
		}
		byteFields(t.Def.T, g, out)
	}
}

// P06: no interference between codec operations and surrounding data.
func P06(c *Ctx) {
	o := enum.Opts{Dev: 0, MaxRec: 1, ArrMax: 2}
	cap := 400
	if c.Thor {
		cap, o.ArrMax = 6000, 3
	}
	c.R.Bounds["values"] = fmt.Sprintf("all shapes of every type up to %d per type, and every one-leaf length deviation of the default shapes; every opaque field mutated and appended to; every ordered pair of successive decodes from one input among 8 shapes", cap)
	c.primitivesIsolated()
	for _, it := range c.items() {
		if c.R.Expired() || c.R.Stop() {
			return
		}
		vals, _ := enum.All(it.t, o, cap)
		o1 := o
		o1.Dev, o1.NoShape = 1, true
		dev, _ := enum.All(it.t, o1, 200)
		for i, v := range append(append([]*ref.Val{}, vals...), dev...) {
			c.isolated(it, v)
			if c.R.Stop() || i&63 == 0 && c.R.Expired() {
				return
			}
		}
		for i := 0; i < len(vals) && i < 8; i++ {
			for j := 0; j < len(vals) && j < 8; j++ {
				c.successive(it, vals[i], vals[j])
			}
		}
	}
}

func (c *Ctx) isolated(it *item, v *ref.Val) {
	caseNo++
	caseDesc = it.key()
	r := c.R
	w := it.wire(v)
	r.State([]byte(it.key()), w)
	fail := func(what, f string, a ...any) {
		r.Violate(it.key()+":"+what, it.rp(v, w, what), "%s: %s: value %s wire %s: %s", it.key(), what, v, short(w), fmt.Sprintf(f, a...))
	}
	r.Traces++
	// Encoding leaves the value alone, is repeatable, and keeps earlier output.
	x := it.toGo(v)
	b1, err, pan := encode(x)
	r.Evaluations++
	if err != nil || pan != "" {
		return // P07's business
	}
	if got := it.fromGo(x); !ref.Equal(got, v) {
		fail("encode modifies value", "now %s", got)
		return
	}
	keep := append([]byte{}, b1...)
	b2, _, _ := encode(x)
	r.Evaluations++
	if !bytes.Equal(b1, b2) || !bytes.Equal(b1, keep) {
		fail("encode not repeatable", "%s then %s", short(keep), short(b2))
		return
	}
	for i := range b2 {
		b2[i] = 0x99
	}
	if !bytes.Equal(b1, keep) {
		fail("encodings share storage", "second output overwrote the first")
		return
	}
	if got := it.fromGo(x); !ref.Equal(got, v) {
		fail("encoding shares storage with value", "now %s", got)
		return
	}
	// Opaque fields that are neighbours in memory, with room behind them.
	var bf []reflect.Value
	byteFields(it.t, reflect.ValueOf(x).Elem(), &bf)
	if len(bf) > 0 {
		for _, order := range []int{1, -1} {
			x := it.toGo(v)
			bf = nil
			byteFields(it.t, reflect.ValueOf(x).Elem(), &bf)
			var arr []byte
			for k := range bf {
				arr = append(arr, bf[(k*order+len(bf))%len(bf)].Bytes()...)
			}
			arr = append(arr, bytes.Repeat([]byte{0xd7}, 80)...)
			off := 0
			for k := range bf {
				f := bf[(k*order+len(bf))%len(bf)]
				n := f.Len()
				f.SetBytes(arr[off : off+n])
				off += n
			}
			was := append([]byte{}, arr...)
			r.Evaluations++
			b, err, pan := encode(x)
			if err != nil || pan != "" || !bytes.Equal(b, keep) {
				fail("encode neighbours", "opaque fields that are neighbours in memory: %v %s got %s want %s", err, pan, short(b), short(keep))
				return
			}
			if !bytes.Equal(arr, was) {
				fail("encode writes behind", "encoding changed memory next to an opaque field: %s -> %s", short(was), short(arr))
				return
			}
		}
	}
	for _, sp := range []int{0, 1, 4, 7} {
		for _, slack := range []int{0, 3, 4096} {
			pre := make([]byte, sp, sp+slack)
			copy(pre, "earlier")
			r.Evaluations++
			var out []byte
			p, _ := protect(func() {
				xs := xdr.MakeWriter(pre)
				x.Xdr(xs)
				out = xs.WriteBuf()
			})
			want := append(append([]byte{}, pre...), w...)
			copy(want, "earlier"[:sp])
			if p != nil || !bytes.Equal(out, want) || string(pre) != "earlier"[:sp] {
				fail("append to writer", "got %s want %s", short(out), short(want))
				return
			}
		}
	}
	// Decoding leaves the input alone.
	in := append(append(make([]byte, 0, len(w)+64), w...), trailer...)
	inCopy := append([]byte{}, in...)
	x = it.mk()
	r.Evaluations++
	if err, pan := decode(in, x); err != nil || pan != "" {
		return
	}
	if !bytes.Equal(in, inCopy) {
		fail("decode modifies input", "now %s", short(in))
		return
	}
	// Fields do not overlap and appending stays private.
	var fs []reflect.Value
	byteFields(it.t, reflect.ValueOf(x).Elem(), &fs)
	for i := range fs {
		for mode := 0; mode < 2; mode++ {
			y := it.mk()
			in2 := append(append(make([]byte, 0, len(w)+64), w...), trailer...)
			r.Evaluations++
			var xs *xdr.XdrState
			if p, _ := protect(func() { xs = xdr.MakeReader(in2); y.Xdr(xs) }); p != nil {
				return
			}
			var ys []reflect.Value
			byteFields(it.t, reflect.ValueOf(y).Elem(), &ys)
			before := make([][]byte, len(ys))
			for k := range ys {
				before[k] = append([]byte{}, ys[k].Bytes()...)
			}
			if mode == 0 {
				b := ys[i].Bytes()
				for k := range b {
					b[k] ^= 0xff
				}
			} else {
				_ = append(ys[i].Bytes(), bytes.Repeat([]byte{0x77}, 9)...)
			}
			for k := range ys {
				if k != i && !bytes.Equal(ys[k].Bytes(), before[k]) {
					fail("fields share storage", "changing opaque field %d (mode %d) changed field %d", i, mode, k)
					return
				}
			}
			var tail uint32
			xdr.XdrU32(xs, &tail)
			if xs.Error() != nil || tail != 0xdeadbeef {
				fail("field shares storage with unread input", "opaque field %d mode %d: next word %#x %v", i, mode, tail, xs.Error())
				return
			}
			_ = inCopy
		}
	}
	if r.Evaluations%20011 < 8 {
		r.Sample("%s %s: %d opaque fields isolated", it.key(), v, len(fs))
	}
}

// successive decodes two values from one input, changing the first result in
// every way before the second is read.
func (c *Ctx) successive(it *item, a, b *ref.Val) {
	in := append(it.wire(a), it.wire(b)...)
	c.R.State([]byte(it.key()), []byte("2"), in)
	c.R.Evaluations++
	c.R.Traces++
	x, y := it.mk(), it.mk()
	var e1, e2 error
	p, st := protect(func() {
		xs := xdr.MakeReader(in)
		x.Xdr(xs)
		e1 = xs.Error()
		var fs []reflect.Value
		byteFields(it.t, reflect.ValueOf(x).Elem(), &fs)
		for _, f := range fs {
			_ = append(f.Bytes(), bytes.Repeat([]byte{0x77}, 16)...)
			bb := f.Bytes()
			for k := range bb {
				bb[k] ^= 0x3c
			}
		}
		y.Xdr(xs)
		e2 = xs.Error()
	})
	if p != nil || e1 != nil || e2 != nil {
		c.R.Violate(it.key()+":successive", it.rp(a, in, "two values"), "%s: decoding %s then %s from one input: %v %v %v %s", it.key(), a, b, e1, e2, p, st)
		return
	}
	if got := it.fromGo(y); !ref.Equal(got, b) {
		c.R.Violate(it.key()+":successive", it.rp(a, in, "two values"), "%s: decoding %s, changing it, then decoding %s gives %s", it.key(), a, b, got)
	}
}

// primitivesIsolated checks the runtime primitives themselves.
func (c *Ctx) primitivesIsolated() {
	if c.Shard != 0 || c.Case != "" {
		return
	}
	for n := 0; n <= 40; n++ {
		for m := 0; m <= 12; m++ {
			c.R.Evaluations++
			c.R.Traces++
			xs := xdr.MakeWriter(nil)
			a, b := enum.Bytes(1, n), enum.Bytes(2, m)
			xdr.XdrVarArray(xs, -1, &a)
			xdr.XdrVarArray(xs, -1, &b)
			if !bytes.Equal(a, enum.Bytes(1, n)) || !bytes.Equal(b, enum.Bytes(2, m)) {
				c.R.Violate("prim:encode", [2]int{n, m}, "encoding var opaques of %d and %d bytes modified them", n, m)
			}
			w := xs.WriteBuf()
			in := append(make([]byte, 0, len(w)+32), w...)
			rd := xdr.MakeReader(in)
			var x, y []byte
			xdr.XdrVarArray(rd, -1, &x)
			x = append(x, bytes.Repeat([]byte{0x66}, 20)...)
			xdr.XdrVarArray(rd, -1, &y)
			if rd.Error() != nil || !bytes.Equal(y, enum.Bytes(2, m)) || !bytes.Equal(x[:n], enum.Bytes(1, n)) || !bytes.Equal(in, w) {
				c.R.Violate("prim:append", [2]int{n, m}, "var opaques of %d and %d bytes: appending to the first changed the second or the input (%x, %v)", n, m, y, rd.Error())
			}
			c.R.State([]byte("prim"), w)
		}
	}
}
