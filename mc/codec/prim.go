package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"verif/mc/enum"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// pop is one primitive operation. For a writer it carries the value to write;
// for a reader the value is what the destination holds beforehand.
type pop struct {
	kind string // bool s32 u32 s64 u64 arr var str void wb wu wi wU wI seterr setsize
	u    uint64
	b    []byte
	max  int
}

func (o pop) String() string {
	switch o.kind {
	case "arr":
		return fmt.Sprintf("arr[%d]", len(o.b))
	case "var", "str":
		return fmt.Sprintf("%s<%d>len%d", o.kind, o.max, len(o.b))
	}
	return fmt.Sprintf("%s(%#x)", o.kind, o.u)
}

// dest is a destination of any primitive.
type dest struct {
	o   pop
	bl  bool
	s32 int32
	u32 uint32
	s64 int64
	u64 uint64
	b   []byte
	s   string
	xb  xdr.Bool
	xU  xdr.Uint32
	xI  xdr.Int32
	xUU xdr.Uint64
	xII xdr.Int64
	v   xdr.Void
}

func mkDest(o pop) *dest {
	d := &dest{o: o}
	d.bl = o.u != 0
	d.s32, d.u32, d.s64, d.u64 = int32(o.u), uint32(o.u), int64(o.u), o.u
	d.xb, d.xU, d.xI, d.xUU, d.xII = xdr.Bool(d.bl), xdr.Uint32(d.u32), xdr.Int32(d.s32), xdr.Uint64(d.u64), xdr.Int64(d.s64)
	d.b = append([]byte{}, o.b...)
	d.s = string(o.b)
	return d
}

func (d *dest) apply(xs *xdr.XdrState) {
	switch d.o.kind {
	case "bool":
		xdr.XdrBool(xs, &d.bl)
	case "s32":
		xdr.XdrS32(xs, &d.s32)
	case "u32":
		xdr.XdrU32(xs, &d.u32)
	case "s64":
		xdr.XdrS64(xs, &d.s64)
	case "u64":
		xdr.XdrU64(xs, &d.u64)
	case "arr":
		xdr.XdrArray(xs, d.b)
	case "var":
		xdr.XdrVarArray(xs, d.o.max, &d.b)
	case "str":
		xdr.XdrString(xs, d.o.max, &d.s)
	case "void":
		d.v.Xdr(xs)
	case "wb":
		d.xb.Xdr(xs)
	case "wu":
		d.xU.Xdr(xs)
	case "wi":
		d.xI.Xdr(xs)
	case "wU":
		d.xUU.Xdr(xs)
	case "wI":
		d.xII.Xdr(xs)
	case "seterr":
		xs.SetError("injected")
	case "setsize":
		xs.EncodingSetSize(&d.u32, int(d.o.u))
	}
}

// val is the destination's content in model form.
func (d *dest) val() (uint64, string) {
	switch d.o.kind {
	case "bool":
		return b2u(d.bl), ""
	case "s32":
		return uint64(uint32(d.s32)), ""
	case "u32", "setsize":
		return uint64(d.u32), ""
	case "s64":
		return uint64(d.s64), ""
	case "u64":
		return d.u64, ""
	case "arr", "var":
		return 0, string(d.b)
	case "str":
		return 0, d.s
	case "wb":
		return b2u(bool(d.xb)), ""
	case "wu":
		return uint64(d.xU), ""
	case "wi":
		return uint64(uint32(d.xI)), ""
	case "wU":
		return uint64(d.xUU), ""
	case "wI":
		return uint64(d.xII), ""
	}
	return 0, ""
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// model of the writer
func (o pop) encode(out []byte) (res []byte, isErr bool) {
	switch o.kind {
	case "bool", "wb":
		return binary.BigEndian.AppendUint32(out, uint32(b2u(o.u != 0))), false
	case "s32", "u32", "wu", "wi":
		return binary.BigEndian.AppendUint32(out, uint32(o.u)), false
	case "s64", "u64", "wU", "wI":
		return binary.BigEndian.AppendUint64(out, o.u), false
	case "arr":
		out = append(out, o.b...)
		return append(out, make([]byte, (4-len(o.b)%4)%4)...), false
	case "var", "str":
		if o.max >= 0 && len(o.b) > o.max {
			return out, true
		}
		out = binary.BigEndian.AppendUint32(out, uint32(len(o.b)))
		out = append(out, o.b...)
		return append(out, make([]byte, (4-len(o.b)%4)%4)...), false
	case "seterr":
		return out, true
	}
	return out, false
}

// model of the reader: outcome for the input at pos.
// must: an error is required; may: an error is allowed (non-canonical input).
func (o pop) decode(in []byte, pos int) (u uint64, s string, npos int, must, may bool) {
	need := func(n int) bool { return len(in)-pos >= n }
	switch o.kind {
	case "bool", "wb", "s32", "u32", "wu", "wi":
		if !need(4) {
			return 0, "", pos, true, true
		}
		u = uint64(binary.BigEndian.Uint32(in[pos:]))
		if o.kind == "bool" || o.kind == "wb" {
			may = u > 1
			u = b2u(u != 0)
		}
		return u, "", pos + 4, false, may
	case "s64", "u64", "wU", "wI":
		if !need(8) {
			return 0, "", pos, true, true
		}
		return binary.BigEndian.Uint64(in[pos:]), "", pos + 8, false, false
	case "arr":
		return fixed(in, pos, len(o.b))
	case "var", "str":
		if !need(4) {
			return 0, "", pos, true, true
		}
		n := int(binary.BigEndian.Uint32(in[pos:]))
		if o.max >= 0 && n > o.max {
			return 0, "", pos, true, true
		}
		pos += 4
		return fixed(in, pos, n)
	case "seterr":
		return 0, "", pos, true, true
	case "setsize":
		return uint64(uint32(o.u)), "", pos, false, false
	}
	return 0, "", pos, false, false
}

func fixed(in []byte, pos, n int) (uint64, string, int, bool, bool) {
	p := (4 - n%4) % 4
	if len(in)-pos < n+p {
		return 0, "", pos, true, true
	}
	may := false
	for _, c := range in[pos+n : pos+n+p] {
		may = may || c != 0
	}
	return 0, string(in[pos : pos+n]), pos + n + p, false, may
}

func opsString(ops []pop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

// writerSeq runs ops on a writer and compares every step with the model.
func (c *Ctx) writerSeq(pre []byte, ops []pop) (w []byte, failed bool) {
	caseNo++
	r := c.R
	r.Evaluations++
	r.Traces++
	model := append([]byte{}, pre...)
	isErr := false
	var bad string
	p, st := protect(func() {
		xs := xdr.MakeWriter(append(make([]byte, 0, len(pre)+c.slack()), pre...))
		var frozen []byte
		for i, o := range ops {
			d := mkDest(o)
			if o.kind == "setsize" {
				d.u32 = 0x5ead
			}
			d.apply(xs)
			r.Transitions++
			wasErr := isErr
			if !isErr {
				model, isErr = o.encode(model)
			}
			got := xs.WriteBuf()
			if (xs.Error() != nil) != isErr {
				bad = fmt.Sprintf("step %d %s: error %v, model error %v", i, o, xs.Error(), isErr)
				return
			}
			if xs.Encoding() != !isErr || xs.Decoding() {
				bad = fmt.Sprintf("step %d %s: Encoding()=%v Decoding()=%v in error state %v", i, o, xs.Encoding(), xs.Decoding(), isErr)
				return
			}
			if wasErr {
				if !bytes.Equal(got, frozen) {
					bad = fmt.Sprintf("step %d %s: output changed after an error: %x -> %x", i, o, frozen, got)
					return
				}
			} else if !isErr && !bytes.Equal(got, model) {
				bad = fmt.Sprintf("step %d %s: output %s, expected %s", i, o, short(got), short(model))
				return
			}
			if isErr && !bytes.HasPrefix(got, pre) {
				bad = fmt.Sprintf("step %d %s: earlier output lost: %x", i, o, got)
				return
			}
			frozen = append(frozen[:0], got...)
			u, s := d.val()
			want := mkDest(o)
			wu, ws := want.val()
			if o.kind == "setsize" {
				wu = uint64(uint32(o.u))
				if wasErr {
					wu = 0x5ead
				}
			}
			if u != wu || s != ws {
				bad = fmt.Sprintf("step %d %s: value modified by encoding", i, o)
				return
			}
			e := byte(0)
			if isErr {
				e = 1
			}
			if i < 4 {
				r.State([]byte{'w', e}, got)
			}
		}
	})
	if p != nil {
		bad = fmt.Sprintf("panic: %v\n%s", p, st)
	}
	if bad != "" {
		r.Violate("writer:"+ops[len(ops)-1].kind, opsString(ops), "writer over %x: %s: %s", pre, opsString(ops), bad)
		return nil, true
	}
	return model, isErr
}

var slackN int

func (c *Ctx) slack() int { slackN++; return []int{0, 1, 64}[slackN%3] }

// readerSeq runs ops on a reader over in and compares with the model.
func (c *Ctx) readerSeq(in []byte, ops []pop) {
	caseNo++
	r := c.R
	r.Evaluations++
	r.Traces++
	pos := 0
	isErr := false
	var bad string
	p, st := protect(func() {
		buf := append([]byte{}, in...)
		xs := xdr.MakeReader(buf)
		for i, o := range ops {
			d := mkDest(o)
			if o.kind == "setsize" {
				d.u32 = 0x5ead
			}
			bu, bs := d.val()
			d.apply(xs)
			r.Transitions++
			u, s := d.val()
			if isErr {
				if xs.Error() == nil {
					bad = fmt.Sprintf("step %d %s: error cleared", i, o)
					return
				}
				if u != bu || s != bs {
					bad = fmt.Sprintf("step %d %s: stored into its destination after an error", i, o)
					return
				}
			} else if o.kind == "setsize" {
				// only meaningful while encoding
				if u != bu || xs.Error() != nil {
					bad = fmt.Sprintf("step %d %s: had an effect while decoding", i, o)
					return
				}
			} else {
				wu, ws, np, must, may := o.decode(in, pos)
				got := xs.Error() != nil
				switch {
				case must && !got:
					bad = fmt.Sprintf("step %d %s at %d: accepted", i, o, pos)
					return
				case got && !may:
					bad = fmt.Sprintf("step %d %s at %d: error %v", i, o, pos, xs.Error())
					return
				case !got && (u != wu || s != ws):
					bad = fmt.Sprintf("step %d %s at %d: got %#x %q want %#x %q", i, o, pos, u, s, wu, ws)
					return
				}
				isErr = got
				pos = np
			}
			if xs.Decoding() != !isErr || xs.Encoding() {
				bad = fmt.Sprintf("step %d %s: Decoding()=%v Encoding()=%v in error state %v", i, o, xs.Decoding(), xs.Encoding(), isErr)
				return
			}
			if i < 3 {
				r.State([]byte{'r', byte(b2u(isErr)), byte(pos)}, in)
			}
		}
		if !bytes.Equal(buf, in) {
			bad = "input modified"
		}
	})
	if p != nil {
		bad = fmt.Sprintf("panic: %v\n%s", p, st)
	}
	if bad != "" {
		r.Violate("reader:"+ops[len(ops)-1].kind, map[string]string{"in": fmt.Sprintf("%x", in), "ops": opsString(ops)}, "reader over %s: %s: %s", short(in), opsString(ops), bad)
	}
}

func writerAlphabet(withErr bool) []pop {
	a := []pop{
		{kind: "bool", u: 1}, {kind: "bool"}, {kind: "s32", u: 0xfffffffe}, {kind: "u32", u: 0x01020304},
		{kind: "s64", u: 0xfedcba9876543210}, {kind: "u64", u: 0x0102030405060708}, {kind: "void"},
		{kind: "wb", u: 1}, {kind: "wu", u: 0xa1b2c3d4}, {kind: "wi", u: 0x80000001}, {kind: "wU", u: 0xa1b2c3d4e5f60718}, {kind: "wI", u: 0x8000000000000001},
	}
	for n := 0; n <= 5; n++ {
		a = append(a, pop{kind: "arr", b: enum.Bytes(n, n)})
		a = append(a, pop{kind: "var", b: enum.Bytes(n+7, n), max: -1})
		a = append(a, pop{kind: "str", b: enum.Bytes(n+13, n), max: 5})
	}
	if withErr {
		a = append(a, pop{kind: "seterr"}, pop{kind: "var", b: enum.Bytes(1, 3), max: 2}, pop{kind: "str", b: enum.Bytes(1, 3), max: 2},
			pop{kind: "setsize", u: 7})
	}
	return a
}

func readerAlphabet(withErr bool) []pop {
	a := []pop{
		{kind: "bool"}, {kind: "bool", u: 1}, {kind: "s32", u: 0x55}, {kind: "u32", u: 0x66}, {kind: "s64", u: 0x77}, {kind: "u64", u: 0x88},
		{kind: "arr", b: []byte("q")}, {kind: "arr", b: []byte("abcd")}, {kind: "arr", b: []byte("abcdef")},
		{kind: "var", b: []byte("old"), max: -1}, {kind: "var", b: []byte("old!"), max: 2}, {kind: "str", b: []byte("old"), max: -1}, {kind: "str", b: []byte("old"), max: 3},
		{kind: "wb"}, {kind: "wu", u: 3}, {kind: "wi", u: 4}, {kind: "wU", u: 5}, {kind: "wI", u: 6}, {kind: "void"},
	}
	if withErr {
		a = append(a, pop{kind: "seterr"}, pop{kind: "setsize", u: 9})
	}
	return a
}

// seqs calls f for every sequence of 1..depth operations of this shard.
func (c *Ctx) seqs(alpha []pop, depth int, f func([]pop)) {
	ops := make([]pop, 0, depth)
	var rec func(k int)
	rec = func(k int) {
		for i, o := range alpha {
			if k == 0 && i%c.N != c.Shard {
				continue
			}
			ops = append(ops[:k], o)
			f(ops)
			if k+1 < depth && !c.R.Stop() {
				rec(k + 1)
			}
			if k < 2 && c.R.Expired() {
				return
			}
		}
	}
	rec(0)
}

// lengths around every power of two, and everything small
func lengths(dense, maxPow int) []int {
	var out []int
	for n := 0; n <= dense; n++ {
		out = append(out, n)
	}
	for p := 1; p <= maxPow; p++ {
		for d := -4; d <= 4; d++ {
			if p > 20 && d*d != 4 && d*d != 1 && d != 0 {
				continue
			}
			if n := 1<<p + d; n > dense {
				out = append(out, n)
			}
		}
	}
	return out
}

// P01: wire format of the primitives.
func P01(c *Ctx) {
	depth, dense, maxPow := 3, 3000, 25
	if c.Thor {
		depth, dense, maxPow = 4, 6000, 27
	}
	c.R.Bounds["writer sequences"] = fmt.Sprintf("all sequences of up to %d operations over %d operations, each re-read by the same sequence", depth, len(writerAlphabet(false)))
	c.R.Bounds["single values"] = fmt.Sprintf("all 2^k, 2^k+-1 and complements; opaque and string lengths 0..%d and 2^k-4..2^k+4 up to 2^%d", dense, maxPow)
	roundTrip := func(pre []byte, ops []pop) {
		w, failed := c.writerSeq(pre, ops)
		if failed || w == nil && len(ops) > 0 && len(pre) == 0 && false {
			return
		}
		// read back over destinations holding something else
		rd := make([]pop, len(ops))
		in := w[len(pre):]
		for i, o := range ops {
			rd[i] = o
			rd[i].u = ^o.u
			if o.kind == "arr" {
				rd[i].b = bytes.Repeat([]byte{0x3f}, len(o.b))
			} else if o.b != nil {
				rd[i].b = []byte("previous")
			}
		}
		// followed by a word that must be next
		rd = append(rd, pop{kind: "u32"})
		c.readerSeq(append(append([]byte{}, in...), trailer...), rd)
		if c.R.Evaluations%10007 < 2 {
			c.R.Sample("%s -> %s", opsString(ops), short(in))
		}
	}
	// single operations, wide alphabets
	if c.Shard == 0 {
		for _, pre := range [][]byte{nil, []byte("x"), []byte("1234"), []byte("abcdefg")} {
			for _, k := range []string{"bool", "s32", "u32", "wb", "wu", "wi"} {
				for _, v := range enum.Wide32 {
					if (k == "bool" || k == "wb") && v > 1 {
						continue
					}
					roundTrip(pre, []pop{{kind: k, u: v}})
				}
			}
			for _, k := range []string{"s64", "u64", "wU", "wI"} {
				for _, v := range enum.Wide64 {
					roundTrip(pre, []pop{{kind: k, u: v}})
				}
			}
			roundTrip(pre, []pop{{kind: "void"}})
		}
		// every byte value in every position of a word and of an opaque
		for b := 0; b < 256; b++ {
			for sh := 0; sh < 8; sh++ {
				roundTrip(nil, []pop{{kind: "u64", u: uint64(b) << (8 * sh)}, {kind: "u32", u: uint64(b) << (8 * (sh % 4))}})
				o := enum.Bytes(3, 9)
				o[sh] = byte(b)
				roundTrip(nil, []pop{{kind: "var", b: o, max: -1}, {kind: "str", b: o, max: 9}, {kind: "arr", b: o}})
			}
		}
	}
	for i, n := range lengths(dense, maxPow) {
		if i%c.N != c.Shard || c.R.Stop() {
			continue
		}
		for _, k := range []string{"arr", "var", "str"} {
			for _, m := range []int{-1, n} {
				if k == "arr" && m != -1 {
					continue
				}
				roundTrip(nil, []pop{{kind: k, b: enum.Bytes(n, n), max: m}})
				roundTrip([]byte("pq"), []pop{{kind: k, b: enum.Bytes(n, n), max: m}, {kind: "u32", u: 0x11223344}})
			}
		}
		if c.R.Expired() {
			return
		}
	}
	c.seqs(writerAlphabet(false), depth, func(ops []pop) {
		if !c.R.Stop() {
			roundTrip(nil, ops)
		}
	})
	if c.Shard == 0 {
		c.helpers()
	}
	c.all32()
}

// helpers checks EncodeBuf and DecodeBuf over the exported wrapper types.
func (c *Ctx) helpers() {
	type w struct {
		v    xdr.Xdrable
		mk   func() xdr.Xdrable
		wire []byte
		same func(x xdr.Xdrable) bool
	}
	tr, fa := xdr.Bool(true), xdr.Bool(false)
	u, i, U, I := xdr.Uint32(0x80000001), xdr.Int32(-2), xdr.Uint64(0x8000000000000001), xdr.Int64(-2)
	vo := xdr.Void{}
	for k, e := range []w{
		{&tr, func() xdr.Xdrable { return new(xdr.Bool) }, []byte{0, 0, 0, 1}, func(x xdr.Xdrable) bool { return bool(*x.(*xdr.Bool)) }},
		{&fa, func() xdr.Xdrable { t := xdr.TRUE; return &t }, []byte{0, 0, 0, 0}, func(x xdr.Xdrable) bool { return !bool(*x.(*xdr.Bool)) }},
		{&u, func() xdr.Xdrable { return new(xdr.Uint32) }, []byte{0x80, 0, 0, 1}, func(x xdr.Xdrable) bool { return *x.(*xdr.Uint32) == u }},
		{&i, func() xdr.Xdrable { return new(xdr.Int32) }, []byte{0xff, 0xff, 0xff, 0xfe}, func(x xdr.Xdrable) bool { return *x.(*xdr.Int32) == i }},
		{&U, func() xdr.Xdrable { return new(xdr.Uint64) }, []byte{0x80, 0, 0, 0, 0, 0, 0, 1}, func(x xdr.Xdrable) bool { return *x.(*xdr.Uint64) == U }},
		{&I, func() xdr.Xdrable { return new(xdr.Int64) }, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe}, func(x xdr.Xdrable) bool { return *x.(*xdr.Int64) == I }},
		{&vo, func() xdr.Xdrable { return new(xdr.Void) }, nil, func(x xdr.Xdrable) bool { return true }},
	} {
		c.R.Evaluations += 2
		b, err, pan := encode(e.v)
		if err != nil || pan != "" || !bytes.Equal(b, e.wire) {
			c.R.Violate(fmt.Sprintf("helper:%d", k), k, "EncodeBuf(%T) = %x, %v %s; want %x", e.v, b, err, pan, e.wire)
			continue
		}
		x := e.mk()
		if err, pan := decode(e.wire, x); err != nil || pan != "" || !e.same(x) {
			c.R.Violate(fmt.Sprintf("helperdec:%d", k), k, "DecodeBuf(%x, %T) = %v, %v %s", e.wire, x, x, err, pan)
		}
		for cut := 0; cut < len(e.wire); cut++ {
			c.R.Evaluations++
			if err, pan := decode(e.wire[:cut], e.mk()); err == nil || pan != "" {
				c.R.Violate(fmt.Sprintf("helpercut:%d", k), k, "DecodeBuf(%x, %T) accepted a truncated input %s", e.wire[:cut], e.v, pan)
			}
		}
	}
	if xdr.TRUE != true || xdr.FALSE != false {
		c.R.Violate("consts", 0, "TRUE/FALSE constants wrong")
	}
}

// all32 runs the 32-bit codecs over every 32-bit value.
func (c *Ctx) all32() {
	lo := uint64(c.Shard) << 32 / uint64(c.N)
	hi := uint64(c.Shard+1) << 32 / uint64(c.N)
	for v := lo; v < hi; v++ {
		if v&0xffffff == 0 {
			caseNo++
			if c.R.Expired() || c.R.Stop() {
				return
			}
		}
		x := uint32(v)
		s := int32(x)
		var buf [8]byte
		xs := xdr.MakeWriter(buf[:0])
		xdr.XdrU32(xs, &x)
		xdr.XdrS32(xs, &s)
		b := xs.WriteBuf()
		if len(b) != 8 || binary.BigEndian.Uint32(b) != uint32(v) || binary.BigEndian.Uint32(b[4:]) != uint32(v) {
			c.R.Violate("all32", v, "encoding %#x gives %x", v, b)
			return
		}
		rd := xdr.MakeReader(b)
		var y uint32
		var z int32
		xdr.XdrU32(rd, &y)
		xdr.XdrS32(rd, &z)
		if rd.Error() != nil || y != uint32(v) || z != int32(uint32(v)) {
			c.R.Violate("all32", v, "decoding %x gives %#x %#x %v", b, y, z, rd.Error())
			return
		}
		c.R.Evaluations += 2
	}
	c.R.Bounds["32-bit"] = "all 2^32 values through XdrU32 and XdrS32"
}

var words = [][]byte{{0, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 0, 2}, {0, 0, 0, 3}, {0, 0, 0, 5}, {'a', 'b', 'c', 'd'}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 4}, {0, 0, 0, 8}, {'x', 0, 0, 0}}

// P04: stickiness of errors.
func P04(c *Ctx) {
	wd, rdD, nw := 3, 3, 3
	if c.Thor {
		wd, nw = 4, 4
	}
	c.R.Bounds["sequences"] = fmt.Sprintf("writer: all sequences of up to %d of %d operations; reader: all of up to %d of %d operations over all inputs of up to %d words of %d word values plus 0..3 stray bytes", wd, len(writerAlphabet(true)), rdD, len(readerAlphabet(true)), nw, len(words))
	c.seqs(writerAlphabet(true), wd, func(ops []pop) {
		if !c.R.Stop() {
			c.writerSeq([]byte("ab"), ops)
		}
	})
	if c.R.Stop() {
		return
	}
	// inputs
	var ins [][]byte
	var rec func(cur []byte, k int)
	rec = func(cur []byte, k int) {
		for _, stray := range [][]byte{nil, {0}, {0, 0}, {0, 0, 1}} {
			ins = append(ins, append(append([]byte{}, cur...), stray...))
		}
		if k == 0 {
			return
		}
		for i, w := range words {
			if !c.Thor && i >= 8 && k < nw {
				continue
			}
			rec(append(append([]byte{}, cur...), w...), k-1)
		}
	}
	rec(nil, nw-1)
	c.R.Bounds["reader inputs"] = fmt.Sprint(len(ins))
	// sequences that have failed already stay failed whatever the input: explored too
	c.seqs(readerAlphabet(true), rdD, func(ops []pop) {
		if len(ops) < rdD && !(len(ops) == 1) {
			// shorter sequences are prefixes of longer ones, whose every step is checked
			return
		}
		for _, in := range ins {
			if c.R.Stop() {
				return
			}
			c.readerSeq(in, ops)
		}
	})
	if !c.R.Stop() {
		c.stickyTypes()
	}
}
