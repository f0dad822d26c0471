package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime/debug"
	"strconv"
	"unsafe"

	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// walk visits every node of a value tree with its type.
func walk(t *ref.Type, v *ref.Val, f func(t *ref.Type, v *ref.Val)) {
	f(t, v)
	switch t.Kind {
	case ref.KArray, ref.KVarArray, ref.KOpt:
		for _, e := range v.L {
			walk(t.Elem, e, f)
		}
	case ref.KStruct:
		k := 0
		for _, fl := range t.Fields {
			if fl.T.Kind != ref.KVoid {
				walk(fl.T, v.L[k], f)
				k++
			}
		}
	case ref.KUnion:
		if fl, ok := t.ArmOf(uint32(v.U)); ok && fl.T.Kind != ref.KVoid {
			walk(fl.T, v.L[0], f)
		}
	case ref.KRef:
		walk(t.Def.T, v, f)
	}
}

type node struct {
	t *ref.Type
	v *ref.Val
}

func sized(it *item, v *ref.Val) []node {
	var ns []node
	walk(it.t, v, func(t *ref.Type, v *ref.Val) {
		if t.Kind == ref.KOpaqueVar || t.Kind == ref.KString || t.Kind == ref.KVarArray {
			ns = append(ns, node{t, v})
		}
	})
	return ns
}

// setLen changes the length of a variable-length node.
func setLen(n node, l int, dflt *ref.Val) {
	if n.t.Kind == ref.KVarArray {
		out := make([]*ref.Val, l)
		for i := range out {
			out[i] = dflt
		}
		n.v.L = out
	} else {
		n.v.B = enum.Bytes(l, l)
	}
}

// P02: length limits.
func P02(c *Ctx) {
	c.R.Bounds["primitives"] = "limits 0..40 and -1 with lengths 0..48; limits 2^k+-1 up to 2^16 with lengths limit-2..limit+6, up to 2^24 with the limit and one more; encode and decode"
	if c.Shard == 0 && c.Case == "" {
		c.limitsPrim()
		c.beyond()
	}
	o := enum.Opts{Dev: 0, MaxRec: 1, ArrMax: 1}
	cap := 300
	if c.Thor {
		cap, o.ArrMax = 3000, 2
	}
	c.R.Bounds["types"] = fmt.Sprintf("every bounded node of every shape (up to %d per type) with lengths max-1, max, max+1..max+5, 2max+1, max+256, and length words up to 2^32-1; unbounded nodes up to 70000", cap)
	for _, it := range c.items() {
		if c.R.Expired() || c.R.Stop() {
			return
		}
		vals, _ := enum.All(it.t, o, cap)
		seen := map[*ref.Type]int{}
		for _, v := range vals {
			for _, n := range sized(it, v) {
				// every occurrence type is tried in every shape, large ones in a few
				seen[n.t]++
				c.limitNode(it, v, n, seen[n.t])
				if c.R.Stop() {
					return
				}
			}
		}
	}
}

func (c *Ctx) limitNode(it *item, v *ref.Val, n node, occ int) {
	caseNo++
	caseDesc = it.key()
	saveB, saveL := n.v.B, n.v.L
	defer func() { n.v.B, n.v.L = saveB, saveL }()
	var dflt *ref.Val
	if n.t.Kind == ref.KVarArray {
		if len(saveL) > 0 {
			dflt = saveL[0]
		} else {
			dflt = enum.Value(n.t.Elem, enum.New(0), enum.Opts{MaxRec: 0})
		}
	}
	max := n.t.Size
	var ls []int
	if max >= 0 {
		for _, l := range []int64{0, 1, max - 1, max, max + 1, max + 2, max + 3, max + 4, max + 5, 2*max + 1, max + 256} {
			if l >= 0 && l < 20000 {
				ls = append(ls, int(l))
			}
		}
	} else {
		ls = []int{0, 1, 5, 300, 1025}
		if occ <= 1 {
			ls = append(ls, 65535, 65536, 65537, 70000)
		}
	}
	for _, l := range ls {
		over := max >= 0 && int64(l) > max
		setLen(n, l, dflt)
		w := it.wire(v)
		c.R.State([]byte(it.key()), w)
		c.R.Traces++
		c.R.Evaluations += 2
		fail := func(what, f string, a ...any) {
			c.R.Violate(it.key()+":"+what, it.rp(nil, w, fmt.Sprintf("%s length %d max %d", what, l, max)), "%s: %s: a node with maximum %d given length %d: %s", it.key(), what, max, l, fmt.Sprintf(f, a...))
		}
		b, err, pan := encode(it.toGo(v))
		switch {
		case pan != "":
			fail("encode", "%s", pan)
			return
		case over && err == nil:
			fail("encode", "accepted")
			return
		case !over && err != nil:
			fail("encode", "refused: %v", err)
			return
		case !over && !bytes.Equal(b, w):
			fail("encode", "wrong bytes")
			return
		}
		x := it.mk()
		err, pan = decode(w, x)
		switch {
		case pan != "":
			fail("decode", "%s", pan)
			return
		case over && err == nil:
			fail("decode", "accepted with all bytes present")
			return
		case !over && err != nil:
			fail("decode", "refused: %v", err)
			return
		case !over && !ref.Equal(it.fromGo(x), v):
			fail("decode", "wrong value")
			return
		}
		if over {
			c.R.Outcome("refused")
		} else {
			c.R.Outcome("accepted")
		}
		if c.R.Evaluations%4999 < 2 {
			c.R.Sample("%s: node max %d length %d over=%v", it.key(), max, l, over)
		}
	}
	// huge length words
	if max < 0 {
		return
	}
	setLen(n, 0, dflt)
	// find the word by encoding with two different lengths
	a := it.wire(v)
	setLen(n, 1, dflt)
	b := it.wire(v)
	k := 0
	for k < len(a) && a[k] == b[k] {
		k++
	}
	off := k &^ 3
	for _, h := range []uint32{uint32(max) + 1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000000 + uint32(max), 0xffffffff} {
		if int64(h) <= max {
			continue
		}
		w := append([]byte{}, a...)
		w[off], w[off+1], w[off+2], w[off+3] = byte(h>>24), byte(h>>16), byte(h>>8), byte(h)
		w = append(w, bytes.Repeat([]byte{0, 0, 0, 0}, 80)...)
		c.R.Evaluations++
		x := it.mk()
		if err, pan := decode(w, x); err == nil || pan != "" {
			c.R.Violate(it.key()+":hugeword", it.rp(nil, w, fmt.Sprintf("length word %#x max %d at %d", h, max, off)), "%s: length word %#x (maximum %d) accepted %s", it.key(), h, max, pan)
			return
		}
	}
}

func (c *Ctx) limitsPrim() {
	try := func(max, n int) {
		caseNo++
		over := max >= 0 && n > max
		for _, kind := range []string{"var", "str"} {
			c.R.Evaluations += 2
			c.R.Traces++
			o := pop{kind: kind, b: enum.Bytes(n, n), max: max}
			c.writerSeq(nil, []pop{o, {kind: "u32", u: 5}})
			un := o
			un.max = -1
			w, _ := un.encode(nil)
			c.readerSeq(append(append([]byte{}, w...), 0, 0, 0, 9), []pop{{kind: kind, max: max, b: []byte("zz")}, {kind: "u32"}})
			if over {
				// refused on the length word alone
				c.readerSeq(w[:4], []pop{{kind: kind, max: max}})
				c.R.Outcome("refused")
			} else {
				c.R.Outcome("accepted")
			}
		}
	}
	for max := -1; max <= 40; max++ {
		for n := 0; n <= 48; n++ {
			try(max, n)
		}
	}
	for k := 5; k <= 16; k++ {
		for d := -1; d <= 1; d++ {
			max := 1<<k + d
			for n := max - 2; n <= max+6; n++ {
				try(max, n)
			}
			try(max, 2*max+1)
		}
	}
	for k := 17; k <= 24; k++ {
		for d := -1; d <= 1; d++ {
			for n := 1<<k + d; n <= 1<<k+d+1; n++ {
				try(1<<k+d, n)
			}
		}
	}
	for _, max := range []int{0, 1, 4, 5, 1 << 20, 1<<31 - 1} {
		for _, h := range []uint32{0x7fffffff, 0x80000000, 0x80000001, 0xfffffffc, 0xfffffffd, 0xffffffff} {
			w := []byte{byte(h >> 24), byte(h >> 16), byte(h >> 8), byte(h), 'a', 'b', 'c', 'd', 1, 2, 3, 4}
			for _, kind := range []string{"var", "str"} {
				c.readerSeq(w, []pop{{kind: kind, max: max}, {kind: "u32"}})
				c.readerSeq(w, []pop{{kind: kind, max: -1}, {kind: "u32"}})
			}
		}
	}
}

// stickyTypes: every type with a failure at every byte of decoding and at
// every bounded node of encoding, followed by every kind of operation.
func (c *Ctx) stickyTypes() {
	o := enum.Opts{Dev: 0, MaxRec: 1, ArrMax: 1}
	cap := 24
	if c.Thor {
		cap, o.ArrMax = 200, 2
	}
	c.R.Bounds["types"] = fmt.Sprintf("first %d shapes of every type: decoding cut at every byte, encoding failed before and inside at every bounded node; each followed by every primitive and a second value", cap)
	follow := append(readerAlphabet(true), writerAlphabet(true)...)
	for _, it := range c.items() {
		if c.R.Expired() || c.R.Stop() {
			return
		}
		vals, _ := enum.All(it.t, o, cap)
		for vi, v := range vals {
			w := it.wire(v)
			for cut := 0; cut < len(w); cut++ {
				caseNo++
				caseDesc = it.key()
				c.R.Evaluations++
				c.R.Traces++
				c.R.State([]byte(it.key()), w[:cut])
				var bad string
				p, st := protect(func() {
					xs := xdr.MakeReader(append([]byte{}, w[:cut]...))
					x := it.mk()
					x.Xdr(xs)
					if xs.Error() == nil {
						bad = "no error"
						return
					}
					bad = c.afterError(it, xs, v, follow, nil, vi == 0)
				})
				if p != nil {
					bad = fmt.Sprintf("panic %v\n%s", p, st)
				}
				if bad != "" {
					c.R.Violate(it.key()+":sticky decode", it.rp(v, w[:cut], "cut"), "%s: decoding %s cut at byte %d: %s", it.key(), short(w), cut, bad)
					break
				}
				c.R.Evaluations++
				if err, pan := decode(w[:cut], it.mk()); err == nil || pan != "" {
					c.R.Violate(it.key()+":DecodeBuf", it.rp(v, w[:cut], "cut"), "%s: DecodeBuf of %s cut at %d: err=%v %s", it.key(), short(w), cut, err, pan)
					break
				}
			}
			for _, n := range sized(it, v) {
				if n.t.Size < 0 || n.t.Size > 5000 {
					continue
				}
				sb, sl := n.v.B, n.v.L
				var dflt *ref.Val
				if n.t.Kind == ref.KVarArray {
					dflt = enum.Value(n.t.Elem, enum.New(0), enum.Opts{MaxRec: 0})
				}
				setLen(n, int(n.t.Size)+1, dflt)
				x := it.toGo(v)
				n.v.B, n.v.L = sb, sl
				c.R.Evaluations++
				c.R.Traces++
				var bad string
				p, st := protect(func() {
					xs := xdr.MakeWriter([]byte("keep"))
					x.Xdr(xs)
					if xs.Error() == nil {
						bad = "no error"
						return
					}
					out := append([]byte{}, xs.WriteBuf()...)
					if !bytes.HasPrefix(out, []byte("keep")) {
						bad = "earlier output lost"
						return
					}
					bad = c.afterError(it, xs, v, follow, out, vi == 0)
					if bad == "" {
						if _, err := xdr.EncodeBuf(x); err == nil {
							bad = "EncodeBuf reports success"
						}
					}
				})
				if p != nil {
					bad = fmt.Sprintf("panic %v\n%s", p, st)
				}
				if bad != "" {
					c.R.Violate(it.key()+":sticky encode", it.rp(v, nil, "over limit"), "%s: encoding %s with one node over its limit %d: %s", it.key(), v, n.t.Size, bad)
					break
				}
			}
			// error before the value starts
			for _, reader := range []bool{true, false} {
				c.R.Evaluations++
				var bad string
				p, st := protect(func() {
					xs := xdr.MakeWriter([]byte("keep"))
					if reader {
						xs = xdr.MakeReader(append([]byte{}, w...))
					}
					xs.SetError("before")
					var out []byte
					if !reader {
						out = append(out, xs.WriteBuf()...)
					}
					bad = c.afterError(it, xs, v, nil, out, true)
				})
				if p != nil {
					bad = fmt.Sprintf("panic %v\n%s", p, st)
				}
				if bad != "" {
					c.R.Violate(it.key()+":sticky before", it.rp(v, w, "error first"), "%s: operation in error state (reader %v): %s", it.key(), reader, bad)
				}
			}
			if c.R.Stop() {
				return
			}
		}
	}
}

// afterError applies further operations to a state in error.
func (c *Ctx) afterError(it *item, xs *xdr.XdrState, v *ref.Val, follow []pop, out []byte, full bool) string {
	check := func(what string) string {
		c.R.Transitions++
		if xs.Error() == nil {
			return "error cleared by " + what
		}
		if xs.Encoding() || xs.Decoding() {
			return "Encoding or Decoding true after " + what
		}
		if out != nil && !bytes.Equal(xs.WriteBuf(), out) {
			return "output changed by " + what
		}
		return ""
	}
	if !full && len(follow) > 12 {
		follow = follow[:12]
	}
	for _, o := range follow {
		d := mkDest(o)
		if o.kind == "setsize" {
			d.u32 = 77
		}
		bu, bs := d.val()
		d.apply(xs)
		if u, s := d.val(); u != bu || s != bs {
			return "destination changed by " + o.String()
		}
		if b := check(o.String()); b != "" {
			return b
		}
	}
	y := it.mk()
	poison(reflect.ValueOf(y).Elem(), 0)
	before := it.fromGo(y)
	y.Xdr(xs)
	if got := it.fromGo(y); !ref.Equal(got, before) {
		return fmt.Sprintf("a value decoded in error state changed: %s -> %s", before, got)
	}
	return check("a value of " + it.key())
}

// beyond tries lengths that no length word can say. The storage is mapped but
// never touched by a correct encoder.
func (c *Ctx) beyond() {
	if strconv.IntSize < 64 {
		return
	}
	c.R.Bounds["beyond"] = "opaques and strings of 2^32 .. 2^32+9 bytes without a limit and with limits up to 2^32+20; array sizes up to 2^62 through EncodingSetSize"
	lim := 1 << 31 << 1
	big := make([]byte, lim+64)
	str := unsafe.String(&big[0], len(big))
	for _, n := range []int{lim, lim + 1, lim + 4, lim + 9} {
		for _, max := range []int{-1, 8, 1<<31 - 1, lim - 1} {
			for _, kind := range []string{"var", "str"} {
				caseNo++
				c.R.Evaluations++
				var err error
				var out int
				p, _ := protect(func() {
					xs := xdr.MakeWriter([]byte("x"))
					if kind == "var" {
						b := big[:n]
						xdr.XdrVarArray(xs, max, &b)
					} else {
						s := str[:n]
						xdr.XdrString(xs, max, &s)
					}
					err, out = xs.Error(), len(xs.WriteBuf())
				})
				if p != nil || err == nil {
					c.R.Violate("beyond:"+kind, n, "encoding %s of %d bytes with maximum %d: error %v, %d bytes written, panic %v", kind, n, max, err, out, p)
					return
				}
			}
		}
	}
	if c.Thor {
		c.R.Bounds["longest"] = "opaques and strings of 2^31-1, 2^31 and 2^32-1 bytes"
		for _, n := range []int{1<<31 - 1, 1 << 31, lim - 1} {
			for _, kind := range []string{"var", "str"} {
				caseNo++
				c.R.Evaluations++
				xs := xdr.MakeWriter(make([]byte, 0, n+16))
				if kind == "var" {
					b := big[:n]
					xdr.XdrVarArray(xs, -1, &b)
				} else {
					s := str[:n]
					xdr.XdrString(xs, n, &s)
				}
				w := xs.WriteBuf()
				if xs.Error() != nil || len(w) != 4+(n+3)/4*4 || binary.BigEndian.Uint32(w) != uint32(n) {
					c.R.Violate("longest:"+kind, n, "encoding %s of %d bytes: error %v, %d bytes", kind, n, xs.Error(), len(w))
					return
				}
				debug.FreeOSMemory()
			}
		}
	}
	for _, n := range []int{0, 1, 5, 1<<31 - 1, 1 << 31, lim - 1, lim, lim + 1, lim + 7, 3 * lim, 1<<62 + 5} {
		caseNo++
		c.R.Evaluations++
		v := uint32(77)
		xs := xdr.MakeWriter(nil)
		xs.EncodingSetSize(&v, n)
		switch {
		case n < lim && (xs.Error() != nil || v != uint32(n)):
			c.R.Violate("beyond:size", n, "EncodingSetSize of %d elements: size %d, error %v", n, v, xs.Error())
		case n >= lim && xs.Error() == nil:
			c.R.Violate("beyond:size", n, "EncodingSetSize of %d elements: size %d and no error", n, v)
		}
	}
}
