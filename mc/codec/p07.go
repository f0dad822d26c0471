package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// P07 (committed packages) and P08 (generated packages): every value in the
// bound encodes to the reference bytes and decodes back.
func P07(c *Ctx) {
	pre := []string{"c"}
	if c.Prop == "P08" {
		pre = []string{"g"}
	}
	o := enum.Opts{Dev: 1, MaxRec: 1, ArrMax: 2}
	cap := 60000
	if c.Thor {
		o.MaxRec, o.ArrMax, o.Dev = 2, 3, 2
		cap = 250000
	}
	if c.Prop == "P08" {
		cap = 400
		if c.Thor {
			cap = 5000
		}
	}
	c.R.Bounds["values"] = fmt.Sprintf("all shapes (union labels, optionals, list nesting<=%d, array length<=%d) x at most %d leaf deviation(s), cut at %d values per type; where cut, the values with one deviation less are enumerated first to last", o.MaxRec+1, o.ArrMax, o.Dev, cap)
	most := 12
	if c.Thor {
		most = 60
	}
	c.R.Bounds["huge values"] = fmt.Sprintf("parts of unlimited length with up to 2^25+2 bytes or 2^20+1 elements, %d parts per worker", most)
	for _, it := range c.items(pre...) {
		if c.R.Expired() || c.R.Stop() {
			break
		}
		c.huge(it, &most)
		ch := enum.New(o.Dev)
		n := 0
		for ch.Next() {
			if n >= cap {
				c.R.Outcome("types whose values were cut at the cap")
				// below the cap everything with one deviation less is complete
				c.reduced(it, o, cap)
				break
			}
			n++
			v := enum.Value(it.t, ch, o)
			c.checkValue(it, v)
			if c.R.Stop() {
				return
			}
			if n&0xfff == 0 && c.R.Expired() {
				return
			}
		}
		if c.Prop == "P08" {
			c.bounds(it)
		}
		c.R.Outcome("types")
	}
}

// reduced re-explores completely with one deviation less after a cap.
func (c *Ctx) reduced(it *item, o enum.Opts, cap int) {
	if o.Dev == 0 {
		return
	}
	o.Dev--
	ch := enum.New(o.Dev)
	n := 0
	for ch.Next() {
		if n >= cap {
			return
		}
		n++
		c.checkValue(it, enum.Value(it.t, ch, o))
		if c.R.Stop() {
			return
		}
	}
}

var trailer = []byte{0xde, 0xad, 0xbe, 0xef}

// safeFrom reads the value back; a panic (shape mismatch) is reported.
func (c *Ctx) safeFrom(it *item, x xdr.Xdrable) *ref.Val { return it.fromGo(x) }

func (c *Ctx) checkValue(it *item, v *ref.Val) {
	caseNo++
	caseDesc = it.key()
	r := c.R
	w := it.wire(v)
	r.State([]byte(it.key()), w)
	fail := func(what, f string, a ...any) {
		r.Violate(it.key()+":"+what, it.rp(v, w, what), "%s: %s: value %s expected wire %s: %s", it.key(), what, v, short(w), fmt.Sprintf(f, a...))
	}
	r.Traces++
	// encode a clean and a poisoned structure
	for k := 0; k < 2; k++ {
		x := it.mk()
		if k == 1 {
			poison(reflect.ValueOf(x).Elem(), 0)
		}
		ref.ToGo(it.t, v, reflect.ValueOf(x).Elem())
		r.Evaluations++
		b, err, pan := encode(x)
		switch {
		case pan != "":
			fail("encode", "%s", pan)
			return
		case err != nil:
			fail("encode", "error %v", err)
			return
		case !bytes.Equal(b, w):
			fail("encode", "got %s", short(b))
			return
		}
	}
	// decode, with a trailer that must stay unread
	x := it.mk()
	in := append(append([]byte{}, w...), trailer...)
	var err error
	var tail uint32
	r.Evaluations++
	p, st := protect(func() {
		xs := xdr.MakeReader(in)
		x.Xdr(xs)
		if err = xs.Error(); err == nil {
			xdr.XdrU32(xs, &tail)
			if xs.Error() != nil || tail != binary.BigEndian.Uint32(trailer) {
				err = fmt.Errorf("decoding did not consume exactly the encoding: next word %#x, %v", tail, xs.Error())
			}
		}
	})
	if p != nil {
		fail("decode", "panic: %v\n%s", p, st)
		return
	}
	if err != nil {
		fail("decode", "error %v", err)
		return
	}
	if got := c.safeFrom(it, x); !ref.Equal(got, v) {
		fail("decode", "got %s", got)
		return
	}
	x = it.mk()
	if err, pan := decode(w, x); err != nil || pan != "" {
		fail("decode", "DecodeBuf: %v %s", err, pan)
		return
	}
	if c.R.Evaluations%9973 < 3 {
		r.Sample("%s %s <-> %s", it.key(), v, short(w))
	}
}

// bounds checks the declared limits of the generated codec in a few shapes.
func (c *Ctx) bounds(it *item) {
	vals, _ := enum.All(it.t, enum.Opts{MaxRec: 1, ArrMax: 1}, 6)
	seen := map[*ref.Type]int{}
	for _, v := range vals {
		for _, n := range sized(it, v) {
			if seen[n.t]++; seen[n.t] <= 2 && n.t.Size >= 0 {
				c.limitNode(it, v, n, 2)
			}
			if c.R.Stop() {
				return
			}
		}
	}
}

// huge encodes and decodes a value of the type with each of its unlimited
// opaques, strings and lists (or those with a large enough limit) very long.
func (c *Ctx) huge(it *item, most *int) {
	vals, _ := enum.All(it.t, enum.Opts{MaxRec: 1, ArrMax: 1}, 60)
	seen := map[*ref.Type]bool{}
	for _, v := range vals {
		for _, n := range sized(it, v) {
			if seen[n.t] || *most <= 0 || c.R.Stop() || c.R.Expired() {
				continue
			}
			seen[n.t] = true
			saveB, saveL := n.v.B, n.v.L
			done := false
			for _, l := range hugeLens(n.t) {
				if n.t.Size >= 0 && int64(l) > n.t.Size {
					continue
				}
				n.v.B, n.v.L = saveB, saveL
				if n.t.Kind == ref.KVarArray {
					es, _ := enum.All(n.t.Elem, enum.Opts{MaxRec: 1, ArrMax: 1}, 3)
					if len(it.wire(v))+l*len(wireOf(n.t.Elem, es[0])) > 1<<28 {
						continue
					}
					out := make([]*ref.Val, l)
					for i := range out {
						out[i] = es[i%7%len(es)]
					}
					n.v.L = out
				} else {
					setLen(n, l, nil)
				}
				c.hugeValue(it, v, n, l)
				done = true
			}
			n.v.B, n.v.L = saveB, saveL
			if done {
				*most--
			}
		}
	}
}

func hugeLens(t *ref.Type) []int {
	if t.Kind == ref.KVarArray {
		return []int{255, 256, 65535, 65536, 1<<20 + 1}
	}
	return []int{255, 256, 65535, 65536, 1<<20 + 3, 1<<24 - 1, 1 << 24, 1<<25 + 2}
}

func wireOf(t *ref.Type, v *ref.Val) []byte {
	b, err := ref.Encode(nil, t, v, false)
	if err != nil {
		panic(err)
	}
	return b
}

// hugeValue is checkValue without turning everything back into a model value:
// what is decoded is encoded once more.
func (c *Ctx) hugeValue(it *item, v *ref.Val, n node, l int) {
	caseNo++
	caseDesc = it.key()
	r := c.R
	w := it.wire(v)
	r.Evaluations += 3
	r.Traces++
	fail := func(what, f string, a ...any) {
		r.Violate(it.key()+":"+what, it.rp(nil, w, fmt.Sprintf("%s length %d", what, l)), "%s: %s: a value of %d bytes with a part of length %d: %s", it.key(), what, len(w), l, fmt.Sprintf(f, a...))
	}
	b, err, pan := encode(it.toGo(v))
	switch {
	case pan != "":
		fail("encode", "%s", pan)
		return
	case err != nil:
		fail("encode", "refused: %v", err)
		return
	case !bytes.Equal(b, w):
		k := 0
		for k < len(b) && k < len(w) && b[k] == w[k] {
			k++
		}
		fail("encode", "%d bytes instead of %d, the first difference at %d", len(b), len(w), k)
		return
	}
	b = nil
	x := it.mk()
	switch err, pan = decode(w, x); {
	case pan != "":
		fail("decode", "%s", pan)
		return
	case err != nil:
		fail("decode", "refused: %v", err)
		return
	}
	switch b, err, pan = encode(x); {
	case pan != "" || err != nil:
		fail("decode", "what was decoded cannot be encoded: %v %s", err, pan)
	case !bytes.Equal(b, w):
		fail("decode", "what was decoded is another value: encoded again it has %d bytes instead of %d", len(b), len(w))
	}
	r.Outcome("huge values")
}
