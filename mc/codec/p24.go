package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"verif/mc/enum"
	"verif/mc/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// P24: whatever a decoder accepts can be encoded again.
func P24(c *Ctx) {
	o := enum.Opts{Dev: 0, MaxRec: 1, ArrMax: 2}
	cap, devs := 24, 20
	if c.Thor {
		cap, devs, o.ArrMax = 1500, 200, 3
	}
	words := []uint32{0, 1, 2, 3, 4, 5, 8, 0x100, 0xffff, 0x01000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff}
	octets := []byte{0, 1, 2, 0x7f, 0x80, 0xff}
	c.R.Bounds["inputs"] = fmt.Sprintf("first %d shapes of every type and the first %d values with one leaf deviation: as they are, with every byte replaced by each of %d values, every aligned word by each of %d values, every pair of neighbouring words by each pair of 4 values, every word left out or doubled", cap, devs, len(octets), len(words))
	for _, it := range c.items() {
		vals, _ := enum.All(it.t, o, cap)
		o1 := o
		o1.Dev, o1.NoShape = 1, true
		dev, _ := enum.All(it.t, o1, devs)
		for _, v := range append(vals, dev...) {
			if c.R.Expired() || c.R.Stop() {
				return
			}
			w := it.wire(v)
			c.again(it, w, "whole")
			for off := range w {
				for _, x := range octets {
					if w[off] != x {
						b := append([]byte{}, w...)
						b[off] = x
						c.again(it, b, "byte")
					}
				}
			}
			for off := 0; off+4 <= len(w); off += 4 {
				for _, x := range words {
					b := append([]byte{}, w...)
					binary.BigEndian.PutUint32(b[off:], x)
					c.again(it, b, "word")
				}
				for _, x := range words[:4] {
					for _, y := range words[:4] {
						if off+8 <= len(w) {
							b := append([]byte{}, w...)
							binary.BigEndian.PutUint32(b[off:], x)
							binary.BigEndian.PutUint32(b[off+4:], y)
							c.again(it, b, "words")
						}
					}
				}
				c.again(it, append(append([]byte{}, w[:off]...), w[off+4:]...), "word left out")
				c.again(it, append(append([]byte{}, w[:off+4]...), w[off:]...), "word doubled")
			}
		}
	}
}

func (c *Ctx) again(it *item, in []byte, what string) {
	caseNo++
	caseDesc = it.key()
	r := c.R
	d := &ref.Dec{Buf: in, Budget: 20000 + 64*len(in)}
	want, werr := d.Decode(it.t)
	if werr != nil {
		c.againAnyway(it, in, what)
		return
	}
	r.Evaluations++
	r.State([]byte(it.key()), in)
	fail := func(kind, f string, a ...any) {
		r.Violate(it.key()+":"+kind, it.rp(want, in, what), "%s: input %s (%s): %s", it.key(), short(in), what, fmt.Sprintf(f, a...))
	}
	x := it.mk()
	var derr error
	p, _ := protect(func() {
		xs := xdr.MakeReader(append([]byte{}, in...))
		x.Xdr(xs)
		derr = xs.Error()
	})
	if p != nil || derr != nil {
		r.Outcome("inputs not accepted") // P03's business
		return
	}
	v := it.fromGo(x)
	r.Traces++
	if d.Lax {
		r.Outcome("accepted, not canonical")
	} else {
		r.Outcome("accepted, canonical")
	}
	b, err, pan := encode(x)
	if err != nil || pan != "" {
		fail("not encodable", "was decoded to %s, which cannot be encoded: %v %s", v, err, pan)
		return
	}
	if len(b) > d.Pos {
		fail("grows", "was decoded to %s from %d bytes; encoding that gives %d bytes", v, d.Pos, len(b))
		return
	}
	if !d.Lax && !bytes.Equal(b, in[:d.Pos]) {
		fail("differs", "is canonical and was decoded to %s, which is encoded as %s", v, short(b))
		return
	}
	if canon, err := ref.Encode(nil, it.t, v, true); err != nil || !bytes.Equal(canon, b) {
		fail("not canonical", "was decoded to %s, which is encoded as %s, not %s (%v)", v, short(b), short(canon), err)
		return
	}
	y := it.mk()
	err, pan = decode(b, y)
	if err != nil || pan != "" {
		fail("not decodable", "was decoded to %s and encoded as %s, which cannot be decoded: %v %s", v, short(b), err, pan)
		return
	}
	if got := it.fromGo(y); !ref.Equal(got, v) {
		fail("value", "was decoded to %s, encoded as %s and decoded to %s", v, short(b), got)
		return
	}
	if r.Evaluations%60013 < 1 {
		r.Sample("%s: %s (%s) -> %s -> %s", it.key(), short(in), what, v, short(b))
	}
}

// againAnyway is for input the reference does not accept: should the code
// accept it nevertheless, encoding and decoding again must lead to the same
// bytes.
func (c *Ctx) againAnyway(it *item, in []byte, what string) {
	r := c.R
	r.Evaluations++
	fail := func(kind, f string, a ...any) {
		r.Violate(it.key()+":"+kind, it.rp(nil, in, what), "%s: input %s (%s): %s", it.key(), short(in), what, fmt.Sprintf(f, a...))
	}
	x := it.mk()
	var derr error
	p, _ := protect(func() {
		xs := xdr.MakeReader(append([]byte{}, in...))
		x.Xdr(xs)
		derr = xs.Error()
	})
	if p != nil || derr != nil {
		r.Outcome("inputs refused")
		return
	}
	r.Outcome("accepted by the code alone")
	b, err, pan := encode(x)
	if err != nil || pan != "" {
		fail("not encodable", "was decoded without error to a value that cannot be encoded: %v %s", err, pan)
		return
	}
	if len(b) > len(in) {
		fail("grows", "was decoded without error; encoding the value gives %d bytes", len(b))
		return
	}
	y := it.mk()
	err, pan = decode(b, y)
	if err != nil || pan != "" {
		fail("not decodable", "was decoded and encoded as %s, which cannot be decoded: %v %s", short(b), err, pan)
		return
	}
	if b2, err, pan := encode(y); err != nil || pan != "" || !bytes.Equal(b, b2) {
		fail("value", "was decoded and encoded as %s, which decodes to what is encoded as %s (%v %s)", short(b), short(b2), err, pan)
	}
}
