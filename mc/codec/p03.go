package codec

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"syscall"

	"verif/mc/enum"
	"verif/mc/ref"
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

var hostile = []uint32{0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 0x7f, 0xff, 0x100, 0x1000, 0x10000, 0x100000, 0x1000000, 0x3fffffff, 0x40000000, 0x7ffffffc, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff}

var behind [160]byte

// P03: decoding arbitrary input.
func P03(c *Ctx) {
	// a decoder that allocates what a count claims must not take the machine down
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMemoryLimit(4 << 30)
	o := enum.Opts{Dev: 0, MaxRec: 1, ArrMax: 1}
	cap, wordsN := 60, 3
	if c.Thor {
		cap, wordsN, o.ArrMax = 1200, 4, 2
	}
	prog, err := os.OpenFile(c.R.Prop+".progress", os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		defer prog.Close()
	}
	c.R.Bounds["inputs"] = fmt.Sprintf("first %d shapes of every type: every truncation at every byte, every aligned word replaced by each of %d hostile words (also with everything after it dropped), all inputs of up to %d words over 8 word values and 0..3 stray bytes; each over exactly-sized storage and over storage that goes on behind it", cap, len(hostile), wordsN)
	short8 := []uint32{0, 1, 2, 3, 5, 0x41424344, 0x80000000, 0xffffffff}
	for _, it := range c.items() {
		if c.R.Expired() || c.R.Stop() {
			return
		}
		try := func(in []byte, what string) bool {
			if prog != nil && c.R.Evaluations&15 == 0 {
				prog.WriteAt([]byte(fmt.Sprintf("%-60s %s %-400.400x\n", it.key(), what, in)), 0)
			}
			return c.hostile(it, in, what)
		}
		vals, _ := enum.All(it.t, o, cap)
		for _, v := range vals {
			w := it.wire(v)
			for cut := 0; cut < len(w); cut++ {
				if !try(w[:cut], "cut") {
					break
				}
			}
			try(w, "whole")
			try(append(append([]byte{}, w...), 1, 2, 3, 4, 5), "trailing bytes")
			for off := 0; off+4 <= len(w); off += 4 {
				for _, h := range hostile {
					b := append([]byte{}, w...)
					binary.BigEndian.PutUint32(b[off:], h)
					if !try(b, "word") {
						break
					}
					try(b[:off+4], "word and end")
				}
				if c.R.Stop() {
					return
				}
			}
			if c.R.Expired() {
				return
			}
		}
		var rec func(in []byte, k int)
		rec = func(in []byte, k int) {
			if c.R.Stop() {
				return
			}
			try(in, "short")
			for n := 1; n <= 3; n++ {
				try(append(append([]byte{}, in...), []byte{0, 0, 1}[:n]...), "short")
			}
			if k == 0 {
				return
			}
			for _, h := range short8 {
				rec(binary.BigEndian.AppendUint32(append([]byte{}, in...), h), k-1)
			}
		}
		rec(nil, wordsN)
	}
}

func (c *Ctx) hostile(it *item, in []byte, what string) bool {
	caseNo++
	caseDesc = it.key()
	r := c.R
	// First over storage of exactly this size, where any overread panics.
	buf := make([]byte, len(in))
	copy(buf, in)
	d := &ref.Dec{Buf: buf, Budget: 20000 + 64*len(in)}
	want, werr := d.Decode(it.t)
	if werr == ref.ErrBudget {
		r.Outcome("skipped: zero-width elements")
		return true
	}
	r.Evaluations++
	r.Traces++
	r.State([]byte(it.key()), in)
	limit := int64(200000 + 2000*len(in))
	if ResetWork != nil {
		ResetWork(limit)
	}
	a0 := allocated()
	x := it.mk()
	err, pan := decode(buf, x)
	used := allocated() - a0
	if ResetWork != nil {
		ResetWork(0)
	}
	fail := func(kind, f string, a ...any) bool {
		r.Violate(it.key()+":"+kind, it.rp(want, in, what), "%s: input %s (%s): %s", it.key(), short(in), what, fmt.Sprintf(f, a...))
		return false
	}
	if pan != "" {
		return fail("panic", "%s", pan)
	}
	if max := uint64(4<<20 + 4000*len(in)); used > max {
		return fail("memory", "decoding %d bytes allocated %d bytes", len(in), used)
	}
	switch {
	case werr != nil && err == nil:
		return fail("accepted", "decoded without error to %s; reference: %v", it.fromGo(x), werr)
	case werr == nil && !d.Lax && err != nil:
		return fail("refused", "error %v; reference value %s", err, want)
	case werr == nil && err == nil:
		if got := it.fromGo(x); !ref.Equal(got, want) {
			return fail("value", "decoded %s, reference %s", got, want)
		}
		r.Outcome("value")
	default:
		r.Outcome("error")
	}
	// Then over storage that goes on behind the input, as in a recycled
	// buffer, where an overread would find something.
	big := append(append(make([]byte, 0, len(in)+len(behind)), in...), behind[:]...)
	for i := len(in); i < len(big); i++ {
		big[i] = byte(i-len(in)) & 3 >> 1 // 00000101..., small lengths
	}
	tail := append([]byte{}, big[len(in):]...)
	y := it.mk()
	r.Evaluations++
	err2, pan := decode(big[:len(in)], y)
	if pan != "" {
		return fail("panic", "%s", pan)
	}
	if (err == nil) != (err2 == nil) {
		return fail("overread", "error %v when nothing follows the input in memory, %v when something does", err, err2)
	}
	if err == nil {
		if a, b := it.fromGo(x), it.fromGo(y); !ref.Equal(a, b) {
			return fail("overread", "value %s when nothing follows the input in memory, %s when something does", a, b)
		}
	}
	if string(big[len(in):]) != string(tail) || string(big[:len(in)]) != string(in) {
		return fail("overwrite", "decoding changed the memory of or behind its input")
	}
	if r.Evaluations%40009 < 1 {
		r.Sample("%s <- %s: %v", it.key(), short(in), err)
	}
	return true
}
