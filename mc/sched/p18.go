package sched

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// malformed returns the records that are not well-formed calls.
func malformed() (names []string, recs [][]byte) {
	add := func(n string, b []byte) { names, recs = append(names, n), append(recs, b) }
	k := call(0x77, kEcho, opaque(nil, []byte("never run")))
	k.CredFlavor, k.Cred = 1, pattern(7, 1)
	k.VerfFlavor, k.Verf = 2, pattern(5, 2)
	w := k.bytes()
	hdr := 4*6 + 4 + 4 + 8 + 4 + 4 + 8
	for cut := 0; cut < hdr; cut++ {
		add(fmt.Sprintf("truncated at %d", cut), w[:cut])
	}
	for _, m := range []uint32{1, 2, 3, 0x100, 0x80000000, 0xffffffff} {
		j := k
		j.Mtype = m
		add(fmt.Sprintf("message type %d", m), j.bytes())
	}
	// a real reply
	add("a reply", w32(nil, 0x77, 1, 0, 0, 0, 0, 5))
	add("a denial", w32(nil, 0x77, 1, 1, 0, 2, 2))
	credAt, verfAt := 28, 28+4+8+4
	for _, at := range []int{credAt, verfAt} {
		for _, n := range []uint32{401, 402, 404, 405, 500, 1000, 0x7fffffff, 0x80000000, 0x80000007, 0xfffffffd, 0xffffffff} {
			b := append([]byte{}, w...)
			binary.BigEndian.PutUint32(b[at:], n)
			b = append(b, make([]byte, 1200)...)
			add(fmt.Sprintf("length %#x at %d", n, at), b)
		}
		for _, n := range []uint32{60, 100, 396, 400} {
			b := append([]byte{}, w...)
			binary.BigEndian.PutUint32(b[at:], n)
			b = b[:hdr]
			add(fmt.Sprintf("length %d beyond the record at %d", n, at), b)
		}
	}
	return
}

// P18: malformed and failing requests among good ones.
func P18(c *Ctx) {
	names, recs := malformed()
	good := func(xid uint32) []byte { return echoCall(xid, kSlowEcho, 12) }
	c.R.Bounds["malformed"] = fmt.Sprintf("%d malformed records (every truncation of a call header, other message types, over-long and overrunning credential and verifier lengths), each before, between and after good calls, arriving together or one by one; every pair of them", len(recs))
	c.explore("malformed", Opts{Split: true}, func(x *X) {
		i := x.Pick(len(recs), 0)
		pos := x.Pick(3, 0)
		step := x.Pick(2, 0) == 1
		twice := x.Pick(2, 0) == 1
		x.Ch.Freeze()
		w := newWorld(x)
		w.std()
		l := w.link()
		other := w.link()
		for p := 0; p < 3; p++ {
			if p == pos {
				w.send(l, recs[i])
				if step {
					x.S.Run()
				}
				if twice {
					w.send(l, recs[i])
				}
			}
			w.send(l, good(uint32(0x30+p)))
			if step {
				x.S.Run()
			}
			w.send(other, good(uint32(0x40+p)))
		}
		if pos == 2 {
			w.send(l, recs[i])
		}
		w.finish(l, other)
	})
	c.explore("malformed pairs", Opts{Split: true}, func(x *X) {
		i, j := x.Pick(len(recs), 0), x.Pick(len(recs), 0)
		x.Ch.Freeze()
		w := newWorld(x)
		w.std()
		l := w.link()
		w.send(l, recs[i], recs[j], good(0x31))
		w.finish(l)
	})
	_ = names
	b := 2
	if c.Thor {
		b = 3
	}
	c.R.Bounds["schedules"] = fmt.Sprintf("malformed, failing and unencodable requests between two good ones, on the same and another connection, up to %d preemptions", b)
	// failing requests of all kinds, under schedules
	bad := []func(xid uint32) []byte{
		func(uint32) []byte { return recs[0] },
		func(uint32) []byte { return recs[3] },
		func(uint32) []byte { return recs[20] },
		func(uint32) []byte { return recs[30] },
		func(uint32) []byte { return recs[58] },
		func(uint32) []byte { return recs[len(recs)-1] },
		func(uint32) []byte { return w32(nil, 0x31, 1, 0, 0, 0, 0, 5) },
		func(xid uint32) []byte { return call(xid, kErrSlow, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kErrRes, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kErrType, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kBadSlow, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kBadLate, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kInc, []byte{1}).bytes() },
	}
	c.explore("failing", Opts{Bound: b, Split: true, Pool: true, Delay: true}, func(x *X) {
		i := x.Pick(len(bad), 0)
		pos := x.Pick(2, 0)
		w := newWorld(x)
		w.std()
		w.yields = 1
		l := w.link()
		if pos == 0 {
			w.send(l, bad[i](0x50))
			w.send(l, good(0x31))
		} else {
			w.send(l, good(0x31))
			w.send(l, bad[i](0x50))
		}
		if x.Pick(2, 0) == 1 {
			o := w.link()
			w.send(o, good(0x41))
			w.finish(l, o)
			return
		}
		w.finish(l)
	})
	// replies that cannot be written
	fails := errors.New("broken pipe")
	c.R.Bounds["write failures"] = fmt.Sprintf("each of the first 3 writes fails having written nothing, a part or everything, up to %d preemptions; other connections unaffected, later replies of the same connection whole, and present if nothing was written of the failing one", b-1)
	c.explore("write failures", Opts{Bound: b - 1, Split: true, Pool: true, Delay: true}, func(x *X) {
		which := x.Pick(3, 0)
		part := x.Pick(4, 0)
		w := newWorld(x)
		w.std()
		w.yields = 1
		l := w.link()
		w.send(l, good(0x31), good(0x32), call(0x33, kInc, w32(nil, 9)).bytes())
		var cuts [][2]int // faulty pieces of the stream
		l.c.wfault = func(k int, p []byte) (int, error) {
			if k != which {
				return len(p), nil
			}
			n := []int{0, 1, len(p) / 2, len(p)}[part]
			cuts = append(cuts, [2]int{len(l.c.out), n})
			return n, fails
		}
		o := w.link()
		w.send(o, good(0x41), good(0x42))
		x.S.Run()
		l.c.eof, o.c.eof = true, true
		if !x.S.Run() {
			x.Fail("stuck", "not everything ended: %s", list(x.S.Unfinished()))
			return
		}
		if m := match(o.c.out, o.outs); m != "" {
			x.Fail("other connection", "a failed write on one connection changed another one: %s", m)
			return
		}
		if m := w.checkRuns(); m != "" {
			x.Fail("runs", "%s", m)
			return
		}
		// A reply that goes out in several writes may have been begun before
		// the failure; then there is no telling where the next one starts.
		for _, q := range cuts {
			if _, err := replies(l.c.out[:q[0]]); err != nil {
				x.Observe(fmt.Sprintf("%d %d begun", which, part))
				return
			}
		}
		// without the faulty piece the stream is a part of the replies
		out := append([]byte{}, l.c.out...)
		for i := len(cuts) - 1; i >= 0; i-- {
			a, n := cuts[i][0], cuts[i][1]
			if a+n > len(out) {
				n = len(out) - a
			}
			out = append(out[:a:a], out[a+n:]...)
		}
		got, err := replies(out)
		if err != nil {
			x.Fail("after failure", "the replies besides the one whose write failed are not whole: %v: %s", err, hex(out))
			return
		}
		once := map[Reply]bool{}
		if part == 3 { // a failing write that wrote everything
			for _, q := range cuts {
				rs, err := replies(l.c.out[q[0] : q[0]+q[1]])
				for _, r := range rs {
					once[r] = err == nil
				}
			}
		}
		for _, g := range got {
			if once[g] {
				x.Fail("after failure", "reply written twice: %s", g)
			}
			once[g] = true
			found := false
			for _, u := range l.outs {
				found = found || u.r == g
			}
			if !found {
				x.Fail("after failure", "unexpected reply %s", g)
			}
		}
		if part == 0 && len(got) < len(l.outs)-1 {
			x.Fail("after failure", "one write failed, but only %d of %d replies were written", len(got), len(l.outs))
		}
		x.Observe(fmt.Sprintf("%d %d %v", which, part, got))
	})
}
