package sched

import (
	"fmt"

	"verif/mc/vsched"
)

func pick32(x *X, vs []uint32) uint32 { return vs[x.Pick(len(vs), 1)] }

// P13: every combination of header fields and handler outcomes within a
// number of deviations from a plain successful call, and every sequence of
// kinds of calls on one connection.
func P13(c *Ctx) {
	b := 3
	if c.Thor {
		b = 4
	}
	c.R.Bounds["product"] = fmt.Sprintf("13 header and handler dimensions with 2..16 values each, every combination of up to %d deviations from a plain successful call", b)
	xids := []uint32{0x01020304, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe}
	rpcv := []uint32{2, 0, 1, 3, 0x102, 0x80000002, 0xffffffff, 0x02000000}
	progs := []uint32{100, 200, 0, 0xffffffff, 99, 101, 0x80000064, 1}
	verss := []uint32{2, 5, 9, 0, 1, 3, 8, 10, 7, 0xffffffff, 0x80000000, 0xfffffffe}
	procs := []uint32{uint32(kEcho), uint32(kNull), uint32(kNil), uint32(kErr), uint32(kErrRes), uint32(kBad), uint32(kBadLate), uint32(kInc), uint32(kBig), uint32(kTag), uint32(kErrType), 0xffffffff, 0x80000000, 100, 77, 0x101}
	flav := []uint32{0, 1, 2, 3}
	lens := []int{0, 1, 2, 3, 4, 5, 399, 400, 397}
	args := [][]byte{opaque(nil, []byte("hello")), nil, {0}, {0, 0, 0}, w32(nil, 0), w32(nil, 1), opaque(nil, pattern(1000, 3)), opaque(nil, pattern(70000, 5)), append(opaque(nil, []byte("tail")), 1, 2, 3), w32(nil, 0xffffffff), w32(nil, 5, 1), pattern(64, 0)}
	regs := []func(w *world){
		func(w *world) { w.std() },
		func(w *world) { w.reg(triple{100, 2, 1}, kEcho) },
		func(w *world) {},
		func(w *world) { w.reg(triple{100, 0xffffffff, 1}, kEcho); w.reg(triple{100, 0, 1}, kNull) },
		func(w *world) { w.reg(triple{100, 0x80000000, 1}, kEcho); w.reg(triple{100, 1, 2}, kNull) },
		func(w *world) { w.std(); w.reg(triple{100, 2, 1}, kInc) },
		func(w *world) { w.reg(triple{2, 100, 1}, kEcho); w.reg(triple{1, 2, 100}, kEcho) },
	}
	c.explore("product", Opts{Bound: b, Split: true}, func(x *X) {
		w := newWorld(x)
		regs[x.Pick(len(regs), 1)](w)
		cl := Call{Xid: pick32(x, xids), Rpcvers: pick32(x, rpcv), Prog: pick32(x, progs), Vers: pick32(x, verss), Proc: pick32(x, procs)}
		cl.CredFlavor = pick32(x, flav)
		cl.Cred = pattern(lens[x.Pick(len(lens), 1)], 9)
		cl.VerfFlavor = pick32(x, flav)
		cl.Verf = pattern(lens[x.Pick(len(lens), 1)], 77)
		cl.Args = args[x.Pick(len(args), 1)]
		x.Ch.Freeze()
		l := w.link(cl.bytes())
		w.finish(l)
	})

	// the order in which the dispatch tables are visited
	c.R.Bounds["map orders"] = "every set of up to 4 of 6 registered versions, registered in ascending or descending order, and of up to 3 of 5 programs; calls of absent versions and programs; every order of every range over a map of up to 4 keys, rotations and reverses beyond"
	c.explore("map orders", Opts{Split: true}, func(x *X) {
		vs := []uint32{0, 1, 2, 7, 0x80000000, 0xffffffff}
		w := newWorld(x)
		down := x.Pick(2, 0) == 1
		n := 0
		for i := range vs {
			v := vs[i]
			if down {
				v = vs[len(vs)-1-i]
			}
			if n < 4 && x.Pick(2, 0) == 1 {
				n++
				w.reg(triple{100, v, 1}, kEcho)
			}
		}
		for n, p := 0, 0; p < 4 && n < 2; p++ {
			if x.Pick(2, 0) == 1 {
				n++
				w.reg(triple{[]uint32{0, 99, 101, 0xffffffff}[p], 3, 1}, kEcho)
			}
		}
		k := call(77, kEcho, opaque(nil, []byte("order")))
		k.Proc = 1
		k.Vers = []uint32{5, 0, 2, 0xfffffffe}[x.Pick(4, 0)]
		k.Prog = []uint32{100, 98}[x.Pick(2, 0)]
		x.KeyOrders()
		l := w.link(k.bytes())
		w.finish(l)
	})

	// a long life
	n := 1<<17 + 100
	if c.Thor {
		n = 1 << 21
	}
	once := 20000
	if c.Thor {
		once = 1<<16 + 100
	}
	c.R.Bounds["long life"] = fmt.Sprintf("%d calls of one server, on one connection one after the other, and on connections of 7 calls each; %d on one connection at once", n, once)
	for mode, name := range []string{"long life", "long life at once", "long life of connections"} {
		mode := mode
		c.explore(name, Opts{Big: true}, func(x *X) {
			x.Ch.Freeze()
			vsched.Coarse = true
			x.S.Horizon = 1 << 60
			w := newWorld(x)
			w.std()
			var l *link
			n := n
			if mode == 1 {
				n = once
			}
			for i := 0; i < n; i++ {
				if i&1023 == 1023 && c.R.Expired() {
					return
				}
				if l == nil {
					l = w.link()
				}
				xid := uint32(i) * 3
				k := echoCall(xid, kEcho, 5)
				if i%3 == 1 {
					k = call(xid, kInc, w32(nil, xid)).bytes()
				}
				w.send(l, k)
				if mode != 1 {
					x.S.Run()
				}
				if mode == 2 && i%7 == 6 {
					w.finish(l)
					l = nil
				}
				if x.fail != "" {
					return
				}
			}
			if l != nil {
				w.finish(l)
			}
			x.Observe(fmt.Sprint(n))
		})
	}

	// sequences
	menu := []func(xid uint32) []byte{
		func(xid uint32) []byte { return echoCall(xid, kEcho, 5) },
		func(xid uint32) []byte { return echoCall(xid, kEcho, 200) },
		func(xid uint32) []byte { return call(xid, kNull, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kInc, w32(nil, xid)).bytes() },
		func(xid uint32) []byte { return call(xid, kErr, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kErrRes, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kBad, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kBadLate, nil).bytes() },
		func(xid uint32) []byte { return call(xid, kInc, []byte{1, 2}).bytes() },
		func(xid uint32) []byte { k := call(xid, kNull, nil); k.Rpcvers = 3; return k.bytes() },
		func(xid uint32) []byte { k := call(xid, kNull, nil); k.Prog = 101; return k.bytes() },
		func(xid uint32) []byte { k := call(xid, kNull, nil); k.Vers = 6; return k.bytes() },
		func(xid uint32) []byte { k := call(xid, kNull, nil); k.Prog, k.Vers = 0, 6; return k.bytes() },
		func(xid uint32) []byte { k := call(xid, kNull, nil); k.Proc = 88; return k.bytes() },
		func(xid uint32) []byte {
			k := call(xid, kEcho, opaque(nil, []byte("with credentials")))
			k.CredFlavor, k.Cred, k.VerfFlavor, k.Verf = 1, pattern(37, 1), 2, pattern(400, 2)
			return k.bytes()
		},
		func(xid uint32) []byte { return call(xid, kBig, nil).bytes() },
	}
	depth := 3
	if c.Thor {
		depth = 4
	}
	c.R.Bounds["sequences"] = fmt.Sprintf("all sequences of %d calls from a menu of %d, on one connection, with a different and with the same transaction id, sent together and one after the other's completion", depth, len(menu))
	c.explore("sequences", Opts{Bound: 0, Split: true}, func(x *X) {
		w := newWorld(x)
		w.std()
		step := x.Pick(2, 0) == 1
		same := x.Pick(2, 0) == 1
		var recs [][]byte
		for i := 0; i < depth; i++ {
			xid := uint32(1000 + i)
			if same {
				xid = 0xabcdef01
			}
			recs = append(recs, menu[x.Pick(len(menu), 0)](xid))
		}
		x.Ch.Freeze()
		l := w.link()
		for _, r := range recs {
			w.send(l, r)
			if step {
				x.S.Run()
			}
		}
		w.finish(l)
	})
}
