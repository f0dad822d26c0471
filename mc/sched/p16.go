package sched

import "fmt"

// P16: arguments that share storage with the request.
func P16(c *Ctx) {
	type conf struct {
		name  string
		conns [][]int // argument sizes
		kinds []kind
		step  bool // the next request arrives when the earlier ones are done
	}
	K := []kind{kKeep}
	confs := []conf{
		{"two", [][]int{{24, 24}}, K, false},
		{"two of different sizes", [][]int{{60, 20}}, K, false},
		{"three", [][]int{{24, 24, 24}}, K, false},
		{"three, shrinking", [][]int{{64, 32, 8}}, K, false},
		{"three, growing", [][]int{{8, 32, 64}}, K, false},
		{"two connections", [][]int{{24, 24}, {24}}, K, false},
		{"with failing requests", [][]int{{24, 24, 24}}, []kind{kKeep, kErr, kKeep}, false},
		{"with unencodable results", [][]int{{24, 24, 24}}, []kind{kKeep, kBad, kKeep}, false},
		{"one after another", [][]int{{24, 24, 24}}, K, true},
		{"echo", [][]int{{24, 24, 24}}, []kind{kEcho, kKeep, kEcho}, false},
		{"four", [][]int{{24, 24, 24, 24}}, []kind{kNull, kKeep, kKeep, kNull}, false},
		{"two and two connections", [][]int{{24, 24}, {24, 24}}, K, false},
		{"rearranged", [][]int{{40, 40}}, []kind{kTwice}, false},
		{"rearranged, three", [][]int{{24, 40, 24}}, []kind{kTwice, kKeep}, false},
	}
	b := 3
	if c.Thor {
		b = 4
	}
	c.R.Bounds["schedules"] = fmt.Sprintf("%d configurations of 2 to 4 requests whose results refer to the request's storage, every schedule and storage reuse with up to %d deviations (%d for more than two requests; %d with deviations inside the XDR runtime)", len(confs), b, b-1, b-2)
	run := func(cf conf, o Opts) {
		o.Split, o.Pool, o.Delay = true, true, true
		c.explore(fmt.Sprintf("%s (bound %d, library %v)", cf.name, o.Bound, o.Lib), o, func(x *X) {
			w := newWorld(x)
			w.std()
			w.yields = 2
			var ls []*link
			xid := uint32(0x20)
			n := 0
			for _, sizes := range cf.conns {
				l := w.link()
				ls = append(ls, l)
				for _, s := range sizes {
					xid += 0x13
					k := cf.kinds[n%len(cf.kinds)]
					n++
					w.send(l, echoCall(xid, k, s))
					if cf.step {
						x.S.Run()
					}
				}
			}
			w.finish(ls...)
		})
	}
	for _, cf := range confs {
		bb := b
		if len(cf.conns)*len(cf.conns[0]) > 2 {
			bb = b - 1
		}
		run(cf, Opts{Bound: bb})
	}
	for _, cf := range confs {
		run(cf, Opts{Bound: b - 2, Lib: true})
	}
	// what failed before must not show later: one failing request, or several,
	// completely first, and then requests at the same time
	type pre struct {
		name string
		recs [][]byte
	}
	mal := call(1, kEcho, nil).bytes()
	notCall := call(2, kEcho, opaque(nil, pattern(24, 1)))
	notCall.Mtype = 1
	pres := []pre{
		{"truncated", [][]byte{mal[:len(mal)-6]}},
		{"empty", [][]byte{{}}},
		{"long and not a call", [][]byte{notCall.bytes()}},
		{"unencodable", [][]byte{echoCall(0x30, kBad, 24)}},
		{"unencodable late", [][]byte{echoCall(0x31, kBadLate, 24)}},
		{"error", [][]byte{echoCall(0x32, kErr, 24)}},
		{"error with result", [][]byte{echoCall(0x33, kErrRes, 24)}},
		{"garbage", [][]byte{call(0x34, kEcho, w32(nil, 500, 1, 2, 3, 4, 5, 6, 7)).bytes()}},
		{"no procedure", [][]byte{func() []byte { k := call(0x35, kEcho, pattern(28, 3)); k.Proc = 777; return k.bytes() }()}},
		{"no version", [][]byte{func() []byte { k := call(0x36, kEcho, pattern(28, 3)); k.Prog, k.Vers = 200, 777; return k.bytes() }()}},
		{"no program", [][]byte{func() []byte { k := call(0x37, kEcho, pattern(28, 3)); k.Prog = 777; return k.bytes() }()}},
		{"denied", [][]byte{func() []byte { k := call(0x38, kEcho, pattern(28, 3)); k.Rpcvers = 3; return k.bytes() }()}},
		{"void", [][]byte{echoCall(0x39, kNull, 24)}},
		{"nothing", [][]byte{echoCall(0x3a, kNil, 24)}},
		{"success", [][]byte{echoCall(0x3b, kEcho, 24)}},
		{"two failures", [][]byte{echoCall(0x3c, kBad, 24), mal[:len(mal)-6]}},
		{"success and failure", [][]byte{echoCall(0x3d, kEcho, 24), echoCall(0x3e, kBad, 24)}},
		{"write fails", nil},
		{"cut", nil},
	}
	pb := 1
	if c.Thor {
		pb = 2
	}
	c.R.Bounds["after failures"] = fmt.Sprintf("%d kinds of failing requests, completely handled, then three requests at once on the same or another connection; up to %d deviations", len(pres), pb)
	for _, same := range []bool{true, false} {
		for _, p := range pres {
			c.explore(fmt.Sprintf("after %s (same connection %v)", p.name, same), Opts{Bound: pb, Split: true, Pool: true, Delay: true}, func(x *X) {
				w := newWorld(x)
				w.std()
				w.yields = 2
				var ls []*link
				l := w.link()
				for _, r := range p.recs {
					w.send(l, r)
					x.S.Run()
				}
				switch p.name {
				case "write fails":
					w.send(l, echoCall(0x3f, kEcho, 24))
					l.c.wfault = func(k int, b []byte) (int, error) {
						if k == 0 {
							return 0, errBoom
						}
						return len(b), nil
					}
					l.outs = nil
					x.S.Run()
				case "cut":
					l.c.in = append(l.c.in, frame(pattern(70, 9))[:30]...)
					l.c.eof = true
					x.S.Run()
				}
				if !same || p.name == "cut" {
					ls = append(ls, l)
					l = w.link()
				}
				for i := 0; i < 3; i++ {
					w.send(l, echoCall(uint32(0x50+i), kKeep, 24))
				}
				w.finish(append(ls, l)...)
			})
		}
	}
	// sizes
	sizes := []int{4, 8, 12, 16, 60, 100, 220, 300, 480, 600, 1100, 2100, 5000, 9000, 17000, 40000, 70000, 140000, 300000, 1100000}
	c.R.Bounds["sizes"] = fmt.Sprintf("arguments of %v bytes, three at once with equal sizes or a small one among them", sizes)
	for _, sz := range sizes {
		o := Opts{Bound: 1, Split: true, Pool: true, Delay: true}
		if sz < 10000 {
			o.Bound = pb + 1
		}
		for _, k := range []kind{kKeep, kTwice} {
			for v, lay := range [][]int{{sz, sz, sz}, {sz, 24, sz}, {24, sz, 24}} {
				oo := o
				if v > 0 || k == kTwice {
					oo.Bound = 1
				}
				c.explore(fmt.Sprintf("size %d (%d, %d)", sz, v, k), oo, func(x *X) {
					w := newWorld(x)
					w.std()
					w.yields = 1
					l := w.link()
					for i, n := range lay {
						w.send(l, echoCall(uint32(0x60+i), k, n))
					}
					w.finish(l)
				})
			}
		}
	}
	// repeated use: many requests, every storage decision
	depth := 6
	if c.Thor {
		depth = 8
	}
	c.R.Bounds["reuse"] = fmt.Sprintf("%d requests, each of two sizes, kept waiting in every combination, with up to 1 deviation", depth)
	c.explore("reuse", Opts{Bound: 1, Split: true, Pool: true, Delay: true}, func(x *X) {
		w := newWorld(x)
		w.std()
		l := w.link()
		for i := 0; i < depth; i++ {
			v := x.Pick(3, 0)
			xid := uint32(0x100 + i)
			size := []int{24, 48, 24}[v]
			k := []kind{kEcho, kEcho, kBlock}[v]
			w.send(l, echoCall(xid, k, size))
			x.S.Run()
		}
		w.relAll = true
		w.finish(l)
	})
}
