package sched

import "fmt"

// P15: concurrent requests on one and several connections.
func P15(c *Ctx) {
	type req func(xid uint32) []byte
	echo := func(n int) req { return func(xid uint32) []byte { return echoCall(xid, kEcho, n) } }
	slow := func(n int) req { return func(xid uint32) []byte { return echoCall(xid, kSlowEcho, n) } }
	kindOf := func(k kind) req { return func(xid uint32) []byte { return call(xid, k, nil).bytes() } }
	inc := func(xid uint32) []byte { return call(xid, kInc, w32(nil, xid<<8)).bytes() }
	// a program with one version: the order in which Go visits a map is not ours
	badVers := func(xid uint32) []byte { k := call(xid, kNull, nil); k.Prog, k.Vers = 200, 77; return k.bytes() }
	badProg := func(xid uint32) []byte { k := call(xid, kNull, nil); k.Prog = 77; return k.bytes() }
	badProc := func(xid uint32) []byte { k := call(xid, kNull, nil); k.Proc = 77; return k.bytes() }
	badRpc := func(xid uint32) []byte { k := call(xid, kNull, nil); k.Rpcvers = 77; return k.bytes() }

	type conf struct {
		name  string
		conns [][]req
		split map[int]bool
		early bool // the peers stop sending at once
	}
	confs := []conf{
		{name: "same echo", conns: [][]req{{echo(8), echo(8)}}},
		{name: "slow echo", conns: [][]req{{slow(8), slow(8)}}},
		{name: "sizes", conns: [][]req{{slow(40), echo(4)}}},
		{name: "success and garbage", conns: [][]req{{slow(8), kindOf(kErrSlow)}}},
		{name: "success and version", conns: [][]req{{slow(8), badVers}}},
		{name: "success and program", conns: [][]req{{inc, badProg}}},
		{name: "version and program", conns: [][]req{{badVers, badProg}}},
		{name: "success and procedure", conns: [][]req{{badProc, inc}}},
		{name: "success and denied", conns: [][]req{{badRpc, inc}}},
		{name: "success and unencodable", conns: [][]req{{kindOf(kBadSlow), slow(8)}}},
		{name: "error with result and success", conns: [][]req{{kindOf(kErrRes), slow(8)}}},
		{name: "two numbers", conns: [][]req{{inc, inc}}},
		{name: "two connections", conns: [][]req{{slow(8)}, {slow(8)}}},
		{name: "two connections, mixed", conns: [][]req{{inc}, {badVers}}},
		{name: "two connections, unencodable", conns: [][]req{{kindOf(kBadSlow)}, {slow(12)}}},
		{name: "end while working", conns: [][]req{{slow(8), inc}}, early: true},
		{name: "two connections, end while working", conns: [][]req{{slow(8)}, {inc}}, early: true},
	}
	more := []conf{
		{name: "three echoes", conns: [][]req{{slow(8), slow(8), slow(8)}}},
		{name: "three kinds", conns: [][]req{{slow(12), kindOf(kErrSlow), badVers}}},
		{name: "three numbers", conns: [][]req{{inc, inc, inc}}},
		{name: "two and one", conns: [][]req{{slow(8), inc}, {slow(8)}}},
		{name: "two and two", conns: [][]req{{inc, kindOf(kErrRes)}, {slow(8), badProg}}},
		{name: "three connections", conns: [][]req{{slow(8)}, {inc}, {slow(8)}}},
		{name: "four requests", conns: [][]req{{inc, slow(4), badVers, kindOf(kErrSlow)}}},
		{name: "four and end", conns: [][]req{{inc, slow(4)}, {slow(4), inc}}, early: true},
	}
	run := func(cf conf, o Opts) {
		o.Split = true
		c.explore(fmt.Sprintf("%s (bound %d, library %v)", cf.name, o.Bound, o.Lib), o, func(x *X) {
			w := newWorld(x)
			w.std()
			w.yields = 1
			var ls []*link
			xid := uint32(0x10)
			for _, rs := range cf.conns {
				l := w.link()
				for _, r := range rs {
					xid += 0x11
					w.send(l, r(xid))
				}
				l.c.splits = cf.split
				l.c.eof = cf.early
				ls = append(ls, l)
			}
			w.finish(ls...)
		})
	}
	b := 2
	if c.Thor {
		b = 3
	}
	c.R.Bounds["schedules"] = fmt.Sprintf("%d configurations of two requests with every schedule of up to %d preemptions at statements of the server and inside Write; %d configurations of three and four requests with up to %d; all with preemptions inside the XDR runtime and codecs too, up to %d", len(confs), b, len(more), b-1, b-1)
	for _, cf := range confs {
		run(cf, Opts{Bound: b})
	}
	for _, cf := range more {
		run(cf, Opts{Bound: b, Delay: true})
	}
	for _, cf := range append(append([]conf{}, confs...), more...) {
		run(cf, Opts{Bound: b - 1, Lib: true, Pool: true, Delay: true})
	}

	// One or two replies are held up while many others are made.
	ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258}
	c.R.Bounds["held up"] = fmt.Sprintf("one or two replies held up before or halfway through their Write or the encoding of their result, while %v other requests, on the same and on 1 or 7 other connections, come at once or one by one, with replies of equal and of different lengths", ns)
	c.explore("held up", Opts{Split: true}, func(x *X) {
		n := ns[x.Pick(len(ns), 0)]
		nc := []int{1, 2, 8}[x.Pick(3, 0)]
		where := x.Pick(4, 0)
		two := x.Pick(2, 0) == 1
		step := x.Pick(2, 0) == 1
		sizes := x.Pick(3, 0)
		x.Ch.Freeze()
		x.S.Horizon = 1 << 40
		w := newWorld(x)
		w.std()
		free := false
		var ls []*link
		for i := 0; i < nc; i++ {
			ls = append(ls, w.link())
		}
		held := 1
		if two {
			held = 2
		}
		k := kEcho
		if where < 2 {
			for i := 0; i < held; i++ {
				ls[i%nc].c.hold = func(k, part int) bool { return free || k > 0 || part != where }
			}
		} else {
			k = kHold
		}
		size := func(i int) int {
			switch sizes {
			case 1:
				return 4 + 40*(i%7)
			case 2:
				return 2000 - 4*i
			}
			return 12
		}
		// the held up ones
		for i := 0; i < held; i++ {
			w.send(ls[i%nc], echoCall(uint32(0x100+i), k, size(i)))
		}
		x.S.Run()
		if where == 3 {
			// past the first wait, at the second one
			for i := 0; i < held; i++ {
				w.released[uint32(0x100+i)] = true
			}
			x.S.Run()
		}
		for i := 0; i < n; i++ {
			w.send(ls[(i+nc-1)%nc], echoCall(uint32(0x1000+i), kEcho, size(i+held)))
			if step {
				x.S.Run()
			}
		}
		x.S.Run()
		free, w.relAll = true, true
		w.finish(ls...)
	})
}
