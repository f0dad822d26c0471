package sched

import (
	"fmt"

	"verif/mc/vsched"
)

// P17: blocked handlers.
func P17(c *Ctx) {
	b := 2
	if c.Thor {
		b = 3
	}
	// layouts of n requests on connections
	layouts := [][]int{{3}, {2, 1}, {1, 2}, {1, 1, 1}, {4}, {2, 2}}
	c.R.Bounds["blocked"] = fmt.Sprintf("every subset of blocked handlers among 3 and 4 requests on 1 to 3 connections; other requests succeed, are refused or fail; release of all at once or one by one in either order, the peer having stopped sending or not; up to %d deviations from the default schedule, %d with others and release fixed", b-1, b)
	others := []kind{kEcho, kInc, kErr, kBad, kNull}
	run := func(li int, lay []int, reduced bool) {
		total := 0
		for _, n := range lay {
			total += n
		}
		bb := b - 1
		if reduced {
			bb = b
		}
		if total > 3 {
			bb--
		}
		c.explore(fmt.Sprintf("layout %d (bound %d, reduced %v)", li, bb, reduced), Opts{Bound: bb, Split: true, Delay: true}, func(x *X) {
			w := newWorld(x)
			w.std()
			mask := 1 + x.Pick(1<<total-1, 0)
			early := x.Pick(2, 0) == 1
			late := x.Pick(2, 0) == 1 // the other requests come once the blocked ones wait
			o := 0
			if !reduced {
				o = x.Pick(len(others), 0)
			}
			var ls []*link
			var blocked []uint32
			for range lay {
				ls = append(ls, w.link())
			}
			type pend struct {
				l   int
				rec []byte
			}
			var first, second []pend
			k := 0
			for i, n := range lay {
				for j := 0; j < n; j++ {
					xid := uint32(0x1000 + k)
					if mask>>k&1 == 1 {
						first = append(first, pend{i, echoCall(xid, kBlock, 12)})
						blocked = append(blocked, xid)
					} else {
						kk := others[(o+k)%len(others)]
						rec := call(xid, kk, w32(nil, xid)).bytes()
						if kk == kEcho {
							rec = echoCall(xid, kEcho, 12)
						}
						second = append(second, pend{i, rec})
					}
					k++
				}
			}
			order := append(append([]pend{}, first...), second...)
			if !late {
				// as they come
				order = order[:0]
				fi, si := 0, 0
				for q := 0; q < total; q++ {
					if mask>>q&1 == 1 {
						order = append(order, first[fi])
						fi++
					} else {
						order = append(order, second[si])
						si++
					}
				}
			}
			isBlocked := map[uint32]bool{}
			for _, id := range blocked {
				isBlocked[id] = true
			}
			for i, p := range order {
				w.send(ls[p.l], p.rec)
				if late && i == len(first)-1 {
					x.S.Run()
				}
			}
			if early {
				for _, l := range ls {
					l.c.eof = true
				}
			}
			x.S.Run()
			// everything but the blocked ones must have been answered
			check := func(when string) bool {
				for i, l := range ls {
					var outs []outcome
					for _, u := range l.outs {
						if !isBlocked[u.r.Xid] {
							outs = append(outs, u)
						}
					}
					if m := match(l.c.out, outs); m != "" {
						x.Fail("delayed", "%s, connection %d: %s", when, i, m)
						return false
					}
				}
				return true
			}
			if w.started != len(order) {
				x.Fail("not started", "while %d handlers are blocked only %d of %d requests have reached their handlers", len(blocked), w.started, len(order))
				return
			}
			if !check(fmt.Sprintf("while %d handlers are blocked", len(blocked))) {
				return
			}
			how := 0
			if !reduced {
				how = x.Pick(3, 0)
			}
			switch how {
			case 0:
				w.relAll = true
			case 1:
				for _, id := range blocked {
					w.released[id] = true
					delete(isBlocked, id)
					x.S.Run()
					if !check(fmt.Sprintf("after the release of %#x", id)) {
						return
					}
				}
			case 2:
				for i := len(blocked) - 1; i >= 0; i-- {
					w.released[blocked[i]] = true
					delete(isBlocked, blocked[i])
					x.S.Run()
					if !check(fmt.Sprintf("after the release of %#x", blocked[i])) {
						return
					}
				}
			}
			w.finish(ls...)
		})
	}
	for i, lay := range layouts {
		run(i, lay, false)
		run(i, lay, true)
	}
	// many blocked handlers
	ns := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2049, 4097, 8193, 10001, 16385, 32769, 65537}
	if c.Thor {
		ns = append(ns, 20001, 50001, 100001, 131073)
	}
	c.R.Bounds["many"] = fmt.Sprintf("%v handlers blocked at once on one, two and eight connections, then one more request", ns)
	c.explore("many", Opts{Split: true}, func(x *X) {
		n := ns[x.Pick(len(ns), 0)]
		nc := []int{1, 2, 8}[x.Pick(3, 0)]
		x.Ch.Freeze()
		x.S.Horizon = 1 << 40
		vsched.Coarse = n > 2000
		w := newWorld(x)
		w.std()
		var ls []*link
		for i := 0; i < nc; i++ {
			ls = append(ls, w.link())
		}
		for i := 0; i < n; i++ {
			w.send(ls[i%nc], echoCall(uint32(i), kBlock, 12))
		}
		x.S.Run()
		var last []int
		for i, l := range ls {
			last = append(last, len(l.c.out))
			w.send(l, echoCall(uint32(1<<20+i), kEcho, 12))
		}
		x.S.Run()
		for i, l := range ls {
			o := l.outs[len(l.outs)-1]
			if m := match(l.c.out[last[i]:], []outcome{o}); m != "" {
				x.Fail("delayed", "while %d handlers are blocked, connection %d of %d: %s", n, i, nc, m)
				return
			}
		}
		w.relAll = true
		w.finish(ls...)
	})
}
