package sched

import (
	"fmt"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"

	"verif/mc/vsched"
)

// P19: registrations.
func P19(c *Ctx) {
	ts := []triple{{1, 1, 0}, {1, 1, 1}, {1, 2, 0}, {2, 1, 0}, {1, 0xffffffff, 0}, {0, 0, 0}, {2, 2, 1}}
	if c.Thor {
		ts = append(ts, triple{0xffffffff, 1, 1}, triple{2, 1, 0x80000000})
	}
	depth := 4
	c.R.Bounds["histories"] = fmt.Sprintf("all sequences of up to %d registrations over %d triples (again included), each sequence one by one and in every division into two RegisterMany calls, with requests after every step on an open connection and with the registrations done before; every triple over the numbers used is probed, on a second server too; ranges over maps ascending, and for up to 3 registrations also descending and with the last key first", depth, len(ts))
	nums := []uint32{0, 1, 2, 0xffffffff, 0x80000000}
	var probes []triple
	for _, p := range []uint32{0, 1, 2, 3, 0xffffffff} {
		for _, v := range nums {
			for _, q := range nums {
				probes = append(probes, triple{p, v, q})
			}
		}
	}
	tag := uint32(0)
	c.explore("histories", Opts{Split: true}, func(x *X) {
		mode := x.Pick(4, 0) // 0 one by one, 1 RegisterMany at once, 2 half and half, 3 requests in between
		var seq []triple
		for len(seq) < depth {
			k := x.Pick(len(ts)+1, 0)
			if k == 0 {
				break
			}
			seq = append(seq, ts[k-1])
		}
		order := 0
		if len(seq) <= 3 {
			order = x.Pick(3, 0)
		}
		x.Ch.Freeze()
		vsched.KeyOrder = func(n int) []int {
			o := make([]int, n)
			for i := range o {
				o[i] = []int{i, n - 1 - i, (i + n - 1) % n}[order]
			}
			return o
		}
		a, b := newWorld(x), newWorld(x)
		note := func(w *world, t triple) rfc1057.ProcHandler {
			tag++
			w.h[t] = kTag
			w.tags[t] = tag
			mine := tag
			return func(args *xdr.XdrState) (xdr.Xdrable, error) {
				w.runs[t]++
				if args.Error() != nil {
					return nil, args.Error()
				}
				v := xdr.Uint32(mine)
				return &v, nil
			}
		}
		var links []*link
		var recs func(w *world, l *link)
		recs = func(w *world, l *link) {
			for i, t := range probes {
				k := Call{Xid: uint32(i) + 0x500, Rpcvers: 2, Prog: t.prog, Vers: t.vers, Proc: t.proc}
				w.send(l, k.bytes())
			}
			x.S.Run()
		}
		many := func(w *world, seq []triple) {
			var rs []xdr.ProcRegistration
			for _, t := range seq {
				rs = append(rs, xdr.ProcRegistration{Prog: t.prog, Vers: t.vers, Proc: t.proc, Handler: note(w, t)})
			}
			w.s.RegisterMany(rs)
		}
		one := func(w *world, seq []triple) {
			for _, t := range seq {
				w.s.Register(t.prog, t.vers, t.proc, note(w, t))
			}
		}
		// the second server gets the reverse of half of them
		for i := len(seq) - 1; i >= 0; i -= 2 {
			one(b, seq[i:i+1])
		}
		switch mode {
		case 0:
			one(a, seq)
		case 1:
			many(a, seq)
		case 2:
			h := len(seq) / 2
			one(a, seq[:h])
			many(a, seq[h:])
		case 3:
			l := a.link()
			links = append(links, l)
			for i, t := range seq {
				if i%2 == 0 {
					one(a, []triple{t})
				} else {
					many(a, []triple{t})
				}
				if i < len(seq)-1 {
					recs(a, l)
				}
			}
		}
		l := a.link()
		links = append(links, l)
		recs(a, l)
		m := b.link()
		recs(b, m)
		for _, l := range append(append([]*link{}, links...), m) {
			l.c.eof = true
		}
		if x.ended() {
			a.compare(links...)
			b.compare(m)
		}
	})
	// many registrations
	c.R.Bounds["many"] = "a table of 1000 registrations, each probed, after random-free re-registration of every third"
	c.explore("many", Opts{}, func(x *X) {
		x.Ch.Freeze()
		x.S.Horizon = 1 << 40
		w := newWorld(x)
		l := w.link()
		for round := 0; round < 2; round++ {
			for i := uint32(0); i < 1000; i++ {
				if round == 1 && i%3 != 0 {
					continue
				}
				t := triple{i % 10, i / 10 % 10, i / 100}
				tag++
				w.tags[t] = tag
				w.h[t] = kTag
				w.s.Register(t.prog, t.vers, t.proc, w.handler(t, kTag, tag))
			}
			for i := uint32(0); i < 1331; i++ {
				t := triple{i % 11, i / 11 % 11, i / 121}
				k := Call{Xid: i, Rpcvers: 2, Prog: t.prog, Vers: t.vers, Proc: t.proc}
				w.send(l, k.bytes())
			}
			x.S.Run()
		}
		w.finish(l)
	})
}
