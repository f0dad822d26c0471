package sched

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime/debug"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// framed is the reference reading of the record marking: the records that may
// be executed of a byte stream.
func framed(b []byte) [][]byte {
	var out [][]byte
	for len(b) >= 4 {
		h := binary.BigEndian.Uint32(b)
		if h>>31 == 0 {
			break
		}
		n := int(h & 0x7fffffff)
		if n > len(b)-4 {
			break
		}
		out = append(out, b[4:4+n])
		b = b[4+n:]
	}
	return out
}

// modest clears the upper bits of headers that announce gigabytes.
func modest(b []byte) []byte {
	for at := 0; at+4 <= len(b); {
		h := binary.BigEndian.Uint32(b[at:])
		if h&0x7fffffff > 1<<26 {
			h &^= 0x7c000000
			binary.BigEndian.PutUint32(b[at:], h)
		}
		at += 4 + int(h&0x7fffffff)
	}
	return b
}

// P14: record framing.
func P14(c *Ctx) {
	// raw serves a byte stream delivered in the given way.
	raw := func(x *X, stream []byte, setup func(*Conn)) {
		w := newWorld(x)
		w.std()
		l := &link{c: x.conn(stream)}
		l.c.eof = true
		if setup != nil {
			setup(l.c)
		}
		for _, r := range framed(stream) {
			l.outs = append(l.outs, w.outcome(r))
		}
		l.s = w.serve(l.c)
		if !x.S.Run() {
			x.Fail("stuck", "serving a stream that ended has not ended: %s", list(x.S.Unfinished()))
			return
		}
		w.compare(l)
	}
	recs := [][]byte{
		echoCall(1, kEcho, 13),
		call(2, kNull, nil).bytes(),
		echoCall(3, kEcho, 40),
	}
	if c.Thor {
		k := echoCall(4, kEcho, 8)
		recs = append(recs, k, call(5, kInc, w32(nil, 7)).bytes())
	}
	var stream []byte
	var starts []int
	for _, r := range recs {
		starts = append(starts, len(stream))
		stream = append(stream, frame(r)...)
	}
	n := len(stream)
	boom := errors.New("connection reset")

	c.R.Bounds["splits"] = fmt.Sprintf("a stream of %d records and %d bytes: every pair of split positions, every chunk size, empty reads at every position, the end with and after the last bytes", len(recs), n)
	c.explore("splits", Opts{Split: true}, func(x *X) {
		a, b := x.Pick(n, 0), 0
		if a > 0 {
			b = x.Pick(a, 0)
		}
		last := x.Pick(2, 0) == 1
		x.Ch.Freeze()
		raw(x, append([]byte{}, stream...), func(k *Conn) {
			k.splits = map[int]bool{a: true, b: true}
			k.eofNow = last
		})
	})
	c.explore("chunks", Opts{Split: true}, func(x *X) {
		size := 1 + x.Pick(n, 0)
		off := x.Pick(size, 0)
		x.Ch.Freeze()
		raw(x, append([]byte{}, stream...), func(k *Conn) {
			k.splits = map[int]bool{}
			for i := off; i < n; i += size {
				k.splits[i] = true
			}
		})
	})
	c.explore("empty reads", Opts{Split: true}, func(x *X) {
		a := x.Pick(n, 0)
		x.Ch.Freeze()
		raw(x, append([]byte{}, stream...), func(k *Conn) {
			k.splits = map[int]bool{a: true}
			k.zeros = map[int]bool{a: true, 0: true}
		})
	})
	// broken runs the scenarios in which the stream is not as it should be.
	broken := func(tag string, step int, recs [][]byte) {
		var stream []byte
		var starts []int
		for _, r := range recs {
			starts = append(starts, len(stream))
			stream = append(stream, frame(r)...)
		}
		n := len(stream)
		c.R.Bounds["cuts"] = "the stream ended at every byte, by end of file or another error, together with or after the last bytes, with one more split anywhere before"
		c.explore("cuts"+tag, Opts{Split: true}, func(x *X) {
			cut := x.Pick(n+1, 0)
			with := x.Pick(2, 0) == 1
			other := x.Pick(2, 0) == 1
			split := 0
			if cut > 0 {
				split = step * x.Pick((cut+step-1)/step, 0)
			}
			x.Ch.Freeze()
			raw(x, append([]byte{}, stream[:cut]...), func(k *Conn) {
				k.eofNow = with
				k.splits = map[int]bool{split: true}
				if other {
					k.rerr = boom
				}
			})
		})
		c.R.Bounds["passing failures"] = "one read failing before every byte, with one more split anywhere before, and the rest of the stream readable afterwards"
		c.explore("passing failures"+tag, Opts{Split: true}, func(x *X) {
			at := x.Pick(n, 0)
			split := 0
			if at > 0 {
				split = step * x.Pick((at+step-1)/step, 0)
			}
			x.Ch.Freeze()
			w := newWorld(x)
			w.std()
			l := &link{c: x.conn(append([]byte{}, stream...))}
			l.c.eof = true
			l.c.splits = map[int]bool{split: true}
			l.c.fails = map[int]error{at: boom}
			l.s = w.serve(l.c)
			if !x.S.Run() {
				x.Fail("stuck", "serving a stream whose reading failed has not ended: %s", list(x.S.Unfinished()))
				return
			}
			// all records before the failure; or all of them, if it reads on
			rs := framed(stream[:at])
			if got, err := replies(l.c.out); err == nil && len(got) > len(rs) {
				rs = recs
			}
			for _, r := range rs {
				l.outs = append(l.outs, w.outcome(r))
			}
			w.compare(l)
		})
		c.R.Bounds["headers"] = "each record header replaced by every length from 0 to the true length + 20 and selected others, with and without the last-fragment bit, and each of its 32 bits flipped"
		c.explore("headers"+tag, Opts{Split: true}, func(x *X) {
			i := x.Pick(len(recs), 0)
			l := len(recs[i])
			var h uint32
			extra := []uint32{uint32(n), uint32(n - starts[i] - 4), uint32(n-starts[i]) - 3, 0xffff, 0x10000, 0x100000, 0xffffff}
			k := x.Pick(l+21+len(extra)+32, 0)
			switch {
			case k <= l+20:
				h = uint32(k)
			case k <= l+20+len(extra):
				h = extra[k-l-21]
			default:
				h = 1<<31 | uint32(l)
				h ^= 1 << (k - l - 21 - len(extra))
			}
			if k <= l+20+len(extra) && x.Pick(2, 0) == 0 {
				h |= 1 << 31
			}
			x.Ch.Freeze()
			s := append([]byte{}, stream...)
			binary.BigEndian.PutUint32(s[starts[i]:], h)
			raw(x, modest(s), nil)
		})
		c.R.Bounds["fragments"] = "each record sent as every division into two fragments, before, between and after complete records"
		c.explore("fragments"+tag, Opts{Split: true}, func(x *X) {
			i := x.Pick(len(recs), 0)
			at := x.Pick(len(recs[i])+1, 0)
			x.Ch.Freeze()
			var s []byte
			for j, r := range recs {
				if j != i {
					s = append(s, frame(r)...)
					continue
				}
				s = append(s, w32(nil, uint32(at))...)
				s = append(s, r[:at]...)
				s = append(s, frame(r[at:])...)
			}
			raw(x, s, nil)
		})
	}
	broken("", 1, recs)
	// records with whole records inside, which are not to be taken for records
	null := frame(call(0x51, kNull, nil).bytes())
	broken(", records inside", 4, [][]byte{
		call(6, kEcho, opaque(nil, cat(null, frame(echoCall(0x52, kEcho, 8)), null))).bytes(),
		call(7, kEcho, opaque(nil, cat(null, null))).bytes(),
	})
	// sizes around buffer sizes, one after the other so that storage is reused
	sizes := []int{0, 1, 4, 60, 900, 4000, 4096, 5000, 66000}
	depth := 3
	if c.Thor {
		depth = 4
	}
	c.R.Bounds["sizes"] = fmt.Sprintf("all sequences of %d records with argument sizes %v, sent together and one by one; reuse of request storage both ways", depth, sizes)
	c.explore("sizes", Opts{Split: true, Bound: 1, Pool: true}, func(x *X) {
		w := newWorld(x)
		w.std()
		step := x.Pick(2, 0) == 1
		var rs [][]byte
		for i := 0; i < depth; i++ {
			rs = append(rs, echoCall(uint32(i+1), kEcho, sizes[x.Pick(len(sizes), 0)]))
		}
		if !step {
			x.Ch.Freeze()
		}
		l := w.link()
		l.c.whole = true
		for _, r := range rs {
			w.send(l, r)
			if step {
				x.S.Run()
			}
		}
		x.Ch.Freeze()
		w.finish(l)
	})
	// large records in chunks of usual transport sizes
	c.explore("large", Opts{Split: true}, func(x *X) {
		big := []int{65536, 131072, 1 << 20, 1<<20 + 3}[x.Pick(4, 0)]
		chunk := []int{1, 1448, 4096, 65536, 1 << 20}[x.Pick(5, 0)]
		if chunk == 1 && big > 131072 {
			chunk = 517
		}
		x.Ch.Freeze()
		s := cat(frame(echoCall(1, kEcho, 5)), frame(echoCall(2, kEcho, big)), frame(echoCall(3, kEcho, 50)))
		raw(x, s, func(k *Conn) {
			k.splits = map[int]bool{}
			for i := chunk; i < len(s); i += chunk {
				k.splits[i] = true
			}
			k.whole = true
		})
	})
	// lengths that need the upper bits of a header
	huge := []int{1<<22 + 1, 1<<24 - 28, 1<<24 - 24, 1 << 24, 1<<25 + 2, 1<<26 + 5}
	if c.Thor {
		huge = append(huge, 1<<27+1, 1<<28+3)
	}
	c.R.Bounds["huge"] = fmt.Sprintf("a call with arguments and results of each of %v bytes between two small ones", huge)
	c.explore("huge", Opts{Split: true, Big: true}, func(x *X) {
		big := huge[x.Pick(len(huge), 0)]
		x.Ch.Freeze()
		raw(x, cat(frame(echoCall(1, kEcho, 5)), frame(echoCall(2, kEcho, big)), frame(echoCall(3, kEcho, 50))), func(k *Conn) {
			k.splits = map[int]bool{}
			k.whole = true
		})
	})
	c.R.Bounds["longest"] = "results that make a reply of 2^31-4 bytes (sent) and of 2^31 bytes (not sent), then another call"
	c.explore("longest", Opts{Big: true}, func(x *X) {
		over := x.Pick(2, 0) == 1
		x.Ch.Freeze()
		n := 1<<31 - 4 - 28
		if over {
			n += 4
		}
		s := rfc1057.MakeServer()
		s.Register(100, 2, 1, func(*xdr.XdrState) (xdr.Xdrable, error) { return &Blob{B: make([]byte, n)}, nil })
		t := &sink{in: frame(call(9, 1, nil).bytes()), read: true}
		var err error
		done := false
		x.Go("Server.Run", func() { err, done = s.Run(t), true })
		if !x.S.Run() || !done || err == nil {
			x.Fail("stuck", "serving has not ended with an error: %s, %v", list(x.S.Unfinished()), err)
			return
		}
		want := w32(nil, 1<<32-4, 9, 1, 0, 0, 0, 0, uint32(n))
		switch {
		case over && t.n > 0:
			x.Fail("too long", "a result of %d bytes gives a reply of %d bytes: %s", n, t.n, hex(t.head))
		case !over && (t.n != 1<<31 || !bytes.HasPrefix(t.head, want)):
			x.Fail("longest", "a result of %d bytes gives a reply of %d bytes: %s", n, t.n, hex(t.head))
		}
		debug.FreeOSMemory()
	})
	// and under schedules: readers and handlers interleaved
	b := 1
	if c.Thor {
		b = 2
	}
	c.R.Bounds["schedules"] = fmt.Sprintf("three records split inside the header and the payload, up to %d preemptions", b)
	c.explore("schedules", Opts{Split: true, Bound: b}, func(x *X) {
		raw(x, append([]byte{}, stream...), func(k *Conn) {
			k.splits = map[int]bool{2: true, 30: true, starts[1] + 1: true, starts[2] + 5: true}
		})
	})
}
