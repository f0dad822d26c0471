package sched

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"verif/mc/vsched"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

type triple struct{ prog, vers, proc uint32 }

// kind is what a registered handler does.
type kind int

const (
	kNull     kind = iota // returns a void result
	kEcho                 // opaque<> -> the same bytes, referring to the request
	kNil                  // returns neither result nor error
	kErr                  // error, no result
	kErrRes               // error and a result
	kBad                  // a result that cannot be encoded
	kBadLate              // a result of which much can be encoded before it fails
	kInc                  // unsigned int -> successor
	kBig                  // a large result
	kSlowEcho             // kEcho, giving way to others while it works
	kBlock                // kEcho, waiting for its release first
	kErrSlow              // kErr, giving way to others
	kTag                  // void -> the registration's tag
	kErrType              // an error whose result is a nil pointer
	kKeep                 // opaque<> -> checks its argument over time, then echoes
	kBadSlow              // kBad, giving way
	kHold                 // kEcho, the result's encoding waiting for its release
	kTwice                // opaque<> -> its second half, then all of it, then its first half, referring to the request
	kinds
)

const bigN = 100000

func bigResult() []byte {
	b := make([]byte, bigN)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

// world is a server together with the model of what it has to do.
type world struct {
	x        *X
	s        *rfc1057.Server
	h        map[triple]kind
	tags     map[triple]uint32
	runs     map[triple]int
	want     map[triple]int
	released map[uint32]bool // by the first word of the argument
	relAll   bool
	started  int
	yields   int
	bad      string
}

func newWorld(x *X) *world {
	return &world{x: x, s: rfc1057.MakeServer(), h: map[triple]kind{}, tags: map[triple]uint32{}, runs: map[triple]int{}, want: map[triple]int{}, released: map[uint32]bool{}, yields: 2}
}

func (w *world) handler(t triple, k kind, tag uint32) rfc1057.ProcHandler {
	return func(args *xdr.XdrState) (xdr.Xdrable, error) {
		w.runs[t]++
		w.started++
		switch k {
		case kNull:
			return &xdr.Void{}, nil
		case kNil:
			return nil, nil
		case kErr:
			return nil, errors.New("rejected")
		case kErrSlow:
			for i := 0; i < w.yields; i++ {
				yield()
			}
			return nil, errors.New("rejected")
		case kErrRes:
			return &Blob{B: []byte("must not be sent")}, errors.New("rejected")
		case kErrType:
			return (*Blob)(nil), errors.New("rejected")
		case kBad:
			return &Bad{Before: 1}, nil
		case kBadSlow:
			for i := 0; i < w.yields; i++ {
				yield()
			}
			return &Bad{Before: 2, Slow: w.yields}, nil
		case kBadLate:
			return &Bad{Before: 5000}, nil
		case kInc:
			var v xdr.Uint32
			v.Xdr(args)
			if err := args.Error(); err != nil {
				return nil, err
			}
			v++
			return &v, nil
		case kTag:
			v := xdr.Uint32(tag)
			return &v, nil
		case kBig:
			return &Blob{B: bigResult()}, nil
		case kEcho, kSlowEcho, kBlock, kHold, kKeep, kTwice:
			b := &Blob{}
			b.Xdr(args)
			if err := args.Error(); err != nil {
				return nil, err
			}
			id := uint32(0)
			if len(b.B) >= 4 {
				id = uint32(b.B[0])<<24 | uint32(b.B[1])<<16 | uint32(b.B[2])<<8 | uint32(b.B[3])
			}
			switch k {
			case kSlowEcho:
				for i := 0; i < w.yields; i++ {
					yield()
				}
				b.Slow = 1
			case kBlock:
				vsched.Wait(func() bool { return w.relAll || w.released[id] })
			case kHold:
				passed := false
				b.Hold = func() bool {
					if w.relAll {
						return true
					}
					if w.released[id] && !passed {
						passed = true
						return true
					}
					return false
				}
			case kTwice:
				n := len(b.B) / 2
				yield()
				return &Blobs{{B: b.B[n:], Slow: 1}, {B: b.B}, {B: b.B[:n], Slow: 1}}, nil
			case kKeep:
				snap := append([]byte{}, b.B...)
				for i := 0; i < w.yields; i++ {
					yield()
					if !bytes.Equal(b.B, snap) && w.bad == "" {
						w.bad = fmt.Sprintf("the argument of a running handler changed from %s to %s", hex(snap), hex(b.B))
					}
				}
				b.Slow = w.yields
			}
			return b, nil
		}
		panic("unknown kind")
	}
}

func (w *world) reg(t triple, k kind) {
	w.h[t] = k
	w.s.Register(t.prog, t.vers, t.proc, w.handler(t, k, 0))
}

// std registers one handler of every kind.
func (w *world) std() {
	for k := kNull; k < kinds; k++ {
		w.reg(triple{100, 2, uint32(k)}, k)
	}
	w.reg(triple{100, 5, uint32(kEcho)}, kEcho)
	w.reg(triple{100, 9, uint32(kInc)}, kInc)
	w.reg(triple{200, 0, 0}, kEcho)
	w.reg(triple{0, 7, 0xffffffff}, kEcho)
	w.reg(triple{0xffffffff, 0xffffffff, 0}, kEcho)
	w.reg(triple{0xffffffff, 0x80000000, 1}, kNull)
}

// parseCall reads a call strictly; ok is false if it is not a well-formed call.
func parseCall(b []byte) (c Call, ok bool) {
	r := &rd{b: b}
	c.Xid, c.Mtype = r.u32(), r.u32()
	if r.err != nil || c.Mtype != 0 {
		return c, false
	}
	c.Rpcvers, c.Prog, c.Vers, c.Proc = r.u32(), r.u32(), r.u32(), r.u32()
	c.CredFlavor = r.u32()
	c.Cred = r.opaque(400)
	c.VerfFlavor = r.u32()
	c.Verf = r.opaque(400)
	c.Args = r.b
	return c, r.err == nil
}

// outcome of one record.
type outcome struct {
	none  bool  // no reply at all
	maybe bool  // no reply, or a complete one that is not a success
	r     Reply // the reply
}

func (w *world) outcome(rec []byte) outcome {
	c, ok := parseCall(rec)
	if !ok {
		return outcome{none: true}
	}
	r := Reply{Xid: c.Xid}
	if c.Rpcvers != 2 {
		r.Stat, r.Low, r.High = 1, 2, 2
		return outcome{r: r}
	}
	prog := false
	first := true
	var lo, hi uint32
	vers := false
	for t := range w.h {
		if t.prog != c.Prog {
			continue
		}
		prog = true
		vers = vers || t.vers == c.Vers
		if first || t.vers < lo {
			lo = t.vers
		}
		if first || t.vers > hi {
			hi = t.vers
		}
		first = false
	}
	t := triple{c.Prog, c.Vers, c.Proc}
	k, reg := w.h[t]
	switch {
	case !prog:
		r.Accept = 1
		return outcome{r: r}
	case !vers:
		r.Accept, r.Low, r.High = 2, lo, hi
		return outcome{r: r}
	case !reg:
		r.Accept = 3
		return outcome{r: r}
	}
	w.want[t]++
	a := &rd{b: c.Args}
	switch k {
	case kNull, kNil:
	case kErr, kErrRes, kErrSlow, kErrType:
		r.Accept = 4
	case kBad, kBadLate, kBadSlow:
		return outcome{maybe: true, r: r}
	case kInc:
		v := a.u32()
		if a.err != nil {
			r.Accept = 4
		} else {
			r.Results = string(w32(nil, v+1))
		}
	case kTag:
		r.Results = string(w32(nil, w.tags[t]))
	case kBig:
		r.Results = string(opaque(nil, bigResult()))
	case kTwice:
		b := a.opaque(1 << 30)
		if a.err != nil {
			r.Accept = 4
		} else {
			n := len(b) / 2
			r.Results = string(opaque(opaque(opaque(nil, b[n:]), b), b[:n]))
		}
	default:
		b := a.opaque(1 << 30)
		if a.err != nil {
			r.Accept = 4
		} else {
			r.Results = string(opaque(nil, b))
		}
	}
	return outcome{r: r}
}

// serving is one Run of the server.
type serving struct {
	c    *Conn
	err  error
	done bool
}

func (w *world) serve(c *Conn) *serving {
	s := &serving{c: c}
	w.x.Go("Server.Run", func() {
		s.err = w.s.Run(c)
		s.done = true
	})
	return s
}

// match compares the replies on a stream with the outcomes of its records;
// ordered: the i-th reply has to be that of the i-th record.
func match(stream []byte, outs []outcome) string {
	got, err := replies(stream)
	if err != nil {
		return fmt.Sprintf("the reply stream is not a sequence of whole, well-formed replies: %v\nstream %s", err, hex(stream))
	}
	used := make([]bool, len(got))
	var missing []string
	lo := 0
	for _, o := range outs {
		if o.none || o.maybe {
			continue
		}
		for lo < len(got) && used[lo] {
			lo++
		}
		found := false
		for i := lo; i < len(got); i++ {
			if g := got[i]; !used[i] && g == o.r {
				used[i], found = true, true
				break
			}
		}
		if !found {
			missing = append(missing, o.r.String())
		}
	}
	for _, o := range outs {
		if !o.maybe {
			continue
		}
		for i, g := range got {
			if !used[i] && g.Xid == o.r.Xid && !(g.Stat == 0 && g.Accept == 0) {
				used[i] = true
				break
			}
		}
	}
	var extra []string
	for i, g := range got {
		if !used[i] {
			extra = append(extra, g.String())
		}
	}
	if len(missing)+len(extra) > 0 {
		return fmt.Sprintf("replies missing: %s; replies not expected: %s", list(missing), list(extra))
	}
	return ""
}

func list(s []string) string {
	if len(s) == 0 {
		return "none"
	}
	if len(s) > 8 {
		return strings.Join(s[:8], ", ") + fmt.Sprintf(", ... (%d)", len(s))
	}
	return strings.Join(s, ", ")
}

func (w *world) checkRuns() string {
	if w.bad != "" {
		return w.bad
	}
	var ts []triple
	for t := range w.runs {
		ts = append(ts, t)
	}
	for t := range w.want {
		if w.runs[t] == 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return fmt.Sprint(ts[i]) < fmt.Sprint(ts[j]) })
	for _, t := range ts {
		if w.runs[t] != w.want[t] {
			return fmt.Sprintf("the handler of %v ran %d times, expected %d", t, w.runs[t], w.want[t])
		}
	}
	return ""
}

// link is a connection with the records sent on it.
type link struct {
	c    *Conn
	s    *serving
	outs []outcome
}

func (w *world) link(recs ...[]byte) *link {
	l := &link{c: w.x.conn(nil)}
	l.s = w.serve(l.c)
	w.send(l, recs...)
	return l
}

// send appends records to what the server can read.
func (w *world) send(l *link, recs ...[]byte) {
	for _, r := range recs {
		l.c.in = append(l.c.in, frame(r)...)
		l.outs = append(l.outs, w.outcome(r))
	}
}

// finish ends the streams, lets everything run and compares.
func (w *world) finish(ls ...*link) {
	x := w.x
	x.S.Run()
	for _, l := range ls {
		l.c.eof = true
	}
	if x.ended() {
		w.compare(ls...)
	}
}

func (x *X) ended() bool {
	if !x.S.Run() {
		x.Fail("stuck", "not everything ended after the peer stopped sending: %s", list(x.S.Unfinished()))
		return false
	}
	return true
}

func (w *world) compare(ls ...*link) {
	x := w.x
	var obs strings.Builder
	for i, l := range ls {
		if !l.s.done {
			x.Fail("serving", "serving connection %d has not ended", i)
			return
		}
		if l.s.err == nil {
			x.Fail("serving", "serving connection %d ended without an error", i)
			return
		}
		if m := match(l.c.out, l.outs); m != "" {
			x.Fail("replies", "connection %d: %s", i, m)
			return
		}
		got, _ := replies(l.c.out)
		fmt.Fprintf(&obs, "conn %d:", i)
		for _, g := range got {
			fmt.Fprintf(&obs, " %x/%d/%d/%s", g.Xid, g.Stat, g.Accept, short16(g.Results))
		}
	}
	if m := w.checkRuns(); m != "" {
		x.Fail("runs", "%s", m)
	}
	x.Observe(obs.String())
}

func short16(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%x..%d", s[:16], len(s))
	}
	return fmt.Sprintf("%x", s)
}

// call makes a well-formed call of the standard server.
func call(xid uint32, k kind, args []byte) Call {
	return Call{Xid: xid, Rpcvers: 2, Prog: 100, Vers: 2, Proc: uint32(k), Args: args}
}

func pattern(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i*3)
	}
	return b
}

// echoCall is a call of an echoing handler with an n-byte argument that starts
// with the xid.
func echoCall(xid uint32, k kind, n int) []byte {
	b := pattern(n, byte(xid)*17+1)
	if n >= 4 {
		copy(b, w32(nil, xid))
	}
	return call(xid, k, opaque(nil, b)).bytes()
}
