package sched

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime/debug"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"

	"verif/mc/vsched"
)

// peer is the client's transport: what is written is collected, and once a
// whole record has been written answer makes the bytes that can be read.
type peer struct {
	written []byte
	taken   int // of written, already answered
	in      []byte
	calls   [][]byte
	answer  func(rec []byte) []byte
	wfault  func(k int, p []byte) (int, error)
	rfault  func(pos int) error // error before the byte at pos
	chunk   int                 // largest read
	endNow  bool
	rerr    error
	writes  int
	reads   int
	pos     int
}

func (t *peer) Write(p []byte) (int, error) {
	k := t.writes
	t.writes++
	n, err := len(p), error(nil)
	if t.wfault != nil {
		n, err = t.wfault(k, p)
	}
	t.written = append(t.written, p[:n]...)
	for {
		b := t.written[t.taken:]
		if len(b) < 4 {
			break
		}
		l := int(binary.BigEndian.Uint32(b) & 0x7fffffff)
		if len(b)-4 < l {
			break
		}
		rec := b[4 : 4+l]
		t.taken += 4 + l
		t.calls = append(t.calls, rec)
		if t.answer != nil {
			t.in = append(t.in, t.answer(rec)...)
		}
	}
	return n, err
}

func (t *peer) Read(p []byte) (int, error) {
	t.reads++
	if len(p) == 0 {
		return 0, nil
	}
	end := t.rerr
	if end == nil {
		end = io.EOF
	}
	n := len(p)
	if t.chunk > 0 && n > t.chunk {
		n = t.chunk
	}
	if n > len(t.in) {
		n = len(t.in)
	}
	if t.rfault != nil {
		for i := 0; i < n; i++ {
			if err := t.rfault(t.pos + i); err != nil {
				if i == 0 {
					return 0, err
				}
				n = i
				break
			}
		}
	}
	if n == 0 {
		return 0, end
	}
	copy(p, t.in[:n])
	t.in = t.in[n:]
	t.pos += n
	if len(t.in) == 0 && t.endNow {
		return n, end
	}
	return n, nil
}

// resKind is a type of result a caller asks for.
type resKind struct {
	name string
	mk   func() xdr.Xdrable
	wire []byte
	ok   func(r []byte) (v string, ok bool) // reference decoding
	show func(x xdr.Xdrable) string
	lax  func(r []byte) bool // other values than RFC 4506 allows
}

type pair struct {
	A xdr.Uint32
	B Blob
	P *xdr.Uint64
}

func (p *pair) Xdr(xs *xdr.XdrState) {
	p.A.Xdr(xs)
	p.B.Xdr(xs)
	some := xdr.Bool(p.P != nil)
	some.Xdr(xs)
	if some {
		if xs.Decoding() {
			p.P = new(xdr.Uint64)
		}
		if p.P != nil {
			p.P.Xdr(xs)
		}
	} else {
		p.P = nil
	}
}

func resKinds() []resKind {
	return []resKind{
		{"unsigned int", func() xdr.Xdrable { v := xdr.Uint32(0xdeaddead); return &v }, w32(nil, 0x0a0b0c0d),
			func(b []byte) (string, bool) { r := &rd{b: b}; v := r.u32(); return fmt.Sprint(v), r.err == nil },
			func(x xdr.Xdrable) string { return fmt.Sprint(uint32(*x.(*xdr.Uint32))) }, nil},
		{"void", func() xdr.Xdrable { return &xdr.Void{} }, nil,
			func(b []byte) (string, bool) { return "void", true },
			func(x xdr.Xdrable) string { return "void" }, nil},
		{"opaque<8>", func() xdr.Xdrable { return &Blob{B: []byte("old"), Max: 8} }, opaque(nil, []byte("results")),
			func(b []byte) (string, bool) { r := &rd{b: b}; v := r.opaque(8); return hex(v), r.err == nil },
			func(x xdr.Xdrable) string { return hex(x.(*Blob).B) }, nil},
		{"struct", func() xdr.Xdrable {
			v := xdr.Uint64(7)
			return &pair{A: 1, B: Blob{B: []byte("older")}, P: &v}
		}, cat(w32(nil, 9), opaque(nil, []byte("hello")), w32(nil, 1, 0xa, 0xb)),
			func(b []byte) (string, bool) {
				r := &rd{b: b}
				a := r.u32()
				o := r.opaque(1 << 30)
				s := "nil"
				f := r.u32()
				if f != 0 {
					hi := r.u32()
					s = fmt.Sprint(uint64(hi)<<32 | uint64(r.u32()))
				}
				return fmt.Sprint(a, hex(o), s), r.err == nil
			},
			func(x xdr.Xdrable) string {
				p := x.(*pair)
				s := "nil"
				if p.P != nil {
					s = fmt.Sprint(uint64(*p.P))
				}
				return fmt.Sprint(uint32(p.A), hex(p.B.B), s)
			},
			func(b []byte) bool {
				r := &rd{b: b}
				r.u32()
				r.opaque(1 << 30)
				return r.u32() > 1
			}},
	}
}

// wantSuccess is the reference verdict on the bytes that follow a call.
// either: trailing bytes or unassigned values leave both outcomes open.
func wantSuccess(stream []byte, xid uint32, k resKind) (val string, ok, either bool) {
	if len(stream) < 4 {
		return
	}
	h := binary.BigEndian.Uint32(stream)
	n := int(h & 0x7fffffff)
	if h>>31 == 0 || n > len(stream)-4 {
		return
	}
	r := &rd{b: stream[4 : 4+n]}
	if r.u32() != xid || r.u32() != 1 || r.u32() != 0 || r.err != nil {
		return
	}
	f := r.u32()
	r.opaque(400)
	if r.u32() != 0 || r.err != nil {
		return
	}
	if f > 3 {
		either = true // a flavor RFC 1057 does not list
	}
	val, ok = k.ok(r.b)
	if !ok {
		return
	}
	if trailing(k, r.b) || k.lax != nil && k.lax(r.b) {
		either = true
	}
	return
}

func trailing(k resKind, b []byte) bool {
	if len(b) == 0 {
		return false
	}
	_, ok := k.ok(b[:len(b)-1])
	return ok
}

// callOnce makes one call and compares with the verdict; it returns the result
// of a successful call and how it reads.
func callOnce(x *X, t *peer, cl *rfc1057.Client, k resKind, stream func(xid uint32) []byte) (xdr.Xdrable, string) {
	var sent []byte
	var xid uint32
	t.answer = func(rec []byte) []byte {
		if len(rec) >= 4 {
			xid = binary.BigEndian.Uint32(rec)
		}
		sent = stream(xid)
		return sent
	}
	n := len(t.calls)
	resp := k.mk()
	arg := xdr.Uint32(5)
	err := cl.Call(3, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &arg, resp)
	if len(t.calls) != n+1 {
		x.Fail("calls", "%d records written by one call", len(t.calls)-n)
		return nil, ""
	}
	val, ok, either := wantSuccess(sent, xid, k)
	switch {
	case err == nil && !ok:
		x.Fail("false success", "result type %s, reply %s (xid %#x): the call returned success with %s", k.name, hex(sent), xid, k.show(resp))
	case err != nil && ok && !either:
		x.Fail("refused", "result type %s, reply %s (xid %#x): the call returned %v", k.name, hex(sent), xid, err)
	case err == nil && k.show(resp) != val:
		x.Fail("result", "result type %s, reply %s: the result is %s, expected %s", k.name, hex(sent), k.show(resp), val)
	}
	x.Observe(fmt.Sprintf("%s %v %s", k.name, err == nil, hex(sent)))
	if err != nil {
		return nil, ""
	}
	return resp, val
}

// thread runs f as a scheduled thread to its end.
func (x *X) thread(f func()) {
	x.Go("client", f)
	x.S.Run()
	if x.fail == "" && !x.S.Livelock && len(x.S.Unfinished()) > 0 {
		x.Fail("stuck", "the call has not returned: %s", list(x.S.Unfinished()))
	}
}

// P20: what the client makes of replies.
func P20(c *Ctx) {
	b := 3
	if c.Thor {
		b = 4
	}
	kinds := resKinds()
	c.R.Bounds["replies"] = fmt.Sprintf("10 dimensions of a reply (xid, message type, statuses, verifier, denial, results, fragment bit, record length, cut of the stream at every byte, read size), every combination of up to %d deviations from a proper one, for %d result types", b, len(kinds))
	c.explore("replies", Opts{Bound: b, Split: true}, func(x *X) {
		k := kinds[x.Pick(len(kinds), 0)]
		xor := pick32(x, []uint32{0, 1, 2, 0x80000000, 0xffffffff, 0x100, 0x10000})
		zeroXid := x.Pick(2, 1) == 1
		mt := pick32(x, []uint32{1, 0, 2, 0x101, 0xffffffff, 0x80000001})
		st := pick32(x, []uint32{0, 1, 2, 0x80000000, 0xffffffff})
		as := pick32(x, []uint32{0, 1, 2, 3, 4, 5, 6, 0x80000000, 0xffffffff, 0x100})
		body := x.Pick(5, 1) // for non-success replies: what follows
		vf := pick32(x, []uint32{0, 1, 2, 3, 6})
		vlen := x.Pick(9, 1)
		rk := x.Pick(3+len(k.wire), 1)
		frag := x.Pick(2, 1)
		dl := []int{0, -1, -2, -3, -4, -8, 1, 2, 4, 100, 0x100000}[x.Pick(11, 1)]
		maxCut := 4 + 24 + len(k.wire) + 8
		cut := x.Pick(maxCut+1, 1)
		chunk := []int{0, 1, 3, 4, 5}[x.Pick(5, 1)]
		endNow := x.Pick(2, 1) == 1
		x.Ch.Freeze()
		t := &peer{chunk: chunk, endNow: endNow}
		cl := rfc1057.MakeClient(t, 77, 8)
		x.thread(func() {
			callOnce(x, t, cl, k, func(xid uint32) []byte {
				if zeroXid {
					xid = 0
				}
				m := w32(nil, xid^xor, mt, st)
				if st == 1 {
					switch body {
					case 0:
						m = w32(m, 0, 2, 2)
					case 1:
						m = w32(m, 1, 1)
					case 2:
						m = w32(m, 0, 0, 0, 0)
						m = append(m, k.wire...)
					case 3:
						m = w32(m, 2, 0, 0)
					case 4:
						m = w32(m, 0, 2)
					}
				} else {
					m = w32(m, vf)
					switch vlen {
					case 0:
						m = opaque(m, nil)
					case 1:
						m = opaque(m, pattern(1, 1))
					case 2:
						m = opaque(m, pattern(4, 1))
					case 3:
						m = opaque(m, pattern(399, 1))
					case 4:
						m = opaque(m, pattern(400, 1))
					case 5:
						m = opaque(m, pattern(401, 1))
					case 6:
						m = opaque(m, pattern(404, 1))
					case 7:
						m = w32(m, 0xffffffff)
					case 8:
						m = w32(m, 0x80000000)
					}
					m = w32(m, as)
					if as == 2 && body != 1 {
						m = w32(m, 1, 3)
					}
					if as == 0 || body == 2 {
						r := append([]byte{}, k.wire...)
						switch {
						case rk == 0:
						case rk == 1:
							r = append(r, 0, 0, 0, 1)
						case rk == 2:
							r = append(r, 1)
						default:
							r = r[:rk-3]
						}
						m = append(m, r...)
					}
				}
				f := frame(m)
				l := len(m) + dl
				if l < 0 {
					l = 0
				}
				binary.BigEndian.PutUint32(f, uint32(l)|1<<31)
				if frag == 1 {
					f[0] &= 0x7f
				}
				if dl > 0 && dl < 1000 && cut%2 == 0 {
					f = append(f, make([]byte, dl)...)
				}
				if cut > 0 && cut-1 < len(f) {
					f = f[:cut-1]
				}
				return f
			})
		})
	})
	// every word of a proper reply replaced, every bit flipped
	c.R.Bounds["words"] = "each bit of a proper reply and its header flipped, each word replaced by 24 values"
	words := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 0x10, 0xff, 0x100, 0x10000, 0x1000000, 0x7fffffff, 0x80000000, 0x80000001, 0x80000018, 0x8000001c, 0xfffffffc, 0xfffffffe, 0xffffffff}
	c.explore("words", Opts{Split: true}, func(x *X) {
		k := kinds[x.Pick(len(kinds), 0)]
		n := 7 + len(k.wire)/4
		at := x.Pick(n, 0)
		v := x.Pick(len(words)+32, 0)
		at2 := x.Pick(n+1, 0)
		v2 := 0
		if at2 > 0 {
			v2 = x.Pick(len(words), 0)
		}
		x.Ch.Freeze()
		t := &peer{}
		cl := rfc1057.MakeClient(t, 77, 8)
		x.thread(func() {
			callOnce(x, t, cl, k, func(xid uint32) []byte {
				f := frame(cat(w32(nil, xid, 1, 0, 0, 0, 0), k.wire))
				set := func(at, v int) {
					w := binary.BigEndian.Uint32(f[4*at:])
					if v < len(words) {
						w = words[v]
					} else {
						w ^= 1 << (v - len(words))
					}
					if at == 0 && w&0x7fffffff > 1<<22 {
						w &^= 0x7fc00000 // no gigabytes, please
					}
					binary.BigEndian.PutUint32(f[4*at:], w)
				}
				set(at, v)
				if at2 > 0 {
					set(at2-1, v2)
				}
				return f
			})
		})
	})
	// lengths that need the upper bits of a header
	huge := []int{1 << 16, 1<<20 + 1, 1<<22 + 1, 1<<24 - 28, 1 << 24, 1<<25 + 2, 1<<26 + 5}
	if c.Thor {
		huge = append(huge, 1<<27+1, 1<<28+3)
	}
	c.R.Bounds["huge"] = fmt.Sprintf("results of each of %v bytes, whole or short by 1 byte, in reads of any size or of at most 64 KiB; then a small one", huge)
	c.explore("huge", Opts{Split: true, Big: true}, func(x *X) {
		n := huge[x.Pick(len(huge), 0)]
		less := x.Pick(2, 0)
		t := &peer{chunk: []int{0, 1 << 16}[x.Pick(2, 0)]}
		x.Ch.Freeze()
		cl := rfc1057.MakeClient(t, 77, 8)
		k := kinds[3]
		x.thread(func() {
			body := cat(w32(nil, 1), opaque(nil, pattern(n, 3)), w32(nil, 1, 2, 3))
			callOnce(x, t, cl, k, func(xid uint32) []byte {
				return frame(cat(w32(nil, xid, 1, 0, 0, 0, 0), body[:len(body)-less]))
			})
			callOnce(x, t, cl, k, func(xid uint32) []byte {
				return frame(cat(w32(nil, xid, 1, 0, 0, 0, 0), k.wire))
			})
		})
	})
	// results that the caller keeps
	hdepth := 3
	if c.Thor {
		hdepth = 4
	}
	type vary struct {
		k  resKind
		mk func(salt byte) []byte
	}
	var vs []vary
	for _, n := range []int{0, 3, 4, 8} {
		n := n
		vs = append(vs, vary{kinds[2], func(s byte) []byte { return opaque(nil, pattern(n, s)) }})
	}
	for _, n := range []int{5, 12, 1000} {
		n := n
		vs = append(vs, vary{kinds[3], func(s byte) []byte {
			return cat(w32(nil, uint32(s)), opaque(nil, pattern(n, s)), w32(nil, 1, uint32(s), 3))
		}})
	}
	c.R.Bounds["held"] = fmt.Sprintf("all sequences of %d calls over 1..2 clients, with one of %d results or a failing reply; every result compared again after each later call", hdepth, len(vs))
	c.explore("held", Opts{Split: true}, func(x *X) {
		type h struct {
			k    resKind
			v    xdr.Xdrable
			want string
		}
		type st struct{ who, what int }
		var seq []st
		for i := 0; i < hdepth; i++ {
			seq = append(seq, st{x.Pick(2, 0), x.Pick(len(vs)+2, 0)})
		}
		x.Ch.Freeze()
		ts := []*peer{{}, {}}
		cls := []*rfc1057.Client{rfc1057.MakeClient(ts[0], 77, 8), rfc1057.MakeClient(ts[1], 77, 8)}
		x.thread(func() {
			var kept []h
			for i, q := range seq {
				v := vs[q.what%len(vs)]
				body := v.mk(byte(17 * (i + 1)))
				r, val := callOnce(x, ts[q.who], cls[q.who], v.k, func(xid uint32) []byte {
					switch q.what - len(vs) {
					case 0:
						xid ^= 4
					case 1:
						return frame(cat(w32(nil, xid, 1, 0, 0, 0, 4), pattern(400, 9)))
					}
					return frame(cat(w32(nil, xid, 1, 0, 0, 0, 0), body))
				})
				for j, o := range kept {
					if got := o.k.show(o.v); got != o.want {
						x.Fail("held", "the result of call %d was %s and is %s after call %d", j, o.want, got, i)
					}
				}
				if x.fail != "" {
					return
				}
				if r != nil {
					kept = append(kept, h{v.k, r, val})
				}
			}
		})
	})
	// sequences of replies on one client
	type rep func(xid uint32, k resKind) []byte
	menu := []rep{
		func(xid uint32, k resKind) []byte { return frame(cat(w32(nil, xid, 1, 0, 0, 0, 0), k.wire)) },
		func(xid uint32, k resKind) []byte { return frame(cat(w32(nil, xid-1, 1, 0, 0, 0, 0), k.wire)) },
		func(xid uint32, k resKind) []byte { return frame(cat(w32(nil, xid+1, 1, 0, 0, 0, 0), k.wire)) },
		func(xid uint32, k resKind) []byte { return frame(w32(nil, xid, 1, 0, 0, 0, 1)) },
		func(xid uint32, k resKind) []byte { return frame(w32(nil, xid, 1, 0, 0, 0, 2, 1, 4)) },
		func(xid uint32, k resKind) []byte { return frame(w32(nil, xid, 1, 0, 0, 0, 4)) },
		func(xid uint32, k resKind) []byte { return frame(w32(nil, xid, 1, 1, 0, 2, 2)) },
		func(xid uint32, k resKind) []byte { return frame(w32(nil, xid, 1, 1, 1, 5)) },
		func(xid uint32, k resKind) []byte { return frame(cat(w32(nil, xid, 0, 0, 0, 0, 0), k.wire)) },
		func(xid uint32, k resKind) []byte {
			f := frame(cat(w32(nil, xid, 1, 0, 0, 0, 0), k.wire))
			if len(k.wire) == 0 {
				return f
			}
			return frame(f[4 : len(f)-1])
		},
		func(xid uint32, k resKind) []byte { return frame(nil) },
		func(xid uint32, k resKind) []byte {
			return frame(cat(w32(nil, xid, 1, 0, 1), opaque(nil, pattern(33, 1)), w32(nil, 0), k.wire))
		},
	}
	depth := 3
	if c.Thor {
		depth = 4
	}
	c.R.Bounds["sequences"] = fmt.Sprintf("all sequences of %d calls on one client whose replies are drawn from %d", depth, len(menu))
	c.explore("sequences", Opts{Split: true}, func(x *X) {
		var seq []rep
		for i := 0; i < depth; i++ {
			seq = append(seq, menu[x.Pick(len(menu), 0)])
		}
		x.Ch.Freeze()
		t := &peer{}
		cl := rfc1057.MakeClient(t, 77, 8)
		x.thread(func() {
			for i, m := range seq {
				k := kinds[i%len(kinds)]
				callOnce(x, t, cl, k, func(xid uint32) []byte { return m(xid, k) })
				if x.fail != "" {
					x.fail = fmt.Sprintf("call %d: %s", i, x.fail)
					return
				}
			}
		})
	})
}

var errBoom = errors.New("transport failed")

// P21: what the client sends.
func P21(c *Ctx) {
	type argKind struct {
		name string
		a    func() xdr.Xdrable
		wire []byte
		bad  bool
	}
	u := func() xdr.Xdrable { v := xdr.Uint32(0x51525354); return &v }
	args := []argKind{
		{"unsigned int", u, w32(nil, 0x51525354), false},
		{"void", func() xdr.Xdrable { return &xdr.Void{} }, nil, false},
		{"opaque", func() xdr.Xdrable { return &Blob{B: pattern(13, 4)} }, opaque(nil, pattern(13, 4)), false},
		{"large", func() xdr.Xdrable { return &Blob{B: pattern(70001, 4)} }, opaque(nil, pattern(70001, 4)), false},
		{"failing at once", func() xdr.Xdrable { return &Bad{} }, nil, true},
		{"failing later", func() xdr.Xdrable { return &Bad{Before: 3} }, nil, true},
		{"failing late", func() xdr.Xdrable { return &Bad{Before: 3000} }, nil, true},
		{"over its limit", func() xdr.Xdrable { return &Blob{B: pattern(9, 1), Max: 8} }, nil, true},
	}
	u32s := []uint32{3, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}
	auths := []int{0, 1, 3, 4, 5, 399, 400, 401, 404, 1000}
	b := 3
	if c.Thor {
		b = 5
	}
	// expect is the reference request.
	expect := func(xid, prog, vers, proc uint32, cred, verf rfc1057.Opaque_auth, wire []byte) []byte {
		return Call{Xid: xid, Rpcvers: 2, Prog: prog, Vers: vers, Proc: proc, CredFlavor: uint32(cred.Flavor), Cred: cred.Body, VerfFlavor: uint32(verf.Flavor), Verf: verf.Body, Args: wire}.bytes()
	}
	success := func(rec []byte) []byte {
		var xid uint32
		if len(rec) >= 4 {
			xid = binary.BigEndian.Uint32(rec)
		}
		return frame(w32(nil, xid, 1, 0, 0, 0, 0, 42))
	}
	c.R.Bounds["requests"] = fmt.Sprintf("program, version, procedure, credential and verifier (flavor and length), arguments: every combination of up to %d deviations", b)
	c.explore("requests", Opts{Bound: b, Split: true}, func(x *X) {
		prog, vers, proc := pick32(x, u32s), pick32(x, u32s), pick32(x, u32s)
		cf, vf := pick32(x, []uint32{0, 1, 2, 3, 6}), pick32(x, []uint32{0, 1, 2, 3, 6})
		cl, vl := auths[x.Pick(len(auths), 1)], auths[x.Pick(len(auths), 1)]
		a := args[x.Pick(len(args), 1)]
		x.Ch.Freeze()
		t := &peer{answer: success}
		k := rfc1057.MakeClient(t, prog, vers)
		x.thread(func() {
			cred := rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(cf), Body: pattern(cl, 1)}
			verf := rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(vf), Body: pattern(vl, 2)}
			var out xdr.Uint32
			err := k.Call(proc, cred, verf, a.a(), &out)
			if a.bad || cl > 400 || vl > 400 {
				if err == nil {
					x.Fail("accepted", "arguments %s, credential %d bytes, verifier %d bytes: the call succeeded", a.name, cl, vl)
				} else if len(t.written) > 0 {
					x.Fail("written", "arguments %s, credential %d bytes, verifier %d bytes: %s written although they cannot be encoded", a.name, cl, vl, hex(t.written))
				}
				return
			}
			if len(t.written) < 8 {
				x.Fail("request", "only %s written (error %v)", hex(t.written), err)
				return
			}
			want := frame(expect(binary.BigEndian.Uint32(t.written[4:]), prog, vers, proc, cred, verf, a.wire))
			if !bytes.Equal(t.written, want) {
				x.Fail("request", "arguments %s: written %s, expected %s", a.name, hex(t.written), hex(want))
			} else if err != nil || out != 42 {
				x.Fail("result", "error %v, result %d of a proper reply", err, out)
			}
			x.Observe(hex(t.written) + fmt.Sprint(len(t.written)))
		})
	})
	// lengths that need the upper bits of a header
	huge := []int{1 << 16, 1<<20 + 1, 1<<22 + 1, 1<<24 - 44, 1 << 24, 1<<25 + 2, 1<<26 + 5}
	if c.Thor {
		huge = append(huge, 1<<27+1, 1<<28+3)
	}
	c.R.Bounds["huge"] = fmt.Sprintf("arguments of each of %v bytes; then a small call", huge)
	c.explore("huge", Opts{Split: true, Big: true}, func(x *X) {
		n := huge[x.Pick(len(huge), 0)]
		x.Ch.Freeze()
		t := &peer{answer: success}
		k := rfc1057.MakeClient(t, 5, 6)
		x.thread(func() {
			none := rfc1057.Opaque_auth{}
			for i, n := range []int{n, 5} {
				var out xdr.Uint32
				before := len(t.written)
				err := k.Call(7, none, none, &Blob{B: pattern(n, 4)}, &out)
				w := t.written[before:]
				if len(w) < 8 {
					x.Fail("request", "call %d, arguments of %d bytes: only %s written (error %v)", i, n, hex(w), err)
					return
				}
				want := frame(expect(binary.BigEndian.Uint32(w[4:]), 5, 6, 7, none, none, opaque(nil, pattern(n, 4))))
				if !bytes.Equal(w, want) {
					x.Fail("request", "call %d, arguments of %d bytes: written %s, expected %s", i, n, hex(w), hex(want))
					return
				} else if err != nil || out != 42 {
					x.Fail("result", "call %d, arguments of %d bytes: error %v, result %d of a proper reply", i, n, err, out)
					return
				}
			}
			x.Observe(fmt.Sprint(n))
		})
	})
	// transport failures
	c.R.Bounds["failures"] = "each write failing having written nothing, a part, everything; reading failing before every byte, once or from then on, with every read size"
	c.explore("failures", Opts{Split: true}, func(x *X) {
		a := args[x.Pick(4, 0)]
		t := &peer{answer: success}
		what := x.Pick(2, 0)
		part, at, once := 0, 0, false
		if what == 0 {
			part = x.Pick(6, 0)
			at = x.Pick(3, 0)
		} else {
			at = x.Pick(32, 0)
			t.chunk = x.Pick(9, 0)
			once = x.Pick(2, 0) == 1
		}
		x.Ch.Freeze()
		hit := false
		if what == 0 {
			t.wfault = func(k int, p []byte) (int, error) {
				if k != at {
					return len(p), nil
				}
				hit = true
				n := []int{0, 1, 4, len(p) / 2, len(p) - 1, len(p)}[part]
				if n < 0 || n > len(p) {
					n = len(p)
				}
				return n, errBoom
			}
		} else {
			t.rfault = func(pos int) error {
				if pos == at && !(once && hit && t.pos == at) {
					hit = hit || t.pos == at
					return errBoom
				}
				return nil
			}
		}
		k := rfc1057.MakeClient(t, 1, 2)
		x.thread(func() {
			var out xdr.Uint32
			err := k.Call(5, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, a.a(), &out)
			if hit && err == nil {
				x.Fail("failure lost", "arguments %s, %s: the call returned success (result %d)", a.name, []string{fmt.Sprintf("write %d fails (kind %d)", at, part), fmt.Sprintf("reading fails before byte %d (once: %v), read size %d", at, once, t.chunk)}[what], out)
			}
			if !hit && (err != nil || out != 42) {
				x.Fail("refused", "no failure, but error %v, result %d", err, out)
			}
			x.Observe(fmt.Sprint(what, part, at, t.chunk, once, hit, err))
		})
	})
	// sequences: ids, exactly one record each, nothing of failed calls
	type step struct {
		name string
		do   func(k *rfc1057.Client, t *peer) (sent bool, wire []byte, proc uint32)
	}
	var out xdr.Uint32
	none := rfc1057.Opaque_auth{}
	withArg := func(i int, proc uint32) step {
		a := args[i]
		return step{a.name, func(k *rfc1057.Client, t *peer) (bool, []byte, uint32) {
			k.Call(proc, none, none, a.a(), &out)
			return !a.bad, a.wire, proc
		}}
	}
	steps := []step{withArg(0, 1), withArg(1, 2), withArg(2, 0), withArg(5, 1), withArg(7, 9),
		{"over-long credential", func(k *rfc1057.Client, t *peer) (bool, []byte, uint32) {
			k.Call(1, rfc1057.Opaque_auth{Body: pattern(401, 1)}, none, u(), &out)
			return false, nil, 1
		}},
		{"denied", func(k *rfc1057.Client, t *peer) (bool, []byte, uint32) {
			t.answer = func(rec []byte) []byte { return frame(w32(nil, binary.BigEndian.Uint32(rec), 1, 1, 1, 3)) }
			k.Call(1, none, none, u(), &out)
			t.answer = success
			return true, args[0].wire, 1
		}},
		{"no answer", func(k *rfc1057.Client, t *peer) (bool, []byte, uint32) {
			t.answer = nil
			k.Call(4, none, none, u(), &out)
			t.answer = success
			return true, args[0].wire, 4
		}},
		{"result does not decode", func(k *rfc1057.Client, t *peer) (bool, []byte, uint32) {
			k.Call(4, none, none, u(), &Bad{})
			return true, args[0].wire, 4
		}},
	}
	depth := 4
	if c.Thor {
		depth = 5
	}
	c.R.Bounds["sequences"] = fmt.Sprintf("all sequences of %d steps from %d kinds of calls (good, unencodable, denied, unanswered, undecodable)", depth, len(steps))
	c.explore("sequences", Opts{Split: true}, func(x *X) {
		var seq []step
		for i := 0; i < depth; i++ {
			seq = append(seq, steps[x.Pick(len(steps), 0)])
		}
		x.Ch.Freeze()
		t := &peer{answer: success}
		k := rfc1057.MakeClient(t, 0x20001, 3)
		x.thread(func() {
			ids := map[uint32]bool{}
			for i, s := range seq {
				before := len(t.written)
				sent, wire, proc := s.do(k, t)
				w := t.written[before:]
				if !sent {
					if len(w) > 0 {
						x.Fail("written", "step %d (%s): %s written", i, s.name, hex(w))
						return
					}
					continue
				}
				if len(w) < 8 {
					x.Fail("request", "step %d (%s): only %s written", i, s.name, hex(w))
					return
				}
				xid := binary.BigEndian.Uint32(w[4:])
				if want := frame(expect(xid, 0x20001, 3, proc, none, none, wire)); !bytes.Equal(w, want) {
					x.Fail("request", "step %d (%s): written %s, expected %s", i, s.name, hex(w), hex(want))
					return
				}
				if ids[xid] {
					x.Fail("xid", "step %d (%s): transaction id %#x used again", i, s.name, xid)
					return
				}
				ids[xid] = true
			}
			x.Observe(fmt.Sprint(len(ids), len(t.written)))
		})
	})
	// many calls
	n := 1<<24 + 1000
	if c.Thor {
		n = 1 << 27
	}
	c.R.Bounds["ids"] = fmt.Sprintf("%d calls of one client, all ids distinct", n)
	c.explore("ids", Opts{}, func(x *X) {
		x.Ch.Freeze()
		x.S.Horizon = 1 << 60
		t := &peer{}
		k := rfc1057.MakeClient(t, 1, 2)
		x.thread(func() {
			vsched.Coarse = true
			seen := make([]uint64, 1<<26) // one bit per id
			v := &xdr.Void{}
			var xid uint32
			t.answer = func(rec []byte) []byte {
				xid = binary.BigEndian.Uint32(rec)
				return frame(w32(nil, xid, 1, 0, 0, 0, 0))
			}
			for i := 0; i < n; i++ {
				if i&0xfffff == 0xfffff && c.R.Expired() {
					return
				}
				t.written, t.taken, t.calls, t.in = t.written[:0], 0, t.calls[:0], t.in[:0]
				err := k.Call(0, none, none, v, v)
				if err != nil || len(t.calls) != 1 {
					x.Fail("call", "call %d: error %v, %d records written", i, err, len(t.calls))
					return
				}
				if seen[xid>>6]>>(xid&63)&1 == 1 {
					x.Fail("xid", "call %d: transaction id %#x used again", i, xid)
					return
				}
				seen[xid>>6] |= 1 << (xid & 63)
			}
		})
	})
	// messages as long as a record header can say, and longer
	c.R.Bounds["longest"] = "arguments that make a record of 2^31-4 bytes (sent) and of 2^31 bytes (refused)"
	c.explore("longest", Opts{Big: true}, func(x *X) {
		over := x.Pick(2, 0) == 1
		x.Ch.Freeze()
		t := &sink{}
		t.answer = func() []byte {
			if len(t.head) < 8 {
				return nil
			}
			return frame(w32(nil, binary.BigEndian.Uint32(t.head[4:]), 1, 0, 0, 0, 0, 42))
		}
		k := rfc1057.MakeClient(t, 5, 6)
		x.thread(func() {
			n := 1<<31 - 4 - 44
			if over {
				n += 4
			}
			var out xdr.Uint32
			err := k.Call(7, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &Blob{B: make([]byte, n)}, &out)
			switch {
			case over && (err == nil || t.n > 0):
				x.Fail("too long", "arguments of %d bytes: error %v, %d bytes written", n, err, t.n)
			case !over && (err != nil || out != 42 || t.n != 1<<31 || binary.BigEndian.Uint32(t.head) != 1<<32-4):
				x.Fail("longest", "arguments of %d bytes: error %v, result %d, %d bytes written: %s", n, err, out, t.n, hex(t.head))
			}
		})
		debug.FreeOSMemory()
	})
}

// sink is a transport that keeps the beginning of what is written only.
type sink struct {
	head   []byte
	n      int
	in     []byte
	read   bool
	answer func() []byte
}

func (t *sink) Write(p []byte) (int, error) {
	if k := 64 - len(t.head); k > 0 {
		t.head = append(t.head, p[:min(k, len(p))]...)
	}
	t.n += len(p)
	return len(p), nil
}

func (t *sink) Read(p []byte) (int, error) {
	if !t.read && t.answer != nil {
		t.in = t.answer()
	}
	t.read = true
	n := copy(p, t.in)
	t.in = t.in[n:]
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}
