package sched

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"

	"verif/mc/vsched"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// This file is an independent reading of RFC 1057's message layout.

func w32(b []byte, v ...uint32) []byte {
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, x)
	}
	return b
}

func opaque(b []byte, p []byte) []byte {
	b = w32(b, uint32(len(p)))
	b = append(b, p...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

type Call struct {
	Xid, Mtype, Rpcvers, Prog, Vers, Proc uint32
	CredFlavor, VerfFlavor                uint32
	Cred, Verf                            []byte
	Args                                  []byte
}

func (c Call) bytes() []byte {
	b := w32(nil, c.Xid, c.Mtype, c.Rpcvers, c.Prog, c.Vers, c.Proc, c.CredFlavor)
	b = opaque(b, c.Cred)
	b = w32(b, c.VerfFlavor)
	b = opaque(b, c.Verf)
	return append(b, c.Args...)
}

// frame makes one record.
func frame(b []byte) []byte {
	return append(w32(nil, 1<<31|uint32(len(b))), b...)
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// records splits a byte stream into records; every record must be a last
// fragment and complete.
func records(b []byte) ([][]byte, error) {
	var out [][]byte
	for len(b) > 0 {
		if len(b) < 4 {
			return out, fmt.Errorf("stray bytes %x after record %d", b, len(out))
		}
		h := binary.BigEndian.Uint32(b)
		if h>>31 == 0 {
			return out, fmt.Errorf("record %d: header %#x has no last-fragment bit", len(out), h)
		}
		n := int(h & 0x7fffffff)
		if n > len(b)-4 {
			return out, fmt.Errorf("record %d: header says %d bytes, %d follow", len(out), n, len(b)-4)
		}
		out = append(out, b[4:4+n])
		b = b[4+n:]
	}
	return out, nil
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) u32() uint32 {
	if len(r.b) < 4 {
		if r.err == nil {
			r.err = errors.New("truncated")
		}
		r.b = nil
		return 0
	}
	v := binary.BigEndian.Uint32(r.b)
	r.b = r.b[4:]
	return v
}

func (r *rd) opaque(max int) []byte {
	n := int(r.u32())
	m := (n + 3) &^ 3
	if n > max || m > len(r.b) {
		if r.err == nil {
			r.err = fmt.Errorf("opaque of %d bytes", n)
		}
		return nil
	}
	v := r.b[:n]
	r.b = r.b[m:]
	return v
}

type Reply struct {
	Xid, Stat           uint32 // Stat: 0 accepted, 1 denied
	Accept              uint32
	Reject, Auth        uint32
	Low, High           uint32
	VerfFlavor, VerfLen uint32
	Results             string
}

func (r Reply) String() string {
	switch {
	case r.Stat == 1 && r.Reject == 0:
		return fmt.Sprintf("{xid %#x denied: RPC_MISMATCH %d..%d}", r.Xid, r.Low, r.High)
	case r.Stat == 1:
		return fmt.Sprintf("{xid %#x denied: AUTH_ERROR %d}", r.Xid, r.Auth)
	case r.Accept == 2:
		return fmt.Sprintf("{xid %#x PROG_MISMATCH %d..%d}", r.Xid, r.Low, r.High)
	case r.Accept == 0:
		return fmt.Sprintf("{xid %#x SUCCESS %s}", r.Xid, hex([]byte(r.Results)))
	}
	return fmt.Sprintf("{xid %#x %s%s}", r.Xid, acceptName(r.Accept), r.Results)
}

func acceptName(a uint32) string {
	n := []string{"SUCCESS", "PROG_UNAVAIL", "PROG_MISMATCH", "PROC_UNAVAIL", "GARBAGE_ARGS", "SYSTEM_ERR"}
	if int(a) < len(n) {
		return n[a]
	}
	return fmt.Sprintf("accept_stat(%d)", a)
}

func hex(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x..(%d bytes, crc %08x)", b[:64], len(b), crc32.ChecksumIEEE(b))
	}
	return fmt.Sprintf("%x", b)
}

// parseReply reads a reply record; the verifier's content is not judged.
func parseReply(b []byte) (Reply, error) {
	var p Reply
	r := &rd{b: b}
	p.Xid = r.u32()
	if m := r.u32(); m != 1 && r.err == nil {
		return p, fmt.Errorf("message type %d is not REPLY: %x", m, b)
	}
	p.Stat = r.u32()
	switch {
	case r.err != nil:
	case p.Stat == 0:
		p.VerfFlavor = r.u32()
		p.VerfLen = uint32(len(r.opaque(400)))
		p.Accept = r.u32()
		switch p.Accept {
		case 0:
			p.Results = string(r.b)
			r.b = nil
		case 2:
			p.Low, p.High = r.u32(), r.u32()
		case 1, 3, 4, 5:
		default:
			return p, fmt.Errorf("unknown accept status %d: %x", p.Accept, b)
		}
	case p.Stat == 1:
		p.Reject = r.u32()
		switch p.Reject {
		case 0:
			p.Low, p.High = r.u32(), r.u32()
		case 1:
			p.Auth = r.u32()
		default:
			return p, fmt.Errorf("unknown reject status %d: %x", p.Reject, b)
		}
	default:
		return p, fmt.Errorf("unknown reply status %d: %x", p.Stat, b)
	}
	if r.err != nil {
		return p, fmt.Errorf("%v: %x", r.err, b)
	}
	if len(r.b) > 0 {
		return p, fmt.Errorf("%d bytes too many in a reply without results: %x", len(r.b), b)
	}
	p.VerfFlavor, p.VerfLen = 0, 0
	return p, nil
}

// replies parses the records of a stream.
func replies(stream []byte) ([]Reply, error) {
	rs, err := records(stream)
	if err != nil {
		return nil, err
	}
	var out []Reply
	for _, r := range rs {
		p, err := parseReply(r)
		if err != nil {
			return out, err
		}
		out = append(out, p)
	}
	return out, nil
}

// Blob is an Xdrable opaque<>; it yields while coding if Slow.
type Blob struct {
	B    []byte
	Max  int
	Slow int
	Hold func() bool // encoding waits for it, halfway
}

func (o *Blob) Xdr(xs *xdr.XdrState) {
	if o.Hold != nil && xs.Encoding() {
		vsched.Wait(o.Hold)
	}
	for i := 0; i < o.Slow; i++ {
		yield()
	}
	max := o.Max
	if max == 0 {
		max = -1
	}
	xdr.XdrVarArray(xs, max, &o.B)
	if o.Hold != nil && xs.Encoding() {
		vsched.Wait(o.Hold)
	}
	for i := 0; i < o.Slow; i++ {
		yield()
	}
}

// Blobs is several of them.
type Blobs []Blob

func (o *Blobs) Xdr(xs *xdr.XdrState) {
	for i := range *o {
		(*o)[i].Xdr(xs)
	}
}

// Bad is an Xdrable that writes something and then fails.
type Bad struct {
	Before int
	Slow   int
}

func (o *Bad) Xdr(xs *xdr.XdrState) {
	for i := 0; i < o.Before; i++ {
		v := uint32(0xbadbad00)
		xdr.XdrU32(xs, &v)
		if o.Slow > 0 {
			yield()
		}
	}
	xs.SetError("cannot be coded")
}
