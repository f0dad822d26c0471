package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
)

// Val is a value tree.
//
//	scalars, bool, enum: U (sign-extended raw bits truncated to the width)
//	opaque, string:      B
//	struct:              L, one per non-void field
//	arrays:              L
//	optional:            L of length 0 or 1
//	union:               U discriminant, L of length 0 (void) or 1 (arm body)
type Val struct {
	U uint64
	B []byte
	L []*Val
}

// Steps counts primitive reference codec steps (transitions of the model).
var Steps int64

var ErrTooLong = errors.New("length over limit")
var ErrShort = errors.New("not enough bytes")

// ArmOf returns the body selected by discriminant u. ok is false when no arm
// and no default applies.
func (t *Type) ArmOf(u uint32) (f *Field, ok bool) {
	for i := range t.Arms {
		for _, v := range t.Arms[i].Values {
			if v == u {
				return &t.Arms[i].Body, true
			}
		}
	}
	if t.Default != nil {
		return t.Default, true
	}
	return nil, false
}

func pad(n int) int { return (4 - n%4) % 4 }

// Encode appends the RFC 4506 encoding of v. If limits is false declared
// maxima are not enforced (to build over-limit wire images).
func Encode(out []byte, t *Type, v *Val, limits bool) ([]byte, error) {
	var err error
	Steps++
	switch t.Kind {
	case KVoid:
	case KInt, KUint, KBool, KEnum:
		out = binary.BigEndian.AppendUint32(out, uint32(v.U))
	case KHyper, KUhyper:
		out = binary.BigEndian.AppendUint64(out, v.U)
	case KOpaqueFix:
		out = append(out, v.B...)
		out = append(out, make([]byte, pad(len(v.B)))...)
	case KOpaqueVar, KString:
		if limits && t.Size >= 0 && int64(len(v.B)) > t.Size {
			return out, ErrTooLong
		}
		out = binary.BigEndian.AppendUint32(out, uint32(len(v.B)))
		out = append(out, v.B...)
		out = append(out, make([]byte, pad(len(v.B)))...)
	case KArray, KVarArray:
		if t.Kind == KVarArray {
			if limits && t.Size >= 0 && int64(len(v.L)) > t.Size {
				return out, ErrTooLong
			}
			out = binary.BigEndian.AppendUint32(out, uint32(len(v.L)))
		}
		for _, e := range v.L {
			if out, err = Encode(out, t.Elem, e, limits); err != nil {
				return out, err
			}
		}
	case KOpt:
		out = binary.BigEndian.AppendUint32(out, uint32(len(v.L)))
		if len(v.L) == 1 {
			return Encode(out, t.Elem, v.L[0], limits)
		}
	case KStruct:
		k := 0
		for _, f := range t.Fields {
			if f.T.Kind == KVoid {
				continue
			}
			if out, err = Encode(out, f.T, v.L[k], limits); err != nil {
				return out, err
			}
			k++
		}
	case KUnion:
		out = binary.BigEndian.AppendUint32(out, uint32(v.U))
		if f, ok := t.ArmOf(uint32(v.U)); ok && f.T.Kind != KVoid {
			return Encode(out, f.T, v.L[0], limits)
		}
	case KRef:
		return Encode(out, t.Def.T, v, limits)
	default:
		panic(fmt.Sprintf("ref.Encode: kind %d", t.Kind))
	}
	return out, nil
}

// Dec is a decoding run. Lax is set when the input is not the canonical
// encoding of any value (non-zero padding, bool other than 0 or 1, unknown
// discriminant without default): the properties leave acceptance open there.
type Dec struct {
	Buf []byte
	Pos int
	Lax bool
	// Zero-width elements make work independent of input; budget guards us.
	Budget int
}

func (d *Dec) take(n int64) ([]byte, error) {
	if n > int64(len(d.Buf)-d.Pos) {
		return nil, ErrShort
	}
	b := d.Buf[d.Pos : d.Pos+int(n)]
	d.Pos += int(n)
	return b, nil
}

func (d *Dec) u32() (uint32, error) {
	b, err := d.take(4)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint32(b), nil
}

func (d *Dec) bytes(n int64) ([]byte, error) {
	b, err := d.take(n)
	if err != nil {
		return nil, err
	}
	p, err := d.take(int64(pad(int(n % 4))))
	if err != nil {
		return nil, err
	}
	for _, c := range p {
		if c != 0 {
			d.Lax = true
		}
	}
	return append([]byte{}, b...), nil
}

var ErrBudget = errors.New("reference decoder budget exceeded")

func (d *Dec) Decode(t *Type) (*Val, error) {
	Steps++
	d.Budget--
	if d.Budget <= 0 {
		return nil, ErrBudget
	}
	v := &Val{}
	switch t.Kind {
	case KVoid:
	case KInt, KUint, KEnum, KBool:
		u, err := d.u32()
		if err != nil {
			return nil, err
		}
		if t.Kind == KBool && u > 1 {
			d.Lax = true
			u = 1
		}
		v.U = uint64(u)
	case KHyper, KUhyper:
		b, err := d.take(8)
		if err != nil {
			return nil, err
		}
		v.U = binary.BigEndian.Uint64(b)
	case KOpaqueFix:
		b, err := d.bytes(t.Size)
		if err != nil {
			return nil, err
		}
		v.B = b
	case KOpaqueVar, KString:
		n, err := d.u32()
		if err != nil {
			return nil, err
		}
		if t.Size >= 0 && int64(n) > t.Size {
			return nil, ErrTooLong
		}
		if v.B, err = d.bytes(int64(n)); err != nil {
			return nil, err
		}
	case KArray, KVarArray:
		n := t.Size
		if t.Kind == KVarArray {
			u, err := d.u32()
			if err != nil {
				return nil, err
			}
			if t.Size >= 0 && int64(u) > t.Size {
				return nil, ErrTooLong
			}
			n = int64(u)
		}
		for i := int64(0); i < n; i++ {
			e, err := d.Decode(t.Elem)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, e)
		}
	case KOpt:
		u, err := d.u32()
		if err != nil {
			return nil, err
		}
		if u > 1 {
			d.Lax = true
		}
		if u != 0 {
			e, err := d.Decode(t.Elem)
			if err != nil {
				return nil, err
			}
			v.L = []*Val{e}
		}
	case KStruct:
		for _, f := range t.Fields {
			if f.T.Kind == KVoid {
				continue
			}
			e, err := d.Decode(f.T)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, e)
		}
	case KUnion:
		u, err := d.u32()
		if err != nil {
			return nil, err
		}
		if t.Disc.T.Base().Kind == KBool && u > 1 {
			d.Lax = true
			u = 1
		}
		v.U = uint64(u)
		f, ok := t.ArmOf(u)
		if !ok {
			d.Lax = true
		} else if f.T.Kind != KVoid {
			e, err := d.Decode(f.T)
			if err != nil {
				return nil, err
			}
			v.L = []*Val{e}
		}
	case KRef:
		return d.Decode(t.Def.T)
	default:
		panic(fmt.Sprintf("ref.Decode: kind %d", t.Kind))
	}
	return v, nil
}

// Equal compares value trees.
func Equal(a, b *Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.U != b.U || string(a.B) != string(b.B) || len(a.L) != len(b.L) {
		return false
	}
	for i := range a.L {
		if !Equal(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

func (v *Val) String() string {
	var sb strings.Builder
	v.str(&sb, 0)
	return sb.String()
}

func (v *Val) str(sb *strings.Builder, depth int) {
	if v == nil {
		sb.WriteString("nil")
		return
	}
	if depth > 6 || sb.Len() > 600 {
		sb.WriteString("..")
		return
	}
	sb.WriteByte('(')
	if v.U != 0 || v.B == nil && v.L == nil {
		fmt.Fprintf(sb, "%#x", v.U)
	}
	if v.B != nil {
		if len(v.B) > 24 {
			fmt.Fprintf(sb, "bytes[%d]%x..", len(v.B), v.B[:8])
		} else {
			fmt.Fprintf(sb, "'%x'", v.B)
		}
	}
	for _, e := range v.L {
		sb.WriteByte(' ')
		e.str(sb, depth+1)
	}
	sb.WriteByte(')')
}
