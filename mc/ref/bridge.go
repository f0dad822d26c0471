package ref

import (
	"fmt"
	"reflect"
)

// ToGo stores v into the Go value g, which must be addressable and have the
// shape the generator documents for t.
func ToGo(t *Type, v *Val, g reflect.Value) {
	switch t.Kind {
	case KVoid:
	case KInt:
		g.SetInt(int64(int32(v.U)))
	case KHyper:
		g.SetInt(int64(v.U))
	case KUint, KUhyper:
		g.SetUint(v.U)
	case KEnum:
		if g.CanUint() {
			g.SetUint(v.U)
		} else {
			g.SetInt(int64(int32(v.U)))
		}
	case KBool:
		g.SetBool(v.U != 0)
	case KOpaqueFix:
		reflect.Copy(g, reflect.ValueOf(v.B))
	case KOpaqueVar:
		b := reflect.MakeSlice(g.Type(), len(v.B), len(v.B))
		reflect.Copy(b, reflect.ValueOf(v.B))
		g.Set(b)
	case KString:
		g.SetString(string(v.B))
	case KArray:
		for i := range v.L {
			ToGo(t.Elem, v.L[i], g.Index(i))
		}
	case KVarArray:
		s := reflect.MakeSlice(g.Type(), len(v.L), len(v.L))
		for i := range v.L {
			ToGo(t.Elem, v.L[i], s.Index(i))
		}
		g.Set(s)
	case KOpt:
		if len(v.L) == 0 {
			g.Set(reflect.Zero(g.Type()))
		} else {
			p := reflect.New(g.Type().Elem())
			ToGo(t.Elem, v.L[0], p.Elem())
			g.Set(p)
		}
	case KStruct:
		k := 0
		for _, f := range t.Fields {
			if f.T.Kind == KVoid {
				continue
			}
			ToGo(f.T, v.L[k], field(g, f.Name))
			k++
		}
	case KUnion:
		ToGo(discType(t), &Val{U: v.U}, field(g, t.Disc.Name))
		if f, ok := t.ArmOf(uint32(v.U)); ok && f.T.Kind != KVoid {
			ToGo(f.T, v.L[0], field(g, f.Name))
		}
	case KRef:
		if t.Def.Kind == "typedef" && t.Def.T.Kind == KOpt {
			g = g.FieldByName("P")
		}
		ToGo(t.Def.T, v, g)
	default:
		panic(fmt.Sprintf("ref.ToGo: kind %d", t.Kind))
	}
}

func discType(t *Type) *Type { return t.Disc.T }

func field(g reflect.Value, name string) reflect.Value {
	f := g.FieldByName(GoName(name))
	if !f.IsValid() {
		panic(fmt.Sprintf("type %v has no field %s", g.Type(), GoName(name)))
	}
	return f
}

// FromGo reads the meaningful content of g: fields of unselected union arms
// are ignored.
func FromGo(t *Type, g reflect.Value) *Val {
	v := &Val{}
	switch t.Kind {
	case KVoid:
	case KInt:
		v.U = uint64(uint32(g.Int()))
	case KHyper:
		v.U = uint64(g.Int())
	case KUint, KUhyper:
		v.U = g.Uint()
	case KEnum:
		if g.CanUint() {
			v.U = g.Uint()
		} else {
			v.U = uint64(uint32(g.Int()))
		}
	case KBool:
		if g.Bool() {
			v.U = 1
		}
	case KOpaqueFix:
		v.B = make([]byte, g.Len())
		reflect.Copy(reflect.ValueOf(v.B), g)
	case KOpaqueVar:
		v.B = append([]byte{}, g.Bytes()...)
	case KString:
		v.B = []byte(g.String())
	case KArray, KVarArray:
		for i := 0; i < g.Len(); i++ {
			v.L = append(v.L, FromGo(t.Elem, g.Index(i)))
		}
	case KOpt:
		if !g.IsNil() {
			v.L = []*Val{FromGo(t.Elem, g.Elem())}
		}
	case KStruct:
		for _, f := range t.Fields {
			if f.T.Kind == KVoid {
				continue
			}
			v.L = append(v.L, FromGo(f.T, field(g, f.Name)))
		}
	case KUnion:
		v.U = FromGo(t.Disc.T, field(g, t.Disc.Name)).U
		if f, ok := t.ArmOf(uint32(v.U)); ok && f.T.Kind != KVoid {
			v.L = []*Val{FromGo(f.T, field(g, f.Name))}
		}
	case KRef:
		if t.Def.Kind == "typedef" && t.Def.T.Kind == KOpt {
			g = g.FieldByName("P")
		}
		return FromGo(t.Def.T, g)
	default:
		panic(fmt.Sprintf("ref.FromGo: kind %d", t.Kind))
	}
	return v
}

// DefType returns a reference to definition d, the type of the Go type
// declared for it.
func DefType(d *Def) *Type { return &Type{Kind: KRef, Name: d.Name, Def: d, Size: -1} }
