package ref

import (
	"fmt"
	"reflect"
)

// Shape checks that Go type g can hold the values of t: fields present under
// their documented names, kinds and sizes as documented.
func Shape(t *Type, g reflect.Type) error { return shape(t, g, map[*Def]bool{}) }

func shape(t *Type, g reflect.Type, seen map[*Def]bool) error {
	bad := func(want string) error { return fmt.Errorf("Go type %v (%v) cannot hold %s", g, g.Kind(), want) }
	k := g.Kind()
	switch t.Kind {
	case KVoid:
	case KInt:
		if k != reflect.Int32 {
			return bad("int")
		}
	case KUint:
		if k != reflect.Uint32 {
			return bad("unsigned int")
		}
	case KHyper:
		if k != reflect.Int64 {
			return bad("hyper")
		}
	case KUhyper:
		if k != reflect.Uint64 {
			return bad("unsigned hyper")
		}
	case KEnum:
		if k != reflect.Int32 && k != reflect.Uint32 {
			return bad("enum")
		}
	case KBool:
		if k != reflect.Bool {
			return bad("bool")
		}
	case KOpaqueFix:
		if k != reflect.Array || g.Elem().Kind() != reflect.Uint8 || int64(g.Len()) != t.Size {
			return bad(fmt.Sprintf("opaque[%d]", t.Size))
		}
	case KOpaqueVar:
		if k != reflect.Slice || g.Elem().Kind() != reflect.Uint8 {
			return bad("opaque<>")
		}
	case KString:
		if k != reflect.String {
			return bad("string")
		}
	case KArray:
		if k != reflect.Array || int64(g.Len()) != t.Size {
			return bad(fmt.Sprintf("array[%d]", t.Size))
		}
		return shape(t.Elem, g.Elem(), seen)
	case KVarArray:
		if k != reflect.Slice {
			return bad("array<>")
		}
		return shape(t.Elem, g.Elem(), seen)
	case KOpt:
		if k != reflect.Ptr {
			return bad("optional")
		}
		return shape(t.Elem, g.Elem(), seen)
	case KStruct, KUnion:
		if k != reflect.Struct {
			return bad("struct")
		}
		fs := t.Fields
		if t.Kind == KUnion {
			fs = []Field{t.Disc}
			for _, a := range t.Arms {
				fs = append(fs, a.Body)
			}
			if t.Default != nil {
				fs = append(fs, *t.Default)
			}
		}
		for _, f := range fs {
			if f.T.Kind == KVoid {
				continue
			}
			gf, ok := g.FieldByName(GoName(f.Name))
			if !ok {
				return fmt.Errorf("Go type %v has no field %s", g, GoName(f.Name))
			}
			if err := shape(f.T, gf.Type, seen); err != nil {
				return fmt.Errorf("%s: %v", f.Name, err)
			}
		}
	case KRef:
		if seen[t.Def] {
			return nil
		}
		seen[t.Def] = true
		if t.Def.Kind == "typedef" && t.Def.T.Kind == KOpt {
			if k != reflect.Struct {
				return bad("typedef of an optional")
			}
			gf, ok := g.FieldByName("P")
			if !ok {
				return bad("typedef of an optional")
			}
			g = gf.Type
		}
		return shape(t.Def.T, g, seen)
	}
	return nil
}
