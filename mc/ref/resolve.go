package ref

import (
	"fmt"
	"strings"
)

// GoName is the documented name mapping: TRUE and FALSE become the Go
// literals, everything else has its first letter upper-cased.
func GoName(s string) string {
	return strings.ToUpper(s[:1]) + s[1:]
}

// Resolve fills in constants, sizes, labels and type references.
func (s *Spec) Resolve() error {
	s.Consts["TRUE"] = 1
	s.Consts["FALSE"] = 0
	type pend struct {
		name, tok string
		it        *Item
	}
	var ps []pend
	for _, d := range s.Defs {
		switch d.Kind {
		case "const":
			v, err := ParseNum(d.Tok)
			if err != nil {
				return err
			}
			d.Val = v
			s.Consts[d.Name] = v
		case "program":
		default:
			if d.Name != "" {
				s.Types[d.Name] = d
			}
			if d.Kind == "enum" {
				for i := range d.T.Items {
					it := &d.T.Items[i]
					ps = append(ps, pend{it.Name, it.Tok, it})
				}
			}
		}
	}
	for round := 0; len(ps) > 0; round++ {
		var next []pend
		for _, e := range ps {
			if v, ok := s.value(e.tok); ok {
				e.it.Val = v
				s.Consts[e.name] = v
			} else {
				next = append(next, e)
			}
		}
		if len(next) == len(ps) {
			return fmt.Errorf("unresolved enumerator %s = %s", next[0].name, next[0].tok)
		}
		ps = next
	}
	for _, d := range s.Defs {
		if d.T != nil {
			if err := s.resolveType(d.T); err != nil {
				return fmt.Errorf("%s: %v", d.Name, err)
			}
		}
		if d.Prog != nil {
			for vi := range d.Prog.Vers {
				for pi := range d.Prog.Vers[vi].Procs {
					c := &d.Prog.Vers[vi].Procs[pi]
					if err := s.resolveType(c.Arg); err != nil {
						return err
					}
					if err := s.resolveType(c.Res); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

func (s *Spec) value(tok string) (int64, bool) {
	if isDigit(tok[0]) {
		v, err := ParseNum(tok)
		return v, err == nil
	}
	v, ok := s.Consts[tok]
	return v, ok
}

func (s *Spec) resolveType(t *Type) error {
	if t.SizeTok != "" {
		v, ok := s.value(t.SizeTok)
		if !ok {
			return fmt.Errorf("unresolved size %s", t.SizeTok)
		}
		t.Size = v
	} else {
		t.Size = -1
	}
	if t.Kind == KRef {
		t.Def = s.Types[t.Name]
		if t.Def == nil {
			return fmt.Errorf("unresolved type %s", t.Name)
		}
	}
	if t.Elem != nil {
		if err := s.resolveType(t.Elem); err != nil {
			return err
		}
	}
	for _, f := range t.Fields {
		if err := s.resolveType(f.T); err != nil {
			return err
		}
	}
	if t.Kind == KUnion {
		if err := s.resolveType(t.Disc.T); err != nil {
			return err
		}
		for i := range t.Arms {
			a := &t.Arms[i]
			a.Values = nil
			for _, l := range a.Labels {
				v, ok := s.value(l)
				if !ok {
					return fmt.Errorf("unresolved label %s", l)
				}
				a.Values = append(a.Values, uint32(v))
			}
			if err := s.resolveType(a.Body.T); err != nil {
				return err
			}
		}
		if t.Default != nil {
			if err := s.resolveType(t.Default.T); err != nil {
				return err
			}
		}
	}
	return nil
}

// Base follows references to the defining type expression.
func (t *Type) Base() *Type {
	for t.Kind == KRef {
		t = t.Def.T
	}
	return t
}
