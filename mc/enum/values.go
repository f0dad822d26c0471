package enum

import "verif/mc/ref"

// Opts bounds value enumeration.
type Opts struct {
	Dev     int  // leaf deviations per value
	MaxRec  int  // nesting of a recursive definition (list length)
	ArrMax  int  // array lengths 0..ArrMax are shapes
	Wide    bool // wide scalar alphabet
	AllEnum bool // deviate enumerators over all items
	NoShape bool // shapes cost a deviation as well
}

var U32 = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}
var U64 = []uint64{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0xffffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffff00000000, 0xffffffffffffffff}

func wide(bits int) []uint64 {
	mask := ^uint64(0)
	if bits == 32 {
		mask = 0xffffffff
	}
	seen := map[uint64]bool{}
	var out []uint64
	for k := 0; k < bits; k++ {
		for _, d := range []uint64{^uint64(0), 0, 1} {
			v := (uint64(1)<<k + d) & mask
			for _, w := range []uint64{v, ^v & mask} {
				if !seen[w] {
					seen[w] = true
					out = append(out, w)
				}
			}
		}
	}
	return out
}

var Wide32 = wide(32)
var Wide64 = wide(64)

// Sentinel bytes: never zero, no two neighbours alike.
func Bytes(k, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		x := byte(0x41 + k*29 + i*7)
		if x == 0 {
			x = 0xfe
		}
		b[i] = x
	}
	return b
}

func mix(k int) uint64 {
	x := uint64(k+1) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

type gen struct {
	c     *Chooser
	o     Opts
	k     int
	stack map[*ref.Def]int
}

// Value builds one value of t from the chooser.
func Value(t *ref.Type, c *Chooser, o Opts) *ref.Val {
	g := &gen{c: c, o: o, stack: map[*ref.Def]int{}}
	return g.val(t)
}

func (g *gen) scalar(alpha []uint64, mask uint64) uint64 {
	p := g.c.Pick(1+len(alpha), 1)
	if p == 0 {
		return mix(g.k) & mask
	}
	return alpha[p-1]
}

func (g *gen) shape(n int) int {
	if g.o.NoShape {
		return g.c.Pick(n, 1)
	}
	return g.c.Pick(n, 0)
}

func recursive(t *ref.Type, stack map[*ref.Def]int, max int) bool {
	switch t.Kind {
	case ref.KRef:
		if stack[t.Def] > max {
			return true
		}
		if stack[t.Def] > 0 {
			return false
		}
		// look through typedefs of recursive targets
		if t.Def.Kind == "typedef" && t.Def.T.Kind == ref.KRef {
			return recursive(t.Def.T, stack, max)
		}
	case ref.KStruct:
		return false
	}
	return false
}

func (g *gen) val(t *ref.Type) *ref.Val {
	g.k++
	v := &ref.Val{}
	switch t.Kind {
	case ref.KVoid:
	case ref.KInt, ref.KUint:
		a := U32
		if g.o.Wide {
			a = Wide32
		}
		v.U = g.scalar(a, 0xffffffff)
	case ref.KHyper, ref.KUhyper:
		a := U64
		if g.o.Wide {
			a = Wide64
		}
		v.U = g.scalar(a, ^uint64(0))
	case ref.KBool:
		v.U = uint64((g.k + g.c.Pick(2, 1)) & 1)
	case ref.KEnum:
		n := len(t.Items)
		v.U = uint64(uint32(t.Items[(g.k+g.c.Pick(n, 1))%n].Val))
	case ref.KOpaqueFix:
		v.B = Bytes(g.k, int(t.Size))
		switch g.c.Pick(3, 1) {
		case 1:
			v.B = make([]byte, t.Size)
		case 2:
			for i := range v.B {
				v.B[i] = 0xff
			}
		}
	case ref.KOpaqueVar, ref.KString:
		v.B = Bytes(g.k, g.length(t.Size))
	case ref.KArray:
		for i := int64(0); i < t.Size; i++ {
			v.L = append(v.L, g.val(t.Elem))
		}
	case ref.KVarArray:
		max := int64(g.o.ArrMax)
		if t.Size >= 0 && t.Size < max {
			max = t.Size
		}
		if recursive(t.Elem, g.stack, g.o.MaxRec) {
			max = 0
		}
		// shapes: 1, 0, 2, 3, ... up to max
		var n int64
		p := int64(g.shape(int(max) + 1))
		switch {
		case max == 0:
			n = 0
		case p == 0:
			n = 1
		case p == 1:
			n = 0
		default:
			n = p
		}
		if n == max && max > 0 && t.Size > max && t.Size <= 64 {
			if g.c.Pick(2, 1) == 1 {
				n = t.Size
			}
		}
		for i := int64(0); i < n; i++ {
			v.L = append(v.L, g.val(t.Elem))
		}
	case ref.KOpt:
		if recursive(t.Elem, g.stack, g.o.MaxRec) {
			return v
		}
		if g.shape(2) == 0 {
			v.L = []*ref.Val{g.val(t.Elem)}
		}
	case ref.KStruct:
		for _, f := range t.Fields {
			if f.T.Kind != ref.KVoid {
				v.L = append(v.L, g.val(f.T))
			}
		}
	case ref.KUnion:
		v.U = uint64(g.disc(t))
		if f, ok := t.ArmOf(uint32(v.U)); ok && f.T.Kind != ref.KVoid {
			v.L = []*ref.Val{g.val(f.T)}
		}
	case ref.KRef:
		g.stack[t.Def]++
		w := g.val(t.Def.T)
		g.stack[t.Def]--
		return w
	default:
		panic("enum: kind")
	}
	return v
}

func (g *gen) length(max int64) int {
	def := int64(3)
	if max >= 0 && def > max {
		def = max
	}
	cands := []int64{0, 1, 2, 4, 5, 6, 7, 8, 9, 31, 32, 33, 255, 256, 257}
	if max >= 0 {
		cands = append(cands, max-1, max)
	} else {
		cands = append(cands, 1024, 4097)
	}
	var ok []int64
	for _, c := range cands {
		if c >= 0 && c != def && (max < 0 || c <= max) {
			dup := false
			for _, d := range ok {
				dup = dup || d == c
			}
			if !dup {
				ok = append(ok, c)
			}
		}
	}
	p := g.c.Pick(1+len(ok), 1)
	if p == 0 {
		return int(def)
	}
	return int(ok[p-1])
}

// disc picks a discriminant: every label and one value per default arm are
// shapes; further default values are deviations.
func (g *gen) disc(t *ref.Type) uint32 {
	var shapes, devs []uint32
	for _, a := range t.Arms {
		shapes = append(shapes, a.Values...)
	}
	lab := map[uint32]bool{}
	for _, s := range shapes {
		lab[s] = true
	}
	if t.Default != nil {
		var cand []uint32
		b := t.Disc.T.Base()
		switch b.Kind {
		case ref.KEnum:
			for _, it := range b.Items {
				cand = append(cand, uint32(it.Val))
			}
		case ref.KBool:
			cand = []uint32{0, 1}
		default:
			cand = []uint32{0, 1, 2, 3, 7, 0x7fffffff, 0x80000000, 0xffffffff}
		}
		n := 0
		for _, c := range cand {
			if lab[c] {
				continue
			}
			lab[c] = true
			if n == 0 {
				shapes = append(shapes, c)
			} else {
				devs = append(devs, c)
			}
			n++
		}
	}
	if len(shapes) == 0 { // union without any arm: bare discriminant
		shapes = []uint32{0, 1}
	}
	s := shapes[g.shape(len(shapes))]
	if len(devs) > 0 && s == shapes[len(shapes)-1] {
		if p := g.c.Pick(1+len(devs), 1); p > 0 {
			s = devs[p-1]
		}
	}
	return s
}

// All returns every value of t within the bounds, at most cap (0: no cap).
// complete is false when the cap cut the enumeration.
func All(t *ref.Type, o Opts, cap int) (vals []*ref.Val, complete bool) {
	c := New(o.Dev)
	for c.Next() {
		if cap > 0 && len(vals) >= cap {
			return vals, false
		}
		vals = append(vals, Value(t, c, o))
	}
	return vals, true
}
