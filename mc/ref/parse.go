// Package ref is an independent reading of RFC 4506: specification parser,
// value trees, reference encoder and decoder. It shares no code with the
// repository under test.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

type Kind int

const (
	KVoid Kind = iota
	KInt
	KUint
	KHyper
	KUhyper
	KBool
	KFloat // float, double, quadruple: recognised, not supported
	KEnum
	KStruct
	KUnion
	KRef
	KOpaqueFix
	KOpaqueVar
	KString
	KArray
	KVarArray
	KOpt
)

// Type is a type expression of a specification.
type Type struct {
	Kind    Kind
	Name    string // KRef: name of the definition
	Elem    *Type  // arrays, optional
	SizeTok string // as written; "" for unbounded
	Size    int64  // resolved; -1 for unbounded
	Fields  []Field
	Disc    Field
	Arms    []Arm
	Default *Field
	Items   []Item
	Def     *Def // KRef: resolved definition
}

type Field struct {
	Name string // "" for void
	T    *Type
}

type Arm struct {
	Labels []string
	Values []uint32 // resolved wire values
	Body   Field
}

type Item struct {
	Name string
	Tok  string
	Val  int64
}

type Def struct {
	Kind string // const typedef enum struct union program
	Name string
	T    *Type
	Tok  string // const value as written
	Val  int64
	Prog *Program
}

type Program struct {
	Name string
	Num  int64
	Vers []Version
}

type Version struct {
	Name  string
	Num   int64
	Procs []Proc
}

type Proc struct {
	Name     string
	Num      int64
	Arg, Res *Type // KVoid for void
}

type Spec struct {
	Defs   []*Def
	Types  map[string]*Def
	Consts map[string]int64 // constants and enumerators by specified name
	// Unsupported lists constructs the grammar admits but the generator
	// documents (by panicking) as not translatable.
	Unsupported []string
}

// Token kinds are the literal text for punctuation, "id" and "num" otherwise.
type Token struct {
	Kind string
	Text string
	Pos  int
	End  int
}

const punct = "=;<>[]{},:*()"

// Lex splits XDR source into tokens.
func Lex(src string) ([]Token, error) {
	var out []Token
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "/*"):
			e := strings.Index(src[i+2:], "*/")
			if e < 0 {
				return out, fmt.Errorf("unterminated comment at %d", i)
			}
			i += 2 + e + 2
		case isLetter(c):
			j := i
			for j < len(src) && (isLetter(src[j]) || isDigit(src[j])) {
				j++
			}
			out = append(out, Token{"id", src[i:j], i, j})
			i = j
		case isDigit(c):
			j := i
			for j < len(src) && (isLetter(src[j]) || isDigit(src[j])) {
				j++
			}
			if _, err := ParseNum(src[i:j]); err != nil {
				return out, err
			}
			out = append(out, Token{"num", src[i:j], i, j})
			i = j
		case strings.IndexByte(punct, c) >= 0:
			out = append(out, Token{string(c), string(c), i, i + 1})
			i++
		default:
			return out, fmt.Errorf("illegal character %q at %d", c, i)
		}
	}
	return out, nil
}

func isLetter(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// ParseNum reads a decimal, hexadecimal or octal constant.
func ParseNum(s string) (int64, error) {
	for _, c := range []byte(s) {
		if c == '_' {
			return 0, fmt.Errorf("bad number %q", s)
		}
	}
	base := 10
	d := s
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		base, d = 16, s[2:]
	} else if len(s) > 1 && s[0] == '0' {
		base, d = 8, s[1:]
	}
	u, err := strconv.ParseUint(d, base, 63)
	return int64(u), err
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("const typedef enum struct union switch case default void opaque string unsigned int hyper float double quadruple bool program version") {
		keywords[k] = true
	}
}

// Keywords returns the reserved words.
func Keywords() map[string]bool { return keywords }

type parser struct {
	toks []Token
	p    int
	spec *Spec
}

type synErr struct{ msg string }

func (p *parser) fail(f string, a ...any) { panic(synErr{fmt.Sprintf(f, a...)}) }

func (p *parser) peek() Token {
	if p.p < len(p.toks) {
		return p.toks[p.p]
	}
	return Token{Kind: "eof"}
}
func (p *parser) peekAt(k int) Token {
	if p.p+k < len(p.toks) {
		return p.toks[p.p+k]
	}
	return Token{Kind: "eof"}
}
func (p *parser) isKw(s string) bool { t := p.peek(); return t.Kind == "id" && t.Text == s }
func (p *parser) kw(s string) {
	if !p.isKw(s) {
		p.fail("expected %s, got %q", s, p.peek().Text)
	}
	p.p++
}
func (p *parser) accept(s string) bool {
	if p.peek().Kind == s {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) Token {
	t := p.peek()
	if t.Kind != s {
		p.fail("expected %s, got %q", s, t.Text)
	}
	p.p++
	return t
}
func (p *parser) ident() string {
	t := p.peek()
	if t.Kind != "id" || keywords[t.Text] {
		p.fail("expected identifier, got %q", t.Text)
	}
	p.p++
	return t.Text
}
func (p *parser) num() string { return p.expect("num").Text }
func (p *parser) val() string {
	if p.peek().Kind == "num" {
		return p.num()
	}
	return p.ident()
}

// Parse parses a specification. A nil error means it is syntactically valid
// in the language of the generator's grammar.
func Parse(src string) (spec *Spec, err error) {
	toks, err := Lex(src)
	if err != nil {
		return nil, err
	}
	return ParseTokens(toks)
}

func ParseTokens(toks []Token) (spec *Spec, err error) {
	p := &parser{toks: toks, spec: &Spec{Types: map[string]*Def{}, Consts: map[string]int64{}}}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(synErr); ok {
				spec, err = nil, fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	for p.peek().Kind != "eof" {
		p.defn()
	}
	return p.spec, nil
}

func (p *parser) defn() {
	t := p.peek()
	if t.Kind != "id" {
		p.fail("expected definition, got %q", t.Text)
	}
	d := &Def{Kind: t.Text}
	switch t.Text {
	case "const":
		p.p++
		d.Name = p.ident()
		p.expect("=")
		d.Tok = p.num()
		p.expect(";")
	case "typedef":
		p.p++
		f := p.decl()
		p.expect(";")
		d.Name, d.T = f.Name, f.T
	case "enum":
		p.p++
		d.Name = p.ident()
		d.T = &Type{Kind: KEnum, Items: p.enumBody()}
		p.expect(";")
	case "struct":
		p.p++
		d.Name = p.ident()
		d.T = &Type{Kind: KStruct, Fields: p.structBody()}
		p.expect(";")
	case "union":
		p.p++
		d.Name = p.ident()
		d.T = p.unionBody()
		p.expect(";")
	case "program":
		p.p++
		d.Name = p.ident()
		d.Prog = p.program(d.Name)
	default:
		p.fail("expected definition, got %q", t.Text)
	}
	p.spec.Defs = append(p.spec.Defs, d)
}

func (p *parser) program(name string) *Program {
	pr := &Program{Name: name}
	p.expect("{")
	for p.isKw("version") {
		p.p++
		v := Version{Name: p.ident()}
		p.expect("{")
		for p.peek().Kind != "}" {
			var c Proc
			c.Res = p.procType()
			c.Name = p.ident()
			p.expect("(")
			c.Arg = p.procType()
			p.expect(")")
			p.expect("=")
			c.Num, _ = ParseNum(p.num())
			p.expect(";")
			v.Procs = append(v.Procs, c)
		}
		p.expect("}")
		p.expect("=")
		v.Num, _ = ParseNum(p.num())
		p.expect(";")
		pr.Vers = append(pr.Vers, v)
	}
	p.expect("}")
	p.expect("=")
	pr.Num, _ = ParseNum(p.num())
	p.expect(";")
	return pr
}

func (p *parser) procType() *Type {
	if p.isKw("void") {
		p.p++
		return &Type{Kind: KVoid}
	}
	t := p.typespec()
	if t.Kind == KStruct || t.Kind == KUnion {
		p.unsup("inline type as a procedure argument or result")
	}
	return t
}

func (p *parser) unsup(s string) { p.spec.Unsupported = append(p.spec.Unsupported, s) }

func (p *parser) typespec() *Type {
	t := p.peek()
	if t.Kind != "id" {
		p.fail("expected type, got %q", t.Text)
	}
	switch t.Text {
	case "unsigned":
		p.p++
		switch {
		case p.isKw("int"):
			p.p++
			return &Type{Kind: KUint}
		case p.isKw("hyper"):
			p.p++
			return &Type{Kind: KUhyper}
		}
		p.fail("unsigned what?")
	case "int":
		p.p++
		return &Type{Kind: KInt}
	case "hyper":
		p.p++
		return &Type{Kind: KHyper}
	case "bool":
		p.p++
		return &Type{Kind: KBool}
	case "float", "double", "quadruple":
		p.p++
		p.unsup(t.Text)
		return &Type{Kind: KFloat, Name: t.Text}
	case "enum":
		p.p++
		p.unsup("inline enum")
		return &Type{Kind: KEnum, Items: p.enumBody()}
	case "struct":
		p.p++
		return &Type{Kind: KStruct, Fields: p.structBody()}
	case "union":
		p.p++
		return p.unionBody()
	}
	return &Type{Kind: KRef, Name: p.ident()}
}

func (p *parser) varlen() string {
	p.expect("<")
	if p.accept(">") {
		return ""
	}
	v := p.val()
	p.expect(">")
	return v
}

func (p *parser) decl() Field {
	switch {
	case p.isKw("void"):
		p.p++
		return Field{"", &Type{Kind: KVoid}}
	case p.isKw("opaque"):
		p.p++
		n := p.ident()
		if p.accept("[") {
			v := p.val()
			p.expect("]")
			return Field{n, &Type{Kind: KOpaqueFix, SizeTok: v}}
		}
		return Field{n, &Type{Kind: KOpaqueVar, SizeTok: p.varlen()}}
	case p.isKw("string"):
		p.p++
		n := p.ident()
		return Field{n, &Type{Kind: KString, SizeTok: p.varlen()}}
	}
	t := p.typespec()
	if p.accept("*") {
		return Field{p.ident(), &Type{Kind: KOpt, Elem: t}}
	}
	n := p.ident()
	switch p.peek().Kind {
	case "[":
		p.p++
		v := p.val()
		p.expect("]")
		return Field{n, &Type{Kind: KArray, Elem: t, SizeTok: v}}
	case "<":
		return Field{n, &Type{Kind: KVarArray, Elem: t, SizeTok: p.varlen()}}
	}
	return Field{n, t}
}

func (p *parser) enumBody() []Item {
	var out []Item
	p.expect("{")
	for {
		var it Item
		it.Name = p.ident()
		p.expect("=")
		it.Tok = p.val()
		out = append(out, it)
		if !p.accept(",") {
			break
		}
	}
	p.expect("}")
	return out
}

func (p *parser) structBody() []Field {
	var out []Field
	p.expect("{")
	for !p.accept("}") {
		out = append(out, p.decl())
		p.expect(";")
	}
	return out
}

func (p *parser) unionBody() *Type {
	t := &Type{Kind: KUnion}
	p.kw("switch")
	p.expect("(")
	t.Disc = p.decl()
	p.expect(")")
	p.expect("{")
	for p.isKw("case") {
		var a Arm
		for p.isKw("case") {
			p.p++
			a.Labels = append(a.Labels, p.val())
			p.expect(":")
		}
		a.Body = p.decl()
		p.expect(";")
		t.Arms = append(t.Arms, a)
	}
	if p.isKw("default") {
		p.p++
		p.expect(":")
		f := p.decl()
		p.expect(";")
		t.Default = &f
	}
	p.expect("}")
	if t.Disc.T.Kind == KVoid {
		p.unsup("void union discriminant")
	}
	return t
}
