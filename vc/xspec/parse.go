// Package xspec is an independent parser for RFC 4506 interface
// specifications.  It shares no code with the generator under test; the
// contracts of all generated codecs are derived from its output.
package xspec

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

type Kind int

const (
	Int Kind = iota
	UInt
	Hyper
	UHyper
	Bool
	Enum
	OpaqueFixed
	OpaqueVar
	String
	ArrayFixed
	ArrayVar
	Opt
	Struct
	Union
	Named
	Void
	Iface // dynamically typed value behind the xdr.Xdrable interface
)

// Type is a specification type.
type Type struct {
	Kind   Kind
	Elem   *Type  // arrays, Opt
	N      int64  // fixed size, or maximum (-1: none)
	NName  string // symbolic size, as written (informational)
	Fields []Field
	// Union
	Disc  Field
	Arms  []Arm
	Items []Item // Enum
	Name  string // Named; also set on the top-level type of a definition
}

type Field struct {
	Name string
	T    *Type
}

// Arm of a union: Labels empty means the default arm.
type Arm struct {
	Labels     []int64
	LabelNames []string
	F          Field // F.T.Kind == Void for void arms
}

type Item struct {
	Name string
	Val  int64
}

type Def struct {
	Name string
	T    *Type
	What string // typedef, struct, union, enum
}

type Proc struct {
	Name string
	Arg  *Type // Void kind for void
	Res  *Type
	Num  int64
}
type Version struct {
	Name  string
	Procs []Proc
	Num   int64
}
type Program struct {
	Name string
	Vers []Version
	Num  int64
}

type Const struct {
	Name string
	Val  int64
}

type Spec struct {
	Defs   []*Def
	ByName map[string]*Def
	Consts []Const
	Enums  []Item // all enum items (name -> value), for label lookups
	cval   map[string]int64
	Progs  []Program
}

// ---- lexer

type tok struct {
	k string // "id", "num", punctuation, "eof"
	s string
	p int
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 2
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '%':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], i})
			i = j
		case c >= '0' && c <= '9' || c == '-':
			j := i + 1
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == 'x' || src[j] == 'X') {
				j++
			}
			out = append(out, tok{"num", src[i:j], i})
			i = j
		case strings.IndexByte("=;:<>[]{}(),*", c) >= 0:
			out = append(out, tok{string(c), string(c), i})
			i++
		default:
			return nil, fmt.Errorf("bad character %q at %d", c, i)
		}
	}
	out = append(out, tok{"eof", "", len(src)})
	return out, nil
}

type parser struct {
	t  []tok
	i  int
	sp *Spec
	// forward references to constants are resolved after parsing
	fix []func() error
}

type perr string

func (p *parser) fail(f string, a ...interface{}) {
	panic(perr(fmt.Sprintf("at offset %d (%q): %s", p.t[p.i].p, p.t[p.i].s, fmt.Sprintf(f, a...))))
}
func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) want(k string) tok {
	if p.peek().k != k {
		p.fail("expected %s", k)
	}
	return p.next()
}
func (p *parser) isID(s string) bool { return p.peek().k == "id" && p.peek().s == s }
func (p *parser) accept(k string) bool {
	if p.peek().k == k {
		p.i++
		return true
	}
	return false
}

func ParseFile(fn string) (*Spec, error) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil, err
	}
	return Parse(string(b))
}

func Parse(src string) (sp *Spec, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: ts, sp: &Spec{ByName: map[string]*Def{}, cval: map[string]int64{}}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				sp, err = nil, fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	for p.peek().k != "eof" {
		p.defn()
	}
	for _, f := range p.fix {
		if err := f(); err != nil {
			return nil, err
		}
	}
	return p.sp, nil
}

func parseNum(s string) (int64, error) { return strconv.ParseInt(s, 0, 64) }

func (p *parser) num() int64 {
	t := p.want("num")
	v, err := parseNum(t.s)
	if err != nil {
		p.fail("%v", err)
	}
	return v
}

// val parses a constant or identifier; set is called once it is known.
func (p *parser) val(set func(v int64, name string)) {
	t := p.next()
	switch t.k {
	case "num":
		v, err := parseNum(t.s)
		if err != nil {
			p.fail("%v", err)
		}
		set(v, "")
	case "id":
		p.fix = append(p.fix, func() error {
			if t.s == "TRUE" {
				set(1, t.s)
				return nil
			}
			if t.s == "FALSE" {
				set(0, t.s)
				return nil
			}
			v, ok := p.sp.cval[t.s]
			if !ok {
				return fmt.Errorf("undefined constant %s", t.s)
			}
			set(v, t.s)
			return nil
		})
	default:
		p.fail("expected value")
	}
}

func (p *parser) define(name, what string, t *Type) {
	if t.Kind != Named {
		t.Name = name
	}
	d := &Def{Name: name, T: t, What: what}
	p.sp.Defs = append(p.sp.Defs, d)
	p.sp.ByName[name] = d
}

func (p *parser) defn() {
	t := p.want("id")
	switch t.s {
	case "const":
		n := p.want("id").s
		p.want("=")
		v := p.num()
		p.want(";")
		p.sp.Consts = append(p.sp.Consts, Const{n, v})
		p.sp.cval[n] = v
	case "typedef":
		f := p.decl()
		p.want(";")
		p.define(f.Name, "typedef", f.T)
	case "enum":
		n := p.want("id").s
		ty := p.enumBody()
		p.want(";")
		p.define(n, "enum", ty)
	case "struct":
		n := p.want("id").s
		ty := p.structBody()
		p.want(";")
		p.define(n, "struct", ty)
	case "union":
		n := p.want("id").s
		ty := p.unionBody()
		p.want(";")
		p.define(n, "union", ty)
	case "program":
		p.program()
	default:
		p.i--
		p.fail("expected definition")
	}
}

func (p *parser) enumBody() *Type {
	p.want("{")
	ty := &Type{Kind: Enum}
	idx := 0
	for {
		n := p.want("id").s
		p.want("=")
		ty.Items = append(ty.Items, Item{Name: n})
		i := idx
		idx++
		if p.peek().k == "num" {
			v := p.num()
			ty.Items[i].Val = v
			p.sp.cval[n] = v
		} else {
			p.val(func(v int64, _ string) { ty.Items[i].Val = v; p.sp.cval[n] = v })
		}
		if !p.accept(",") {
			break
		}
	}
	p.want("}")
	return ty
}

func (p *parser) structBody() *Type {
	p.want("{")
	ty := &Type{Kind: Struct}
	for !p.accept("}") {
		f := p.decl()
		p.want(";")
		if f.T.Kind != Void {
			ty.Fields = append(ty.Fields, f)
		}
	}
	return ty
}

func (p *parser) unionBody() *Type {
	ty := &Type{Kind: Union}
	if !p.isID("switch") {
		p.fail("expected switch")
	}
	p.next()
	p.want("(")
	ty.Disc = p.decl()
	p.want(")")
	p.want("{")
	for !p.accept("}") {
		ai := len(ty.Arms)
		ty.Arms = append(ty.Arms, Arm{})
		if p.isID("default") {
			p.next()
			p.want(":")
		} else {
			for p.isID("case") {
				p.next()
				li := len(ty.Arms[ai].Labels)
				ty.Arms[ai].Labels = append(ty.Arms[ai].Labels, 0)
				ty.Arms[ai].LabelNames = append(ty.Arms[ai].LabelNames, "")
				p.val(func(v int64, n string) {
					ty.Arms[ai].Labels[li] = v
					ty.Arms[ai].LabelNames[li] = n
				})
				p.want(":")
			}
			if len(ty.Arms[ai].Labels) == 0 {
				p.fail("expected case")
			}
		}
		ty.Arms[ai].F = p.decl()
		p.want(";")
	}
	return ty
}

func (p *parser) typespec() *Type {
	t := p.want("id")
	switch t.s {
	case "unsigned":
		if p.isID("int") {
			p.next()
			return &Type{Kind: UInt}
		}
		if p.isID("hyper") {
			p.next()
			return &Type{Kind: UHyper}
		}
		p.fail("expected int or hyper")
	case "int":
		return &Type{Kind: Int}
	case "hyper":
		return &Type{Kind: Hyper}
	case "bool":
		return &Type{Kind: Bool}
	case "enum":
		return p.enumBody()
	case "struct":
		if p.peek().k == "{" {
			return p.structBody()
		}
		return &Type{Kind: Named, Name: p.want("id").s}
	case "union":
		return p.unionBody()
	}
	return &Type{Kind: Named, Name: t.s}
}

func (p *parser) maxlen(ty *Type) {
	ty.N = -1
	if p.accept(">") {
		return
	}
	p.val(func(v int64, n string) { ty.N = v; ty.NName = n })
	p.want(">")
}

func (p *parser) decl() Field {
	if p.isID("void") {
		p.next()
		return Field{T: &Type{Kind: Void}}
	}
	if p.isID("opaque") {
		p.next()
		n := p.want("id").s
		if p.accept("[") {
			ty := &Type{Kind: OpaqueFixed}
			p.val(func(v int64, s string) { ty.N = v; ty.NName = s })
			p.want("]")
			return Field{n, ty}
		}
		p.want("<")
		ty := &Type{Kind: OpaqueVar}
		p.maxlen(ty)
		return Field{n, ty}
	}
	if p.isID("string") {
		p.next()
		n := p.want("id").s
		p.want("<")
		ty := &Type{Kind: String}
		p.maxlen(ty)
		return Field{n, ty}
	}
	ts := p.typespec()
	if p.accept("*") {
		return Field{p.want("id").s, &Type{Kind: Opt, Elem: ts}}
	}
	n := p.want("id").s
	if p.accept("[") {
		ty := &Type{Kind: ArrayFixed, Elem: ts}
		p.val(func(v int64, s string) { ty.N = v; ty.NName = s })
		p.want("]")
		return Field{n, ty}
	}
	if p.accept("<") {
		ty := &Type{Kind: ArrayVar, Elem: ts}
		p.maxlen(ty)
		return Field{n, ty}
	}
	return Field{n, ts}
}

func (p *parser) optType() *Type {
	if p.isID("void") {
		p.next()
		return &Type{Kind: Void}
	}
	return p.typespec()
}

func (p *parser) program() {
	pr := Program{Name: p.want("id").s}
	p.want("{")
	for !p.accept("}") {
		if !p.isID("version") {
			p.fail("expected version")
		}
		p.next()
		v := Version{Name: p.want("id").s}
		p.want("{")
		for !p.accept("}") {
			var c Proc
			c.Res = p.optType()
			c.Name = p.want("id").s
			p.want("(")
			c.Arg = p.optType()
			p.want(")")
			p.want("=")
			c.Num = p.num()
			p.want(";")
			v.Procs = append(v.Procs, c)
		}
		p.want("=")
		v.Num = p.num()
		p.want(";")
		pr.Vers = append(pr.Vers, v)
	}
	p.want("=")
	pr.Num = p.num()
	p.want(";")
	p.sp.Progs = append(p.sp.Progs, pr)
}

// GoName is the exported Go identifier for a specification identifier.
func GoName(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// Resolve follows typedef chains.
func (sp *Spec) Resolve(t *Type) *Type {
	for t.Kind == Named {
		d := sp.ByName[t.Name]
		if d == nil {
			return t
		}
		t = d.T
	}
	return t
}

// EnumItems lists all enumeration items of the specification.
func (sp *Spec) EnumItems() []struct {
	Enum string
	Item
} {
	var r []struct {
		Enum string
		Item
	}
	for _, d := range sp.Defs {
		if d.T.Kind == Enum {
			for _, it := range d.T.Items {
				r = append(r, struct {
					Enum string
					Item
				}{d.Name, it})
			}
		}
	}
	return r
}
