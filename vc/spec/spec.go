// Package spec turns interface specifications (package xspec) into
// mathematical spec functions: encoding, well-formedness, decodability,
// decoded value and end position.  Contracts of codecs are stated with these
// functions; it shares nothing with the code under verification.
package spec

import (
	"fmt"
	"math/big"
	"strings"

	. "verif/vc/smt"
	"verif/vc/xspec"
)

// Kind-level view of a resolved specification type.
type Type struct {
	Key  string
	K    xspec.Kind
	Elem *Type
	N    int64 // fixed size or maximum (-1 none)
	// Struct / Union
	Name   string // "pkg.Name" for named types, owner#path for inline ones
	Named  bool
	Fields []Field
	Disc   Field
	Arms   []Arm
	Signed bool // enum representation
	w      *World
	src    *xspec.Type
	pkg    *Pkg
	MaxT   *Term // symbolic maximum / size (runtime primitives)
	Dyn    *Term // the object, for opaque Xdrable values
	bnd    int   // memo for Bounded
}

type Field struct {
	Name   string // specification name
	GoName string
	T      *Type
}

type Arm struct {
	Labels []int64
	Def    bool
	F      Field // T nil for void
	Ctor   string
}

// Pkg is one specification bound to a Go package.
type Pkg struct {
	Path     string
	Short    string
	Spec     *xspec.Spec
	Unsigned bool // -unsigned-enum
	Types    map[string]*Type
	W        *World
}

// World holds all types in play.
type World struct {
	Pkgs   map[string]*Pkg
	types  map[string]*Type
	sorts  map[string]string // sort name -> datatype constructors text
	sortO  []string
	arrs   map[string]*Type // array sort -> element type
	Ctors  bool             // unfold Enc and Wf of explicitly constructed values
	Prims  bool             // add definitions of primitive spec functions to queries
	uninst map[string]bool
}

func NewWorld() *World {
	return &World{Pkgs: map[string]*Pkg{}, types: map[string]*Type{}, sorts: map[string]string{}, arrs: map[string]*Type{}}
}

// AddPkg registers a specification.
func (w *World) AddPkg(path, short string, sp *xspec.Spec, unsigned bool) *Pkg {
	p := &Pkg{Path: path, Short: short, Spec: sp, Unsigned: unsigned, Types: map[string]*Type{}, W: w}
	w.Pkgs[path] = p
	for _, d := range sp.Defs {
		p.Lookup(d.Name)
	}
	return p
}

// Lookup finds the type of a definition by specification name.
func (p *Pkg) Lookup(name string) *Type {
	if t, ok := p.Types[name]; ok {
		return t
	}
	d := p.Spec.ByName[name]
	if d == nil {
		return nil
	}
	x := d.T
	if x.Kind == xspec.Struct || x.Kind == xspec.Union {
		t := &Type{K: x.Kind, Name: p.Short + "." + xspec.GoName(name), Named: true, w: p.W, src: x, pkg: p}
		t.Key = "N:" + t.Name
		p.Types[name] = t
		p.W.types[t.Key] = t
		p.fill(t, x)
		return t
	}
	// pre-register typedef pointers to break cycles (typedef *T where T contains the typedef)
	if x.Kind == xspec.Opt {
		t := &Type{K: xspec.Opt, w: p.W, src: x, pkg: p}
		p.Types[name] = t
		if x.Elem.Kind == xspec.Named {
			if ed := p.Spec.ByName[x.Elem.Name]; ed != nil && (ed.T.Kind == xspec.Struct || ed.T.Kind == xspec.Union) {
				t.Key = "opt(N:" + p.Short + "." + xspec.GoName(x.Elem.Name) + ")"
			}
			t.Elem = p.Lookup(x.Elem.Name)
		} else {
			t.Elem = p.conv(x.Elem, p.Short+"."+xspec.GoName(name))
		}
		t.Key = "opt(" + p.keyOf(x.Elem, t.Elem) + ")"
		p.W.types[t.Key] = t
		return t
	}
	t := p.conv(x, p.Short+"."+xspec.GoName(name))
	p.Types[name] = t
	return t
}

func (p *Pkg) keyOf(x *xspec.Type, t *Type) string {
	if t.Key != "" {
		return t.Key
	}
	return "N?:" + p.Short + "." + x.Name
}

func (p *Pkg) prim(key string, k xspec.Kind, n int64) *Type {
	if t, ok := p.W.types[key]; ok {
		return t
	}
	t := &Type{Key: key, K: k, N: n, w: p.W, pkg: p}
	p.W.types[key] = t
	return t
}

func bnd(n int64) string {
	if n < 0 {
		return ""
	}
	return fmt.Sprint(n)
}

// Prim returns a primitive type by kind.
func (w *World) Prim(k xspec.Kind, n int64) *Type {
	p := &Pkg{W: w}
	return p.conv(&xspec.Type{Kind: k, N: n}, "")
}

func (p *Pkg) conv(x *xspec.Type, path string) *Type {
	switch x.Kind {
	case xspec.Named:
		t := p.Lookup(x.Name)
		if t == nil {
			panic("unknown type " + x.Name)
		}
		return t
	case xspec.Int:
		return p.prim("s32", xspec.Int, 0)
	case xspec.UInt:
		return p.prim("u32", xspec.UInt, 0)
	case xspec.Hyper:
		return p.prim("s64", xspec.Hyper, 0)
	case xspec.UHyper:
		return p.prim("u64", xspec.UHyper, 0)
	case xspec.Bool:
		return p.prim("bool", xspec.Bool, 0)
	case xspec.Enum:
		if p.Unsigned {
			return p.prim("u32", xspec.UInt, 0)
		}
		return p.prim("s32", xspec.Int, 0)
	case xspec.OpaqueFixed:
		return p.prim(fmt.Sprintf("opaq[%d]", x.N), xspec.OpaqueFixed, x.N)
	case xspec.OpaqueVar:
		return p.prim("opaq<"+bnd(x.N)+">", xspec.OpaqueVar, x.N)
	case xspec.String:
		return p.prim("str<"+bnd(x.N)+">", xspec.String, x.N)
	case xspec.Iface:
		return p.prim("iface", xspec.Iface, 0)
	case xspec.Void:
		return p.prim("void", xspec.Void, 0)
	case xspec.ArrayFixed, xspec.ArrayVar:
		e := p.conv(x.Elem, path+"[]")
		key := fmt.Sprintf("arr[%d](%s)", x.N, e.Key)
		if x.Kind == xspec.ArrayVar {
			key = fmt.Sprintf("arr<%s>(%s)", bnd(x.N), e.Key)
		}
		t := p.prim(key, x.Kind, x.N)
		t.Elem = e
		return t
	case xspec.Opt:
		e := p.conv(x.Elem, path+"*")
		t := p.prim("opt("+e.Key+")", xspec.Opt, 0)
		t.Elem = e
		return t
	case xspec.Struct, xspec.Union:
		t := &Type{K: x.Kind, Name: path, w: p.W, src: x, pkg: p}
		t.Key = "N:" + t.Name
		p.W.types[t.Key] = t
		p.fill(t, x)
		return t
	}
	panic(fmt.Sprint("kind ", x.Kind))
}

func (p *Pkg) field(f xspec.Field, path string) Field {
	return Field{Name: f.Name, GoName: xspec.GoName(f.Name), T: p.conv(f.T, path+"#"+f.Name)}
}

func (p *Pkg) fill(t *Type, x *xspec.Type) {
	if x.Kind == xspec.Struct {
		for _, f := range x.Fields {
			if f.T.Kind == xspec.Void {
				continue
			}
			t.Fields = append(t.Fields, p.field(f, t.Name))
		}
		return
	}
	t.Disc = p.field(x.Disc, t.Name)
	for i, a := range x.Arms {
		n := Arm{Labels: a.Labels, Def: len(a.Labels) == 0}
		if a.F.T.Kind != xspec.Void {
			n.F = p.field(a.F, t.Name)
			n.Ctor = fmt.Sprintf("arm%d:%s", i, t.Name)
		}
		t.Arms = append(t.Arms, n)
	}
}

// ---- sorts

func (t *Type) IsInt() bool {
	switch t.K {
	case xspec.Int, xspec.UInt, xspec.Hyper, xspec.UHyper:
		return true
	}
	return false
}
func (t *Type) IsBytes() bool {
	switch t.K {
	case xspec.OpaqueFixed, xspec.OpaqueVar, xspec.String:
		return true
	}
	return false
}

// Bounds of an integer type.
func (t *Type) Bounds() (lo, hi *big.Int) {
	b := uint(32)
	if t.K == xspec.Hyper || t.K == xspec.UHyper {
		b = 64
	}
	if t.K == xspec.Int || t.K == xspec.Hyper {
		h := new(big.Int).Lsh(big.NewInt(1), b-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(1))
}

func bq(s string) string { return "|" + s + "|" }

// Sort is the SMT sort of values of the type.
func (t *Type) Sort() string {
	switch {
	case t.IsInt():
		return SInt
	case t.K == xspec.Bool:
		return SBool
	case t.IsBytes():
		return SBytes
	case t.K == xspec.Iface:
		return "Dyn"
	case t.K == xspec.Void:
		return SBool
	}
	w := t.w
	switch t.K {
	case xspec.Opt:
		n := bq("O:" + t.Elem.Key)
		if _, ok := w.sorts[n]; !ok {
			w.sorts[n] = ""
			w.sortO = append(w.sortO, n)
			RegisterSel("get:"+t.Elem.Key, "some:"+t.Elem.Key, 0)
			w.sorts[n] = fmt.Sprintf("((%s) (%s (%s %s)))", bq("none:"+t.Elem.Key), bq("some:"+t.Elem.Key), bq("get:"+t.Elem.Key), t.Elem.Sort())
		}
		return n
	case xspec.ArrayFixed, xspec.ArrayVar:
		n := bq("A:" + t.Elem.Key)
		if _, ok := w.sorts[n]; !ok {
			w.sorts[n] = "sort"
			w.arrs[n] = t.Elem
			w.sortO = append(w.sortO, n)
			t.Elem.Sort()
		}
		return n
	case xspec.Struct:
		n := bq("S:" + t.Name)
		if _, ok := w.sorts[n]; !ok {
			w.sorts[n] = ""
			w.sortO = append(w.sortO, n)
			s := "((" + bq("mk:"+t.Name)
			for i, f := range t.Fields {
				RegisterSel(t.Name+"."+f.Name, "mk:"+t.Name, i)
				s += " (" + bq(t.Name+"."+f.Name) + " " + f.T.Sort() + ")"
			}
			w.sorts[n] = s + "))"
		}
		return n
	case xspec.Union:
		n := bq("U:" + t.Name)
		if _, ok := w.sorts[n]; !ok {
			w.sorts[n] = ""
			w.sortO = append(w.sortO, n)
			b := bq("B:" + t.Name)
			RegisterSel(t.Name+"."+t.Disc.Name, "mk:"+t.Name, 0)
			RegisterSel(t.Name+".body", "mk:"+t.Name, 1)
			w.sorts[n] = fmt.Sprintf("((%s (%s %s) (%s %s)))", bq("mk:"+t.Name), bq(t.Name+"."+t.Disc.Name), t.Disc.T.Sort(), bq(t.Name+".body"), b)
			w.sorts[b] = ""
			w.sortO = append(w.sortO, b)
			s := "((" + bq("void:"+t.Name) + ")"
			for _, a := range t.Arms {
				if a.Ctor != "" {
					RegisterSel("get"+a.Ctor, a.Ctor, 0)
					s += fmt.Sprintf(" (%s (%s %s))", bq(a.Ctor), bq("get"+a.Ctor), a.F.T.Sort())
				}
			}
			w.sorts[b] = s + ")"
		}
		return n
	}
	panic("sort of " + t.Key)
}

// SortDecls implements smt.Decls.
func (w *World) SortDecls(used map[string]bool, ctors map[string]bool) string {
	var b strings.Builder
	need := map[string]bool{}
	var dfs func(s string)
	dfs = func(s string) {
		d, ok := w.sorts[s]
		if !ok || need[s] {
			return
		}
		need[s] = true
		if d == "sort" {
			return
		}
		for _, o := range w.sortO {
			if strings.Contains(d, o) {
				dfs(o)
			}
		}
	}
	for s := range used {
		dfs(s)
	}
	var names, bodies []string
	for _, s := range w.sortO {
		if !need[s] {
			continue
		}
		if w.sorts[s] == "sort" {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
		} else {
			names = append(names, "("+s+" 0)")
			bodies = append(bodies, w.sorts[s])
		}
	}
	std := map[string]bool{SInt: true, SBool: true, SBytes: true}
	for s := range used {
		if !std[s] && w.sorts[s] == "" && s != "Dyn" {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
		}
	}
	dyn := used["Dyn"]
	for _, x := range bodies {
		if strings.Contains(x, "Dyn") {
			dyn = true
		}
	}
	s := b.String()
	if dyn {
		s = "(declare-sort Dyn 0)\n" + s
	}
	if len(names) > 0 {
		s += "(declare-datatypes (" + strings.Join(names, " ") + ") (" + strings.Join(bodies, "\n ") + "))\n"
	}
	return s
}

// DeclareFun implements smt.Decls.
func (w *World) DeclareFun(name string, t *Term) (string, []*Term) {
	if SelInfo(name) != nil {
		return "", nil
	}
	s := "(declare-fun " + bq(name) + " ("
	for i, a := range t.Args {
		if i > 0 {
			s += " "
		}
		s += a.Sort
	}
	return s + ") " + t.Sort + ")", nil
}

// Instances implements smt.Instancer: prefixes of a decodable (well-formed)
// element sequence are decodable (well-formed), and element sequences do not
// move the position backwards.
func (w *World) Instances(apps []*Term) []*Term {
	var fs []*Term
	for i, a := range apps {
		ok := strings.HasPrefix(a.Name, "okArr:")
		if !ok && !strings.HasPrefix(a.Name, "wfArr:") {
			continue
		}
		n := len(a.Args) - 1
		for j, b := range apps {
			if i == j || a.Name != b.Name {
				continue
			}
			same := true
			for k := 0; k < n; k++ {
				if a.Args[k] != b.Args[k] {
					same = false
				}
			}
			if same {
				fs = append(fs, Implies(And(Le(Zero, a.Args[n]), Le(a.Args[n], b.Args[n]), b), a))
			}
		}
	}
	return fs
}

// ---- spec functions

func i64(n int64) *Term { return IntT(n) }

// WrapU reduces modulo 2^bits.
func WrapU(x *Term, bits uint) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	if x.Lo != nil && x.Lo.Sign() >= 0 && x.Hi != nil && x.Hi.Cmp(m) < 0 {
		return x
	}
	return Mod(x, m)
}

// WrapS reduces to the two's complement range.
func WrapS(x *Term, bits uint) *Term {
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	if x.Lo != nil && x.Hi != nil && x.Lo.Cmp(new(big.Int).Neg(h)) >= 0 && x.Hi.Cmp(h) < 0 {
		return x
	}
	u := WrapU(x, bits)
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	return Ite(Lt(u, BigT(h)), u, Sub(u, BigT(m)))
}

// Pad is the number of padding bytes after n data bytes.
func Pad(n *Term) *Term {
	four := big.NewInt(4)
	return Mod(Sub(i64(4), Mod(n, four)), four)
}

func (t *Type) width() int {
	if t.K == xspec.Hyper || t.K == xspec.UHyper {
		return 8
	}
	return 4
}

// Max is the largest admissible length.
func (t *Type) Max() *Term {
	if t.MaxT != nil {
		return t.MaxT
	}
	if t.N < 0 {
		return i64(0xffffffff)
	}
	return i64(t.N)
}

// Typed adds type facts to an opaque term of the type.
func (t *Type) Typed(x *Term) *Term {
	if t.IsInt() {
		lo, hi := t.Bounds()
		if x.Op == "var" || x.Op == "app" {
			return Ranged(x, lo, hi)
		}
	}
	if t.IsBytes() && (x.Op == "var" || x.Op == "app") {
		if t.K == xspec.OpaqueFixed && t.MaxT == nil {
			Sized(x, i64(t.N))
		}
		return Seqlike(x)
	}
	return x
}

// FieldOf selects a struct field of an abstract value.
func (t *Type) FieldOf(a *Term, i int) *Term {
	f := t.Fields[i]
	t.Sort()
	return f.T.Typed(Sel(t.Name+"."+f.Name, "mk:"+t.Name, i, f.T.Sort(), a))
}

func (t *Type) DiscOf(a *Term) *Term {
	t.Sort()
	return t.Disc.T.Typed(Sel(t.Name+"."+t.Disc.Name, "mk:"+t.Name, 0, t.Disc.T.Sort(), a))
}

func (t *Type) ArmOf(a *Term, k int) *Term {
	t.Sort()
	b := Sel(t.Name+".body", "mk:"+t.Name, 1, bq("B:"+t.Name), a)
	arm := t.Arms[k]
	return arm.F.T.Typed(Sel("get"+arm.Ctor, arm.Ctor, 0, arm.F.T.Sort(), b))
}

// ArmCond is the condition on the discriminant selecting arm k (k ==
// len(Arms): no arm).
func (t *Type) ArmCond(disc *Term, k int) *Term {
	lab := func(l int64) *Term {
		if t.Disc.T.K == xspec.Bool {
			if l != 0 {
				return disc
			}
			return Not(disc)
		}
		return Eq(disc, i64(l))
	}
	var mine, others []*Term
	for j, a := range t.Arms {
		for _, l := range a.Labels {
			if j == k {
				mine = append(mine, lab(l))
			} else {
				others = append(others, Not(lab(l)))
			}
		}
	}
	if k < len(t.Arms) && !t.Arms[k].Def {
		return Or(mine...)
	}
	return And(others...)
}

// UnionInv: the body constructor agrees with the discriminant.
func (t *Type) UnionInv(a *Term) *Term {
	if t.K != xspec.Union || a.Op == "ctor" {
		return True
	}
	t.Sort()
	b := Sel(t.Name+".body", "mk:"+t.Name, 1, bq("B:"+t.Name), a)
	d := t.DiscOf(a)
	var cs []*Term
	for k, arm := range t.Arms {
		c := "void:" + t.Name
		if arm.Ctor != "" {
			c = arm.Ctor
		}
		cs = append(cs, Implies(t.ArmCond(d, k), Is(c, b)))
	}
	if !t.HasDefault() {
		cs = append(cs, Implies(t.ArmCond(d, len(t.Arms)), Is("void:"+t.Name, b)))
	}
	return And(cs...)
}

func (t *Type) HasDefault() bool {
	for _, a := range t.Arms {
		if a.Def {
			return true
		}
	}
	return false
}

// Mk builds a struct value.
func (t *Type) Mk(args ...*Term) *Term {
	s := t.Sort()
	// eta: mk(sel0(a),..,seln(a)) = a
	if len(args) > 0 && args[0].Op == "app" && args[0].Name == t.Name+"."+t.Fields[0].Name {
		a := args[0].Args[0]
		ok := true
		for i := range args {
			if args[i] != t.FieldOf(a, i) {
				ok = false
				break
			}
		}
		if ok {
			return a
		}
	}
	return Ctor("mk:"+t.Name, s, args...)
}

// MkUnion builds a union value from its discriminant and the arm values.
func (t *Type) MkUnion(disc *Term, arm func(k int) *Term) *Term {
	s := t.Sort()
	bs := bq("B:" + t.Name)
	body := Ctor("void:"+t.Name, bs)
	for k := len(t.Arms) - 1; k >= 0; k-- {
		c := t.ArmCond(disc, k)
		if c.Op == "false" {
			continue
		}
		var x *Term
		if t.Arms[k].Ctor == "" {
			x = Ctor("void:"+t.Name, bs)
		} else {
			x = Ctor(t.Arms[k].Ctor, bs, arm(k))
		}
		body = Ite(c, x, body)
	}
	return Ctor("mk:"+t.Name, s, disc, body)
}

func (t *Type) None() *Term {
	s := t.Sort()
	return Ctor("none:"+t.Elem.Key, s)
}
func (t *Type) Some(x *Term) *Term {
	s := t.Sort()
	return Ctor("some:"+t.Elem.Key, s, x)
}
func (t *Type) IsNone(a *Term) *Term {
	t.Sort()
	return Not(Is("some:"+t.Elem.Key, a))
}
func (t *Type) Get(a *Term) *Term {
	t.Sort()
	return t.Elem.Typed(Sel("get:"+t.Elem.Key, "some:"+t.Elem.Key, 0, t.Elem.Sort(), a))
}

// ArrLen / At observe element sequences.
func (t *Type) ArrLen(c *Term) *Term {
	if t.K == xspec.ArrayFixed {
		return i64(t.N)
	}
	if c.Op == "app" && strings.HasPrefix(c.Name, "valArr:") {
		return c.Args[2]
	}
	return Ranged(App("alen:"+t.Elem.Key, SInt, c), big.NewInt(0), MaxSliceLen)
}

func (t *Type) At(c, j *Term) *Term {
	e := t.Elem
	if c.Op == "app" && strings.HasPrefix(c.Name, "valArr:") {
		return e.Val(c.Args[0], e.EndArr(c.Args[0], c.Args[1], j), false)
	}
	return e.Typed(App("at:"+e.Key, e.Sort(), c, j))
}

// SmallArr: the functions below are unfolded for constant counts up to this.
const SmallArr = 4

func small(n *Term) (int64, bool) {
	if n.Op != "int" || !n.Val.IsInt64() || n.Val.Int64() < 0 || n.Val.Int64() > SmallArr {
		return 0, false
	}
	return n.Val.Int64(), true
}

// inBounds is the count n of a variable-length array given that it is within
// the declared maximum.
func (t *Type) inBounds(n *Term) *Term {
	if t.N == 0 {
		return i64(0)
	}
	return n
}

func (e *Type) EncArr(c, n *Term) *Term {
	if k, ok := small(n); ok {
		arr := ArrOf(e)
		var xs []*Term
		for i := int64(0); i < k; i++ {
			xs = append(xs, e.Enc(arr.At(c, i64(i)), false))
		}
		return Concat(xs...)
	}
	return e.EncArrApp(c, n)
}
func (e *Type) EncArrApp(c, n *Term) *Term { return App("encArr:"+e.Key, SBytes, c, n) }
func (e *Type) WfArr(c, n *Term) *Term {
	if k, ok := small(n); ok {
		arr := ArrOf(e)
		var xs []*Term
		for i := int64(0); i < k; i++ {
			xs = append(xs, e.Wf(arr.At(c, i64(i)), false))
		}
		return And(xs...)
	}
	return e.WfArrApp(c, n)
}
func (e *Type) WfArrApp(c, n *Term) *Term { return App("wfArr:"+e.Key, SBool, c, n) }
func (e *Type) OkArr(w, p, n *Term) *Term {
	if k, ok := small(n); ok {
		var xs []*Term
		for i := int64(0); i < k; i++ {
			xs = append(xs, e.Ok(w, p, false))
			p = e.End(w, p, false)
		}
		return And(xs...)
	}
	return e.OkArrApp(w, p, n)
}
func (e *Type) OkArrApp(w, p, n *Term) *Term { return App("okArr:"+e.Key, SBool, w, p, n) }
func (e *Type) EndArr(w, p, n *Term) *Term {
	if k, ok := small(n); ok {
		for i := int64(0); i < k; i++ {
			p = e.End(w, p, false)
		}
		return p
	}
	return e.EndArrApp(w, p, n)
}
func (e *Type) EndArrApp(w, p, n *Term) *Term {
	return Ranged(App("endArr:"+e.Key, SInt, w, p, n), big.NewInt(0), nil)
}
func (e *Type) ValArr(w, p, n *Term) *Term {
	t := &Type{K: xspec.ArrayVar, Elem: e, w: e.w}
	return App("valArr:"+e.Key, t.Sort(), w, p, n)
}

// ArrStep gives the one-step unfolding of the array functions at index i>=0.
func (e *Type) EncArrStep(arr *Type, c, i *Term) []*Term {
	n := Add(i, One)
	return []*Term{
		Eq(e.EncArrApp(c, n), Concat(e.EncArrApp(c, i), e.Enc(arr.At(c, i), false))),
		Eq(e.WfArrApp(c, n), And(e.WfArrApp(c, i), e.Wf(arr.At(c, i), false))),
	}
}
func (e *Type) DecArrStep(w, p, i *Term) []*Term {
	n := Add(i, One)
	pi := e.EndArrApp(w, p, i)
	return []*Term{
		Eq(e.OkArrApp(w, p, n), And(e.OkArrApp(w, p, i), e.Ok(w, pi, false))),
		Eq(e.EndArrApp(w, p, n), e.End(w, pi, false)),
	}
}

// SmallDefs relates the function symbols at count k to their unfolding.
func (e *Type) SmallEnc(c *Term, k int64) []*Term {
	return []*Term{Eq(e.EncArrApp(c, i64(k)), e.EncArr(c, i64(k))), Eq(e.WfArrApp(c, i64(k)), e.WfArr(c, i64(k)))}
}
func (e *Type) SmallDec(w, p *Term, k int64) []*Term {
	return []*Term{Eq(e.OkArrApp(w, p, i64(k)), e.OkArr(w, p, i64(k))), Eq(e.EndArrApp(w, p, i64(k)), e.EndArr(w, p, i64(k)))}
}

// Enc is the RFC 4506 encoding of a.
func (t *Type) Enc(a *Term, unfold bool) *Term {
	switch {
	case t.K == xspec.Void:
		return Empty
	case t.IsInt():
		w := t.width()
		return BE(WrapU(a, uint(8*w)), w)
	case t.K == xspec.Bool:
		return BE(Ite(a, One, Zero), 4)
	case t.K == xspec.OpaqueFixed:
		return Concat(a, Zeros(Pad(t.Size())))
	case t.K == xspec.OpaqueVar, t.K == xspec.String:
		return Concat(BE(WrapU(Len(a), 32), 4), a, Zeros(Pad(Len(a))))
	case t.K == xspec.Iface:
		return App("enc:dyn", SBytes, a)
	case t.K == xspec.Opt:
		return Ite(t.IsNone(a), BE(Zero, 4), Concat(BE(One, 4), t.Elem.Enc(t.Get(a), false)))
	case t.K == xspec.ArrayFixed:
		return t.Elem.EncArr(a, i64(t.N))
	case t.K == xspec.ArrayVar:
		return Concat(BE(WrapU(t.ArrLen(a), 32), 4), t.Elem.EncArr(a, t.inBounds(t.ArrLen(a))))
	}
	if t.Named && !unfold && !(t.w != nil && t.w.Ctors && a.Op == "ctor") {
		return App("enc:"+t.Name, SBytes, a)
	}
	if t.K == xspec.Struct {
		var xs []*Term
		for i, f := range t.Fields {
			xs = append(xs, f.T.Enc(t.FieldOf(a, i), false))
		}
		return Concat(xs...)
	}
	d := t.DiscOf(a)
	body := Empty
	for k := len(t.Arms) - 1; k >= 0; k-- {
		x := Empty
		if t.Arms[k].Ctor != "" {
			x = t.Arms[k].F.T.Enc(t.ArmOf(a, k), false)
		}
		body = Ite(t.ArmCond(d, k), x, body)
	}
	return Concat(t.Disc.T.Enc(d, false), body)
}

// Wf: all bounded parts of a are within their bounds.
func (t *Type) Wf(a *Term, unfold bool) *Term {
	switch {
	case t.K == xspec.Void, t.IsInt(), t.K == xspec.Bool, t.K == xspec.OpaqueFixed:
		return True
	case t.K == xspec.OpaqueVar, t.K == xspec.String:
		return And(Le(Len(a), t.Max()), Le(Len(a), i64(0xffffffff)))
	case t.K == xspec.Iface:
		return App("wf:dyn", SBool, a)
	case !t.Bounded():
		return True
	case t.K == xspec.Opt:
		return Or(t.IsNone(a), t.Elem.Wf(t.Get(a), false))
	case t.K == xspec.ArrayFixed:
		return t.Elem.WfArr(a, i64(t.N))
	case t.K == xspec.ArrayVar:
		return And(Le(t.ArrLen(a), t.Max()), t.Elem.WfArr(a, t.inBounds(t.ArrLen(a))))
	}
	if t.Named && !unfold && !(t.w != nil && t.w.Ctors && a.Op == "ctor") {
		return App("wf:"+t.Name, SBool, a)
	}
	var cs []*Term
	if t.K == xspec.Struct {
		for i, f := range t.Fields {
			cs = append(cs, f.T.Wf(t.FieldOf(a, i), false))
		}
		return And(cs...)
	}
	d := t.DiscOf(a)
	for k := range t.Arms {
		if t.Arms[k].Ctor != "" {
			cs = append(cs, Implies(t.ArmCond(d, k), t.Arms[k].F.T.Wf(t.ArmOf(a, k), false)))
		}
	}
	return And(cs...)
}

// Size of fixed opaque data.
func (t *Type) Size() *Term {
	if t.MaxT != nil {
		return t.MaxT
	}
	return i64(t.N)
}

// Bounded reports whether the type has anything that can be out of bounds.
func (t *Type) Bounded() bool {
	if t.bnd == 0 {
		t.bnd = 1
		if t.bounded(map[*Type]bool{}) {
			t.bnd = 2
		}
	}
	return t.bnd == 2
}

func (t *Type) bounded(seen map[*Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.K {
	case xspec.OpaqueVar, xspec.String, xspec.ArrayVar, xspec.Iface:
		return true
	case xspec.ArrayFixed, xspec.Opt:
		return t.Elem.bounded(seen)
	case xspec.Struct:
		for _, f := range t.Fields {
			if f.T.bounded(seen) {
				return true
			}
		}
	case xspec.Union:
		for _, a := range t.Arms {
			if a.Ctor != "" && a.F.T.bounded(seen) {
				return true
			}
		}
	}
	return false
}

// Ok: W has a complete in-bounds encoding of the type at p.
func (t *Type) Ok(w, p *Term, unfold bool) *Term {
	switch {
	case t.K == xspec.Void:
		return True
	case t.Prim():
		return App("ok:"+t.Key, SBool, w, p)
	case t.K == xspec.Iface:
		return App("ok:dyn", SBool, t.Dyn, w, p)
	case t.K == xspec.Opt:
		b := t.w.Prim(xspec.Bool, 0)
		return And(b.Ok(w, p, false), Implies(b.Val(w, p, false), t.Elem.Ok(w, b.End(w, p, false), false)))
	case t.K == xspec.ArrayFixed:
		return t.Elem.OkArr(w, p, i64(t.N))
	case t.K == xspec.ArrayVar:
		u := t.w.Prim(xspec.UInt, 0)
		n := u.Val(w, p, false)
		return And(u.Ok(w, p, false), Le(n, t.Max()), t.Elem.OkArr(w, u.End(w, p, false), t.inBounds(n)))
	}
	if t.Named && !unfold {
		return App("ok:"+t.Name, SBool, w, p)
	}
	if t.K == xspec.Struct {
		var cs []*Term
		for _, f := range t.Fields {
			cs = append(cs, f.T.Ok(w, p, false))
			p = f.T.End(w, p, false)
		}
		return And(cs...)
	}
	d := t.Disc.T.Val(w, p, false)
	cs := []*Term{t.Disc.T.Ok(w, p, false)}
	p1 := t.Disc.T.End(w, p, false)
	for k := range t.Arms {
		if t.Arms[k].Ctor != "" {
			cs = append(cs, Implies(t.ArmCond(d, k), t.Arms[k].F.T.Ok(w, p1, false)))
		}
	}
	return And(cs...)
}

// End is the position after the encoding at p (when Ok).
func (t *Type) End(w, p *Term, unfold bool) *Term {
	switch {
	case t.K == xspec.Void:
		return p
	case t.K == xspec.Iface:
		return Ranged(App("end:dyn", SInt, t.Dyn, w, p), big.NewInt(0), nil)
	case t.IsInt():
		return Add(p, i64(int64(t.width())))
	case t.K == xspec.Bool:
		return Add(p, i64(4))
	case t.K == xspec.OpaqueFixed:
		return Add(p, t.Size(), Pad(t.Size()))
	case t.K == xspec.OpaqueVar, t.K == xspec.String:
		return Ranged(App("end:"+t.Key, SInt, w, p), big.NewInt(0), nil)
	case t.K == xspec.Opt:
		b := t.w.Prim(xspec.Bool, 0)
		q := b.End(w, p, false)
		return Ite(b.Val(w, p, false), t.Elem.End(w, q, false), q)
	case t.K == xspec.ArrayFixed:
		return t.Elem.EndArr(w, p, i64(t.N))
	case t.K == xspec.ArrayVar:
		u := t.w.Prim(xspec.UInt, 0)
		return t.Elem.EndArr(w, u.End(w, p, false), t.inBounds(u.Val(w, p, false)))
	}
	if t.Named && !unfold {
		return Ranged(App("end:"+t.Name, SInt, w, p), big.NewInt(0), nil)
	}
	if t.K == xspec.Struct {
		for _, f := range t.Fields {
			p = f.T.End(w, p, false)
		}
		return p
	}
	d := t.Disc.T.Val(w, p, false)
	p1 := t.Disc.T.End(w, p, false)
	r := p1
	for k := len(t.Arms) - 1; k >= 0; k-- {
		x := p1
		if t.Arms[k].Ctor != "" {
			x = t.Arms[k].F.T.End(w, p1, false)
		}
		r = Ite(t.ArmCond(d, k), x, r)
	}
	return r
}

// Prim: a runtime primitive (bytes-level type).
func (t *Type) Prim() bool { return t.IsInt() || t.K == xspec.Bool || t.IsBytes() }

// Val is the decoded value at p (when Ok).
func (t *Type) Val(w, p *Term, unfold bool) *Term {
	switch {
	case t.K == xspec.Void:
		return True
	case t.K == xspec.Iface:
		return App("val:dyn", "Dyn", t.Dyn, w, p)
	case t.Prim():
		return t.Typed(App("val:"+t.Key, t.Sort(), w, p))
	case t.K == xspec.Opt:
		b := t.w.Prim(xspec.Bool, 0)
		return Ite(b.Val(w, p, false), t.Some(t.Elem.Val(w, b.End(w, p, false), false)), t.None())
	case t.K == xspec.ArrayFixed:
		return t.Elem.ValArr(w, p, i64(t.N))
	case t.K == xspec.ArrayVar:
		u := t.w.Prim(xspec.UInt, 0)
		return t.Elem.ValArr(w, u.End(w, p, false), u.Val(w, p, false))
	}
	if t.Named && !unfold {
		return App("val:"+t.Name, t.Sort(), w, p)
	}
	if t.K == xspec.Struct {
		var xs []*Term
		for _, f := range t.Fields {
			xs = append(xs, f.T.Val(w, p, false))
			p = f.T.End(w, p, false)
		}
		return t.Mk(xs...)
	}
	p1 := t.Disc.T.End(w, p, false)
	return t.MkUnion(t.Disc.T.Val(w, p, false), func(k int) *Term { return t.Arms[k].F.T.Val(w, p1, false) })
}

// ---- definitions of the primitive spec functions (used for the runtime
// library and the lemmas; opaque elsewhere)

func (t *Type) DefOk(w, p *Term) *Term {
	switch {
	case t.IsInt(), t.K == xspec.Bool:
		return Le(t.End(w, p, false), Len(w))
	case t.K == xspec.OpaqueFixed:
		return Le(t.End(w, p, false), Len(w))
	case t.K == xspec.OpaqueVar, t.K == xspec.String:
		n := BEVal(w, p, 4)
		return And(Le(Add(p, i64(4)), Len(w)), Le(n, t.Max()), Le(n, i64(0xffffffff)), Le(Add(p, i64(4), n, Pad(n)), Len(w)))
	}
	panic("DefOk " + t.Key)
}

func (t *Type) DefEnd(w, p *Term) *Term {
	if t.K == xspec.OpaqueVar || t.K == xspec.String {
		n := BEVal(w, p, 4)
		return Add(p, i64(4), n, Pad(n))
	}
	return t.End(w, p, false)
}

func (t *Type) DefVal(w, p *Term) *Term {
	switch {
	case t.K == xspec.UInt:
		return BEVal(w, p, 4)
	case t.K == xspec.Int:
		return WrapS(BEVal(w, p, 4), 32)
	case t.K == xspec.UHyper:
		return BEVal(w, p, 8)
	case t.K == xspec.Hyper:
		return WrapS(BEVal(w, p, 8), 64)
	case t.K == xspec.Bool:
		return Not(Eq(BEVal(w, p, 4), Zero))
	case t.K == xspec.OpaqueFixed:
		return Extract(w, p, t.Size())
	case t.K == xspec.OpaqueVar, t.K == xspec.String:
		return Extract(w, Add(p, i64(4)), BEVal(w, p, 4))
	}
	panic("DefVal " + t.Key)
}

// DefOkV, DefEndV and DefValV extend the definitions to void.
func (t *Type) DefOkV(w, p *Term) *Term {
	if t.K == xspec.Void {
		return True
	}
	return t.DefOk(w, p)
}

func (t *Type) DefEndV(w, p *Term) *Term {
	if t.K == xspec.Void {
		return p
	}
	return t.DefEnd(w, p)
}

func (t *Type) DefValV(w, p *Term) *Term {
	if t.K == xspec.Void {
		return True
	}
	return t.DefVal(w, p)
}

// Defs returns the primitive definitions at (w,p): facts linking the opaque
// functions to their meaning.
func (t *Type) Defs(w, p *Term) []*Term {
	if t.K == xspec.Opt {
		return t.w.Prim(xspec.Bool, 0).Defs(w, p)
	}
	if t.K == xspec.ArrayVar {
		return t.w.Prim(xspec.UInt, 0).Defs(w, p)
	}
	if !t.Prim() {
		return nil
	}
	ok := t.Ok(w, p, false)
	return []*Term{
		Eq(ok, t.DefOk(w, p)),
		Implies(ok, And(Eq(t.End(w, p, false), t.DefEnd(w, p)), Eq(t.Val(w, p, false), t.DefVal(w, p)))),
	}
}

// MinSize is a lower bound of the encoded size in bytes.
func (t *Type) MinSize() int64 { return t.minSize(map[*Type]bool{}) }

func (t *Type) minSize(seen map[*Type]bool) int64 {
	switch {
	case t.IsInt():
		return int64(t.width())
	case t.K == xspec.Bool, t.K == xspec.OpaqueVar, t.K == xspec.String, t.K == xspec.Opt, t.K == xspec.ArrayVar:
		return 4
	case t.K == xspec.OpaqueFixed:
		return t.N + (4-t.N%4)%4
	case t.K == xspec.ArrayFixed:
		return t.N * t.Elem.minSize(seen)
	case t.K == xspec.Struct:
		if seen[t] {
			return 0
		}
		seen[t] = true
		defer delete(seen, t)
		var n int64
		for _, f := range t.Fields {
			n += f.T.minSize(seen)
		}
		return n
	case t.K == xspec.Union:
		return t.Disc.T.minSize(seen)
	}
	return 0
}

// World accessor.
func (t *Type) World() *World         { return t.w }
func (t *Type) Pkg() *Pkg             { return t.pkg }
func (w *World) ByKey(k string) *Type { return w.types[k] }

// AllStructural lists the registered struct/union types.
func (w *World) All() map[string]*Type { return w.types }

// ArrOf is the variable-length array type over e.
func ArrOf(e *Type) *Type {
	return &Type{K: xspec.ArrayVar, N: -1, Elem: e, Key: "arr<>(" + e.Key + ")", w: e.w}
}
