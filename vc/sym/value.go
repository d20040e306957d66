// Package sym generates verification conditions for Go functions (go/ssa) by
// path-wise symbolic execution with contracts at calls, invariants at loops
// and an object-based memory.  Integers are mathematical with explicit
// wrap-around.
package sym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// Val is a symbolic Go value or the content of a memory location.
type Val interface{}

// Obj is a memory object.
type Obj struct {
	ID    int
	Name  string
	Typ   types.Type // Go type of the content (array type for backing arrays)
	Fresh bool       // allocated during the execution
	RO    bool       // writing it violates the frame (e.g. input bytes)
	Weak  bool       // a package variable taken to be constant: writing it is an obligation that fails
	Elem  *spec.Type // element spec type of a backing array, when known
}

type PathEl struct {
	Field int
	Idx   *Term
}

// Ptr points to a location; Nil is the condition under which it is nil.
type Ptr struct {
	Nil  *Term
	Obj  *Obj
	Path []PathEl
}

// Slice refers to a range of an array location.
type Slice struct {
	Nil           *Term
	Arr           *Ptr // location of the array (Obj nil for a nil slice)
	Off, Len, Cap *Term
}

// Iface is an interface value with dynamic type Dyn (nil: opaque Tag).
type Iface struct {
	Nil *Term
	Dyn types.Type
	V   Val
	Tag *Term
}

type StructV struct {
	T *spec.Type // when known
	F []Val
}

// ArrV is a small array with constant length.
type ArrV struct{ E []Val }

// BytesV is the content of a byte array.
type BytesV struct{ S *Term }

type upd struct {
	Idx *Term
	V   Val
}

// SeqV is the content of an array with elements of a spec type.  Base nil
// means all elements are zero values.
type SeqV struct {
	T    *spec.Type // array type (elements T.Elem); nil when unknown
	Base *Term
	N    *Term
	Ups  []upd
}

// FnSeq is the content of a read-only array given by a function.
type FnSeq struct{ F func(i *Term) Val }

// Abs is an unopened value of a spec type.
type Abs struct {
	T *spec.Type
	A *Term
}

// FuncV is a function value.
type FuncV struct {
	Nil  *Term
	Fn   *ssa.Function
	Bind []Val
	Tag  *Term
}

type TupleV []Val

// Opaque is a value the engine knows nothing about.
type Opaque struct {
	Typ types.Type
	Tag *Term
}

// XS is the abstract content of an xdr.XdrState seen by its clients.
type XS struct {
	Reader, OK *Term
	W, Pos     *Term
	Out        *Term
	Src        *Obj // object holding the input bytes, or the space for output, when known
	SrcP       *Ptr // where in it
}

// ---- control flow of the engine itself

type forkOn struct{ c *Term }
type pathEnd struct{ why string } // path is infeasible or ended by a panic
type unsupported struct{ msg string }
type restart struct{ key string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- state

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	env    map[ssa.Value]Val
	defers []deferred
	result ssa.Instruction // call instruction in the caller (nil at the bottom)
	loops  map[*ssa.BasicBlock]*loopCtx
	isDef  bool // running a deferred call: result dropped

	panicking bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	x      *Exec
	pc     []*Term
	lits   map[*Term]*Term
	mem    map[*Obj]Val
	frames []*Frame
	undo   []func()
	log    []Event // ghost trace of calls that matter to contracts
	ret    Val
	panics string // ended in an explicit panic
	g      map[string]*Term
	trace  []string
}

// Event is a ghost record (external call, handler call, spawn, ...).
type Event struct {
	Kind string
	Args []Val
	Ts   []*Term
}

func (s *State) clone() *State {
	n := &State{x: s.x, pc: append([]*Term{}, s.pc...), lits: map[*Term]*Term{}, mem: map[*Obj]Val{}, log: append([]Event{}, s.log...), ret: s.ret, panics: s.panics, g: map[string]*Term{}}
	n.trace = append(n.trace, s.trace...)
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.g {
		n.g[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = map[ssa.Value]Val{}
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.loops = map[*ssa.BasicBlock]*loopCtx{}
		for k, v := range f.loops {
			g.loops[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// simp rewrites t under what the path condition makes syntactically evident.
func (s *State) simp(t *Term) *Term {
	if len(s.lits) == 0 || t.Op == "true" || t.Op == "false" || t.Op == "int" {
		return t
	}
	for i := 0; i < 4; i++ {
		n := Subst(t, s.lits)
		if n == t {
			break
		}
		t = n
	}
	return t
}

func (s *State) assume(t *Term) {
	t0 := t
	t = s.simp(t)
	if t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pc = append(s.pc, t)
	if t.Op == "false" {
		return
	}
	s.lit(t, t0)
}

func (s *State) lit(t, t0 *Term) {
	set := func(k, v *Term) {
		if k.Bound {
			return
		}
		s.lits[k] = v
	}
	// new facts may mention atoms in already substituted form only; keep both
	add := func(t *Term) {
		switch {
		case t.Op == "not":
			set(t.Args[0], False)
			// x <= y false, also y <= x true when integers
		case t.Op == "=" && t.Args[0].Sort != SBytes && t.Args[1].Op == "int":
			set(t.Args[0], t.Args[1])
		case t.Op == "=" && t.Args[0].Op == "int":
			set(t.Args[1], t.Args[0])
		case t.Op == "forall", t.Op == "and":
		default:
			set(t, True)
		}
	}
	add(t)
	if t0 != t && t0.Op != "and" {
		add(t0)
	}
}

// decide returns the truth of c on this path, forking the execution when it
// is not determined.
func (s *State) decide(c *Term) bool {
	c = s.simp(c)
	if c.Op == "true" {
		return true
	}
	if c.Op == "false" {
		return false
	}
	panic(forkOn{c})
}

// ---- memory

func (s *State) setMem(o *Obj, v Val) {
	old, had := s.mem[o]
	if had && s.x.hooks.Access != nil {
		var ds []mloc
		diff(o, nil, old, v, &ds)
		for _, d := range ds {
			s.x.hooks.Access(s, o, d.path, true)
		}
	}
	if had && o.Weak {
		s.keepsConst(o, old, v)
	}
	s.undo = append(s.undo, func() {
		if had {
			s.mem[o] = old
		} else {
			delete(s.mem, o)
		}
	})
	s.mem[o] = v
}

func (s *State) logEv(e Event) {
	n := len(s.log)
	s.undo = append(s.undo, func() { s.log = s.log[:n] })
	s.log = append(s.log[:n:n], e)
}

func (s *State) setG(k string, v *Term) {
	old, had := s.g[k]
	s.undo = append(s.undo, func() {
		if had {
			s.g[k] = old
		} else {
			delete(s.g, k)
		}
	})
	s.g[k] = v
}

var nobj int

func (s *State) newObj(name string, t types.Type, v Val, fresh bool) *Obj {
	nobj++
	o := &Obj{ID: nobj, Name: fmt.Sprintf("%s%d", name, nobj), Typ: t, Fresh: fresh}
	s.setMem(o, v)
	return o
}

var nilPtr = &Ptr{Nil: True}

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStruct(t types.Type) (*types.Struct, bool) {
	x, ok := under(t).(*types.Struct)
	return x, ok
}

// wrapperStruct: the struct{ P *T } generated for typedef'd pointers.
func wrapperStruct(t types.Type, st *spec.Type) bool {
	x, ok := isStruct(t)
	return ok && st.K == xspec.Opt && x.NumFields() == 1
}

func fieldIdx(x *types.Struct, name string) int {
	for i := 0; i < x.NumFields(); i++ {
		if x.Field(i).Name() == name {
			return i
		}
	}
	panic(declMismatch{fmt.Sprintf("no field %s in %s", name, x)})
}

type declMismatch struct{ msg string }

// open exposes one level of an abstract value at Go type t.
func (s *State) open(a *Abs, t types.Type) Val {
	st := a.T
	switch {
	case st.IsInt(), st.K == xspec.Bool:
		return a.A
	case st.K == xspec.String:
		return a.A
	case st.IsBytes():
		if _, ok := under(t).(*types.Array); ok {
			return &BytesV{a.A}
		}
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.String {
			return a.A
		}
		sl, ok := under(t).(*types.Slice)
		if !ok {
			panic(declMismatch{fmt.Sprintf("%s is not a byte slice", t)})
		}
		o := s.x.absObj(s, a, sl.Elem(), &BytesV{a.A})
		n := Len(a.A)
		return &Slice{Nil: s.x.nilness(a.A, n), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: n}
	case wrapperStruct(t, st):
		x, _ := isStruct(t)
		return &StructV{T: nil, F: []Val{s.open(a, x.Field(0).Type())}}
	case st.K == xspec.Struct:
		x, ok := isStruct(t)
		if !ok {
			panic(declMismatch{fmt.Sprintf("%s is not a struct", t)})
		}
		r := &StructV{T: st, F: make([]Val, x.NumFields())}
		for i, f := range st.Fields {
			j := fieldIdx(x, f.GoName)
			r.F[j] = leaf(&Abs{f.T, st.FieldOf(a.A, i)})
		}
		s.fillUnknown(r, x)
		return r
	case st.K == xspec.Union:
		x, ok := isStruct(t)
		if !ok {
			panic(declMismatch{fmt.Sprintf("%s is not a struct", t)})
		}
		if a.A.Op == "app" && strings.HasPrefix(a.A.Name, "at:") {
			s.assume(st.UnionInv(a.A))
		}
		r := &StructV{T: st, F: make([]Val, x.NumFields())}
		r.F[fieldIdx(x, st.Disc.GoName)] = leaf(&Abs{st.Disc.T, st.DiscOf(a.A)})
		for k, arm := range st.Arms {
			if arm.Ctor != "" {
				r.F[fieldIdx(x, arm.F.GoName)] = leaf(&Abs{arm.F.T, st.ArmOf(a.A, k)})
			}
		}
		s.fillUnknown(r, x)
		return r
	case st.K == xspec.Opt:
		p, ok := under(t).(*types.Pointer)
		if !ok {
			panic(declMismatch{fmt.Sprintf("%s is not a pointer", t)})
		}
		none := s.simp(st.IsNone(a.A))
		if none.Op == "true" {
			return nilPtr
		}
		o := s.x.absObj(s, a, p.Elem(), leaf(&Abs{st.Elem, st.Get(a.A)}))
		return &Ptr{Nil: none, Obj: o}
	case st.K == xspec.ArrayFixed:
		return &SeqV{T: st, Base: a.A, N: IntT(st.N)}
	case st.K == xspec.ArrayVar:
		sl, ok := under(t).(*types.Slice)
		if !ok {
			panic(declMismatch{fmt.Sprintf("%s is not a slice", t)})
		}
		n := st.ArrLen(a.A)
		o := s.x.absObj(s, a, sl.Elem(), &SeqV{T: st, Base: a.A, N: n})
		return &Slice{Nil: s.x.nilness(a.A, n), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: n}
	}
	unsup("open %s", st.Key)
	return nil
}

func (s *State) fillUnknown(r *StructV, x *types.Struct) {
	for i := range r.F {
		if r.F[i] == nil {
			r.F[i] = s.x.freshVal(s, "extra_"+x.Field(i).Name(), x.Field(i).Type())
		}
	}
}

// leaf turns scalar abstract values into terms.
func leaf(a *Abs) Val {
	if a.T.IsInt() || a.T.K == xspec.Bool || a.T.K == xspec.String {
		return a.A
	}
	return a
}

// elemType of an array-like Go type.
func elemOf(t types.Type) types.Type {
	switch x := under(t).(type) {
	case *types.Array:
		return x.Elem()
	case *types.Slice:
		return x.Elem()
	}
	unsup("element type of %s", t)
	return nil
}

// The content type of a backing object for slices is recorded as a slice type.
func backing(elem types.Type) types.Type { return types.NewSlice(elem) }

func stepType(t types.Type, el PathEl) types.Type {
	if el.Idx != nil {
		return elemOf(t)
	}
	x, ok := isStruct(t)
	if !ok {
		unsup("field of %s", t)
	}
	return x.Field(el.Field).Type()
}

// opened makes sure v can be stepped into at Go type t.
func (s *State) opened(v Val, t types.Type) Val {
	if a, ok := v.(*Abs); ok {
		// content of an array location: backing objects hold slices types
		if a.T.K == xspec.ArrayVar {
			return &SeqV{T: a.T, Base: a.A, N: a.T.ArrLen(a.A)}
		}
		if a.T.IsBytes() {
			return &BytesV{a.A}
		}
		return s.open(a, t)
	}
	return v
}

func (s *State) getRec(v Val, t types.Type, path []PathEl) (res Val, nv Val) {
	if len(path) == 0 {
		return v, v
	}
	v = s.opened(v, t)
	el := path[0]
	et := stepType(t, el)
	switch c := v.(type) {
	case *StructV:
		r, n := s.getRec(c.F[el.Field], et, path[1:])
		if n != c.F[el.Field] {
			f := append([]Val{}, c.F...)
			f[el.Field] = n
			return r, &StructV{c.T, f}
		}
		return r, v
	case *BytesV:
		return s.nthIn(c.S, el.Idx), v
	case *FnSeq:
		r, _ := s.getRec(c.F(el.Idx), et, path[1:])
		return r, v
	case *ArrV:
		i, ok := s.simp(el.Idx).Int64()
		if !ok {
			unsup("symbolic index into a small array")
		}
		r, n := s.getRec(c.E[i], et, path[1:])
		if n != c.E[i] {
			e := append([]Val{}, c.E...)
			e[i] = n
			return r, &ArrV{e}
		}
		return r, v
	case *SeqV:
		k := s.findUpd(c, el.Idx)
		var ev Val
		if k >= 0 {
			ev = c.Ups[k].V
		} else if c.Base == nil {
			ev = s.x.zero(s, et)
		} else {
			ev = leaf(&Abs{c.T.Elem, c.T.At(c.Base, el.Idx)})
		}
		r, n := s.getRec(ev, et, path[1:])
		if n != ev {
			return r, c.put(k, el.Idx, n)
		}
		return r, v
	}
	unsup("step into %T", v)
	return nil, nil
}

func (s *State) findUpd(c *SeqV, idx *Term) int {
	for k := len(c.Ups) - 1; k >= 0; k-- {
		if s.decide(Eq(c.Ups[k].Idx, idx)) {
			return k
		}
	}
	return -1
}

func (c *SeqV) put(k int, idx *Term, v Val) *SeqV {
	n := &SeqV{T: c.T, Base: c.Base, N: c.N}
	n.Ups = append([]upd{}, c.Ups...)
	if k >= 0 {
		n.Ups[k] = upd{n.Ups[k].Idx, v}
	} else {
		n.Ups = append(n.Ups, upd{idx, v})
	}
	return n
}

func (s *State) setRec(v Val, t types.Type, path []PathEl, x Val) Val {
	if len(path) == 0 {
		return x
	}
	v = s.opened(v, t)
	el := path[0]
	et := stepType(t, el)
	switch c := v.(type) {
	case *StructV:
		f := append([]Val{}, c.F...)
		f[el.Field] = s.setRec(f[el.Field], et, path[1:], x)
		return &StructV{c.T, f}
	case *BytesV:
		n := Len(c.S)
		i := el.Idx
		return &BytesV{Concat(Extract(c.S, Zero, i), UnitSeq(x.(*Term)), Extract(c.S, Add(i, One), Sub(n, Add(i, One))))}
	case *ArrV:
		i, ok := s.simp(el.Idx).Int64()
		if !ok {
			unsup("symbolic index into a small array")
		}
		e := append([]Val{}, c.E...)
		e[i] = s.setRec(e[i], et, path[1:], x)
		return &ArrV{e}
	case *SeqV:
		k := s.findUpd(c, el.Idx)
		var ev Val
		if len(path) > 1 {
			if k >= 0 {
				ev = c.Ups[k].V
			} else if c.Base == nil {
				ev = s.x.zero(s, et)
			} else {
				ev = leaf(&Abs{c.T.Elem, c.T.At(c.Base, el.Idx)})
			}
		}
		return c.put(k, el.Idx, s.setRec(ev, et, path[1:], x))
	}
	unsup("store into %T", v)
	return nil
}

// ptrOK forks on nil-ness and reports a nil dereference as a safety
// obligation.
func (s *State) derefCheck(p *Ptr, what string) {
	s.require("nil", Not(p.Nil), what+": nil pointer dereference")
	if p.Obj == nil {
		panic(pathEnd{"nil dereference"})
	}
}

func (s *State) load(p *Ptr) Val {
	c, ok := s.mem[p.Obj]
	if !ok {
		unsup("load from unknown object %s", p.Obj.Name)
	}
	if s.x.own {
		s.touch(p.Obj)
	}
	if s.x.hooks.Access != nil {
		s.x.hooks.Access(s, p.Obj, p.Path, false)
	}
	r, n := s.getRec(c, p.Obj.Typ, p.Path)
	if n != c {
		s.setMem(p.Obj, n)
	}
	if s.x.hooks.Loaded != nil {
		return s.x.hooks.Loaded(s, p.Obj, p.Path, ptrType(p.Obj, p.Path), r)
	}
	return r
}

// loadOpen loads and opens one level (scalars, slices, pointers become
// concrete; structs stay lazy).
func (s *State) loadT(p *Ptr, t types.Type) Val {
	v := s.load(p)
	if a, ok := v.(*Abs); ok {
		if _, isS := isStruct(t); !isS {
			o := s.open(a, t)
			if _, isArr := under(t).(*types.Array); !isArr {
				s.storeRaw(p, o)
			}
			return o
		}
	}
	return v
}

func (s *State) storeRaw(p *Ptr, v Val) {
	if s.x.own {
		s.touch(p.Obj)
	}
	s.setMem(p.Obj, s.setRec(s.mem[p.Obj], p.Obj.Typ, p.Path, v))
}

func (s *State) store(p *Ptr, v Val) {
	if p.Obj.RO {
		s.oblige("frame", False, "write into "+p.Obj.Name+", which must not be modified")
	}
	s.storeRaw(p, v)
}

func ptrType(o *Obj, path []PathEl) types.Type {
	t := o.Typ
	for _, e := range path {
		t = stepType(t, e)
	}
	return t
}

func (p *Ptr) field(i int) *Ptr {
	return &Ptr{Nil: p.Nil, Obj: p.Obj, Path: append(append([]PathEl{}, p.Path...), PathEl{Field: i})}
}

func (p *Ptr) index(i *Term) *Ptr {
	return &Ptr{Nil: p.Nil, Obj: p.Obj, Path: append(append([]PathEl{}, p.Path...), PathEl{Idx: i})}
}

// ---- values

func intBounds(t types.Type) (bits uint, signed bool, ok bool) {
	b, is := under(t).(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true, true
	}
	return
}

func wrap(x *Term, t types.Type) *Term {
	bits, sg, ok := intBounds(t)
	if !ok {
		unsup("integer type %s", t)
	}
	if sg {
		return spec.WrapS(x, bits)
	}
	return spec.WrapU(x, bits)
}

// zero value of a Go type.
func (x *Exec) zero(s *State, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return False
		}
		if u.Info()&types.IsString != 0 {
			return Empty
		}
		if u.Info()&types.IsInteger != 0 {
			return Zero
		}
		return &Opaque{t, Fresh("zero", "Dyn")}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return &Slice{Nil: True, Off: Zero, Len: Zero, Cap: Zero}
	case *types.Map:
		return &MapV{Nil: True}
	case *types.Interface:
		return &Iface{Nil: True}
	case *types.Signature:
		return &FuncV{Nil: True}
	case *types.Struct:
		r := &StructV{T: x.specOf(t), F: make([]Val, u.NumFields())}
		for i := range r.F {
			r.F[i] = x.zero(s, u.Field(i).Type())
		}
		return r
	case *types.Array:
		if isByte(u.Elem()) {
			return &BytesV{Zeros(IntT(u.Len()))}
		}
		if u.Len() <= 16 && x.specOf(u.Elem()) == nil {
			a := &ArrV{}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, x.zero(s, u.Elem()))
			}
			return a
		}
		return &SeqV{N: IntT(u.Len())}
	}
	return &Opaque{t, Fresh("zero", "Dyn")}
}

// freshVal is an unconstrained value of a Go type.
func (x *Exec) freshVal(s *State, name string, t types.Type) Val {
	if st := x.specOf(t); st != nil && st.K != xspec.Iface {
		return leaf(&Abs{st, x.freshOf(st, name)})
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Fresh(name, SBool)
		}
		if u.Info()&types.IsString != 0 {
			return Seqlike(Fresh(name, SBytes))
		}
		if u.Info()&types.IsInteger != 0 {
			return freshInt(name, t)
		}
	case *types.Struct:
		r := &StructV{T: x.specOf(t), F: make([]Val, u.NumFields())}
		for i := range r.F {
			r.F[i] = x.freshVal(s, name+"_"+u.Field(i).Name(), u.Field(i).Type())
		}
		return r
	case *types.Slice:
		n := Ranged(Fresh(name+"_len", SInt), bigZero, MaxSliceLen)
		var c Val
		if isByte(u.Elem()) {
			b := Seqlike(Fresh(name, SBytes))
			n = Len(b)
			c = &BytesV{b}
		} else if st := x.specOf(u.Elem()); st != nil {
			at := arrOf(st)
			a := Fresh(name, at.Sort())
			n = at.ArrLen(a)
			c = &SeqV{T: at, Base: a, N: n}
		} else {
			c = &Opaque{t, Fresh(name, "Dyn")}
		}
		o := s.newObj(name, backing(u.Elem()), c, false)
		return &Slice{Nil: x.nilness(nil, n), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: n}
	case *types.Array:
		if isByte(u.Elem()) {
			b := Seqlike(Fresh(name, SBytes))
			s.assume(Eq(Len(b), IntT(u.Len())))
			return &BytesV{b}
		}
	case *types.Interface:
		return &Iface{Nil: Fresh(name+"_nil", SBool), Tag: Fresh(name, "Dyn")}
	case *types.Pointer:
		if x.lazyPtr {
			o := s.newObj(name, u.Elem(), nil, false)
			s.setMem(o, x.freshVal(s, name, u.Elem()))
			return &Ptr{Nil: Fresh(name+"_nil", SBool), Obj: o}
		}
	case *types.Signature:
		return &FuncV{Nil: Fresh(name+"_nil", SBool), Tag: Fresh(name, "Dyn")}
	}
	return &Opaque{t, Fresh(name, "Dyn")}
}

func freshInt(name string, t types.Type) *Term {
	bits, sg, ok := intBounds(t)
	if !ok {
		unsup("fresh %s", t)
	}
	return rangedBits(Fresh(name, SInt), bits, sg)
}

var arrOf = spec.ArrOf
