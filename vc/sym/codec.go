package sym

import (
	"fmt"
	"go/types"

	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// alpha is the abstract value of a Go value of spec type t.
func (s *State) alpha(v Val, t *spec.Type) *Term {
	switch c := v.(type) {
	case *Abs:
		if c.A.Sort != t.Sort() {
			unsup("abstract value of sort %s used as %s", c.A.Sort, t.Sort())
		}
		return c.A
	case *Term:
		return c
	case *BytesV:
		return c.S
	case *StructV:
		if t.K == xspec.Opt { // struct{ P *T }
			return s.alpha(c.F[0], t)
		}
		if t.K == xspec.Void {
			return True
		}
		x := s.x.structType(t)
		if t.K == xspec.Struct {
			var as []*Term
			for _, f := range t.Fields {
				as = append(as, s.alpha(c.F[x.field(f.GoName)], f.T))
			}
			return t.Mk(as...)
		}
		d := s.alpha(c.F[x.field(t.Disc.GoName)], t.Disc.T)
		return t.MkUnion(d, func(k int) *Term {
			return s.alpha(c.F[x.field(t.Arms[k].F.GoName)], t.Arms[k].F.T)
		})
	case *Ptr:
		if c.Nil.Op == "true" || c.Obj == nil {
			return t.None()
		}
		in := t.Some(s.alpha(s.load(&Ptr{Nil: False, Obj: c.Obj, Path: c.Path}), t.Elem))
		return Ite(c.Nil, t.None(), in)
	case *Slice:
		if t.IsBytes() {
			return s.bytesOf(c)
		}
		e := t.Elem
		el, n, base := s.seqView(c, e)
		if el == nil {
			return s.alphaElems(c, t)
		}
		if base != nil && c.Arr != nil {
			if sv, ok := s.mem[c.Arr.Obj].(*SeqV); ok && len(sv.Ups) == 0 && s.simp(Eq(c.Len, arrOf(e).ArrLen(base))).Op == "true" {
				return base
			}
			if a, ok := s.mem[c.Arr.Obj].(*Abs); ok {
				return a.A
			}
		}
		return s.defineArr(t, el, n)
	case *SeqV:
		e := t.Elem
		if c.Base != nil && len(c.Ups) == 0 {
			return c.Base
		}
		el, _, _ := s.seqView(c, e)
		if el == nil {
			unsup("sequence value")
		}
		return s.defineArr(t, el, IntT(t.N))
	case *ArrV:
		d := Fresh("arr", t.Sort())
		for i, e := range c.E {
			s.assume(Eq(t.At(d, IntT(int64(i))), s.alpha(e, t.Elem)))
		}
		return d
	}
	unsup("abstraction of %T as %s", v, t.Key)
	return nil
}

func (s *State) alphaElems(c *Slice, t *spec.Type) *Term {
	n, ok := s.simp(c.Len).Int64()
	if !ok || n > 16 {
		unsup("abstraction of a slice of unknown content")
	}
	d := Fresh("arr", t.Sort())
	s.assume(Eq(t.ArrLen(d), c.Len))
	for i := int64(0); i < n; i++ {
		s.assume(Eq(t.At(d, IntT(i)), s.alpha(s.load(c.Arr.index(Add(c.Off, IntT(i)))), t.Elem)))
	}
	return d
}

func (s *State) defineArr(t *spec.Type, el func(j *Term) *Term, n *Term) *Term {
	d := Fresh("arr", t.Sort())
	if t.K == xspec.ArrayVar {
		s.assume(Eq(t.ArrLen(d), n))
	}
	j := BVar("j", SInt)
	s.assume(Forall([]*Term{j}, []*Term{App("at:"+t.Elem.Key, t.Elem.Sort(), d, j)},
		Implies(And(Le(Zero, j), Lt(j, n)), Eq(t.At(d, j), el(j)))))
	return d
}

type goStruct struct{ x *types.Struct }

func (g goStruct) field(n string) int { return fieldIdx(g.x, n) }

// structType finds the Go struct for a structural spec type.
func (x *Exec) structType(t *spec.Type) goStruct {
	if g, ok := x.P.goOf[t.Key]; ok {
		return goStruct{g}
	}
	panic(declMismatch{"no Go type for " + t.Key})
}

// matches states that Go value v represents a (arms not selected are free).
func (s *State) matches(v Val, t *spec.Type, a *Term) *Term {
	a = s.simp(a)
	switch c := v.(type) {
	case *Abs:
		return s.eqSpec(t, c.A, a)
	case *Term:
		return Eq(c, a)
	case *BytesV:
		return Eq(c.S, a)
	case *StructV:
		if t.K == xspec.Opt {
			return s.matches(c.F[0], t, a)
		}
		if t.K == xspec.Void {
			return True
		}
		x := s.x.structType(t)
		if t.K == xspec.Struct {
			var cs []*Term
			for i, f := range t.Fields {
				cs = append(cs, s.matches(c.F[x.field(f.GoName)], f.T, t.FieldOf(a, i)))
			}
			return And(cs...)
		}
		d := s.simp(t.DiscOf(a))
		cs := []*Term{s.matches(c.F[x.field(t.Disc.GoName)], t.Disc.T, d)}
		for k, arm := range t.Arms {
			if arm.Ctor == "" {
				continue
			}
			cond := s.simp(t.ArmCond(d, k))
			if cond.Op == "false" {
				continue
			}
			n := s.assuming(cond)
			cs = append(cs, Implies(cond, n.matches(c.F[x.field(arm.F.GoName)], arm.F.T, n.simp(t.ArmOf(a, k)))))
		}
		return And(cs...)
	case *Ptr:
		none := s.simp(t.IsNone(a))
		if c.Nil.Op == "true" || c.Obj == nil {
			return none
		}
		if none.Op == "true" {
			return c.Nil
		}
		n := s.assuming(Not(none))
		in := n.matches(n.load(&Ptr{Nil: False, Obj: c.Obj, Path: c.Path}), t.Elem, n.simp(t.Get(a)))
		return And(Eq(c.Nil, none), Implies(Not(none), in))
	case *Slice:
		if t.IsBytes() {
			return Eq(s.bytesOf(c), a)
		}
		return s.matchSeq(c, t, c.Len, a)
	case *SeqV:
		return s.matchSeq(c, t, IntT(t.N), a)
	case *ArrV:
		var cs []*Term
		for i, e := range c.E {
			cs = append(cs, s.matches(e, t.Elem, t.At(a, IntT(int64(i)))))
		}
		return And(cs...)
	}
	unsup("comparison of %T with %s", v, t.Key)
	return nil
}

func (s *State) matchSeq(v Val, t *spec.Type, n, a *Term) *Term {
	el, _, base := s.seqView(v, t.Elem)
	if el == nil {
		if c, ok := v.(*Slice); ok {
			if k, ok := s.simp(c.Len).Int64(); ok && k <= 16 {
				cs := []*Term{Eq(c.Len, t.ArrLen(a))}
				for i := int64(0); i < k; i++ {
					cs = append(cs, s.matches(s.load(c.Arr.index(Add(c.Off, IntT(i)))), t.Elem, t.At(a, IntT(i))))
				}
				return And(cs...)
			}
		}
		unsup("element sequence of unknown form")
	}
	lenEq := Eq(n, t.ArrLen(a))
	if base != nil && base == a {
		return lenEq
	}
	if t.K == xspec.ArrayFixed && t.N <= spec.SmallArr {
		var cs []*Term
		for i := int64(0); i < t.N; i++ {
			cs = append(cs, s.eqSpec(t.Elem, s.simp(el(IntT(i))), t.At(a, IntT(i))))
		}
		return And(cs...)
	}
	if s.x.quant {
		j := s.x.bvar()
		return And(lenEq, Forall([]*Term{j}, atPats(t, base, j), Implies(And(Le(Zero, j), Lt(j, n)), s.eqSpec(t.Elem, el(j), t.At(a, j)))))
	}
	j := Ranged(Fresh("j", SInt), bigZero, MaxSliceLen)
	n2 := s.assuming(And(lenEq, Lt(j, n)))
	return And(lenEq, Implies(Lt(j, n), n2.eqSpec(t.Elem, n2.simp(el(j)), t.At(a, j))))
}

// bvar is a new bound variable.
func (x *Exec) bvar() *Term {
	x.nbv++
	return BVar(fmt.Sprintf("q%d", x.nbv), SInt)
}

// atPats triggers on the elements of base.
func atPats(t *spec.Type, base, j *Term) []*Term {
	if base == nil || base.Op != "var" {
		return nil
	}
	return []*Term{App("at:"+t.Elem.Key, t.Elem.Sort(), base, j)}
}

// identicalQ is identical with explicit quantifiers, fit to be assumed.
func (s *State) identicalQ(v Val, t *spec.Type, a *Term) *Term {
	s.x.quant, s.x.nbv = true, 0
	defer func() { s.x.quant = false }()
	return s.identical(v, t, a)
}

// eqSpec is equality of spec values, extensional on arrays.
func (s *State) eqSpec(t *spec.Type, x, y *Term) *Term {
	if x == y {
		return True
	}
	switch t.K {
	case xspec.ArrayFixed, xspec.ArrayVar:
		if t.K == xspec.ArrayFixed && t.N <= spec.SmallArr {
			var cs []*Term
			for i := int64(0); i < t.N; i++ {
				cs = append(cs, s.eqSpec(t.Elem, t.At(x, IntT(i)), t.At(y, IntT(i))))
			}
			return And(cs...)
		}
		n := t.ArrLen(x)
		lenEq := Eq(n, t.ArrLen(y))
		if s.x.quant {
			j := s.x.bvar()
			return And(lenEq, Forall([]*Term{j}, atPats(t, x, j), Implies(And(Le(Zero, j), Lt(j, n)), s.eqSpec(t.Elem, t.At(x, j), t.At(y, j)))))
		}
		j := Ranged(Fresh("j", SInt), bigZero, MaxSliceLen)
		return And(lenEq, Implies(Lt(j, n), s.eqSpec(t.Elem, t.At(x, j), t.At(y, j))))
	case xspec.Struct:
		if x.Op == "ctor" || y.Op == "ctor" {
			var cs []*Term
			for i, f := range t.Fields {
				cs = append(cs, s.eqSpec(f.T, t.FieldOf(x, i), t.FieldOf(y, i)))
			}
			return And(cs...)
		}
	}
	return Eq(x, y)
}

// assuming is a scratch copy of the state with one more assumption.
func (s *State) assuming(c *Term) *State {
	n := s.clone()
	n.assume(c)
	return n
}

// identical states that v is the value a unchanged, including arms that are
// not selected (frame of the encoder).
func (s *State) identical(v Val, t *spec.Type, a *Term) *Term {
	switch c := v.(type) {
	case *StructV:
		if t.K == xspec.Opt {
			return s.identical(c.F[0], t, a)
		}
		if t.K == xspec.Void {
			return True
		}
		x := s.x.structType(t)
		var cs []*Term
		if t.K == xspec.Struct {
			for i, f := range t.Fields {
				cs = append(cs, s.identical(c.F[x.field(f.GoName)], f.T, t.FieldOf(a, i)))
			}
			return And(cs...)
		}
		cs = append(cs, s.identical(c.F[x.field(t.Disc.GoName)], t.Disc.T, t.DiscOf(a)))
		for k, arm := range t.Arms {
			if arm.Ctor != "" {
				cs = append(cs, s.identical(c.F[x.field(arm.F.GoName)], arm.F.T, t.ArmOf(a, k)))
			}
		}
		return And(cs...)
	case *Ptr:
		none := s.simp(t.IsNone(a))
		if c.Nil.Op == "true" || c.Obj == nil {
			return none
		}
		if none.Op == "true" {
			return s.simp(c.Nil)
		}
		in := s.identical(s.load(&Ptr{Nil: False, Obj: c.Obj, Path: c.Path}), t.Elem, t.Get(a))
		return And(Eq(c.Nil, none), Implies(Not(none), in))
	}
	return s.matches(v, t, a)
}

// ---- codec locations

// Loc is where a codec reads or writes its value.
type Loc struct {
	P    *Ptr // pointer to the value
	GT   types.Type
	SL   *Slice // or the bytes of a slice
	Tag  *Term  // or the object behind an opaque Xdrable
	Kept bool   // a failed decode leaves the value alone
}

func (l Loc) alpha(s *State, t *spec.Type) *Term {
	if l.Tag != nil {
		return s.dynContent(l.Tag)
	}
	if l.SL != nil {
		return s.bytesOf(l.SL)
	}
	return s.alpha(s.load(l.P), t)
}

func (l Loc) set(s *State, t *spec.Type, a *Term) {
	if l.Tag != nil {
		s.setG(dynKey(l.Tag), a)
		return
	}
	if l.SL != nil {
		if l.SL.Arr != nil {
			s.setBytes(l.SL, Zero, a)
		}
		return
	}
	v := leaf(&Abs{t, a})
	if l.P.Obj.RO {
		s.oblige("frame", False, "write into "+l.P.Obj.Name)
	}
	s.storeRaw(l.P, v)
}

func dynKey(tag *Term) string { return fmt.Sprintf("dyn%d", tag.ID) }

// dynContent is the current value of the object behind an opaque Xdrable.
func (s *State) dynContent(tag *Term) *Term {
	if c := s.g[dynKey(tag)]; c != nil {
		return c
	}
	return App("content", "Dyn", tag)
}

// dynType is the (unknown) specification of an opaque Xdrable.
func (p *Prog) dynType(tag *Term) *spec.Type {
	return &spec.Type{K: xspec.Iface, Key: "dyn", Dyn: tag}
}

// xsAt returns the abstract stream behind a pointer.
func (s *State) xsAt(v Val) (*XS, *Obj) {
	p, ok := v.(*Ptr)
	if !ok {
		unsup("stream argument %T", v)
	}
	s.derefCheck(p, "stream")
	x, ok := s.load(p).(*XS)
	if !ok {
		unsup("stream content")
	}
	return x, p.Obj
}

func (s *State) setXS(o *Obj, x XS) { s.setMem(o, &x) }

// applyCodec is the codec contract at a call site.
func (s *State) applyCodec(xv Val, loc Loc, t *spec.Type) {
	xs, o := s.xsAt(xv)
	if loc.P != nil {
		s.derefCheck(loc.P, "codec argument")
	}
	if s.x.own && xs.Src != nil {
		s.touch(xs.Src)
	}
	if s.x.hooks.Access != nil && xs.Src != nil {
		s.x.hooks.Access(s, xs.Src, xs.SrcP.Path, false)
	}
	if !s.decide(xs.OK) {
		return
	}
	if s.decide(xs.Reader) {
		ok := t.Ok(xs.W, xs.Pos, false)
		if s.decide(ok) {
			n := *xs
			n.Pos = t.End(xs.W, xs.Pos, false)
			a := t.Val(xs.W, xs.Pos, false)
			for _, f := range s.decFacts(t, xs.W, xs.Pos) {
				s.assume(f)
			}
			loc.set(s, t, a)
			s.setXS(o, n)
			if h := s.x.hooks.Codec; h != nil {
				h(s, t, a, xs, false)
			}
			return
		}
		n := *xs
		n.OK = False
		n.Pos = Ranged(Fresh("pos", SInt), bigZero, nil)
		s.setXS(o, n)
		if loc.Kept {
			return
		}
		if loc.SL != nil {
			if loc.SL.Arr != nil {
				b := Seqlike(Fresh("partial", SBytes))
				s.assume(Eq(Len(b), loc.SL.Len))
				s.setBytes(loc.SL, Zero, b)
			}
		} else {
			loc.set(s, t, s.x.freshOf(t, "partial"))
		}
		return
	}
	a := loc.alpha(s, t)
	if xs.Src != nil {
		if b, ok := s.opened(s.load(xs.SrcP), backing(byteType)).(*BytesV); ok {
			f := Seqlike(Fresh("overwritten", SBytes))
			s.assume(Eq(Len(f), Len(b.S)))
			s.store(xs.SrcP, &BytesV{f})
		} else {
			unsup("output into a buffer that is no byte array")
		}
		if s.g["req"] == IntT(int64(xs.Src.ID)) && s.x.probe == 0 {
			s.oblige("own", False, "output does not overwrite the request, which arguments and results may refer to")
		}
	}
	if s.decide(t.Wf(a, false)) {
		n := *xs
		n.Out = Concat(xs.Out, t.Enc(a, false))
		if m := t.MinSize(); m > 0 {
			s.assume(Le(IntT(m), Len(t.Enc(a, false)))) // lemma, see decFacts
		}
		s.setXS(o, n)
		if h := s.x.hooks.Codec; h != nil {
			h(s, t, a, xs, true)
		}
		return
	}
	n := *xs
	n.OK = False
	n.Out = Concat(xs.Out, Seqlike(Fresh("partial", SBytes)))
	s.setXS(o, n)
}

// decFacts are consequences of a successful decode used by clients (each is
// part of the callee's verified contract or a separately proved lemma).
func (s *State) decFacts(t *spec.Type, w, p *Term) []*Term {
	end := t.End(w, p, false)
	fs := []*Term{Le(end, Len(w))}
	if m := t.MinSize(); m > 0 {
		fs = append(fs, Le(Add(p, IntT(m)), end))
	} else {
		fs = append(fs, Le(p, end))
	}
	if t.IsBytes() {
		v := t.Val(w, p, false)
		if t.K == xspec.OpaqueFixed {
			fs = append(fs, Eq(Len(v), t.Size()))
		} else {
			fs = append(fs, Le(Len(v), t.Max()), Le(Add(p, IntT(4), Len(v)), end))
		}
	}
	return fs
}
