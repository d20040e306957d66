package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// Behaviours of a codec contract.  For a stream xs over input W at position p
// (reader) or with output O (writer), and the value a at the destination:
//
//	sticky:  xs failed         => xs and the destination are unchanged
//	decode:  xs ok, reader     =>
//	   D1    Ok(T,W,p)  ==> xs' ok, p' = End(T,W,p), value' represents Val(T,W,p)
//	   D2    xs' ok     ==> Ok(T,W,p)
//	         input bytes, mode and output unchanged (frame)
//	encode:  xs ok, writer     =>
//	   E1    Wf(T,a)    ==> xs' ok, O' = O ++ Enc(T,a)
//	   E2    xs' ok     ==> Wf(T,a)
//	         O' extends O, value unchanged (frame)
//
// plus on every path: no panic (nil, bounds, explicit), allocation and loop
// effort bounded by the input (decode).

// Codec describes a codec function to be verified.
type Codec struct {
	Fn    *ssa.Function
	XSArg int
	T     *spec.Type
	// Alias: a typedef of a named type; its codec may call the other's or
	// repeat its definition.
	Alias bool
	// Args creates the destination and the argument list (stream slot nil).
	Args func(s *State) ([]Val, Loc)
}

// MethodCodec is the codec method of a named type.
func (x *Exec) MethodCodec(fn *ssa.Function, t *spec.Type) Codec {
	recv := fn.Signature.Recv()
	if recv == nil || fn.Signature.Params().Len() != 1 {
		panic(declMismatch{fn.String() + " is not a codec method"})
	}
	pt, ok := recv.Type().Underlying().(*types.Pointer)
	if !ok {
		panic(declMismatch{fn.String() + " has no pointer receiver"})
	}
	gt := pt.Elem()
	return Codec{Fn: fn, XSArg: 1, T: t, Args: func(s *State) ([]Val, Loc) {
		o := s.newObj("v", gt, nil, false)
		s.setMem(o, s.freshAt(t, gt))
		p := &Ptr{Nil: False, Obj: o}
		return []Val{p, nil}, Loc{P: p, GT: gt}
	}}
}

// freshAt is an arbitrary value of spec type t held in Go type gt.
func (s *State) freshAt(t *spec.Type, gt types.Type) Val {
	if t.K == xspec.Void {
		return s.x.zero(s, gt)
	}
	a := s.x.freshOf(t, "a0")
	s.assume(sizeFacts(t, a))
	return leaf(&Abs{t, a})
}

// sizeFacts: fixed-size data has its size.
func sizeFacts(t *spec.Type, a *Term) *Term {
	if t.K == xspec.OpaqueFixed {
		return Eq(Len(a), t.Size())
	}
	return True
}

// VerifyCodec generates the obligations of one behaviour ("sticky", "decode",
// "encode") of a codec verified through the contracts of what it calls.
func (x *Exec) VerifyCodec(c Codec, behaviour string, leafs *int) {
	x.Case = behaviour
	x.topT = c.T
	s := x.NewState()
	args, loc := c.Args(s)
	w := Seqlike(Fresh("W", SBytes))
	p := Ranged(Fresh("p", SInt), bigZero, MaxSliceLen)
	out := Seqlike(Fresh("O", SBytes))
	x0 := &XS{W: w, Pos: p, Out: out}
	switch behaviour {
	case "sticky":
		x0.OK, x0.Reader = False, Fresh("reader", SBool)
	case "decode":
		x0.OK, x0.Reader = True, True
		s.assume(Le(p, Len(w)))
	case "encode":
		x0.OK, x0.Reader = True, False
	}
	xo := s.newObj("xs", types.Typ[types.Int], nil, false)
	s.setMem(xo, x0)
	args[c.XSArg] = &Ptr{Nil: False, Obj: xo}
	if behaviour == "decode" {
		x.hooks.Alloc = func(s *State, n *Term, elem types.Type) {
			cur := s.mem[xo].(*XS)
			s.oblige("alloc", Or(Le(n, IntT(64)), Le(n, Sub(Len(cur.W), cur.Pos))), "allocation of "+elem.String()+" elements bounded by the unread input")
		}
		x.hooks.LoopIter = func(b *State, iter0 *State, phase string) {
			if phase == "enter" {
				return
			}
			cur := b.mem[xo].(*XS)
			st0 := iter0.mem[xo].(*XS)
			b.oblige("loop", st0.OK, "no further iteration after the stream failed")
			b.oblige("loop", Implies(cur.OK, Lt(st0.Pos, cur.Pos)), "each iteration consumes input")
		}
	}
	v0 := s.content(loc)
	unfold := true
	if c.Alias && c.T.Named && (c.T.K == xspec.Struct || c.T.K == xspec.Union) {
		unfold = false
		switch behaviour {
		case "decode":
			s.assume(Eq(c.T.Ok(w, p, false), c.T.Ok(w, p, true)))
			s.assume(Implies(c.T.Ok(w, p, false), And(Eq(c.T.End(w, p, false), c.T.End(w, p, true)), Eq(c.T.Val(w, p, false), c.T.Val(w, p, true)))))
		case "encode":
			a0 := s.absContent(v0, c.T)
			s.assume(Eq(c.T.Wf(a0, false), c.T.Wf(a0, true)))
			s.assume(Eq(c.T.Enc(a0, false), c.T.Enc(a0, true)))
		}
	}
	s.undo = nil
	s.Enter(c.Fn, args, nil)
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		x1 := s.mem[xo].(*XS)
		if x1.W != x0.W || x1.Reader != x0.Reader {
			s.oblige("frame", False, "input bytes and mode unchanged")
		}
		switch behaviour {
		case "sticky":
			s.oblige("sticky", Not(x1.OK), "a failed stream stays failed")
			s.oblige("sticky", Eq(x1.Pos, x0.Pos), "a failed stream consumes nothing")
			s.oblige("sticky", Eq(x1.Out, x0.Out), "a failed stream outputs nothing")
			s.oblige("sticky", s.same(loc, c.T, v0), "a failed stream leaves the destination unchanged")
		case "decode":
			ok := c.T.Ok(w, p, unfold)
			s.oblige("frame", Eq(x1.Out, x0.Out), "decoding outputs nothing")
			s.oblige("D2", Implies(x1.OK, ok), "success only on a complete in-bounds encoding")
			g := s
			if s.simp(x1.OK).Op != "true" {
				g = s.assuming(x1.OK)
			}
			s.oblige("D1", Implies(ok, x1.OK), "a complete in-bounds encoding is accepted")
			if s.simp(x1.OK).Op != "false" {
				g = g.assuming(ok)
				g.oblige("D1", Eq(x1.Pos, c.T.End(w, p, unfold)), "exactly the encoding is consumed")
				g.oblige("D1", g.matchesLoc(loc, c.T, c.T.Val(w, p, unfold)), "the encoded value is stored")
			}
		case "encode":
			a0 := s.absContent(v0, c.T)
			wf := c.T.Wf(a0, unfold)
			s.oblige("E2", Implies(x1.OK, wf), "success only for an in-bounds value")
			s.oblige("E1", Implies(wf, x1.OK), "an in-bounds value is accepted")
			if s.simp(x1.OK).Op != "false" {
				g := s.assuming(And(wf, x1.OK))
				g.oblige("E1", Eq(x1.Out, Concat(x0.Out, c.T.Enc(a0, unfold))), "exactly the encoding is appended")
			}
			s.oblige("frame", s.prefixOf(x0.Out, x1.Out), "output already written is unchanged")
			s.oblige("frame", s.same(loc, c.T, v0), "encoding leaves the value unchanged")
			s.oblige("frame", Eq(x1.Pos, x0.Pos), "encoding consumes nothing")
		}
	})
}

// prefixOf: syntactic extension, or a solver goal.
func (s *State) prefixOf(a, b *Term) *Term {
	if a == b {
		return True
	}
	return Eq(a, Extract(b, Zero, Len(a)))
}

// content is the initial content of a location.
func (s *State) content(l Loc) Val {
	if l.SL != nil {
		return &BytesV{s.bytesOf(l.SL)}
	}
	return s.load(l.P)
}

func (s *State) absContent(v Val, t *spec.Type) *Term {
	if t.K == xspec.Void {
		return True
	}
	return s.alpha(v, t)
}

func (s *State) matchesLoc(l Loc, t *spec.Type, a *Term) *Term {
	if t.K == xspec.Void {
		return True
	}
	if l.SL != nil {
		return Eq(s.bytesOf(l.SL), a)
	}
	return s.matches(s.load(l.P), t, a)
}

// same: the location still holds v0.
func (s *State) same(l Loc, t *spec.Type, v0 Val) *Term {
	if t.K == xspec.Void {
		return True
	}
	if l.SL != nil {
		return Eq(s.bytesOf(l.SL), v0.(*BytesV).S)
	}
	switch c := v0.(type) {
	case *Abs:
		return s.identical(s.load(l.P), t, c.A)
	case *Term:
		return Eq(s.load(l.P).(*Term), c)
	}
	unsup("unchanged %T", v0)
	return nil
}

// Leaf statistics helper.
func (s *State) Describe() string { return fmt.Sprint(len(s.pc)) }
