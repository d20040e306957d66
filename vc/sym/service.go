package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// Service is a program version of a specification.
type Service struct {
	Path string // Go package
	Base string // PROG_VERS
	Prog uint32
	Vers uint32
	Pkg  *spec.Pkg
	Proc []ServiceProc
}

// ServiceProc is a procedure; Arg and Res are nil for void.
type ServiceProc struct {
	Name     string
	Num      uint32
	Arg, Res *spec.Type
}

func (x *Exec) serviceTable(sv *Service) (s *State, h *Iface, table []*StructV, st *types.Struct, at *Ptr) {
	fn := x.P.FuncNamed(sv.Path, sv.Base+"_regs")
	if fn == nil {
		Mismatch("function %s_regs does not exist", sv.Base)
	}
	if len(fn.Params) != 1 || !types.IsInterface(fn.Params[0].Type()) {
		Mismatch("%s does not take the handler", fn)
	}
	s0 := x.NewState()
	h = &Iface{Nil: False, Tag: Fresh("handler", "Dyn")}
	s0.undo = nil
	s0.Enter(fn, []Val{h}, nil)
	n := 0
	x.Run(s0, func(t *State) {
		n++
		if t.panics != "" {
			t.oblige("panic", False, t.panics)
			return
		}
		s = t
	})
	if n != 1 || s == nil {
		unsup("the registration table depends on something")
	}
	sl, ok := s.ret.(*Slice)
	if !ok {
		unsup("registration table of type %T", s.ret)
	}
	k, ok := s.simp(sl.Len).Int64()
	if !ok || k > 10000 {
		unsup("registration table of unknown length")
	}
	rt, ok := isStruct(elemOf(fn.Signature.Results().At(0).Type()))
	if !ok {
		unsup("registration of type %s", fn.Signature.Results().At(0).Type())
	}
	for i := int64(0); i < k; i++ {
		v, ok := s.load(sl.Arr.index(Add(sl.Off, IntT(i)))).(*StructV)
		if !ok {
			unsup("registration entry")
		}
		table = append(table, v)
	}
	return s, h, table, rt, nil
}

func structField(st *types.Struct, v *StructV, name string) Val {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.F[i]
		}
	}
	Mismatch("registration has no field %s", name)
	return nil
}

// VerifyTable: the registration table has exactly the entries of the
// specification.
func (x *Exec) VerifyTable(sv *Service, leafs *int) {
	x.Case = "table"
	s, _, table, st, _ := x.serviceTable(sv)
	*leafs++
	s.oblige("table", BoolT(len(table) == len(sv.Proc)), fmt.Sprintf("the table has one entry per procedure (%d entries, %d procedures)", len(table), len(sv.Proc)))
	for i, e := range table {
		s.oblige("table", Eq(structField(st, e, "Prog").(*Term), IntT(int64(sv.Prog))), fmt.Sprintf("entry %d carries program %d", i, sv.Prog))
		s.oblige("table", Eq(structField(st, e, "Vers").(*Term), IntT(int64(sv.Vers))), fmt.Sprintf("entry %d carries version %d", i, sv.Vers))
	}
	for _, p := range sv.Proc {
		var c []*Term
		for _, e := range table {
			c = append(c, Ite(Eq(structField(st, e, "Proc").(*Term), IntT(int64(p.Num))), One, Zero))
		}
		s.oblige("table", Eq(Add(c...), One), fmt.Sprintf("exactly one entry carries procedure %d (%s)", p.Num, p.Name))
	}
}

// VerifyWrapper: the handler registered under the procedure's number.
func (x *Exec) VerifyWrapper(sv *Service, p ServiceProc, leafs *int) {
	x.Case = "table"
	s, h, table, st, _ := x.serviceTable(sv)
	x.Case = p.Name
	x.hooks.Invoke = func(s *State, recv *Iface, m string, args []Val, sig *types.Signature) (Val, bool) {
		if recv.Tag != h.Tag {
			return nil, false
		}
		var r Val = TupleV{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			r = x.freshVal(s, "result", sig.Results().At(0).Type())
		default:
			unsup("handler method with several results")
		}
		s.log = append(s.log, Event{Kind: m, Args: append([]Val{r}, args...)})
		return r, true
	}
	n := 0
	for _, e := range table {
		if s.simp(Eq(structField(st, e, "Proc").(*Term), IntT(int64(p.Num)))).Op == "false" {
			continue
		}
		n++
		f, ok := structField(st, e, "Handler").(*FuncV)
		if !ok || f.Fn == nil {
			unsup("handler is not a known function")
		}
		x.wrapper(s.clone(), f, p, leafs)
	}
	s.oblige("table", BoolT(n == 1), fmt.Sprintf("one handler is registered for procedure %d", p.Num))
}

func (x *Exec) wrapper(s *State, f *FuncV, p ServiceProc, leafs *int) {
	w := Seqlike(Fresh("W", SBytes))
	pos := Ranged(Fresh("p", SInt), bigZero, MaxSliceLen)
	s.assume(Le(pos, Len(w)))
	ok0 := Fresh("ok", SBool)
	if p.Arg == nil {
		ok0 = True
	}
	xo := s.newObj("xs", types.Typ[types.Int], nil, false)
	s.setMem(xo, &XS{W: w, Pos: pos, Out: Empty, OK: ok0, Reader: True})
	s.log = nil
	s.frames = nil
	s.ret = nil
	s.undo = nil
	// the registered handler runs for several requests at a time
	shared := map[*Obj]bool{}
	for _, o := range s.objs() {
		shared[o] = o != xo
	}
	x.shareFree(func(o *Obj) bool {
		if shared[o] {
			return true
		}
		for _, g := range x.globals {
			if g == o {
				return true
			}
		}
		return false
	})
	defer func() { x.hooks.Access = nil }()
	s.Enter(f.Fn, []Val{&Ptr{Nil: False, Obj: xo}}, f.Bind)
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		r, ok := s.ret.(TupleV)
		if !ok || len(r) != 2 {
			unsup("result of a handler")
		}
		res, ok1 := r[0].(*Iface)
		err, ok2 := r[1].(*Iface)
		if !ok1 || !ok2 {
			unsup("result of a handler")
		}
		argOK := ok0
		if p.Arg != nil {
			argOK = And(ok0, p.Arg.Ok(w, pos, false))
		}
		calls := IntT(int64(len(s.log)))
		s.oblige("wrapper", Implies(Not(argOK), Eq(calls, Zero)), "the method is not called when the argument does not decode")
		s.oblige("wrapper", Implies(Not(argOK), Not(err.Nil)), "an undecodable argument is reported")
		s.oblige("wrapper", Implies(argOK, Eq(calls, One)), "the method is called exactly once")
		s.oblige("wrapper", Implies(argOK, err.Nil), "no error when the argument decodes")
		s.oblige("dispatch", Implies(argOK, BoolT(len(s.log) == 1 && s.log[0].Kind == p.Name)), "the method called is "+p.Name)
		if len(s.log) != 1 || s.log[0].Kind != p.Name {
			return
		}
		g := s.assuming(argOK)
		if g.quickBad() {
			return
		}
		ev := s.log[0]
		if p.Arg != nil {
			if len(ev.Args) != 2 {
				Mismatch("%s takes %d arguments", p.Name, len(ev.Args)-1)
			}
			g.oblige("wrapper", g.matches(ev.Args[1], p.Arg, p.Arg.Val(w, pos, false)), "the method receives the decoded argument")
		} else if len(ev.Args) != 1 {
			Mismatch("%s takes %d arguments", p.Name, len(ev.Args)-1)
		}
		if p.Res == nil {
			// nothing, or a value whose encoding is empty
			void := res.Dyn != nil && x.isVoid(res.Dyn)
			g.oblige("wrapper", Or(res.Nil, BoolT(void)), "the result of a void procedure is empty")
			return
		}
		if _, void := ev.Args[0].(TupleV); void {
			Mismatch("%s returns nothing", p.Name)
		}
		if res.Dyn == nil {
			g.oblige("wrapper", False, "the result is the value the method returned")
			return
		}
		t := ptrSpec(x, res.Dyn)
		if t == nil || t.Key != p.Res.Key {
			g.oblige("wrapper", False, "the result encodes as "+p.Res.Key+", not as "+types.TypeString(res.Dyn, nil))
			return
		}
		ptr, ok := res.V.(*Ptr)
		if !ok {
			unsup("result of type %T", res.V)
		}
		g.oblige("wrapper", Not(ptr.Nil), "the result is not a nil pointer")
		got := g.load(ptr)
		want := g.alpha(ev.Args[0], p.Res)
		g.oblige("wrapper", g.matches(got, p.Res, want), "the result is the value the method returned")
	})
}

func (x *Exec) isVoid(t types.Type) bool {
	sp := ptrSpec(x, t)
	return sp != nil && sp.K == xspec.Void
}

// ptrSpec is the specification of the type behind a pointer whose Xdr method
// is under contract.
func ptrSpec(x *Exec, t types.Type) *spec.Type {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return nil
	}
	m := x.P.SSA.LookupMethod(t, nil, "Xdr")
	if m == nil {
		return nil
	}
	key := funcKey(m)
	for _, sig := range RuntimeCodecs {
		if key == XdrPath+"."+sig.Fn {
			return x.P.W.Prim(sig.Kind, 0)
		}
	}
	return x.P.SpecOf(p.Elem())
}

var _ *ssa.Function
