package sym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// XdrPath is the import path of the runtime library.
const XdrPath = "github.com/zeldovich/go-rpcgen/xdr"

// CodecSig says which codec contract a function of the runtime has.
type CodecSig struct {
	Fn   string // "F" or "T.M" within the runtime package
	Kind xspec.Kind
	Max  int  // argument index of the maximum length (0: none)
	Arg  int  // argument index of the destination
	XS   int  // argument index of the stream
	Raw  bool // destination is a []byte of fixed size
}

// RuntimeCodecs lists the codec functions of the runtime.
var RuntimeCodecs = []CodecSig{
	{Fn: "XdrBool", Kind: xspec.Bool, Arg: 1},
	{Fn: "XdrS32", Kind: xspec.Int, Arg: 1},
	{Fn: "XdrU32", Kind: xspec.UInt, Arg: 1},
	{Fn: "XdrS64", Kind: xspec.Hyper, Arg: 1},
	{Fn: "XdrU64", Kind: xspec.UHyper, Arg: 1},
	{Fn: "XdrVarArray", Kind: xspec.OpaqueVar, Max: 1, Arg: 2},
	{Fn: "XdrString", Kind: xspec.String, Max: 1, Arg: 2},
	{Fn: "XdrArray", Kind: xspec.OpaqueFixed, Arg: 1, Raw: true},
	{Fn: "Bool.Xdr", Kind: xspec.Bool, Arg: 0, XS: 1},
	{Fn: "Int32.Xdr", Kind: xspec.Int, Arg: 0, XS: 1},
	{Fn: "Uint32.Xdr", Kind: xspec.UInt, Arg: 0, XS: 1},
	{Fn: "Int64.Xdr", Kind: xspec.Hyper, Arg: 0, XS: 1},
	{Fn: "Uint64.Xdr", Kind: xspec.UHyper, Arg: 0, XS: 1},
	{Fn: "Void.Xdr", Kind: xspec.Void, Arg: 0, XS: 1},
}

// PrimWithMax is a variable-length primitive with a symbolic maximum.
func (p *Prog) PrimWithMax(k xspec.Kind, max *Term) *spec.Type {
	if n, ok := max.Int64(); ok {
		if k != xspec.OpaqueFixed && (n < 0 || n > 0xffffffff) {
			n = -1
		}
		return p.W.Prim(k, n)
	}
	t := *p.W.Prim(k, 0)
	t.Key = fmt.Sprintf("%s#%d", t.Key, max.ID)
	if k == xspec.OpaqueFixed {
		t.MaxT = max
	} else {
		t.MaxT = Ite(Or(Lt(max, Zero), Lt(IntT(0xffffffff), max)), IntT(0xffffffff), max)
	}
	return &t
}

func (sig CodecSig) specType(s *State, args []Val) (*spec.Type, Loc) {
	p := s.x.P
	if sig.Raw {
		sl, ok := args[sig.Arg].(*Slice)
		if !ok {
			unsup("codec argument %T", args[sig.Arg])
		}
		return p.PrimWithMax(sig.Kind, s.simp(sl.Len)), Loc{SL: sl}
	}
	ptr, ok := args[sig.Arg].(*Ptr)
	if !ok {
		unsup("codec argument %T", args[sig.Arg])
	}
	var t *spec.Type
	if sig.Max != 0 {
		t = p.PrimWithMax(sig.Kind, s.simp(args[sig.Max].(*Term)))
	} else {
		t = p.W.Prim(sig.Kind, 0)
	}
	return t, Loc{P: ptr}
}

// funcKey is "path.F" or "path.T.M" of a function of the repository.
func funcKey(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return ""
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + fn.Name()
	}
	if fn.Pkg == nil || fn.Parent() != nil {
		return ""
	}
	return fn.Pkg.Pkg.Path() + "." + fn.Name()
}

// ClientContracts is the contract provider for code that uses the runtime and
// codecs through their contracts.
func ClientContracts(x *Exec, fn *ssa.Function) func(s *State, args []Val, c *ssa.CallCommon) Val {
	if x.Prim {
		return nil
	}
	key := funcKey(fn)
	if key == "" {
		return nil
	}
	if strings.HasPrefix(key, XdrPath+".") {
		n := key[len(XdrPath)+1:]
		for _, sig := range RuntimeCodecs {
			if sig.Fn == n {
				sig := sig
				return func(s *State, args []Val, c *ssa.CallCommon) Val {
					t, loc := sig.specType(s, args)
					loc.Kept = x.P.Kept[sig.Fn]
					s.applyCodec(args[sig.XS], loc, t)
					return TupleV{}
				}
			}
		}
		if f := stateContracts[n]; f != nil {
			return f
		}
		return nil
	}
	// codec methods of specified types
	if strings.HasSuffix(key, ".Xdr") {
		if t := x.P.specs[strings.TrimSuffix(key, ".Xdr")]; t != nil && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 1 {
			return func(s *State, args []Val, c *ssa.CallCommon) Val {
				ptr, ok := args[0].(*Ptr)
				if !ok {
					unsup("codec receiver %T", args[0])
				}
				s.applyCodec(args[1], Loc{P: ptr}, t)
				return TupleV{}
			}
		}
	}
	return nil
}

func errVal(isNil *Term) Val { return &Iface{Nil: isNil, Tag: Fresh("xerr", "Dyn")} }

// stateContracts are the contracts of the XdrState operations.
var stateContracts = map[string]externFn{
	"MakeReader": func(s *State, a []Val, c *ssa.CallCommon) Val {
		sl := a[0].(*Slice)
		x := &XS{Reader: True, OK: True, W: s.bytesOf(sl), Pos: Zero, Out: Empty}
		if sl.Arr != nil {
			x.Src, x.SrcP = sl.Arr.Obj, sl.Arr
		}
		o := s.newObj("reader", types.Typ[types.Int], nil, true)
		s.setMem(o, x)
		return &Ptr{Nil: False, Obj: o}
	},
	"MakeWriter": func(s *State, a []Val, c *ssa.CallCommon) Val {
		sl := a[0].(*Slice)
		x := &XS{Reader: False, OK: True, W: Empty, Pos: Zero, Out: s.bytesOf(sl)}
		if s.x.own && sl.Arr != nil && s.simp(Eq(sl.Cap, sl.Len)).Op != "true" {
			x.Src, x.SrcP = sl.Arr.Obj, sl.Arr // output may go to the spare capacity
		}
		o := s.newObj("writer", types.Typ[types.Int], nil, true)
		s.setMem(o, x)
		return &Ptr{Nil: False, Obj: o}
	},
	"XdrState.WriteBuf": func(s *State, a []Val, c *ssa.CallCommon) Val {
		x, _ := s.xsAt(a[0])
		if !s.decide(Not(x.Reader)) {
			unsup("WriteBuf of a reader")
		}
		sp := Seqlike(Fresh("spare", SBytes))
		o := s.newObj("writebuf", backing(byteType), &BytesV{Concat(x.Out, sp)}, true)
		n := Len(x.Out)
		s.assume(Le(n, BigT(MaxSliceLen)))
		return &Slice{Nil: And(Fresh("isnil", SBool), Eq(n, Zero)), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: Add(n, Len(sp))}
	},
	"XdrState.EncodingSetSize": func(s *State, a []Val, c *ssa.CallCommon) Val {
		x, o := s.xsAt(a[0])
		p := a[1].(*Ptr)
		s.derefCheck(p, "array size")
		n := a[2].(*Term)
		if !s.decide(x.OK) || s.decide(x.Reader) {
			return TupleV{}
		}
		if s.decide(Lt(IntT(0xffffffff), n)) {
			y := *x
			y.OK = False
			s.setXS(o, y)
			return TupleV{}
		}
		s.store(p, spec.WrapU(n, 32))
		return TupleV{}
	},
	"XdrState.Encoding": func(s *State, a []Val, c *ssa.CallCommon) Val {
		x, _ := s.xsAt(a[0])
		return And(x.OK, Not(x.Reader))
	},
	"XdrState.Decoding": func(s *State, a []Val, c *ssa.CallCommon) Val {
		x, _ := s.xsAt(a[0])
		return And(x.OK, x.Reader)
	},
	"XdrState.SetError": func(s *State, a []Val, c *ssa.CallCommon) Val {
		x, o := s.xsAt(a[0])
		y := *x
		y.OK = False
		s.setXS(o, y)
		return TupleV{}
	},
	"XdrState.Error": func(s *State, a []Val, c *ssa.CallCommon) Val {
		x, _ := s.xsAt(a[0])
		return errVal(x.OK)
	},
}

// ContractNames lists the functions assumed by contract in client code.
func ContractNames() []string {
	var out []string
	for _, c := range RuntimeCodecs {
		out = append(out, c.Fn)
	}
	for n := range stateContracts {
		out = append(out, n)
	}
	return out
}

// invokeXdr is the contract of Xdr on an opaque Xdrable.
func (s *State) invokeXdr(recv *Iface, method string, args []Val, sig *types.Signature) (Val, bool) {
	if method != "Xdr" || len(args) != 1 || recv.Tag == nil {
		return nil, false
	}
	s.x.Used["assumed codec contract of opaque Xdrable"] = true
	s.applyCodec(args[0], Loc{Tag: recv.Tag}, s.x.P.dynType(recv.Tag))
	return TupleV{}, true
}

// VerifyBuf checks EncodeBuf and DecodeBuf for an arbitrary Xdrable.
func (x *Exec) VerifyBuf(name string, leafs *int) {
	fn := x.runtimeFn(name)
	x.Case = "any value"
	x.hooks.Invoke = func(s *State, recv *Iface, m string, args []Val, sig *types.Signature) (Val, bool) {
		return s.invokeXdr(recv, m, args, sig)
	}
	s := x.NewState()
	tag := Fresh("v", "Dyn")
	v := &Iface{Nil: False, Tag: tag}
	t := x.P.dynType(tag)
	c0 := s.dynContent(tag)
	var arg *Slice
	var w *Term
	var args []Val
	if name == "DecodeBuf" {
		arg = s.byteSlice("buf", true)
		w = s.bytesOf(arg)
		args = []Val{arg, v}
	} else {
		args = []Val{v}
	}
	if len(fn.Params) != len(args) {
		Mismatch("%s has %d parameters", name, len(fn.Params))
	}
	s.undo = nil
	s.Enter(fn, args, nil)
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		if name == "DecodeBuf" {
			e, ok := s.ret.(*Iface)
			if !ok {
				unsup("result of DecodeBuf")
			}
			okd := t.Ok(w, Zero, false)
			s.oblige("D2", Implies(e.Nil, okd), "success only on a complete encoding")
			s.oblige("D1", Implies(okd, e.Nil), "a complete encoding is accepted")
			if s.simp(e.Nil).Op != "false" {
				g := s.assuming(And(e.Nil, okd))
				g.oblige("D1", Eq(g.dynContent(tag), t.Val(w, Zero, false)), "the encoded value is stored")
			}
			return
		}
		r, ok := s.ret.(TupleV)
		if !ok || len(r) != 2 {
			unsup("result of EncodeBuf")
		}
		e := r[1].(*Iface)
		wf := t.Wf(c0, false)
		s.oblige("E2", Implies(e.Nil, wf), "success only for an in-bounds value")
		s.oblige("E1", Implies(wf, e.Nil), "an in-bounds value is accepted")
		if s.simp(e.Nil).Op != "false" {
			g := s.assuming(And(wf, e.Nil))
			g.oblige("E1", Eq(g.bytesOf(r[0].(*Slice)), t.Enc(c0, false)), "the result is exactly the encoding")
		}
		s.oblige("frame", Eq(s.dynContent(tag), c0), "the value is unchanged")
	})
}
