package sym

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// StreamRep is how the runtime represents a stream: found from the types of
// the fields of XdrState and from what MakeReader and MakeWriter store.
type StreamRep struct {
	T              types.Type // XdrState
	S              *types.Struct
	Err, Mode, Buf int
	ReaderVal      bool // value of the mode field of a reader
}

func (x *Exec) runtimeFn(name string) *ssa.Function {
	f := x.P.FuncNamed(XdrPath, name)
	if f == nil {
		Mismatch("runtime function %s does not exist", name)
	}
	return f
}

// Rep determines the representation of a stream.
func (x *Exec) Rep() *StreamRep {
	pk := x.P.Pkgs[XdrPath]
	o := pk.Pkg.Scope().Lookup("XdrState")
	if o == nil {
		Mismatch("type XdrState does not exist")
	}
	r := &StreamRep{T: o.Type(), Err: -1, Mode: -1, Buf: -1}
	st, ok := isStruct(o.Type())
	if !ok {
		unsup("XdrState is not a struct")
	}
	r.S = st
	set := func(p *int, i int) {
		if *p >= 0 {
			unsup("XdrState has several fields of type %s", st.Field(i).Type())
		}
		*p = i
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if types.TypeString(t, nil) == "error" {
			set(&r.Err, i)
		} else if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Bool {
			set(&r.Mode, i)
		} else if sl, ok := under(t).(*types.Slice); ok && isByte(sl.Elem()) {
			set(&r.Buf, i)
		} else {
			unsup("XdrState field %s of type %s", st.Field(i).Name(), t)
		}
	}
	if r.Err < 0 || r.Mode < 0 || r.Buf < 0 {
		unsup("XdrState lacks an error, mode or buffer field")
	}
	mode := func(name string) bool {
		y := NewExec(x.P, name, map[string]string{})
		y.Prim = true
		s := y.NewState()
		var got *Term
		s.Enter(y.runtimeFn(name), []Val{s.byteSlice("arg", false)}, nil)
		y.Run(s, func(s *State) {
			if s.panics != "" {
				return
			}
			p, ok := s.ret.(*Ptr)
			if !ok || p.Obj == nil {
				unsup("%s returns no stream", name)
			}
			m, ok := s.load(p).(*StructV)
			if !ok {
				unsup("%s returns no stream", name)
			}
			t := s.simp(m.F[r.Mode].(*Term))
			if got != nil && got != t {
				unsup("mode depends on the input")
			}
			got = t
		})
		if got == nil || got.Op != "true" && got.Op != "false" {
			unsup("mode of %s is not constant", name)
		}
		return got.Op == "true"
	}
	r.ReaderVal = mode("MakeReader")
	if mode("MakeWriter") == r.ReaderVal {
		unsup("readers and writers have the same mode")
	}
	return r
}

// byteSlice is an arbitrary byte slice (possibly nil) with spare capacity.
func (s *State) byteSlice(name string, ro bool) *Slice {
	b := Seqlike(Fresh(name, SBytes))
	n := Ranged(Fresh(name+"len", SInt), bigZero, MaxSliceLen)
	s.assume(Le(n, Len(b)))
	off := Ranged(Fresh(name+"off", SInt), bigZero, MaxSliceLen)
	cp := Ranged(Fresh(name+"cap", SInt), bigZero, MaxSliceLen)
	s.assume(Le(n, cp))
	s.assume(Le(Add(off, cp), Len(b)))
	o := s.newObj(name, backing(byteType), &BytesV{b}, false)
	o.RO = ro
	return &Slice{Nil: And(Fresh(name+"nil", SBool), Eq(cp, Zero)), Arr: &Ptr{Nil: False, Obj: o}, Off: off, Len: n, Cap: cp}
}

// concrete stream of one of the behaviours.
type conc struct {
	rep  *StreamRep
	obj  *Obj
	buf  *Slice
	w, p *Term // reader: input and position
	out  *Term // writer: output so far
	data *Obj
	full *Term
}

func (s *State) modeTerm(r *StreamRep, reader *Term) *Term {
	if r.ReaderVal {
		return reader
	}
	return Not(reader)
}

// stream creates a stream in the given situation.  ok and reader are
// literals or free.
func (s *State) stream(r *StreamRep, ok, reader *Term) *conc {
	c := &conc{rep: r}
	if reader.Op == "true" {
		c.w = Seqlike(Fresh("W", SBytes))
		c.p = Ranged(Fresh("p", SInt), bigZero, MaxSliceLen)
		s.assume(Le(c.p, Len(c.w)))
		spare := Seqlike(Fresh("beyond", SBytes))
		c.full = Concat(c.w, spare)
		c.data = s.newObj("input", backing(byteType), &BytesV{c.full}, false)
		c.data.RO = true
		n := Sub(Len(c.w), c.p)
		cp := Add(n, Len(spare))
		c.buf = &Slice{Nil: And(Fresh("bufnil", SBool), Eq(cp, Zero)), Arr: &Ptr{Nil: False, Obj: c.data}, Off: c.p, Len: n, Cap: cp}
	} else {
		c.out = Seqlike(Fresh("O", SBytes))
		spare := Seqlike(Fresh("spare", SBytes))
		c.full = Concat(c.out, spare)
		c.data = s.newObj("output", backing(byteType), &BytesV{c.full}, false)
		cp := Add(Len(c.out), Len(spare))
		c.buf = &Slice{Nil: And(Fresh("bufnil", SBool), Eq(cp, Zero)), Arr: &Ptr{Nil: False, Obj: c.data}, Off: Zero, Len: Len(c.out), Cap: cp}
		if ok.Op == "false" {
			c.data.RO = true
		}
	}
	f := make([]Val, r.S.NumFields())
	f[r.Err] = &Iface{Nil: ok, Tag: Fresh("err0", "Dyn")}
	f[r.Mode] = s.modeTerm(r, reader)
	f[r.Buf] = c.buf
	c.obj = s.newObj("xs", r.T, &StructV{F: f}, false)
	return c
}

func (c *conc) fields(s *State) (ok, mode *Term, buf *Slice) {
	v, isS := s.mem[c.obj].(*StructV)
	if !isS {
		unsup("stream content %T", s.mem[c.obj])
	}
	e, isI := v.F[c.rep.Err].(*Iface)
	b, isB := v.F[c.rep.Buf].(*Slice)
	m, isM := v.F[c.rep.Mode].(*Term)
	if !isI || !isB || !isM {
		unsup("stream fields")
	}
	return e.Nil, m, b
}

// sameBuf: the stream's buffer is exactly what it was.
func (c *conc) sameBuf(s *State, b *Slice) *Term {
	if b.Arr != nil && c.buf.Arr != nil && b.Arr.Obj == c.buf.Arr.Obj {
		return And(Eq(b.Off, c.buf.Off), Eq(b.Len, c.buf.Len))
	}
	return Eq(s.bytesOf(b), s.bytesOf(c.buf))
}

// remaining: the unread input is W[end:].
func (c *conc) remaining(s *State, b *Slice, end *Term) *Term {
	if b.Arr != nil && b.Arr.Obj == c.data {
		return And(Eq(b.Off, end), Eq(b.Len, Sub(Len(c.w), end)))
	}
	return Eq(s.bytesOf(b), Extract(c.w, end, Sub(Len(c.w), end)))
}

// VerifyRuntime generates the obligations of one behaviour of a runtime codec
// against the RFC 4506 definition itself (streams in their representation).
func (x *Exec) VerifyRuntime(sig CodecSig, behaviour string, leafs *int) {
	fn := x.runtimeFn(sig.Fn)
	x.Case = behaviour
	r := x.Rep()
	x.Prim = true
	s := x.NewState()
	nobj = 0
	params := fn.Signature.Params().Len()
	if fn.Signature.Recv() != nil {
		params++
	}
	want := 2
	if sig.Max != 0 {
		want = 3
	}
	if params != want {
		Mismatch("%s has %d parameters", sig.Fn, params)
	}
	args := make([]Val, want)
	var ok, reader *Term
	switch behaviour {
	case "decode":
		ok, reader = True, True
	case "encode":
		ok, reader = True, False
	case "sticky-reader":
		ok, reader = False, True
	case "sticky-writer":
		ok, reader = False, False
	}
	c := s.stream(r, ok, reader)
	args[sig.XS] = &Ptr{Nil: False, Obj: c.obj}
	var t *spec.Type
	if sig.Max != 0 {
		m := rangedBits(Fresh("maxlen", SInt), 64, true)
		args[sig.Max] = m
		t = x.P.PrimWithMax(sig.Kind, m)
	} else {
		t = x.P.W.Prim(sig.Kind, 0)
	}
	// destination
	var val func(s *State) Val // content of the destination
	var dst *Slice
	var dstFull *Term
	pt := fn.Params[sig.Arg].Type()
	if sig.Raw {
		dst = s.byteSlice("v", behaviour != "decode")
		dstFull = s.mem[dst.Arr.Obj].(*BytesV).S
		args[sig.Arg] = dst
		t = x.P.PrimWithMax(sig.Kind, dst.Len)
		val = func(s *State) Val { return &BytesV{s.bytesOf(dst)} }
	} else {
		p, isP := under(pt).(*types.Pointer)
		if !isP {
			Mismatch("%s: destination of type %s", sig.Fn, pt)
		}
		gt := p.Elem()
		var init Val
		switch {
		case sig.Kind == xspec.Void:
			init = x.zero(s, gt)
		case t.IsInt():
			init = freshInt("v", gt)
		case sig.Kind == xspec.Bool:
			init = Fresh("v", SBool)
		case sig.Kind == xspec.String:
			init = Seqlike(Fresh("v", SBytes))
		case sig.Kind == xspec.OpaqueVar:
			init = s.byteSlice("v", true)
		}
		o := s.newObj("dest", gt, init, false)
		args[sig.Arg] = &Ptr{Nil: False, Obj: o}
		val = func(s *State) Val { return s.mem[o] }
	}
	content := func(s *State) *Term { // abstract value of the destination
		switch v := val(s).(type) {
		case *Term:
			return v
		case *BytesV:
			return v.S
		case *Slice:
			return s.bytesOf(v)
		case *StructV:
			return True
		}
		unsup("destination of runtime codec")
		return nil
	}
	a0 := content(s)
	v0 := val(s)
	unchanged := func(s *State) *Term {
		v1 := val(s)
		if sl0, ok := v0.(*Slice); ok {
			sl1, ok := v1.(*Slice)
			if !ok || sl1.Arr == nil || sl1.Arr.Obj != sl0.Arr.Obj {
				return And(Eq(content(s), a0))
			}
			return And(Eq(sl0.Off, sl1.Off), Eq(sl0.Len, sl1.Len), Eq(content(s), a0))
		}
		return Eq(content(s), a0)
	}
	if behaviour == "decode" {
		x.hooks.Alloc = func(s *State, n *Term, elem types.Type) {
			s.oblige("alloc", Or(Le(n, IntT(64)), Le(n, Sub(Len(c.w), c.p))), "allocation bounded by the unread input")
		}
	}
	s.undo = nil
	s.Enter(fn, args, nil)
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		ok1, mode1, buf1 := c.fields(s)
		s.oblige("frame", Eq(mode1, s.modeTerm(r, reader)), "the mode of the stream is unchanged")
		switch behaviour {
		case "sticky-reader", "sticky-writer":
			s.oblige("sticky", Not(ok1), "a failed stream stays failed")
			s.oblige("sticky", c.sameBuf(s, buf1), "a failed stream consumes and outputs nothing")
			s.oblige("sticky", unchanged(s), "a failed stream leaves the destination unchanged")
		case "decode":
			def := t.DefOkV(c.w, c.p)
			if x.WantKept {
				s.oblige("kept", Or(ok1, unchanged(s)), "a failed decode leaves the destination unchanged")
			}
			s.oblige("D2", Implies(ok1, def), "success only on a complete encoding")
			s.oblige("D1", Implies(def, ok1), "a complete encoding is accepted")
			if s.simp(ok1).Op != "false" {
				g := s.assuming(And(ok1, def))
				g.oblige("D1", c.remaining(g, buf1, t.DefEndV(c.w, c.p)), "exactly the encoding is consumed")
				g.oblige("D1", Eq(content(g), t.DefValV(c.w, c.p)), "the encoded value is stored")
			}
			// unread input never grows and stays inside the input
			if buf1.Arr != nil && buf1.Arr.Obj == c.data {
				s.oblige("frame", And(Le(c.p, buf1.Off), Le(Add(buf1.Off, buf1.Len), Len(c.w))), "the unread input is a suffix of the input")
			}
			if sl, isS := val(s).(*Slice); isS {
				if sl.Arr != nil && sl.Arr.Obj == c.data {
					s.oblige("alias", Implies(ok1, Eq(sl.Cap, sl.Len)), "decoded data has no spare capacity in the input")
				}
			}
			if dst != nil {
				f1 := s.mem[dst.Arr.Obj].(*BytesV).S
				e := Add(dst.Off, dst.Len)
				s.oblige("frame", And(Eq(Len(f1), Len(dstFull)), Eq(Extract(f1, Zero, dst.Off), Extract(dstFull, Zero, dst.Off)),
					Eq(Extract(f1, e, Sub(Len(f1), e)), Extract(dstFull, e, Sub(Len(dstFull), e)))), "bytes around the destination are unchanged")
			}
		case "encode":
			wf := t.Wf(a0, true)
			s.oblige("E2", Implies(ok1, wf), "success only for an in-bounds value")
			s.oblige("E1", Implies(wf, ok1), "an in-bounds value is accepted")
			nb := s.bytesOf(buf1)
			if s.simp(ok1).Op != "false" {
				g := s.assuming(And(wf, ok1))
				g.oblige("E1", Eq(g.bytesOf(buf1), Concat(c.out, t.Enc(a0, true))), "exactly the encoding is appended")
			}
			s.oblige("frame", And(Le(Len(c.out), Len(nb)), s.prefixOf(c.out, nb)), "output already written is unchanged")
			old := s.mem[c.data].(*BytesV).S
			s.oblige("frame", s.prefixOf(c.out, old), "output already written is unchanged in place")
			s.oblige("frame", unchanged(s), "encoding leaves the value unchanged")
		}
	})
}

// stateOps names the stream operations verified by VerifyStateOp.
var StateOps = []string{"MakeReader", "MakeWriter", "XdrState.WriteBuf", "XdrState.EncodingSetSize", "XdrState.Encoding", "XdrState.Decoding", "XdrState.SetError", "XdrState.Error"}

// VerifyStateOp checks the contract of a stream operation.
func (x *Exec) VerifyStateOp(name, situation string, leafs *int) {
	fn := x.runtimeFn(name)
	x.Case = situation
	r := x.Rep()
	x.Prim = true
	s := x.NewState()
	nobj = 0
	leaf := func(f func(s *State)) {
		x.Run(s, func(s *State) {
			*leafs++
			if s.panics != "" {
				s.oblige("panic", False, s.panics)
				return
			}
			f(s)
		})
	}
	if name == "MakeReader" || name == "MakeWriter" {
		arg := s.byteSlice("arg", true)
		b0 := s.bytesOf(arg)
		s.undo = nil
		s.Enter(fn, []Val{arg}, nil)
		leaf(func(s *State) {
			p, ok := s.ret.(*Ptr)
			if !ok || p.Obj == nil {
				s.oblige("post", False, "returns a stream")
				return
			}
			s.oblige("post", Not(p.Nil), "returns a stream")
			c := &conc{rep: r, obj: p.Obj}
			ok1, mode, buf := c.fields(s)
			s.oblige("post", ok1, "a new stream has no error")
			s.oblige("post", Eq(mode, s.modeTerm(r, BoolT(name == "MakeReader"))), "the new stream has its mode")
			s.oblige("post", Eq(s.bytesOf(buf), b0), "the new stream holds the given bytes")
			s.oblige("post", BoolT(p.Obj.Fresh), "the stream is new")
		})
		return
	}
	ok := BoolT(situation[:2] == "ok")
	reader := BoolT(situation[3:] == "reader")
	c := s.stream(r, ok, reader)
	c.data.RO = true
	xs := &Ptr{Nil: False, Obj: c.obj}
	args := []Val{xs}
	var szObj *Obj
	var sz0, n *Term
	switch name {
	case "XdrState.EncodingSetSize":
		sz0 = Ranged(Fresh("size", SInt), bigZero, big.NewInt(0xffffffff))
		szObj = s.newObj("size", types.Typ[types.Uint32], sz0, false)
		n = Ranged(Fresh("n", SInt), bigZero, MaxSliceLen)
		args = append(args, &Ptr{Nil: False, Obj: szObj}, n)
	case "XdrState.SetError":
		args = append(args, Seqlike(Fresh("msg", SBytes)))
	}
	if len(args) != len(fn.Params) {
		Mismatch("%s has %d parameters", name, len(fn.Params))
	}
	s.undo = nil
	s.Enter(fn, args, nil)
	leaf(func(s *State) {
		ok1, mode1, buf1 := c.fields(s)
		s.oblige("frame", Eq(mode1, s.modeTerm(r, reader)), "the mode is unchanged")
		s.oblige("frame", c.sameBuf(s, buf1), "the buffer is unchanged")
		keep := func() { s.oblige("frame", Eq(ok1, ok), "the error state is unchanged") }
		switch name {
		case "XdrState.WriteBuf":
			keep()
			if reader.Op == "false" {
				sl, isS := s.ret.(*Slice)
				if !isS {
					unsup("result of WriteBuf")
				}
				s.oblige("post", Eq(s.bytesOf(sl), c.out), "returns the output")
			}
		case "XdrState.Encoding":
			keep()
			s.oblige("post", Eq(s.ret.(*Term), And(ok, Not(reader))), "true exactly for a writer without error")
		case "XdrState.Decoding":
			keep()
			s.oblige("post", Eq(s.ret.(*Term), And(ok, reader)), "true exactly for a reader without error")
		case "XdrState.Error":
			keep()
			e, isI := s.ret.(*Iface)
			if !isI {
				unsup("result of Error")
			}
			s.oblige("post", Eq(e.Nil, ok), "nil exactly when the stream has no error")
		case "XdrState.SetError":
			s.oblige("post", Not(ok1), "the stream has failed")
		case "XdrState.EncodingSetSize":
			sz1, isT := s.mem[szObj].(*Term)
			if !isT {
				unsup("size cell")
			}
			if ok.Op == "false" || reader.Op == "true" {
				keep()
				s.oblige("post", Eq(sz1, sz0), "nothing happens unless encoding")
				return
			}
			s.oblige("post", Eq(ok1, Le(n, IntT(0xffffffff))), "fails exactly for lengths beyond 32 bits")
			s.oblige("post", Implies(Le(n, IntT(0xffffffff)), Eq(sz1, n)), "the length is stored")
		}
	})
}

var _ = fmt.Sprint
