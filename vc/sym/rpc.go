package sym

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	. "verif/vc/smt"
	"verif/vc/spec"
)

// The RPC client and server run against a connection modelled by contracts:
// reads deliver consecutive bytes of the input IN (ghost position "inpos") or
// fail, writes are events.

const maxFrag = 1 << 31

type rpcEnv struct {
	x    *Exec
	rw   *Iface
	in   *Term
	msg  *spec.Type // rpc_msg
	path string

	pool     map[int]map[string]Val // value asserted from what Get returned
	poolGet  map[string]types.Type
	poolPut  map[string]types.Type
	iter0    *State
	handling bool // within the handling of one request

	conc *concEnv

	thread string        // whose view of shared numbers and flags is taken
	old    map[*Obj]bool // exists before any request
	iters  []*State      // starts of iterations of the connection's loop
	start  func() (*State, *Ptr, *Term)
}

func (x *Exec) newRPC(path string) *rpcEnv {
	e := &rpcEnv{x: x, path: path, pool: map[int]map[string]Val{}, poolGet: map[string]types.Type{}, poolPut: map[string]types.Type{}}
	e.rw = &Iface{Nil: False, Tag: Fresh("rw", "Dyn")}
	e.in = Seqlike(Fresh("IN", SBytes))
	e.msg = x.P.W.Pkgs[path].Lookup("rpc_msg")
	if e.msg == nil {
		Mismatch("no specification of rpc_msg")
	}
	x.own = true
	x.P.W.Ctors = true
	x.hooks.Extern = map[string]func(s *State, args []Val, c *ssa.CallCommon) Val{
		"io.ReadFull": func(s *State, a []Val, c *ssa.CallCommon) Val {
			return e.read(s, a[0], a[1].(*Slice))
		},
		"io.ReadAtLeast": func(s *State, a []Val, c *ssa.CallCommon) Val {
			b := a[1].(*Slice)
			if s.simp(Eq(b.Len, a[2].(*Term))).Op != "true" {
				unsup("io.ReadAtLeast with another minimum than the buffer")
			}
			return e.read(s, a[0], b)
		},
		"(*sync.Pool).Get": e.poolGetHook,
		"(*sync.Pool).Put": e.poolPutHook,
		"typeassert":       e.assertHook,
	}
	x.hooks.Invoke = func(s *State, recv *Iface, m string, args []Val, sig *types.Signature) (Val, bool) {
		if recv.Tag == e.rw.Tag {
			switch m {
			case "Write":
				return e.write(s, args[0].(*Slice)), true
			case "Read":
				unsup("direct Read of the connection")
			}
			return nil, false
		}
		if m == "Xdr" {
			e.conc.blocking(s, "while a result is encoded", false)
			s.touch(nil)
		}
		return s.invokeXdr(recv, m, args, sig)
	}
	x.hooks.Codec = func(s *State, t *spec.Type, a *Term, xs *XS, wrote bool) {
		s.logEv(Event{Kind: "encode", Args: []Val{t}, Ts: []*Term{a, BoolT(wrote)}})
	}
	return e
}

// read is the contract of io.ReadFull.
func (e *rpcEnv) read(s *State, r Val, b *Slice) Val {
	i, ok := r.(*Iface)
	if !ok || i.Tag != e.rw.Tag {
		unsup("read from something else than the connection")
	}
	e.conc.blocking(s, "while input is awaited", true)
	pos := s.g["inpos"]
	okr := Fresh("readok", SBool)
	if b.Len == Zero {
		okr = True
	}
	if b.Arr != nil {
		s.touch(b.Arr.Obj)
	}
	// decide before any effect: forks re-execute the call
	if s.decideNow("read", okr, s.readKey()) {
		end := Add(pos, b.Len)
		s.assume(Le(end, Len(e.in)))
		data := Extract(e.in, pos, b.Len)
		if b.Arr != nil {
			s.setBytes(b, Zero, data)
		}
		s.setG("inpos", end)
		s.logEv(Event{Kind: "read", Args: []Val{b}, Ts: []*Term{True, pos, b.Len, data}})
		return TupleV{b.Len, &Iface{Nil: True}}
	}
	n := Ranged(Fresh("nread", SInt), bigZero, MaxSliceLen)
	s.assume(Lt(n, b.Len))
	if b.Arr != nil {
		part := Seqlike(Fresh("partial", SBytes))
		s.assume(Eq(Len(part), b.Len))
		s.setBytes(b, Zero, part)
	}
	s.setG("inpos", Add(pos, n))
	s.logEv(Event{Kind: "read", Args: []Val{b}, Ts: []*Term{False, pos, b.Len, Empty}})
	return TupleV{n, newError(s)}
}

// readKey identifies the next read of this path.
func (s *State) readKey() string { return fmt.Sprint(len(s.log), s.g["inpos"].ID) }

// decideNow decides a fresh choice that must stay the same when the
// instruction is executed again after the fork.
func (s *State) decideNow(kind string, c *Term, key string) bool {
	if c.Op == "true" || c.Op == "false" {
		return c.Op == "true"
	}
	if s.x.choice == nil {
		s.x.choice = map[string]*Term{}
	}
	k := kind + key
	if o := s.x.choice[k]; o != nil {
		c = o
	} else {
		s.x.choice[k] = c
	}
	return s.decide(c)
}

// write is the contract of io.Writer.Write on the connection.
func (e *rpcEnv) write(s *State, b *Slice) Val {
	data := s.bytesOf(b)
	e.conc.blocking(s, "while a reply is written", false)
	if b.Arr != nil {
		s.touch(b.Arr.Obj)
	}
	if s.g["put"] == True {
		s.oblige("own", False, "the reply is written before the request buffer is recycled")
	}
	okw := Fresh("writeok", SBool)
	s.logEv(Event{Kind: "write", Ts: []*Term{data, okw}})
	n := Ranged(Fresh("nwritten", SInt), bigZero, MaxSliceLen)
	s.assume(Le(n, b.Len))
	s.assume(Implies(okw, Eq(n, b.Len)))
	return TupleV{n, &Iface{Nil: okw, Tag: Fresh("werr", "Dyn")}}
}

// ---- ownership of buffers

func relKey(o *Obj) string { return fmt.Sprintf("released%d", o.ID) }

// touch notes an access to a buffer (nil: to data that may refer to the
// request's buffer).
func (s *State) touch(o *Obj) {
	if !s.x.own || s.x.probe > 0 {
		return
	}
	if o == nil {
		if s.g["put"] == True {
			s.oblige("own", False, "nothing of the request is used after its buffer was recycled")
		}
		return
	}
	if s.g[relKey(o)] == True {
		s.oblige("own", False, "a buffer is not touched after it was handed over or recycled")
	}
}

func (e *rpcEnv) poolGetHook(s *State, a []Val, c *ssa.CallCommon) Val {
	p, ok := a[0].(*Ptr)
	if !ok || p.Obj == nil {
		unsup("unknown pool")
	}
	empty := Fresh("poolempty", SBool)
	if fn := e.poolNew(s, p); fn != nil {
		for _, t := range madeBy(fn) {
			e.poolPut[types.TypeString(t, nil)] = t
		}
		empty = False
	}
	return &Iface{Nil: empty, Tag: Fresh("pooled", "Dyn")}
}

// poolNew is the New function of a pool, if it has one.
func (e *rpcEnv) poolNew(s *State, p *Ptr) *ssa.Function {
	newOf := func(v ssa.Value) *ssa.Function {
		switch f := v.(type) {
		case *ssa.Function:
			return f
		case *ssa.MakeClosure:
			return f.Fn.(*ssa.Function)
		}
		unsup("unknown New of a pool")
		return nil
	}
	for g, ob := range e.x.globals {
		if ob != p.Obj {
			continue
		}
		c := e.x.P.constGlobal(g)
		if c == nil || len(p.Path) > 0 || len(c.stores) > 1 {
			unsup("unknown pool")
		}
		stores := c.stores
		if len(stores) == 1 && stores[0].Addr == ssa.Value(g) {
			u, ok := stores[0].Val.(*ssa.UnOp)
			if !ok {
				unsup("unknown pool")
			}
			a, ok := u.X.(*ssa.Alloc)
			if !ok {
				unsup("unknown pool")
			}
			stores = storesTo(a)
		}
		for _, st := range stores {
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || len(stores) != 1 {
				unsup("unknown pool")
			}
			if t, ok := isStruct(ptrType(p.Obj, nil)); !ok || t.Field(fa.Field).Name() != "New" {
				unsup("unknown pool")
			}
			return newOf(st.Val)
		}
		return nil
	}
	st, ok := isStruct(ptrType(p.Obj, p.Path))
	if !ok {
		unsup("unknown pool")
	}
	acc := s.x.hooks.Access
	s.x.hooks.Access = nil
	f, ok := s.load(p.field(fieldIdx(st, "New"))).(*FuncV)
	s.x.hooks.Access = acc
	switch {
	case ok && f.Nil.Op == "true":
		return nil
	case ok && f.Fn != nil:
		return f.Fn
	}
	unsup("unknown pool")
	return nil
}

// madeBy are the types of what the New function of a pool makes, which does
// nothing else.
func madeBy(fn *ssa.Function) (ts []types.Type) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.Slice, *ssa.MakeInterface, *ssa.DebugRef, *ssa.Store, *ssa.Convert, *ssa.ChangeType:
			case *ssa.Return:
				m, ok := i.Results[0].(*ssa.MakeInterface)
				if !ok {
					unsup("New of a pool")
				}
				ts = append(ts, m.X.Type())
			default:
				unsup("New of a pool")
			}
		}
	}
	return
}

func (e *rpcEnv) assertHook(s *State, a []Val, c *ssa.CallCommon) Val {
	v, t := a[0].(*Iface), a[1].(types.Type)
	if v.Tag == nil || v.Tag.Op != "var" || len(v.Tag.Name) < 6 || v.Tag.Name[:6] != "pooled" {
		return nil
	}
	k := types.TypeString(t, nil)
	e.poolGet[k] = t
	m := e.pool[v.Tag.ID]
	if m == nil {
		m = map[string]Val{}
		e.pool[v.Tag.ID] = m
	}
	if r, ok := m[k]; ok {
		if sl := poolSlice(r); sl != nil {
			if _, in := s.mem[sl.Arr.Obj]; in {
				return r
			}
		}
	}
	mkSlice := func() *Slice {
		b := Seqlike(Fresh("old", SBytes))
		n := Ranged(Fresh("oldlen", SInt), bigZero, MaxSliceLen)
		cp := Len(b)
		s.assume(Le(n, cp))
		s.assume(Le(cp, BigT(MaxSliceLen)))
		o := s.newObj("pooledbuf", backing(byteType), &BytesV{b}, true)
		return &Slice{Nil: And(Fresh("oldnil", SBool), Eq(cp, Zero)), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: cp}
	}
	var r Val
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !isByte(u.Elem()) {
			unsup("pool of %s", t)
		}
		r = mkSlice()
	case *types.Pointer:
		sl, ok := u.Elem().Underlying().(*types.Slice)
		if !ok || !isByte(sl.Elem()) {
			unsup("pool of %s", t)
		}
		o := s.newObj("pooledref", u.Elem(), nil, true)
		s.setMem(o, mkSlice())
		r = &Ptr{Nil: False, Obj: o}
	default:
		unsup("pool of %s", t)
	}
	m[k] = r
	return r
}

func poolSlice(v Val) *Slice {
	sl, _ := v.(*Slice)
	return sl
}

func (e *rpcEnv) poolPutHook(s *State, a []Val, c *ssa.CallCommon) Val {
	i, ok := a[1].(*Iface)
	if !ok || i.Dyn == nil {
		unsup("put of an unknown value")
	}
	e.poolPut[types.TypeString(i.Dyn, nil)] = i.Dyn
	v := i.V
	if p, ok := v.(*Ptr); ok && p.Obj != nil {
		s.touch(p.Obj)
		v = s.load(p)
		s.setG(relKey(p.Obj), True)
	}
	sl, ok := v.(*Slice)
	if !ok {
		unsup("put of %T", v)
	}
	if sl.Arr == nil {
		return TupleV{}
	}
	o := sl.Arr.Obj
	if s.x.probe == 0 {
		s.oblige("own", BoolT(s.g[relKey(o)] != True), "a buffer is recycled at most once, and only by the request that owns it")
		if o.RO {
			s.oblige("own", False, "only owned buffers are recycled")
		}
		if e.handling && !o.Fresh && s.g["req"] != IntT(int64(o.ID)) {
			s.oblige("own", False, "only owned buffers are recycled")
		}
	}
	s.setG(relKey(o), True)
	if s.g["req"] == IntT(int64(o.ID)) {
		s.setG("put", True)
		s.logEv(Event{Kind: "put"})
	}
	return TupleV{}
}

func (e *rpcEnv) poolTypes() {
	for k := range e.poolPut {
		_, ok := e.poolGet[k]
		if len(e.poolGet) == 0 {
			ok = true
		}
		e.x.Obls = append(e.x.Obls, &Obligation{Fn: e.x.Fn, Case: e.x.Case, Kind: "own", Msg: "what is put into the pool has the type taken from it", Goal: BoolT(ok)})
	}
}

func events(s *State, from int, kind string) []Event {
	var out []Event
	for _, ev := range s.log[from:] {
		if ev.Kind == kind {
			out = append(out, ev)
		}
	}
	return out
}

// ---- the abstract rpc_msg

func fieldNamed(t *spec.Type, name string) int {
	for i, f := range t.Fields {
		if f.GoName == name {
			return i
		}
	}
	Mismatch("specification of %s has no field %s", t.Key, name)
	return -1
}

func armNamed(t *spec.Type, name string) int {
	for i, a := range t.Arms {
		if a.Ctor != "" && a.F.GoName == name {
			return i
		}
	}
	Mismatch("specification of %s has no arm %s", t.Key, name)
	return -1
}

// msgView gives the parts of an rpc_msg value.
type msgView struct {
	xid, mtype                            *Term
	rpcvers, prog, vers, proc, cred, verf *Term
	replyStat, rejectStat, acceptStat     *Term
	credT, verfT                          *spec.Type
}

func viewMsg(t *spec.Type, a *Term) msgView {
	var v msgView
	v.xid = t.FieldOf(a, fieldNamed(t, "Xid"))
	bi := fieldNamed(t, "Body")
	body, bt := t.FieldOf(a, bi), t.Fields[bi].T
	v.mtype = bt.DiscOf(body)
	ci := armNamed(bt, "Cbody")
	ct, c := bt.Arms[ci].F.T, bt.ArmOf(body, ci)
	get := func(t *spec.Type, a *Term, n string) *Term { return t.FieldOf(a, fieldNamed(t, n)) }
	v.rpcvers, v.prog, v.vers, v.proc = get(ct, c, "Rpcvers"), get(ct, c, "Prog"), get(ct, c, "Vers"), get(ct, c, "Proc")
	v.cred, v.verf = get(ct, c, "Cred"), get(ct, c, "Verf")
	v.credT = ct.Fields[fieldNamed(ct, "Cred")].T
	v.verfT = ct.Fields[fieldNamed(ct, "Verf")].T
	ri := armNamed(bt, "Rbody")
	rt, r := bt.Arms[ri].F.T, bt.ArmOf(body, ri)
	v.replyStat = rt.DiscOf(r)
	ai := armNamed(rt, "Areply")
	at, ar := rt.Arms[ai].F.T, rt.ArmOf(r, ai)
	di := fieldNamed(at, "Reply_data")
	v.acceptStat = at.Fields[di].T.DiscOf(at.FieldOf(ar, di))
	ji := armNamed(rt, "Rreply")
	v.rejectStat = rt.Arms[ji].F.T.DiscOf(rt.ArmOf(r, ji))
	return v
}

const (
	mtCall, mtReply                                                              = 0, 1
	rsAccepted, rsDenied                                                         = 0, 1
	asSuccess, asProgUnavail, asProgMismatch, asProcUnavail, asGarbage, asSystem = 0, 1, 2, 3, 4, 5
	rjMismatch                                                                   = 0
)

func record(body *Term) *Term {
	return Concat(BE(Add(BigT(big.NewInt(maxFrag)), Len(body)), 4), body)
}

// ---- client

// VerifyClient checks Client.Call.
func (x *Exec) VerifyClient(path string, leafs *int) {
	x.Case = "any call"
	e := x.newRPC(path)
	mk := x.P.FuncNamed(path, "MakeClient")
	call := x.P.FuncNamed(path, "Client.Call")
	if mk == nil || call == nil {
		Mismatch("MakeClient or Client.Call does not exist")
	}
	s := x.NewState()
	u32 := types.Typ[types.Uint32]
	prog, vers := freshInt("prog", u32), freshInt("vers", u32)
	if len(mk.Params) != 3 || len(call.Params) != 6 {
		Mismatch("MakeClient or Client.Call has other parameters")
	}
	s.g["inpos"] = Zero
	s.undo = nil
	s.Enter(mk, []Val{e.rw, prog, vers}, nil)
	var st *State
	n := 0
	x.Run(s, func(t *State) { n++; st = t })
	if n != 1 || st.panics != "" {
		unsup("MakeClient has several outcomes")
	}
	cp, ok := st.ret.(*Ptr)
	if !ok || cp.Obj == nil {
		unsup("MakeClient returns %T", st.ret)
	}
	// an arbitrary client: every integer of its own state is arbitrary
	type ctr struct {
		path []PathEl
		old  *Term
	}
	var ctrs []ctr
	var walk func(v Val, t types.Type, path []PathEl) Val
	walk = func(v Val, t types.Type, path []PathEl) Val {
		switch c := v.(type) {
		case *Term:
			if _, _, ok := intBounds(t); ok && c != prog && c != vers {
				f := freshInt("state", t)
				ctrs = append(ctrs, ctr{path, f})
				return f
			}
			return c
		case *StructV:
			u, _ := isStruct(t)
			r := &StructV{c.T, append([]Val{}, c.F...)}
			for i := range r.F {
				r.F[i] = walk(c.F[i], u.Field(i).Type(), append(append([]PathEl{}, path...), PathEl{Field: i}))
			}
			return r
		case *Opaque, *Iface, *Ptr:
			return c
		}
		unsup("client state of type %T", v)
		return nil
	}
	st.mem[cp.Obj] = walk(st.mem[cp.Obj], cp.Obj.Typ, nil)
	proc := freshInt("proc", u32)
	cred := x.freshVal(st, "cred", call.Params[2].Type())
	verf := x.freshVal(st, "verf", call.Params[3].Type())
	args := &Iface{Nil: False, Tag: Fresh("args", "Dyn")}
	resp := &Iface{Nil: False, Tag: Fresh("resp", "Dyn")}
	a0 := st.dynContent(args.Tag)
	at, rt := x.P.dynType(args.Tag), x.P.dynType(resp.Tag)
	inpos := Ranged(Fresh("inpos", SInt), bigZero, MaxSliceLen)
	st.g["inpos"] = inpos
	st.assume(Le(inpos, Len(e.in)))
	v0 := viewMsg(e.msg, Fresh("m", e.msg.Sort()))
	credA, verfA := st.alpha(cred, v0.credT), st.alpha(verf, v0.verfT)
	st.ret, st.log, st.frames, st.undo = nil, nil, nil, nil
	st.Enter(call, []Val{cp, proc, cred, verf, args, resp}, nil)
	var ends []*State
	x.Run(st, func(s *State) { ends = append(ends, s) })
	inc := func(t *Term) *Term { return spec.WrapU(Add(t, One), 32) }
	// which counter is the transaction id, and is it the previous or the next
	next := func(t *Term) *Term { return inc(t) }
	var cnt *ctr
	for _, s := range ends {
		for _, ev := range events(s, 0, "encode") {
			if ev.Args[0].(*spec.Type) != e.msg {
				continue
			}
			xid := s.simp(viewMsg(e.msg, ev.Ts[0]).xid)
			for i := range ctrs {
				if xid == s.simp(inc(ctrs[i].old)) || xid == s.simp(spec.WrapU(inc(ctrs[i].old), 32)) {
					cnt = &ctrs[i]
				} else if xid == s.simp(ctrs[i].old) && cnt == nil {
					cnt = &ctrs[i]
					next = func(t *Term) *Term { return t }
				}
			}
		}
	}
	if cnt == nil && len(ctrs) > 0 {
		cnt = &ctrs[0]
	}
	for _, s := range ends {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			continue
		}
		ret, ok := s.ret.(*Iface)
		if !ok {
			unsup("result of Client.Call")
		}
		w := events(s, 0, "write")
		s.oblige("request", BoolT(len(w) <= 1), "at most one write")
		if len(w) == 0 {
			s.oblige("request", Not(ret.Nil), "nothing written: an error is returned")
			s.oblige("reply", Not(ret.Nil), "nothing written: no success")
			if cnt != nil {
				now := s.load(&Ptr{Nil: False, Obj: cp.Obj, Path: cnt.path}).(*Term)
				s.oblige("request", Or(Eq(next(now), next(cnt.old)), Eq(next(now), inc(next(cnt.old)))), "no more than one transaction id is used up")
			}
			continue
		}
		if cnt == nil {
			s.oblige("request", False, "the transaction id advances with every call")
			continue
		}
		xid := next(cnt.old)
		now := s.load(&Ptr{Nil: False, Obj: cp.Obj, Path: cnt.path}).(*Term)
		s.oblige("request", Eq(next(now), inc(xid)), "the next call uses the transaction id one greater")
		// the call message
		m := e.mkCall(xid, prog, vers, proc, credA, verfA)
		s.oblige("request", And(e.msg.Wf(m, false), at.Wf(a0, false)), "everything written was encodable")
		g := s.assuming(And(e.msg.Wf(m, false), at.Wf(a0, false)))
		body := Concat(e.msg.Enc(m, false), at.Enc(a0, false))
		g.oblige("request", Lt(Len(body), BigT(big.NewInt(maxFrag))), "the record fits its length field")
		g = g.assuming(Lt(Len(body), BigT(big.NewInt(maxFrag))))
		for i, ev := range w {
			g.oblige("request", Eq(ev.Ts[0], record(body)), fmt.Sprintf("write %d is exactly the record of the call message and the arguments", i+1))
		}
		// success
		if s.simp(ret.Nil).Op == "false" {
			continue
		}
		g = s.assuming(ret.Nil)
		if g.quickBad() {
			continue
		}
		g.oblige("reply", w[0].Ts[1], "success only if the call was written")
		hdr := BEVal(e.in, inpos, 4)
		g.oblige("reply", And(Le(Add(inpos, IntT(4)), Len(e.in)), Le(BigT(big.NewInt(maxFrag)), hdr)), "success only on a record with the last-fragment bit")
		g = g.assuming(And(Le(Add(inpos, IntT(4)), Len(e.in)), Le(BigT(big.NewInt(maxFrag)), hdr)))
		ln := Sub(hdr, BigT(big.NewInt(maxFrag)))
		start := Add(inpos, IntT(4))
		g.oblige("reply", Eq(g.g["inpos"], Add(start, ln)), "exactly one record was read")
		g.assume(Eq(g.g["inpos"], Add(start, ln)))
		rb := Extract(e.in, start, ln)
		okm := e.msg.Ok(rb, Zero, false)
		g.oblige("reply", okm, "the record starts with an RPC message")
		g = g.assuming(okm)
		v := viewMsg(e.msg, e.msg.Val(rb, Zero, false))
		g.oblige("reply", Eq(v.xid, xid), "the reply carries the call's transaction id")
		g.oblige("reply", Eq(v.mtype, IntT(mtReply)), "the message is a reply")
		g = g.assuming(Eq(v.mtype, IntT(mtReply)))
		g.oblige("reply", Eq(v.replyStat, IntT(rsAccepted)), "the call was accepted")
		g = g.assuming(Eq(v.replyStat, IntT(rsAccepted)))
		g.oblige("reply", Eq(v.acceptStat, IntT(asSuccess)), "the call was successful")
		p := e.msg.End(rb, Zero, false)
		okr := rt.Ok(rb, p, false)
		g.oblige("reply", okr, "the results decode")
		g = g.assuming(okr)
		g.oblige("reply", Eq(g.dynContent(resp.Tag), rt.Val(rb, p, false)), "the results are those after the reply header")
	}
}

// mkCall builds the abstract call message.
func (e *rpcEnv) mkCall(xid, prog, vers, proc, cred, verf *Term) *Term {
	t := e.msg
	bi := fieldNamed(t, "Body")
	bt := t.Fields[bi].T
	ci := armNamed(bt, "Cbody")
	ct := bt.Arms[ci].F.T
	fs := map[string]*Term{"Rpcvers": IntT(2), "Prog": prog, "Vers": vers, "Proc": proc, "Cred": cred, "Verf": verf}
	var ca []*Term
	for _, f := range ct.Fields {
		v := fs[f.GoName]
		if v == nil {
			Mismatch("call_body.%s", f.GoName)
		}
		ca = append(ca, v)
	}
	cb := ct.Mk(ca...)
	body := bt.MkUnion(IntT(mtCall), func(k int) *Term {
		if k == ci {
			return cb
		}
		unsup("arm of rpc_msg")
		return nil
	})
	fa := make([]*Term, len(t.Fields))
	fa[fieldNamed(t, "Xid")] = xid
	fa[bi] = body
	return t.Mk(fa...)
}

// ---- server: registration table

// treeMap is the content of nested maps: an arbitrary base and updates.
type treeMap struct {
	base *Term // nil: empty
	ups  []treeUp
	fwd  *treeRef // the map has become part of another one
}

type treeUp struct {
	keys []*Term
	val  Val // nil: a new empty map
}

type treeRef struct {
	o    *Obj
	keys []*Term
}

func (e *rpcEnv) resolve(s *State, m *MapV) *treeRef {
	if m.Obj == nil {
		unsup("unknown map")
	}
	r := &treeRef{m.Obj, m.Keys}
	for {
		t, ok := s.mem[r.o].(*treeMap)
		if !ok {
			unsup("map content %T", s.mem[r.o])
		}
		if t.fwd == nil {
			return r
		}
		r = &treeRef{t.fwd.o, append(append([]*Term{}, t.fwd.keys...), r.keys...)}
	}
}

func keyTerm(v Val) *Term {
	t, ok := v.(*Term)
	if !ok || t.Sort != SInt {
		unsup("map key %T", v)
	}
	return t
}

func hasT(base *Term, keys []*Term) *Term {
	return App(fmt.Sprintf("registered%d", len(keys)), SBool, append([]*Term{base}, keys...)...)
}

func handlerT(base *Term, keys []*Term) *Term {
	return App("handler", "Dyn", append([]*Term{base}, keys...)...)
}

// find looks up a path of keys; forks on key equality.
func (e *rpcEnv) find(s *State, r *treeRef) (has *Term, val Val) {
	t := s.mem[r.o].(*treeMap)
	for i := len(t.ups) - 1; i >= 0; i-- {
		u := t.ups[i]
		if len(u.keys) > len(r.keys) {
			continue
		}
		var eq []*Term
		for j := range u.keys {
			eq = append(eq, Eq(u.keys[j], r.keys[j]))
		}
		if s.decide(And(eq...)) {
			if len(u.keys) == len(r.keys) {
				return True, u.val
			}
			return False, nil
		}
	}
	if t.base == nil {
		return False, nil
	}
	return hasT(t.base, r.keys), nil
}

func (e *rpcEnv) mapHooks() {
	x := e.x
	depth := func(t types.Type) *types.Map {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			unsup("map of type %s", t)
		}
		return m
	}
	x.hooks.Extern["makemap"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		m := depth(a[0].(types.Type))
		o := s.newObj("map", m, nil, true)
		s.setMem(o, &treeMap{})
		return &MapV{Nil: False, Obj: o, Typ: m}
	}
	x.hooks.Extern["lookup"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		m, key, mt, commaOk := a[0].(*MapV), keyTerm(a[1]), depth(a[2].(types.Type)), a[3].(bool)
		var has *Term
		var val Val
		var ref *treeRef
		if m.Obj == nil || m.Nil.Op == "true" {
			has = False
		} else if m.Nil.Op != "false" && s.decide(m.Nil) {
			has = False
		} else {
			r := e.resolve(s, m)
			if x.hooks.Access != nil {
				x.hooks.Access(s, r.o, nil, false)
			}
			ref = &treeRef{r.o, append(append([]*Term{}, r.keys...), key)}
			has, val = e.find(s, ref)
		}
		var out Val
		switch u := mt.Elem().Underlying().(type) {
		case *types.Map:
			if val != nil {
				unsup("map stored in a map")
			}
			if has == False {
				out = &MapV{Nil: True, Typ: u}
			} else {
				out = &MapV{Nil: Not(has), Obj: ref.o, Keys: ref.keys, Typ: u}
			}
		case *types.Signature:
			switch {
			case has == False:
				out = &FuncV{Nil: True}
			case val != nil:
				out = val
			default:
				out = &FuncV{Nil: Not(has), Tag: handlerT(s.mem[ref.o].(*treeMap).base, ref.keys)}
			}
		default:
			unsup("map of %s", mt.Elem())
		}
		if commaOk {
			return TupleV{out, has}
		}
		return out
	}
	x.hooks.Extern["mapupdate"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		m, key, mt := a[0].(*MapV), keyTerm(a[1]), depth(a[3].(types.Type))
		s.require("panic", Not(m.Nil), "assignment to an entry of a nil map")
		if m.Obj == nil {
			panic(pathEnd{"nil map"})
		}
		r := e.resolve(s, m)
		keys := append(append([]*Term{}, r.keys...), key)
		t := s.mem[r.o].(*treeMap)
		n := &treeMap{base: t.base, ups: append([]treeUp{}, t.ups...)}
		switch mt.Elem().Underlying().(type) {
		case *types.Map:
			v := a[2].(*MapV)
			if v.Obj == nil {
				unsup("nil map stored")
			}
			sub, ok := s.mem[v.Obj].(*treeMap)
			if !ok || sub.base != nil || sub.fwd != nil || len(v.Keys) > 0 || v.Obj == r.o {
				unsup("a map that is not new is stored in a map")
			}
			n.ups = append(n.ups, treeUp{keys, nil})
			for _, u := range sub.ups {
				n.ups = append(n.ups, treeUp{append(append([]*Term{}, keys...), u.keys...), u.val})
			}
			s.setMem(v.Obj, &treeMap{fwd: &treeRef{r.o, keys}})
		case *types.Signature:
			f, ok := a[2].(*FuncV)
			if !ok {
				unsup("map value %T", a[2])
			}
			n.ups = append(n.ups, treeUp{keys, f})
		default:
			unsup("map of %s", mt.Elem())
		}
		s.setMem(r.o, n)
		return nil
	}
}

// table finds the registration table of a server: the map among its fields.
func (e *rpcEnv) table(s *State, p *Ptr) *Obj {
	st, ok := s.mem[p.Obj].(*StructV)
	if !ok {
		unsup("server of form %T", s.mem[p.Obj])
	}
	var found *MapV
	for _, f := range st.F {
		if m, ok := f.(*MapV); ok {
			if found != nil {
				unsup("server with several maps")
			}
			found = m
		}
	}
	if found == nil || found.Obj == nil {
		unsup("server without a map")
	}
	r := e.resolve(s, found)
	if len(r.keys) > 0 {
		unsup("shared table")
	}
	// keys program, version, procedure
	var mt types.Type = found.Typ
	for i := 0; i < 3; i++ {
		m, ok := mt.Underlying().(*types.Map)
		if !ok {
			unsup("registration table of type %s", found.Typ)
		}
		mt = m.Elem()
	}
	if _, ok := mt.Underlying().(*types.Signature); !ok {
		unsup("registration table of type %s", found.Typ)
	}
	return r.o
}

// server makes a server with an arbitrary registration table.
func (e *rpcEnv) server(fresh bool) (*State, *Ptr, *Term) {
	x := e.x
	if e.start != nil {
		return e.start()
	}
	mk := x.P.FuncNamed(e.path, "MakeServer")
	if mk == nil || len(mk.Params) != 0 {
		Mismatch("MakeServer() does not exist")
	}
	e.mapHooks()
	s := x.NewState()
	s.g["inpos"] = Zero
	s.Enter(mk, nil, nil)
	var st *State
	n := 0
	x.Run(s, func(t *State) { n++; st = t })
	if n != 1 || st.panics != "" {
		unsup("MakeServer has several outcomes")
	}
	p, ok := st.ret.(*Ptr)
	if !ok || p.Obj == nil {
		unsup("MakeServer returns %T", st.ret)
	}
	st.ret, st.log, st.frames, st.undo = nil, nil, nil, nil
	if fresh {
		return st, p, nil
	}
	o := e.table(st, p)
	base := Fresh("table", "Dyn")
	st.mem[o] = &treeMap{base: base}
	e.arbitrary(st)
	x.hooks.Shared = true
	x.hooks.Loaded = e.others
	return st, p, base
}

// VerifyMakeServer: nothing is registered in a new server.
func (x *Exec) VerifyMakeServer(path string, leafs *int) {
	x.Case = "new server"
	e := x.newRPC(path)
	s, p, _ := e.server(true)
	*leafs++
	o := e.table(s, p)
	t := s.mem[o].(*treeMap)
	s.oblige("register", BoolT(t.base == nil && len(t.ups) == 0), "a new server has nothing registered")
}

// VerifyRegister: registering affects exactly the named procedure.
func (x *Exec) VerifyRegister(path string, leafs *int) {
	fn := x.P.FuncNamed(path, "Server.Register")
	if fn == nil || len(fn.Params) != 5 {
		Mismatch("Server.Register does not exist")
	}
	x.Case = "any table"
	x.verifyRegister(path, fn, leafs)
}

func (x *Exec) verifyRegister(path string, fn *ssa.Function, leafs *int) {
	e := x.newRPC(path)
	s, p, base := e.server(false)
	u32 := types.Typ[types.Uint32]
	k := []*Term{freshInt("prog", u32), freshInt("vers", u32), freshInt("proc", u32)}
	h := &FuncV{Nil: Fresh("hnil", SBool), Tag: Fresh("h", "Dyn")}
	s.Enter(fn, []Val{p, k[0], k[1], k[2], h}, nil)
	q := []*Term{freshInt("prog'", u32), freshInt("vers'", u32), freshInt("proc'", u32)}
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		o := e.table(s, p)
		// consistency of a table: registered procedures have their program
		// and version registered
		for n := 1; n <= 3; n++ {
			n := n
			e.cases(s, o, q[:n], func(g *State, has *Term, val Val) {
				same := True
				for i := 0; i < n; i++ {
					same = And(same, Eq(q[i], k[i]))
				}
				was := hasT(base, q[:n])
				for i := 1; i < n; i++ {
					was = And(was, hasT(base, q[:i]))
				}
				now := has
				msg := [...]string{"", "program", "version", "procedure"}[n] + " registered afterwards exactly if it was before or it is the named one"
				g.oblige("register", Eq(now, Or(same, was)), msg)
				if n == 3 {
					tag := handlerT(base, q)
					got := tag
					if f, ok := val.(*FuncV); ok {
						if f.Tag == nil {
							unsup("handler stored in another form")
						}
						got = f.Tag
						g.oblige("register", Implies(same, Eq(f.Nil, h.Nil)), "the handler is stored as given")
					}
					g.oblige("register", Implies(same, Eq(got, h.Tag)), "the named procedure now has the given handler")
					g.oblige("register", Implies(And(Not(same), was), Eq(got, tag)), "every other procedure keeps its handler")
				}
			})
		}
	})
}

// cases evaluates a lookup in all cases of key equality.
func (e *rpcEnv) cases(s *State, o *Obj, keys []*Term, f func(g *State, has *Term, val Val)) {
	var rec func(g *State, depth int)
	rec = func(g *State, depth int) {
		if depth > 24 {
			unsup("too many cases")
		}
		var fork *Term
		var has *Term
		var val Val
		func() {
			defer func() {
				if r := recover(); r != nil {
					fk, ok := r.(forkOn)
					if !ok {
						panic(r)
					}
					fork = fk.c
				}
			}()
			// every level on the way must be there
			has = True
			for n := 1; n <= len(keys); n++ {
				h, v := e.find(g, &treeRef{o, keys[:n]})
				has = And(has, h)
				val = v
			}
		}()
		if fork == nil {
			f(g, has, val)
			return
		}
		for _, c := range []*Term{fork, Not(fork)} {
			n := g.assuming(c)
			if !n.quickBad() && n.feasible() {
				rec(n, depth+1)
			}
		}
	}
	rec(s, 0)
}

// VerifyRegisterMany: registering a list registers its entries in order.
func (x *Exec) VerifyRegisterMany(path string, leafs *int) {
	x.Case = "any list"
	e := x.newRPC(path)
	fn := x.P.FuncNamed(path, "Server.RegisterMany")
	reg := x.P.FuncNamed(path, "Server.Register")
	if fn == nil || reg == nil || len(fn.Params) != 2 {
		Mismatch("Server.RegisterMany does not exist")
	}
	s, p, _ := e.server(false)
	sl, ok := fn.Params[1].Type().Underlying().(*types.Slice)
	if !ok {
		Mismatch("RegisterMany takes %s", fn.Params[1].Type())
	}
	st, ok := isStruct(sl.Elem())
	if !ok {
		Mismatch("RegisterMany takes %s", fn.Params[1].Type())
	}
	regs := Fresh("regs", "Dyn")
	field := func(i int, idx *Term) Val {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Signature); ok {
			return &FuncV{Nil: App("reg.nil", SBool, regs, idx), Tag: App("reg."+f.Name(), "Dyn", regs, idx)}
		}
		bits, sg, ok := intBounds(f.Type())
		if !ok {
			unsup("registration field %s", f.Name())
		}
		return rangedBits(App("reg."+f.Name(), SInt, regs, idx), bits, sg)
	}
	fi := func(n string) int { return fieldIdx(st, n) }
	n := Ranged(Fresh("n", SInt), bigZero, MaxSliceLen)
	o := s.newObj("regs", backing(sl.Elem()), &FnSeq{func(i *Term) Val {
		r := &StructV{}
		for k := 0; k < st.NumFields(); k++ {
			r.F = append(r.F, field(k, i))
		}
		return r
	}}, false)
	o.RO = true
	arg := &Slice{Nil: And(Fresh("regsnil", SBool), Eq(n, Zero)), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: n}
	s.g["nreg"] = Zero
	// helpers that take what Register takes are held to the same contract
	helpers := map[*ssa.Function]bool{}
	one := func(s *State, a []Val, c *ssa.CallCommon) Val {
		if f := c.StaticCallee(); f != nil && f != reg {
			helpers[f] = true
		}
		i := s.g["nreg"]
		rp, ok := a[0].(*Ptr)
		if !ok || rp.Obj != p.Obj {
			s.oblige("register", False, "the entries are registered with this server")
			return TupleV{}
		}
		s.oblige("register", Lt(i, n), "no more registrations than entries")
		for k, f := range []string{"Prog", "Vers", "Proc"} {
			s.oblige("register", Eq(a[k+1].(*Term), field(fi(f), i).(*Term)), "entries are registered in order: "+f)
		}
		h, ok := a[4].(*FuncV)
		if !ok || h.Tag == nil {
			unsup("handler of another form")
		}
		s.oblige("register", Eq(h.Tag, field(fi("Handler"), i).(*FuncV).Tag), "entries are registered in order: Handler")
		s.setG("nreg", Add(i, One))
		return TupleV{}
	}
	for _, f := range x.P.funcsLike(reg) {
		x.hooks.Extern[f.String()] = one
	}
	s.undo = nil
	s.Enter(fn, []Val{p, arg}, nil)
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		if t, ok := s.mem[e.table(s, p)].(*treeMap); ok && len(t.ups) > 0 {
			unsup("RegisterMany changes the table itself")
		}
		s.oblige("register", Eq(s.g["nreg"], n), "every entry is registered")
	})
	for _, f := range x.P.funcsLike(reg) {
		if helpers[f] {
			x.verifyRegister(path, f, leafs)
		}
	}
}

// funcsLike are the functions of the package with the same parameters.
func (p *Prog) funcsLike(fn *ssa.Function) (out []*ssa.Function) {
	for f := range ssautil.AllFunctions(p.SSA) {
		if f.Pkg != fn.Pkg || f.Parent() != nil || len(f.Params) != len(fn.Params) || f.Signature.Results().Len() != fn.Signature.Results().Len() {
			continue
		}
		same := true
		for i, q := range f.Params {
			same = same && types.Identical(q.Type(), fn.Params[i].Type())
		}
		if same {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// ---- server: connection loop

type spawned struct {
	s    *State
	fn   Val
	args []Val
	w    *Term
	req  *Obj
}

// serveLoop runs Server.Run up to the points where a request is handed over.
func (e *rpcEnv) serveLoop(leafs *int) (sp []spawned, base *Term, srv *Ptr) {
	x := e.x
	fn := x.P.FuncNamed(e.path, "Server.Run")
	if fn == nil || len(fn.Params) != 2 {
		Mismatch("Server.Run does not exist")
	}
	s, p, base := e.server(false)
	e.thread = "loop"
	in0 := Ranged(Fresh("inpos", SInt), bigZero, MaxSliceLen)
	s.g["inpos"] = in0
	s.assume(Le(in0, Len(e.in)))
	iter := func(s *State) *State {
		if k := s.g["iter"]; k != nil {
			i, _ := k.Int64()
			return e.iters[i]
		}
		return nil
	}
	frag := BigT(big.NewInt(maxFrag))
	// hdr of the record that starts where the iteration started
	hdr := func(s *State) (has, h, start *Term) {
		p := s.g["iterpos"]
		start = Add(p, IntT(4))
		return Le(start, Len(e.in)), BEVal(e.in, p, 4), start
	}
	logFrom := func(s *State) int {
		n, _ := s.g["iterlog"].Int64()
		return int(n)
	}
	x.hooks.LoopIter = func(s *State, it0 *State, phase string) {
		if phase == "enter" {
			for _, f := range s.frames {
				if len(f.loops) > 0 {
					return
				}
			}
			e.iters = append(e.iters, s.clone())
			s.g["iter"] = IntT(int64(len(e.iters) - 1))
			s.g["iterpos"] = s.g["inpos"]
			s.g["iterlog"] = IntT(int64(len(s.log)))
			s.g["iterframes"] = IntT(int64(len(s.frames)))
			return
		}
		if iter(s) == nil || it0.g["iter"] == nil || it0.g["iterlog"] != s.g["iterlog"] || IntT(int64(len(it0.frames))) != s.g["iterframes"] {
			return
		}
		*leafs++
		n := len(events(s, logFrom(s), "spawn"))
		s.oblige("records", BoolT(n == 1), "each record read is handed over exactly once")
		has, h, start := hdr(s)
		s.oblige("records", And(has, Le(frag, h), Eq(s.g["inpos"], Add(start, Sub(h, frag)))), "each iteration consumes exactly one record")
	}
	x.hooks.Spawn = func(s *State, fn Val, args []Val) {
		s.logEv(Event{Kind: "spawn"})
		if x.probe > 0 || iter(s) == nil {
			return
		}
		it := iter(s)
		if e.conc != nil {
			e.conc.free(s, "when a request is handed over")
			given := map[*Obj]bool{}
			reachObjs(s, fn, given)
			for _, a := range args {
				reachObjs(s, a, given)
			}
			for o := range given {
				if _, old := it.mem[o]; old {
					if !e.conc.server[o] {
						e.conc.conn[o] = true
					}
				} else {
					defer s.setG(givenKey(o), True)
				}
			}
		}
		s.oblige("records", BoolT(len(events(s, logFrom(s), "spawn")) == 1), "a record is handed over once")
		has, h, start := hdr(s)
		ok := And(has, Le(frag, h))
		s.oblige("records", ok, "only a record with the last-fragment bit is handed over")
		s.assume(ok)
		ln := Sub(h, frag)
		s.oblige("records", Eq(s.g["inpos"], Add(start, ln)), "the whole record was read before it is handed over")
		s.assume(Eq(s.g["inpos"], Add(start, ln)))
		w := Extract(e.in, start, ln)
		var cands []*Slice
		reach(s, fn, 0, map[*Obj]bool{}, &cands)
		for _, a := range args {
			reach(s, a, 0, map[*Obj]bool{}, &cands)
		}
		rds := events(s, logFrom(s), "read")
		var req *Obj
		if len(rds) > 0 {
			if b, ok := rds[len(rds)-1].Args[0].(*Slice); ok && b.Arr != nil {
				req = b.Arr.Obj
			}
		}
		var eqs []*Term
		var best *Slice
		for _, c := range cands {
			eqs = append(eqs, Eq(s.bytesOf(c), w))
			if c.Arr == nil {
				continue // nil: an empty record
			}
			if best == nil || c.Arr.Obj == req {
				best = c
			}
		}
		s.oblige("records", Or(eqs...), "what is handed over is exactly the body of the record")
		if best == nil {
			if len(cands) > 0 {
				sp = append(sp, spawned{s.clone(), fn, args, w, s.newObj("none", backing(byteType), &BytesV{Empty}, true)})
			}
			return
		}
		req = best.Arr.Obj
		_, old := it.mem[req]
		s.oblige("own", BoolT(!old), "the buffer handed over is not shared with another request")
		s.oblige("own", BoolT(s.g[relKey(req)] != True), "the buffer handed over was not given away before")
		s.oblige("own", Eq(best.Len, ln), "the buffer has exactly the requested length")
		c := s.clone()
		s.setG(relKey(req), True)
		sp = append(sp, spawned{c, fn, args, w, req})
	}
	s.Enter(fn, []Val{p, e.rw}, nil)
	x.Run(s, func(s *State) {
		if iter(s) == nil {
			return // before the loop, or the loop was only unrolled so far
		}
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		ret, ok := s.ret.(*Iface)
		if !ok {
			unsup("result of Server.Run")
		}
		s.oblige("records", Not(ret.Nil), "the loop ends with an error")
		s.oblige("records", BoolT(len(events(s, logFrom(s), "spawn")) == 0), "no record is handed over when the loop ends")
		failed := False
		for _, ev := range events(s, logFrom(s), "read") {
			if ev.Ts[0] == False {
				failed = True
			}
		}
		_, h, _ := hdr(s)
		s.oblige("records", Or(failed, Lt(h, frag)), "the loop ends only when reading fails or the record is a fragment")
	})
	if len(e.iters) == 0 {
		unsup("Server.Run without a loop")
	}
	if len(sp) == 0 {
		unsup("Server.Run hands over no request")
	}
	return sp, base, p
}

func reach(s *State, v Val, depth int, seen map[*Obj]bool, out *[]*Slice) {
	if depth > 4 {
		return
	}
	switch c := v.(type) {
	case *Slice:
		if c.Arr == nil {
			*out = append(*out, c)
		} else if c.Arr != nil && c.Arr.Obj != nil {
			if _, ok := s.mem[c.Arr.Obj].(*BytesV); ok {
				*out = append(*out, c)
			}
		}
	case *Ptr:
		if c.Obj != nil && !seen[c.Obj] {
			seen[c.Obj] = true
			reach(s, s.mem[c.Obj], depth+1, seen, out)
		}
	case *StructV:
		for _, f := range c.F {
			reach(s, f, depth+1, seen, out)
		}
	case *FuncV:
		for _, b := range c.Bind {
			reach(s, b, depth+1, seen, out)
		}
	case *Iface:
		if c.Dyn != nil {
			reach(s, c.V, depth+1, seen, out)
		}
	}
}

// enterRequest turns the state in which a request was handed over into one in
// which its handling starts.
func (e *rpcEnv) enterRequest(s *State) {
	i, _ := s.g["iter"].Int64()
	e.thread = "request"
	for o := range e.iters[i].mem {
		e.old[o] = true
	}
	s.frames, s.log, s.ret, s.undo = nil, nil, nil, nil
	for k := range s.g {
		if k != "inpos" {
			delete(s.g, k)
		}
	}
}

// VerifyRun checks the connection loop.
func (x *Exec) VerifyRun(path string, leafs *int) {
	x.Case = "any iteration"
	e := x.newRPC(path)
	e.serveLoop(leafs)
	e.poolTypes()
}

// VerifyHandle checks the handling of one request.
func (x *Exec) VerifyHandle(path string, leafs *int) {
	x.Case = "any request"
	e := x.newRPC(path)
	var dummy int
	sp, base, srv := e.serveLoop(&dummy)
	x.Obls = nil
	x.hooks.LoopIter = nil
	x.hooks.Spawn = nil
	e.handling = true
	e.handlerHook(nil)
	_ = srv
	for _, q := range sp {
		e.handle(q, base, leafs)
	}
	e.poolTypes()
}

// handlerHook is the contract of a registered handler.
func (e *rpcEnv) handlerHook(at func(s *State)) {
	x := e.x
	x.hooks.Call = func(s *State, f *FuncV, args []Val, sig *types.Signature) (Val, bool) {
		if f.Tag == nil || f.Tag.Op != "app" || f.Tag.Name != "handler" || len(args) != 1 {
			return nil, false
		}
		xs, o := s.xsAt(args[0])
		if xs.Src != nil {
			s.touch(xs.Src)
		}
		s.touch(nil)
		if at != nil {
			at(s)
		}
		res := &Iface{Nil: Fresh("resnil", SBool), Tag: Fresh("res", "Dyn")}
		err := &Iface{Nil: Fresh("handled", SBool), Tag: Fresh("herr", "Dyn")}
		s.logEv(Event{Kind: "handler", Args: []Val{res, err, xs}, Ts: []*Term{f.Tag}})
		n := *xs
		n.OK = Fresh("ok", SBool)
		n.Pos = Ranged(Fresh("pos", SInt), bigZero, nil)
		s.setXS(o, n)
		return TupleV{res, err}, true
	}
}

func (e *rpcEnv) handle(q spawned, base *Term, leafs *int) {
	x := e.x
	s := q.s
	fn, ok := q.fn.(*FuncV)
	if !ok || fn.Fn == nil {
		unsup("request handed to an unknown function")
	}
	e.enterRequest(s)
	s.g["req"] = IntT(int64(q.req.ID))
	w := q.w
	mt := e.msg
	okm := mt.Ok(w, Zero, false)
	v := viewMsg(mt, mt.Val(w, Zero, false))
	call := And(okm, Eq(v.mtype, IntT(mtCall)))
	end := mt.End(w, Zero, false)
	keys := []*Term{v.prog, v.vers, v.proc}
	s.Enter(fn.Fn, q.args, fn.Bind)
	x.Run(s, func(s *State) {
		*leafs++
		if s.panics != "" {
			s.oblige("panic", False, s.panics)
			return
		}
		ws, hs := events(s, 0, "write"), events(s, 0, "handler")
		s.oblige("reply", BoolT(len(ws) <= 1), "at most one write per request")
		s.oblige("dispatch", BoolT(len(hs) <= 1), "at most one handler call per request")
		s.oblige("reply", Or(call, BoolT(len(ws) == 0)), "no reply to what is not a call message")
		s.oblige("dispatch", Or(call, BoolT(len(hs) == 0)), "no handler for what is not a call message")
		g := s.assuming(call)
		if g.quickBad() || !g.feasible() {
			return
		}
		h1, h2, h3 := hasT(base, keys[:1]), hasT(base, keys[:2]), hasT(base, keys)
		v2 := Eq(v.rpcvers, IntT(2))
		disp := And(v2, h1, h2, h3)
		g.oblige("lookup", Eq(disp, BoolT(len(hs) >= 1)), "a handler is called exactly if one is registered for program, version and procedure (and the RPC version is 2)")
		success, res := False, Val(nil)
		resNil := True
		if len(hs) >= 1 {
			h := hs[0]
			g.oblige("lookup", Eq(h.Ts[0], handlerT(base, keys)), "the handler is the one registered for program, version and procedure")
			xs := h.Args[2].(*XS)
			g.oblige("dispatch", And(xs.OK, xs.Reader, Eq(xs.W, w), Eq(xs.Pos, end)), "the handler gets the stream right after the call header")
			success = And(disp, h.Args[1].(*Iface).Nil)
			res = h.Args[0]
			resNil = h.Args[0].(*Iface).Nil
		}
		carries := And(success, Not(resNil))
		var encRes, wfRes *Term = Empty, True
		if r, ok := res.(*Iface); ok {
			t := x.P.dynType(r.Tag)
			encRes = t.Enc(g.dynContent(r.Tag), false)
			wfRes = t.Wf(g.dynContent(r.Tag), false)
		}
		var m *Term
		nm := 0
		for _, ev := range events(s, 0, "encode") {
			if ev.Args[0].(*spec.Type) == mt && ev.Ts[1] == True {
				m = ev.Ts[0]
				nm++
			}
		}
		if m == nil || nm != 1 {
			g.oblige("reply", False, "a decodable call is answered with one reply message")
			return
		}
		mv := viewMsg(mt, m)
		long := Le(BigT(big.NewInt(maxFrag)), Len(Concat(mt.Enc(m, false), encRes)))
		if len(ws) == 0 {
			g.oblige("reply", And(carries, Or(Not(wfRes), long)), "a decodable call is answered unless its result cannot be encoded or is too long")
			return
		}
		for _, ev := range ws {
			short := Concat(mt.Enc(m, false))
			full := Concat(mt.Enc(m, false), encRes)
			a := g.assuming(carries)
			if !a.quickBad() && a.feasible() {
				a.oblige("reply", wfRes, "a result that cannot be encoded is not sent")
				a.oblige("reply", Lt(Len(full), BigT(big.NewInt(maxFrag))), "the reply fits its length field")
				a.assume(And(wfRes, Lt(Len(full), BigT(big.NewInt(maxFrag)))))
				a.oblige("reply", Eq(ev.Ts[0], record(full)), "the reply is exactly the record of the reply message and the result")
			}
			b := g.assuming(Not(carries))
			if !b.quickBad() && b.feasible() {
				b.oblige("reply", Lt(Len(short), BigT(big.NewInt(maxFrag))), "the reply fits its length field")
				b.assume(Lt(Len(short), BigT(big.NewInt(maxFrag))))
				b.oblige("reply", Eq(ev.Ts[0], record(short)), "the reply is exactly the record of the reply message")
			}
		}
		g.oblige("reply", Eq(mv.xid, v.xid), "the reply carries the request's transaction id")
		g.oblige("reply", Eq(mv.mtype, IntT(mtReply)), "the reply is a reply message")
		g = g.assuming(Eq(mv.mtype, IntT(mtReply)))
		st := func(cond *Term, n int64, what string) {
			h := g.assuming(cond)
			if h.quickBad() || !h.feasible() {
				return
			}
			h.oblige("dispatch", And(Eq(mv.replyStat, IntT(rsAccepted)), Eq(mv.acceptStat, IntT(n))), what)
		}
		dn := g.assuming(Not(v2))
		if !dn.quickBad() && dn.feasible() {
			dn.oblige("dispatch", And(Eq(mv.replyStat, IntT(rsDenied)), Eq(mv.rejectStat, IntT(rjMismatch))), "another RPC version is denied as a mismatch")
		}
		st(And(v2, Not(h1)), asProgUnavail, "unknown program: program unavailable")
		st(And(v2, h1, Not(h2)), asProgMismatch, "unknown version: program mismatch")
		st(And(v2, h1, h2, Not(h3)), asProcUnavail, "unknown procedure: procedure unavailable")
		st(And(disp, success), asSuccess, "the handler succeeded: success")
		st(And(disp, Not(success)), asGarbage, "the handler failed: garbage arguments")
	})
}
