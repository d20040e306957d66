package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
)

var bigZero = big.NewInt(0)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func rangedBits(t *Term, bits uint, sg bool) *Term {
	if sg {
		h := pow2(bits - 1)
		return Ranged(t, new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)))
	}
	return Ranged(t, bigZero, new(big.Int).Sub(pow2(bits), big.NewInt(1)))
}

// Obligation is one proof obligation.
type Obligation struct {
	Fn, Case string
	Kind     string // nil, bounds, panic, frame, alloc, loop, pre, post:<clause>
	Msg      string
	PC       []*Term
	Goal     *Term
	Status   string
	Solver   string
	Model    string
	Output   string
	Dur      float64
	Loop     bool // depends on inferred invariants
	Trace    []string
}

// Exec verifies one function against one contract.
type Exec struct {
	slow  time.Duration // spent on what was not proved
	quant bool          // comparisons of sequences are quantified
	nbv   int

	P        *Prog
	Fn       string
	Case     string
	Root     *ssa.Function
	Obls     []*Obligation
	modes    map[string]string // loop key -> "inv"
	probe    int
	lazyPtr  bool
	absObjs  map[string]*Obj
	work     []*State
	onLeaf   func(*State)
	nleaf    int
	steps    int
	usedInv  bool
	globals  map[*ssa.Global]*Obj
	gtags    map[*ssa.Global]*Term
	weakInit bool
	WantKept bool // prove that a failed decode leaves the destination alone
	Prim     bool // inline the xdr runtime (internal view of XdrState)
	hooks    Hooks
	topT     *spec.Type // spec type being verified (loop invariant candidates)
	Used     map[string]bool
	NFeas    int
	own      bool             // track ownership of buffers
	choice   map[string]*Term // outcomes of external calls
	unwind   bool             // panics run deferred calls
	lexErr   *Ptr             // error count of the scanner under verification
}

// Hooks customise opaque calls.
type Hooks struct {
	// Invoke handles a method call on an opaque interface value.
	Invoke func(s *State, recv *Iface, method string, args []Val, sig *types.Signature) (Val, bool)
	// Call handles a call of an opaque function value.
	Call  func(s *State, f *FuncV, args []Val, sig *types.Signature) (Val, bool)
	Alloc func(s *State, n *Term, elem types.Type)
	// LoopIter is consulted when a loop body is entered / repeated.
	LoopIter func(s *State, start *State, phase string)
	Spawn    func(s *State, fn Val, args []Val)
	// Extern intercepts calls to functions by name.
	Extern map[string]func(s *State, args []Val, c *ssa.CallCommon) Val
	// Codec is told the values decoded and encoded by contract.
	Codec func(s *State, t *spec.Type, a *Term, xs *XS, wrote bool)
	// Redirect replaces a call by one of another function.
	Redirect func(s *State, name string, args []Val) (*ssa.Function, []Val)
	// LoopCands adds invariant candidates.
	LoopCands func(s *State, k *Term) []*Term
	// Access is told of every access to memory.
	Access func(s *State, o *Obj, path []PathEl, write bool)
	// Loaded is given a value just read.
	Loaded func(s *State, o *Obj, path []PathEl, t types.Type, v Val) Val
	// Shared: other threads may change what sync/atomic operates on.
	Shared    bool
	OnlyCands bool // and there are no others
	// Ghost names ghost variables that loops may modify.
	Ghosts map[string]string
}

func (x *Exec) specOf(t types.Type) *spec.Type { return x.P.SpecOf(t) }

func (x *Exec) freshOf(t *spec.Type, name string) *Term {
	v := Fresh(name, t.Sort())
	return t.Typed(v)
}

// nilness of a slice: nil implies empty.
func (x *Exec) nilness(a, n *Term) *Term {
	v := Fresh("isnil", SBool)
	_ = a
	return And(v, Eq(n, Zero))
}

// absObj creates the object behind an opened pointer or slice.
func (x *Exec) absObj(s *State, a *Abs, elem types.Type, c Val) *Obj {
	t := elem
	switch c.(type) {
	case *BytesV, *SeqV:
		t = backing(elem)
	}
	o := s.newObj("open", t, c, false)
	return o
}

// require records an obligation and continues under its truth.
func (s *State) require(kind string, c *Term, msg string) {
	g := s.simp(c)
	if g.Op == "true" {
		if s.x.probe == 0 {
			s.x.Obls = append(s.x.Obls, &Obligation{Fn: s.x.Fn, Case: s.x.Case, Kind: kind, Msg: msg, Goal: True, Status: "proved", Solver: "simplifier"})
		}
		return
	}
	s.oblige(kind, c, msg)
	if g.Op == "false" {
		panic(pathEnd{"failed: " + msg})
	}
	s.undoAssume(c)
}

func (s *State) undoAssume(c *Term) {
	// assumptions made inside an instruction are re-made on retry
	s.assume(c)
}

func (s *State) oblige(kind string, c *Term, msg string) {
	if s.x.probe > 0 {
		return
	}
	g := s.simp(c)
	o := &Obligation{Fn: s.x.Fn, Case: s.x.Case, Kind: kind, Msg: msg, PC: append([]*Term{}, s.pc...), Goal: g, Loop: s.x.usedInv, Trace: append([]string{}, s.trace...)}
	if g.Op == "true" {
		o.Status, o.Solver, o.PC = "proved", "simplifier", nil
	}
	s.x.Obls = append(s.x.Obls, o)
}

// proves asks the solver now.
func (s *State) proves(c *Term, sec int) bool {
	c = s.simp(c)
	if c.Op == "true" {
		return true
	}
	if c.Op == "false" {
		return false
	}
	if s.x.slow > time.Minute && sec > 1 {
		sec = 1 // much was tried in vain
	}
	t0 := time.Now()
	GIL.Unlock()
	r := Check(s.x.P.W, s.pcFacts(c), c, sec, false)
	GIL.Lock()
	if r.Status != "unsat" {
		s.x.slow += time.Since(t0)
	}
	return r.Status == "unsat"
}

// provesEach decides each goal.
func (s *State) provesEach(gs []*Term, sec int) []bool {
	out := make([]bool, len(gs))
	for i, g := range gs {
		out[i] = s.proves(g, sec)
	}
	return out
}

func (s *State) pcFacts(goal *Term) []*Term { return s.pc }

func (s *State) feasible() bool {
	for _, t := range s.pc {
		if t.Op == "false" {
			return false
		}
	}
	s.x.NFeas++
	GIL.Unlock()
	r := Feasible(s.x.P.W, s.pc)
	GIL.Lock()
	return r
}

// Run explores all paths from s and calls leaf at each return of the bottom
// frame.
func (x *Exec) Run(s *State, leaf func(*State)) {
	old, oldW := x.onLeaf, x.work
	x.onLeaf, x.work = leaf, []*State{s}
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.drive(st)
	}
	x.onLeaf, x.work = old, oldW
}

// drive runs one state until it forks or ends.
func (x *Exec) drive(s *State) {
	for {
		x.steps++
		if x.steps > 400000 {
			unsup("too many steps")
		}
		more, fork := x.stepSafe(s)
		if fork != nil {
			t, f := s, s.clone()
			t.assume(fork)
			f.assume(Not(fork))
			if t.quickBad() {
				if !f.quickBad() {
					x.work = append(x.work, f)
				}
				return
			}
			if f.quickBad() {
				x.work = append(x.work, t)
				return
			}
			tf := t.feasible()
			ff := true
			if tf {
				ff = f.feasible()
			}
			if tf {
				x.work = append(x.work, t)
			}
			if ff {
				x.work = append(x.work, f)
			}
			return
		}
		if !more {
			return
		}
	}
}

func (s *State) quickBad() bool {
	return len(s.pc) > 0 && s.pc[len(s.pc)-1].Op == "false"
}

func (x *Exec) stepSafe(s *State) (more bool, fork *Term) {
	s.undo = s.undo[:0]
	npc, nfr := len(s.pc), len(s.frames)
	var fr *Frame
	var ip int
	if nfr > 0 {
		fr = s.top()
		ip = fr.ip
	}
	nobl := len(x.Obls)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case forkOn:
				for i := len(s.undo) - 1; i >= 0; i-- {
					s.undo[i]()
				}
				s.frames = s.frames[:nfr]
				fr.ip = ip
				// assumptions made by this instruction follow from recorded
				// obligations or definitions; keep them, drop duplicates of
				// the obligations on retry
				_ = npc
				x.Obls = x.Obls[:nobl]
				s.pc = s.pc[:npc]
				s.relit()
				more, fork = false, e.c
			case pathEnd:
				more, fork = false, nil
				if os.Getenv("VC_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "path end: %s\n", e.why)
				}
			case unsupported, restart, declMismatch:
				panic(r)
			default:
				if os.Getenv("VC_DEBUG") != "" {
					debug.PrintStack()
				}
				panic(unsupported{fmt.Sprintf("engine: %v at %s", r, where(fr))})
			}
		}
	}()
	return x.step(s), nil
}

func where(fr *Frame) string {
	if fr == nil {
		return "?"
	}
	if fr.ip < len(fr.block.Instrs) {
		return fmt.Sprintf("%s: %s", fr.fn, fr.block.Instrs[fr.ip])
	}
	return fr.fn.String()
}

// relit rebuilds the literal table after dropping assumptions.
func (s *State) relit() {
	s.lits = map[*Term]*Term{}
	pc := s.pc
	s.pc = nil
	for _, t := range pc {
		s.assume(t)
	}
}

func (s *State) get(v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return s.x.constVal(s, c)
	case *ssa.Function:
		return &FuncV{Nil: False, Fn: c}
	case *ssa.Global:
		return &Ptr{Nil: False, Obj: s.x.global(s, c)}
	case *ssa.Builtin:
		return c
	}
	r, ok := s.top().env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), s.top().fn)
	}
	return r
}

func (x *Exec) global(s *State, g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		if _, in := s.mem[o]; !in {
			s.mem[o] = x.globalVal(s, g, o.Typ)
		}
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	nobj++
	o := &Obj{ID: nobj, Name: "global " + g.Name(), Typ: t, Weak: x.weakGlobal(g)}
	s.mem[o] = x.globalVal(s, g, t)
	x.globals[g] = o
	return o
}

func (x *Exec) globalVal(s *State, g *ssa.Global, t types.Type) Val {
	if v := x.initGlobal(s, g, t); v != nil {
		return v
	}
	return x.freshVal(s, g.Name(), t)
}

func (x *Exec) constVal(s *State, c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(s, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return BigT(b)
	case constant.String:
		return StrT(constant.StringVal(c.Value))
	}
	return &Opaque{c.Type(), Fresh("const", "Dyn")}
}

// StrT is a literal byte sequence.
func StrT(v string) *Term {
	var xs []*Term
	for i := 0; i < len(v); i++ {
		xs = append(xs, UnitSeq(IntT(int64(v[i]))))
	}
	return Concat(xs...)
}

// step executes one instruction; false when the path ended.
func (x *Exec) step(s *State) bool {
	fr := s.top()
	if fr.panicking {
		return x.unwindStep(s, fr)
	}
	in := fr.block.Instrs[fr.ip]
	set := func(v ssa.Value, r Val) {
		if r == nil {
			panic(fmt.Sprintf("nil value for %s", in))
		}
		fr.env[v] = r
		fr.ip++
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		o := s.newObj(allocName(i), t, nil, true)
		s.mem[o] = x.zero(s, t)
		set(i, &Ptr{Nil: False, Obj: o})
	case *ssa.FieldAddr:
		p := s.ptr(i.X)
		s.derefCheck(p, "field address")
		set(i, p.field(i.Field))
	case *ssa.IndexAddr:
		idx := s.term(i.Index)
		switch b := s.get(i.X).(type) {
		case *Ptr:
			s.derefCheck(b, "index")
			n := under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
			s.require("bounds", And(Le(Zero, idx), Lt(idx, IntT(n))), "array index in range")
			set(i, b.index(idx))
		case *Slice:
			s.require("bounds", And(Le(Zero, idx), Lt(idx, b.Len)), "slice index in range")
			if b.Arr == nil {
				panic(pathEnd{"index of nil slice"})
			}
			set(i, b.Arr.index(Add(b.Off, idx)))
		default:
			unsup("index of %T", b)
		}
	case *ssa.Field:
		v := s.get(i.X)
		v = s.opened(v, i.X.Type())
		st, ok := v.(*StructV)
		if !ok {
			unsup("field of %T", v)
		}
		set(i, s.whole(st.F[i.Field], i.Type()))
	case *ssa.Index:
		idx := s.term(i.Index)
		v := s.get(i.X)
		switch c := v.(type) {
		case *Term: // string
			s.require("bounds", And(Le(Zero, idx), Lt(idx, Len(c))), "string index in range")
			set(i, Nth(c, idx))
		default:
			n := under(i.X.Type()).(*types.Array).Len()
			s.require("bounds", And(Le(Zero, idx), Lt(idx, IntT(n))), "array index in range")
			r, _ := s.getRec(v, i.X.Type(), []PathEl{{Idx: idx}})
			set(i, s.whole(r, i.Type()))
		}
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p := s.ptr(i.X)
			s.derefCheck(p, "load")
			set(i, s.loadT(p, i.Type()))
		case token.NOT:
			set(i, Not(s.term(i.X)))
		case token.SUB:
			set(i, s.wrap(Sub(Zero, s.term(i.X)), i.Type()))
		case token.XOR:
			// ^x = -x-1
			set(i, s.wrap(Sub(IntT(-1), s.term(i.X)), i.Type()))
		default:
			unsup("unary %s", i.Op)
		}
	case *ssa.BinOp:
		set(i, s.binop(i))
	case *ssa.Convert:
		set(i, s.convert(i))
	case *ssa.ChangeType:
		set(i, s.get(i.X))
	case *ssa.ChangeInterface:
		set(i, s.get(i.X))
	case *ssa.MakeInterface:
		set(i, &Iface{Nil: False, Dyn: i.X.Type(), V: s.get(i.X)})
	case *ssa.TypeAssert:
		set(i, s.typeAssert(i))
	case *ssa.Extract:
		t := s.get(i.Tuple).(TupleV)
		set(i, t[i.Index])
	case *ssa.Slice:
		set(i, s.slice(i))
	case *ssa.MakeSlice:
		n, c := s.term(i.Len), s.term(i.Cap)
		s.require("panic", And(Le(Zero, n), Le(n, c)), "make: length in range")
		et := elemOf(i.Type())
		if x.hooks.Alloc != nil {
			x.hooks.Alloc(s, c, et)
		}
		s.assume(Le(c, BigT(MaxSliceLen)))
		set(i, s.makeSlice(et, n, c))
	case *ssa.MakeMap:
		set(i, s.makeMap(i.Type()))
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, s.get(v))
		}
		set(i, &FuncV{Nil: False, Fn: i.Fn.(*ssa.Function), Bind: b})
	case *ssa.Lookup:
		set(i, s.lookup(i))
	case *ssa.MapUpdate:
		s.mapUpdate(i)
		fr.ip++
	case *ssa.Phi:
		x.phis(s, fr)
	case *ssa.Store:
		p := s.ptr(i.Addr)
		s.derefCheck(p, "store")
		s.store(p, s.get(i.Val))
		fr.ip++
	case *ssa.If:
		c := s.term(i.Cond)
		x.noteExit(s, fr, c)
		if s.decide(c) {
			x.jump(s, fr.block.Succs[0])
		} else {
			x.jump(s, fr.block.Succs[1])
		}
		return len(s.frames) > 0 && s.top().block != nil
	case *ssa.Jump:
		x.jump(s, fr.block.Succs[0])
		return len(s.frames) > 0 && s.top().block != nil
	case *ssa.Return:
		var r Val
		switch len(i.Results) {
		case 0:
			r = TupleV{}
		case 1:
			r = s.get(i.Results[0])
		default:
			t := TupleV{}
			for _, v := range i.Results {
				t = append(t, s.get(v))
			}
			r = t
		}
		return x.doReturn(s, r)
	case *ssa.Panic:
		s.panics = "explicit panic"
		if x.unwind {
			fr.panicking = true
			break
		}
		x.panicLeaf(s)
		return false
	case *ssa.Call:
		x.call(s, &i.Call, i)
	case *ssa.Go:
		fn, args := s.callee(&i.Call)
		if x.hooks.Spawn == nil {
			unsup("go statement")
		}
		x.hooks.Spawn(s, fn, args)
		fr.ip++
	case *ssa.Defer:
		fn, args := s.callee(&i.Call)
		fr.defers = append(fr.defers, deferred{&i.Call, fn, args})
		fr.ip++
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.ip++
			break
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		s.undo = append(s.undo, func() { fr.defers = append(fr.defers, d) })
		x.invokeVal(s, d.call, d.fn, d.args, nil)
	default:
		unsup("instruction %T: %s", in, in)
	}
	return true
}

// unwindStep runs the next deferred call of a panicking frame or leaves it.
func (x *Exec) unwindStep(s *State, fr *Frame) bool {
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		s.undo = append(s.undo, func() { fr.defers = append(fr.defers, d) })
		x.invokeVal(s, d.call, d.fn, d.args, nil)
		return true
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		x.panicLeaf(s)
		return false
	}
	s.top().panicking = true
	return true
}

func (x *Exec) panicLeaf(s *State) {
	if x.probe > 0 {
		return
	}
	if x.onLeaf != nil {
		x.nleaf++
		x.onLeaf(s)
	}
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return "alloc"
}

// whole normalises a value read as part of an SSA value.
func (s *State) whole(v Val, t types.Type) Val {
	if a, ok := v.(*Abs); ok {
		if _, isS := isStruct(t); !isS {
			return s.open(a, t)
		}
	}
	return v
}

func (s *State) term(v ssa.Value) *Term {
	t, ok := s.get(v).(*Term)
	if !ok {
		unsup("%s is not a scalar (%T)", v, s.get(v))
	}
	return t
}

func (s *State) ptr(v ssa.Value) *Ptr {
	switch p := s.get(v).(type) {
	case *Ptr:
		return p
	}
	unsup("%s is not a pointer (%T)", v, s.get(v))
	return nil
}

func (x *Exec) doReturn(s *State, r Val) bool {
	fr := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.ret = r
		x.nleaf++
		if x.onLeaf != nil {
			x.onLeaf(s)
		}
		return false
	}
	c := s.top()
	if fr.isDef {
		return true // re-executes RunDefers of the caller
	}
	if v, ok := fr.result.(ssa.Value); ok {
		c.env[v] = r
	}
	c.ip++
	return true
}

func (x *Exec) pushFrame(s *State, fn *ssa.Function, args, bind []Val, res ssa.Instruction, isDef bool) {
	if len(s.frames) > 40 {
		unsup("call depth at %s", fn)
	}
	for _, f := range s.frames {
		if f.fn == fn {
			unsup("recursive function without contract: %s", fn)
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("external function %s", fn)
	}
	nf := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, result: res, loops: map[*ssa.BasicBlock]*loopCtx{}, isDef: isDef}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		nf.env[v] = bind[i]
	}
	s.frames = append(s.frames, nf)
	s.x.Used["inlined "+fn.String()] = true
}

func (x *Exec) phis(s *State, fr *Frame) {
	pi := -1
	for k, p := range fr.block.Preds {
		if p == fr.prev {
			pi = k
		}
	}
	var vs []ssa.Value
	var rs []Val
	ip := fr.ip
	for ip < len(fr.block.Instrs) {
		ph, ok := fr.block.Instrs[ip].(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, ph)
		rs = append(rs, s.get(ph.Edges[pi]))
		ip++
	}
	for k := range vs {
		fr.env[vs[k]] = rs[k]
	}
	fr.ip = ip
}

func (x *Exec) jump(s *State, b *ssa.BasicBlock) {
	fr := s.top()
	from := fr.block
	li := x.P.loops(fr.fn)
	// leaving loops
	for h, ctx := range fr.loops {
		if li.body[h][from] && !li.body[h][b] {
			if ctx.onExit != nil && !ctx.onExit(s) {
				fr.block = nil
				return
			}
			delete(fr.loops, h)
		}
	}
	fr.prev, fr.block, fr.ip = from, b, 0
	if li.isHeader(b) {
		x.atHeader(s, fr, b, li.body[b][from])
	}
}

func innermost(li *loopInfo, fr *Frame, b *ssa.BasicBlock) *loopCtx {
	for h, ctx := range fr.loops {
		if h == fr.prev && li.body[h][b] {
			return ctx
		}
	}
	return nil
}

// wrap reduces a mathematical result to the range of an integer type,
// skipping the reduction when it provably cannot overflow.
func (s *State) wrap(t *Term, typ types.Type) *Term {
	bits, sg, ok := intBounds(typ)
	if !ok {
		unsup("arithmetic on %s", typ)
	}
	var lo, hi *big.Int
	if sg {
		h := pow2(bits - 1)
		lo, hi = new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	} else {
		lo, hi = bigZero, new(big.Int).Sub(pow2(bits), big.NewInt(1))
	}
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(lo) >= 0 && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	if l, h := s.bounds(t); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	in := And(Le(BigT(lo), t), Le(t, BigT(hi)))
	if s.proves(in, 2) {
		return t
	}
	return wrap(t, typ)
}

// bounds gives constant bounds of t on this path (nil: none known).
func (s *State) bounds(t *Term) (lo, hi *big.Int) {
	lo, hi = t.Lo, t.Hi
	for _, p := range s.pc {
		l, h := LinBound(p, t)
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	return
}

func (s *State) convert(i *ssa.Convert) Val {
	v := s.get(i.X)
	from, to := i.X.Type(), i.Type()
	if _, _, ok := intBounds(to); ok {
		if _, _, ok2 := intBounds(from); ok2 {
			return s.wrap(v.(*Term), to)
		}
	}
	fb, _ := under(from).(*types.Basic)
	tb, _ := under(to).(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := v.(*Slice); ok {
			return s.bytesOf(sl)
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if t, ok := v.(*Term); ok {
			// string(rune): one byte for ASCII, otherwise unknown
			if n, ok := t.Int64(); ok {
				return StrT(string(rune(n)))
			}
			return Seqlike(Fresh("runestr", SBytes))
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := under(to).(*types.Slice); ok && isByte(sl.Elem()) {
			t := v.(*Term)
			if s.x.hooks.Alloc != nil {
				s.x.hooks.Alloc(s, Len(t), sl.Elem())
			}
			o := s.newObj("bytes", backing(sl.Elem()), &BytesV{t}, true)
			return &Slice{Nil: False, Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: Len(t), Cap: Len(t)}
		}
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

// bytesOf is the byte content of a slice.
func (s *State) bytesOf(sl *Slice) *Term {
	if sl.Arr == nil || sl.Arr.Obj == nil {
		return Empty
	}
	c := s.opened(s.load(sl.Arr), backing(types.Typ[types.Uint8]))
	b, ok := c.(*BytesV)
	if !ok {
		unsup("bytes of %T", c)
	}
	return s.sub(b.S, sl.Off, sl.Len)
}

// sub is an in-range extract.
func (s *State) sub(b, off, n *Term) *Term {
	r := Extract(b, off, n)
	if r.Op == "extract" && r.Args[0].Op == "++" {
		// entirely inside the first piece?
		p := r.Args[0].Args[0]
		if s.proves(Le(Add(r.Args[1], r.Args[2]), Len(p)), 1) {
			return Extract(p, r.Args[1], r.Args[2])
		}
	}
	return r
}

// nthIn is one byte of a string, looked up in the piece that holds it.
func (s *State) nthIn(b, i *Term) *Term {
	r := Nth(b, i)
	if r.Op == "nth" && r.Args[0].Op == "++" && i.Op != "int" {
		p := r.Args[0].Args[0]
		if s.proves(Lt(r.Args[1], Len(p)), 1) {
			return Nth(p, r.Args[1])
		}
		if s.proves(Le(Len(p), r.Args[1]), 1) {
			return s.nthIn(Concat(r.Args[0].Args[1:]...), Sub(r.Args[1], Len(p)))
		}
	}
	return r
}

// setBytes overwrites [off, off+len v) of the array behind sl.
func (s *State) setBytes(sl *Slice, at *Term, v *Term) {
	if Len(v) == Zero {
		return
	}
	b := s.opened(s.load(sl.Arr), backing(types.Typ[types.Uint8])).(*BytesV).S
	o := Add(sl.Off, at)
	e := Add(o, Len(v))
	s.store(sl.Arr, &BytesV{Concat(Extract(b, Zero, o), v, Extract(b, e, Sub(Len(b), e)))})
}

func (s *State) makeSlice(et types.Type, n, c *Term) *Slice {
	var content Val
	if isByte(et) {
		content = &BytesV{Zeros(c)}
	} else if k, ok := c.Int64(); ok && k <= 16 && s.x.specOf(et) == nil {
		a := &ArrV{}
		for j := int64(0); j < k; j++ {
			a.E = append(a.E, s.x.zero(s, et))
		}
		content = a
	} else {
		content = &SeqV{N: c}
	}
	o := s.newObj("make", backing(et), content, true)
	return &Slice{Nil: False, Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: c}
}

func (s *State) slice(i *ssa.Slice) Val {
	v := s.get(i.X)
	opt := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return s.term(e)
	}
	lo := opt(i.Low, Zero)
	switch b := v.(type) {
	case *Term: // string
		hi := opt(i.High, Len(b))
		s.require("bounds", And(Le(Zero, lo), Le(lo, hi), Le(hi, Len(b))), "string slice in range")
		return Extract(b, lo, Sub(hi, lo))
	case *Ptr: // array
		s.derefCheck(b, "slice of array")
		n := IntT(under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		hi := opt(i.High, n)
		mx := opt(i.Max, n)
		s.require("bounds", And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "array slice in range")
		return &Slice{Nil: False, Arr: b, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	case *Slice:
		hi := opt(i.High, b.Len)
		mx := opt(i.Max, b.Cap)
		s.require("bounds", And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, b.Cap)), "slice bounds in range")
		return &Slice{Nil: b.Nil, Arr: b.Arr, Off: Add(b.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	}
	unsup("slice of %T", v)
	return nil
}

func (s *State) typeAssert(i *ssa.TypeAssert) Val {
	v, ok := s.get(i.X).(*Iface)
	if !ok {
		unsup("type assertion on %T", s.get(i.X))
	}
	if v.Dyn == nil {
		if s.decide(v.Nil) {
			if i.CommaOk {
				return TupleV{s.x.zero(s, i.AssertedType), False}
			}
			s.require("panic", False, "type assertion on nil interface")
		}
		if h := s.x.hooks.Extern["typeassert"]; h != nil {
			if r := h(s, []Val{v, i.AssertedType}, nil); r != nil {
				if i.CommaOk {
					return TupleV{r, True}
				}
				return r
			}
		}
		unsup("type assertion on opaque interface")
	}
	if _, isI := under(i.AssertedType).(*types.Interface); isI {
		okT := types.AssertableTo(under(i.AssertedType).(*types.Interface), v.Dyn) && types.Implements(v.Dyn, under(i.AssertedType).(*types.Interface))
		if i.CommaOk {
			return TupleV{v, BoolT(okT)}
		}
		s.require("panic", BoolT(okT), "type assertion")
		return v
	}
	okT := types.Identical(v.Dyn, i.AssertedType)
	if i.CommaOk {
		if okT {
			return TupleV{v.V, True}
		}
		return TupleV{s.x.zero(s, i.AssertedType), False}
	}
	s.require("panic", BoolT(okT), "type assertion")
	return v.V
}

func nilOf(v Val) *Term {
	switch p := v.(type) {
	case *Ptr:
		return p.Nil
	case *Slice:
		return p.Nil
	case *Iface:
		return p.Nil
	case *FuncV:
		return p.Nil
	case *MapV:
		return p.Nil
	}
	return nil
}

func (s *State) binop(i *ssa.BinOp) Val {
	a, b := s.get(i.X), s.get(i.Y)
	t := i.X.Type()
	if i.Op == token.EQL || i.Op == token.NEQ {
		r := s.eqVal(a, b, i.X, i.Y)
		if i.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operator %s on %T", i.Op, a)
	}
	if x.Sort == SBytes {
		switch i.Op {
		case token.ADD:
			return Concat(x, y)
		}
		// lexicographic order of strings is not modelled
		return Fresh("strcmp", SBool)
	}
	switch i.Op {
	case token.ADD:
		return s.wrap(Add(x, y), t)
	case token.SUB:
		return s.wrap(Sub(x, y), t)
	case token.MUL:
		return s.wrap(Mul(x, y), t)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Gt(x, y)
	case token.GEQ:
		return Ge(x, y)
	case token.QUO, token.REM:
		c := s.simp(y)
		s.require("panic", Not(Eq(y, Zero)), "division by zero")
		if c.Op != "int" || c.Val.Sign() <= 0 {
			unsup("division by a non-constant")
		}
		neg := True
		if x.Lo != nil && x.Lo.Sign() >= 0 {
			neg = False
		} else if s.proves(Le(Zero, x), 2) {
			neg = False
		}
		if i.Op == token.REM {
			r := Mod(x, c.Val)
			if neg.Op == "false" {
				return r
			}
			return Ite(Le(Zero, x), r, Sub(Zero, Mod(Sub(Zero, x), c.Val)))
		}
		r := Div(x, c.Val)
		if neg.Op == "false" {
			return r
		}
		return Ite(Le(Zero, x), r, Sub(Zero, Div(Sub(Zero, x), c.Val)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return s.bitop(i.Op, x, y, t)
	case token.SHL, token.SHR:
		c := s.simp(y)
		n, ok := c.Int64()
		if !ok {
			unsup("shift by a non-constant")
		}
		if i.Op == token.SHL {
			return s.wrap(MulC(pow2(uint(n)), x), t)
		}
		return Div(x, pow2(uint(n)))
	}
	unsup("operator %s", i.Op)
	return nil
}

func andConst(x *Term, m *big.Int) *Term {
	var parts []*Term
	for lo := 0; lo < m.BitLen(); {
		if m.Bit(lo) == 0 {
			lo++
			continue
		}
		hi := lo
		for m.Bit(hi) == 1 {
			hi++
		}
		parts = append(parts, MulC(pow2(uint(lo)), Mod(Div(x, pow2(uint(lo))), pow2(uint(hi-lo)))))
		lo = hi
	}
	return Add(parts...)
}

func (s *State) bitop(op token.Token, x, y *Term, t types.Type) *Term {
	if x.Op == "int" {
		x, y = y, x
		if op == token.AND_NOT {
			unsup("&^ with constant left operand")
		}
	}
	y = s.simp(y)
	if y.Op == "int" && y.Val.Sign() >= 0 {
		bits, _, _ := intBounds(t)
		m := y.Val
		// x below all bits of the constant
		if lo, hi := s.bounds(x); lo != nil && hi != nil && lo.Sign() >= 0 && m.Sign() > 0 && uint(hi.BitLen()) <= m.TrailingZeroBits() {
			switch op {
			case token.AND:
				return Zero
			case token.OR, token.XOR:
				return Add(x, y)
			case token.AND_NOT:
				return x
			}
		}
		switch op {
		case token.AND:
			return andConst(x, m)
		case token.OR:
			return Sub(Add(x, y), andConst(x, m))
		case token.XOR:
			return Sub(Add(x, y), MulC(big.NewInt(2), andConst(x, m)))
		case token.AND_NOT:
			all := new(big.Int).Sub(pow2(bits), big.NewInt(1))
			return andConst(x, new(big.Int).AndNot(all, m))
		}
	}
	if op == token.OR || op == token.XOR {
		for k := 0; k < 2; k++ {
			z := LowZeroBits(x)
			if y.Lo != nil && y.Lo.Sign() >= 0 && y.Hi != nil && y.Hi.Cmp(pow2(z)) < 0 {
				return Add(x, y)
			}
			x, y = y, x
		}
	}
	unsup("bit operation %s on symbolic operands", op)
	return nil
}

func (s *State) eqVal(a, b Val, av, bv ssa.Value) *Term {
	isNilC := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value == nil
	}
	if isNilC(bv) && nilOf(a) != nil {
		return nilOf(a)
	}
	if isNilC(av) && nilOf(b) != nil {
		return nilOf(b)
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			same := False
			if x.Obj != nil && x.Obj == y.Obj {
				if len(x.Path) == len(y.Path) {
					same = True
					for k := range x.Path {
						if x.Path[k].Idx != nil || y.Path[k].Idx != nil {
							if x.Path[k].Idx == nil || y.Path[k].Idx == nil {
								same = False
								break
							}
							same = And(same, Eq(x.Path[k].Idx, y.Path[k].Idx))
						} else if x.Path[k].Field != y.Path[k].Field {
							same = False
						}
					}
				}
			}
			return Or(And(x.Nil, y.Nil), And(Not(x.Nil), Not(y.Nil), same))
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			e := Fresh("ifeq", SBool)
			if x.Dyn != nil && y.Dyn != nil && !types.Identical(x.Dyn, y.Dyn) {
				e = False
			}
			if x == y {
				e = True
			} else if x.Tag != nil && x.Tag == y.Tag {
				e = True
			}
			return Or(And(x.Nil, y.Nil), And(Not(x.Nil), Not(y.Nil), e))
		}
	case *BytesV:
		if y, ok := b.(*BytesV); ok {
			return Eq(x.S, y.S)
		}
	case *Abs:
		if y, ok := b.(*Abs); ok {
			return Eq(x.A, y.A)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			var cs []*Term
			for k := range x.F {
				cs = append(cs, s.eqVal(x.F[k], y.F[k], nil, nil))
			}
			return And(cs...)
		}
	}
	if fmt.Sprintf("%T", a) == "*sym.Opaque" || fmt.Sprintf("%T", b) == "*sym.Opaque" {
		return Fresh("eq", SBool)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// ---- calls

func (s *State) callee(c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, s.get(a))
	}
	return s.get(c.Value), args
}

func (x *Exec) call(s *State, c *ssa.CallCommon, res *ssa.Call) {
	fn, args := s.callee(c)
	x.invokeVal(s, c, fn, args, res)
}

// finish stores a call result and moves on.
func (x *Exec) finish(s *State, res *ssa.Call, r Val) {
	if res == nil {
		return // deferred call: RunDefers is executed again
	}
	fr := s.top()
	if r == nil {
		r = TupleV{}
	}
	fr.env[res] = r
	fr.ip++
}

func (x *Exec) invokeVal(s *State, c *ssa.CallCommon, fv Val, args []Val, res *ssa.Call) {
	if b, ok := fv.(*ssa.Builtin); ok {
		x.finish(s, res, x.builtin(s, b.Name(), c, args))
		return
	}
	var resI ssa.Instruction
	if res != nil {
		resI = res
	}
	if c.IsInvoke() {
		iv, ok := fv.(*Iface)
		if !ok {
			unsup("method call on %T", fv)
		}
		if iv.Dyn == nil {
			if h := x.hooks.Extern[types.TypeString(c.Value.Type(), nil)+"."+c.Method.Name()]; h != nil {
				x.finish(s, res, h(s, append([]Val{iv}, args...), c))
				return
			}
			s.require("nil", Not(iv.Nil), "method call on nil interface")
			if x.hooks.Invoke != nil {
				if r, ok := x.hooks.Invoke(s, iv, c.Method.Name(), args, c.Signature()); ok {
					x.finish(s, res, r)
					return
				}
			}
			unsup("method %s on opaque interface", c.Method.Name())
		}
		m := x.P.SSA.LookupMethod(iv.Dyn, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			unsup("method %s of %s", c.Method.Name(), iv.Dyn)
		}
		x.callFn(s, m, append([]Val{iv.V}, args...), nil, c, res, resI)
		return
	}
	f, ok := fv.(*FuncV)
	if !ok {
		unsup("call of %T", fv)
	}
	if f.Fn != nil {
		x.callFn(s, f.Fn, args, f.Bind, c, res, resI)
		return
	}
	s.require("nil", Not(f.Nil), "call of nil function")
	if x.hooks.Call != nil {
		if r, ok := x.hooks.Call(s, f, args, c.Signature()); ok {
			x.finish(s, res, r)
			return
		}
	}
	unsup("call of opaque function value")
}

func (x *Exec) callFn(s *State, fn *ssa.Function, args, bind []Val, c *ssa.CallCommon, res *ssa.Call, resI ssa.Instruction) {
	name := fn.String()
	if x.hooks.Redirect != nil {
		if f, a := x.hooks.Redirect(s, name, args); f != nil {
			x.Used["trusted "+name] = true
			x.callFn(s, f, a, nil, c, res, resI)
			return
		}
	}
	if h := x.hooks.Extern[name]; h != nil {
		x.Used["hook "+name] = true
		r := h(s, args, c)
		if _, ok := r.(again); !ok {
			x.finish(s, res, r)
		}
		return
	}
	if m := externs[name]; m != nil {
		x.Used["trusted "+name] = true
		x.finish(s, res, m(s, args, c))
		return
	}
	if len(bind) == 0 {
		if ct := x.P.ContractOf(x, fn); ct != nil {
			x.Used["contract "+name] = true
			x.finish(s, res, ct(s, args, c))
			return
		}
	}
	if !x.P.Inlinable(fn) {
		unsup("call of external function %s", name)
	}
	x.pushFrame(s, fn, args, bind, resI, res == nil)
}

func (x *Exec) builtin(s *State, name string, c *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *Slice:
			return v.Len
		case *Term:
			return Len(v)
		case *MapV:
			n := Ranged(Fresh("maplen", SInt), bigZero, MaxSliceLen)
			return n
		}
		if a, ok := under(c.Args[0].Type()).(*types.Array); ok {
			return IntT(a.Len())
		}
	case "cap":
		if v, ok := args[0].(*Slice); ok {
			return v.Cap
		}
	case "copy":
		return s.copyBuiltin(args)
	case "append":
		return s.appendBuiltin(args, elemOf(c.Args[0].Type()))
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if name == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(r, y), y, r)
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*Ptr)
		s.derefCheck(p, "method value")
		return p
	case "panic":
	}
	unsup("builtin %s", name)
	return nil
}

func (s *State) srcBytes(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return s.bytesOf(v.(*Slice))
}

func (s *State) copyBuiltin(args []Val) Val {
	d := args[0].(*Slice)
	var n *Term
	switch v := args[1].(type) {
	case *Slice:
		n = v.Len
		if d.Arr != nil && !s.isByteArr(d) {
			return s.copySeq(d, v)
		}
	case *Term:
		n = Len(v)
	}
	if d.Arr == nil {
		return Zero
	}
	if s.decide(Le(d.Len, n)) {
		n = d.Len
	}
	b := Extract(s.srcBytes(args[1]), Zero, n)
	s.setBytes(d, Zero, b)
	return n
}

func (s *State) isByteArr(d *Slice) bool {
	_, ok := s.opened(s.load(d.Arr), backing(types.Typ[types.Uint8])).(*BytesV)
	return ok
}

func (s *State) copySeq(d, v *Slice) Val {
	unsup("copy of element slices")
	return nil
}

func (s *State) appendBuiltin(args []Val, et types.Type) Val {
	a := args[0].(*Slice)
	if len(args) == 1 {
		return a
	}
	if isByte(et) {
		b := s.srcBytes(args[1])
		n := Len(b)
		if n == Zero {
			return a
		}
		if a.Arr != nil && s.decide(Le(Add(a.Len, n), a.Cap)) {
			r := &Slice{Nil: False, Arr: a.Arr, Off: a.Off, Len: Add(a.Len, n), Cap: a.Cap}
			s.setBytes(r, a.Len, b)
			return r
		}
		old := s.bytesOf(a)
		if s.x.hooks.Alloc != nil {
			s.x.hooks.Alloc(s, Add(Len(old), n), et)
		}
		sp := Seqlike(Fresh("spare", SBytes))
		c := Concat(old, b, sp)
		o := s.newObj("append", backing(et), &BytesV{c}, true)
		ln := Add(a.Len, n)
		return &Slice{Nil: And(a.Nil, Eq(n, Zero)), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: ln, Cap: Add(ln, Len(sp))}
	}
	b := args[1].(*Slice)
	if b.Arr == nil {
		return a
	}
	k, ok := s.simp(b.Len).Int64()
	if !ok || k > 16 {
		unsup("append of a symbolic number of elements")
	}
	var add []Val
	for j := int64(0); j < k; j++ {
		add = append(add, s.load(b.Arr.index(Add(b.Off, IntT(j)))))
	}
	// element arrays: the result is a new array holding the old elements
	// (other slices of the spare capacity are assumed not to be observed)
	var c Val
	if a.Arr == nil {
		c = &SeqV{N: Zero}
	} else {
		c = s.opened(s.load(a.Arr), backing(et))
	}
	switch v := c.(type) {
	case *SeqV:
		if !(a.Off == Zero) {
			unsup("append to an offset slice")
		}
		n := &SeqV{T: v.T, Base: v.Base, N: Add(a.Len, IntT(k)), Ups: append([]upd{}, v.Ups...)}
		for j := range add {
			n = n.put(-1, Add(a.Len, IntT(int64(j))), add[j])
		}
		c = n
	case *ArrV:
		ln, ok := a.Len.Int64()
		if !ok || a.Off != Zero {
			unsup("append to a symbolic slice")
		}
		c = &ArrV{append(append([]Val{}, v.E[:ln]...), add...)}
	default:
		unsup("append to %T", c)
	}
	ln := Add(a.Len, IntT(k))
	o := s.newObj("append", backing(et), c, true)
	return &Slice{Nil: False, Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: ln, Cap: ln}
}

func shortName(n string) string {
	return strings.ReplaceAll(n, "github.com/zeldovich/go-rpcgen/", "")
}
