package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

type loopCtx struct {
	header   *ssa.BasicBlock
	key      string
	count    int
	symExits int
	npc      int
	onBack   func(*State) bool
	onExit   func(*State) bool
}

func (x *Exec) atHeader(s *State, fr *Frame, h *ssa.BasicBlock, back bool) {
	if back {
		ctx := fr.loops[h]
		if ctx == nil {
			unsup("irreducible control flow")
		}
		if ctx.onBack != nil {
			if !ctx.onBack(s) {
				fr.block = nil
			}
			return
		}
		n := *ctx
		n.count++
		if x.arrays() && (n.count > spec.SmallArr || n.symExits > 0) || n.symExits > 8 || x.own && n.count > 1 && len(s.pc) > n.npc && !s.shortLoop(fr, h) || n.count > 300 || n.count > 40 && len(s.pc)-n.npc > 30 {
			panic(restart{n.key})
		}
		fr.loops[h] = &n
		return
	}
	key := fmt.Sprintf("%s#%d", fr.fn, h.Index)
	if x.modes[key] == "inv" {
		x.enterInv(s, fr, h, key)
		return
	}
	fr.loops[h] = &loopCtx{header: h, key: key, npc: len(s.pc)}
}

// shortLoop: the loop counts to a small constant.
func (s *State) shortLoop(fr *Frame, h *ssa.BasicBlock) bool {
	i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	if b, ok := c.X.(*ssa.BinOp); ok {
		if b.Op != token.ADD || b.Block() != h {
			return false
		}
	} else if _, ok := c.X.(*ssa.Phi); !ok {
		return false
	}
	t, ok := fr.env[c.Y].(*Term)
	if k, isC := c.Y.(*ssa.Const); isC {
		t, ok = s.x.constVal(s, k).(*Term)
	}
	if !ok {
		return false
	}
	n, ok := s.simp(t).Int64()
	return ok && n <= 16
}

// arrays: the verified type has arrays of its own.
func (x *Exec) arrays() bool {
	if x.topT == nil {
		return false
	}
	r := &loopRun{x: x, smalls: map[string]int64{}}
	return len(r.elemTypes()) > 0
}

// noteExit counts undetermined exit conditions of unrolled loops.
func (x *Exec) noteExit(s *State, fr *Frame, c *Term) {
	if len(fr.loops) == 0 {
		return
	}
	c = s.simp(c)
	if c.Op == "true" || c.Op == "false" {
		return
	}
	li := x.P.loops(fr.fn)
	for h, ctx := range fr.loops {
		if ctx.onBack == nil && li.body[h][fr.block] && (!li.body[h][fr.block.Succs[0]] || !li.body[h][fr.block.Succs[1]]) {
			n := *ctx
			n.symExits++
			fr.loops[h] = &n
		}
	}
}

type cand struct {
	name string
	f    func(s *State) *Term
	def  func(s *State) // rewrites the state by what the candidate says
	pre  func(s *State) // the same, before anything refers to the state
}

// mloc is a location modified by a loop.
type mloc struct {
	o    *Obj
	path []PathEl
}

func (m mloc) key() string {
	k := fmt.Sprint(m.o.ID)
	for _, e := range m.path {
		if e.Idx != nil {
			k += fmt.Sprintf("[%d]", e.Idx.ID)
		} else {
			k += fmt.Sprintf(".%d", e.Field)
		}
	}
	return k
}

// diff collects locations whose content differs.
func diff(o *Obj, path []PathEl, a, b Val, out *[]mloc) {
	if a == b {
		return
	}
	app := func(e PathEl) []PathEl { return append(append([]PathEl{}, path...), e) }
	switch x := a.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				diff(o, app(PathEl{Field: i}), x.F[i], y.F[i], out)
			}
			return
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.E) == len(y.E) {
			for i := range x.E {
				diff(o, app(PathEl{Idx: IntT(int64(i))}), x.E[i], y.E[i], out)
			}
			return
		}
	case *Term:
		if y, ok := b.(*Term); ok && x == y {
			return
		}
	case *BytesV:
		if y, ok := b.(*BytesV); ok && x.S == y.S {
			return
		}
	case *Abs:
		if y, ok := b.(*Abs); ok && x.A == y.A {
			return
		}
		if y, ok := b.(*StructV); ok && !modifiedBelow(x, y) {
			return // opened, not modified
		}
		if y, ok := b.(*Slice); ok && (y.Off == Zero) && y.Arr != nil && y.Arr.Obj.Name[:4] == "open" {
			return
		}
		if y, ok := b.(*Ptr); ok && y.Obj != nil && len(y.Obj.Name) > 4 && y.Obj.Name[:4] == "open" {
			return
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && sameArr(x.Arr, y.Arr) {
			return
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.Obj == y.Obj && len(x.Path) == 0 && len(y.Path) == 0 {
			return
		}
	case *XS:
		if y, ok := b.(*XS); ok && *x == *y {
			return
		}
	case *SeqV:
		if y, ok := b.(*SeqV); ok && x.Base == y.Base && x.N == y.N && len(x.Ups) == len(y.Ups) {
			same := true
			for i := range x.Ups {
				if x.Ups[i].Idx != y.Ups[i].Idx || x.Ups[i].V != y.Ups[i].V {
					same = false
				}
			}
			if same {
				return
			}
		}
	}
	*out = append(*out, mloc{o, path})
}

func sameArr(a, b *Ptr) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Obj == b.Obj && len(a.Path) == len(b.Path)
}

// modifiedBelow: is the struct y something other than the opened form of x.
func modifiedBelow(x *Abs, y *StructV) bool {
	st := x.T
	if st.K != xspec.Struct || y.T != st || len(y.F) != len(st.Fields) {
		return true
	}
	for i := range st.Fields {
		want := st.FieldOf(x.A, i)
		switch v := y.F[i].(type) {
		case *Term:
			if v != want {
				return true
			}
		case *Abs:
			if v.A != want {
				return true
			}
		case *StructV:
			if modifiedBelow(&Abs{st.Fields[i].T, want}, v) {
				return true
			}
		case *Slice:
			if v.Arr == nil || len(v.Arr.Obj.Name) < 4 || v.Arr.Obj.Name[:4] != "open" {
				return true
			}
		case *Ptr:
			if v.Obj == nil || len(v.Obj.Name) < 4 || v.Obj.Name[:4] != "open" {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// specAt determines the spec type of a location.
func (s *State) specAt(o *Obj, path []PathEl) *spec.Type {
	var cur *spec.Type = o.Elem
	t := o.Typ
	v := s.mem[o]
	if cur == nil {
		cur = s.x.specOf(t)
	}
	for k := 0; ; k++ {
		switch c := v.(type) {
		case *Abs:
			cur = c.T
		case *StructV:
			if c.T != nil {
				cur = c.T
			}
		case *SeqV:
			if c.T != nil {
				cur = c.T
			}
		}
		if k == len(path) {
			return cur
		}
		el := path[k]
		var nx *spec.Type
		var nv Val
		if el.Idx != nil {
			if cur != nil {
				nx = cur.Elem
			}
			if a, ok := v.(*ArrV); ok {
				if i, ok := el.Idx.Int64(); ok {
					nv = a.E[i]
				}
			}
		} else {
			x, ok := isStruct(t)
			if !ok {
				return nil
			}
			n := x.Field(el.Field).Name()
			if cur != nil {
				if wrapperStruct(t, cur) {
					nx = cur
				}
				for _, f := range cur.Fields {
					if f.GoName == n {
						nx = f.T
					}
				}
				if cur.K == xspec.Union {
					if cur.Disc.GoName == n {
						nx = cur.Disc.T
					}
					for _, a := range cur.Arms {
						if a.Ctor != "" && a.F.GoName == n {
							nx = a.F.T
						}
					}
				}
			}
			if sv, ok := v.(*StructV); ok {
				nv = sv.F[el.Field]
			}
		}
		t = stepType(t, el)
		if nx == nil {
			nx = s.x.specOf(t)
		}
		cur, v = nx, nv
	}
}

// havocVal gives an arbitrary value in place of v.
func (s *State) havocVal(v Val, t types.Type, st *spec.Type, name string) Val {
	switch c := v.(type) {
	case *Term:
		if c.Sort == SBool {
			return Fresh(name, SBool)
		}
		if c.Sort == SBytes {
			return Seqlike(Fresh(name, SBytes))
		}
		return freshInt(name, t)
	case *XS:
		n := *c
		n.OK = Fresh("ok", SBool)
		n.Pos = Ranged(Fresh("pos", SInt), bigZero, nil)
		n.Out = Fresh("out", SBytes)
		return &n
	case *BytesV:
		b := Seqlike(Fresh(name, SBytes))
		s.assume(Eq(Len(b), Len(c.S)))
		return &BytesV{b}
	case *SeqV:
		at := c.T
		if at == nil && st != nil && (st.K == xspec.ArrayVar || st.K == xspec.ArrayFixed) {
			at = st
		}
		if at == nil {
			if e := s.x.specOf(elemOf(t)); e != nil {
				at = arrOf(e)
			}
		}
		if at == nil {
			unsup("loop modifies an array of unknown element type %s", t)
		}
		return &SeqV{T: at, Base: Fresh(name, at.Sort()), N: c.N}
	case *Abs:
		return leaf(&Abs{c.T, s.x.freshOf(c.T, name)})
	case *Slice:
		if st != nil && !st.IsBytes() && st.K != xspec.ArrayVar {
			st = nil
		}
		if st == nil {
			if e := s.x.specOf(elemOf(t)); e != nil {
				st = arrOf(e)
			} else if isByte(elemOf(t)) {
				st = s.x.P.W.Prim(xspec.OpaqueVar, -1)
			}
		}
		if st == nil {
			st = s.x.guessArr(elemOf(t))
		}
		if st == nil {
			unsup("loop modifies a slice of unknown element type %s", t)
		}
		return s.open(&Abs{st, s.x.freshOf(st, name)}, t)
	case *Ptr:
		if st != nil && st.K == xspec.Opt {
			return s.open(&Abs{st, s.x.freshOf(st, name)}, t)
		}
	case *Iface, *FuncV, *Opaque:
		return s.x.freshVal(s, name, t)
	case *StructV:
		if c.T == nil {
			c = &StructV{st, c.F}
		}
		x, ok := isStruct(t)
		if ok {
			r := &StructV{T: c.T, F: make([]Val, len(c.F))}
			for i := range c.F {
				r.F[i] = s.havocVal(c.F[i], x.Field(i).Type(), nil, name)
			}
			return r
		}
	case *MapV:
		return s.x.freshVal(s, name, t)
	case *treeMap:
		if c.fwd == nil {
			return &treeMap{base: Fresh(name, "Dyn")}
		}
	}
	unsup("loop modifies %T of type %s", v, t)
	return nil
}

// guessArr finds an array type of the function's spec type whose Go element
// type matches.
func (x *Exec) guessArr(elem types.Type) *spec.Type {
	if st := x.P.byGo[types.TypeString(elem, nil)]; st != nil {
		return arrOf(st)
	}
	return nil
}

type loopRun struct {
	x      *Exec
	fr     *Frame // frame at entry (identity by depth)
	depth  int
	h      *ssa.BasicBlock
	entry  *State // phis evaluated for the entry edge
	phis   []*ssa.Phi
	locs   []mloc
	lkeys  map[string]bool
	elems  []*spec.Type
	smalls map[string]int64
	fresh  map[string]bool // byte slices that may refer to new memory
}

// bvar is a byte slice that the loop changes.
type bvar struct {
	key string
	loc *mloc
	phi *ssa.Phi
	arr *Ptr // what it refers to at entry
}

func (b *bvar) get(r *loopRun, s *State) *Slice {
	var v Val
	if b.phi != nil {
		v = s.frames[r.depth-1].env[b.phi]
	} else {
		v, _ = s.getRec(s.mem[b.loc.o], b.loc.o.Typ, b.loc.path)
	}
	c, _ := v.(*Slice)
	return c
}

// bvars are the byte slices that the loop changes.
func (r *loopRun) bvars() []*bvar {
	if r.x.hooks.OnlyCands {
		return nil
	}
	var out []*bvar
	add := func(b *bvar, t types.Type) {
		if !isByte(elemOf(t)) {
			return
		}
		if c := b.get(r, r.entry); c != nil && c.Arr != nil && c.Arr.Obj != nil && len(c.Arr.Path) == 0 {
			if _, ok := r.entry.mem[c.Arr.Obj].(*BytesV); !ok {
				return
			}
			b.arr = c.Arr
			out = append(out, b)
		}
	}
	for _, p := range r.phis {
		if _, ok := under(p.Type()).(*types.Slice); ok {
			add(&bvar{key: "phi " + p.Name(), phi: p}, p.Type())
		}
	}
	for i := range r.locs {
		l := r.locs[i]
		t := ptrType(l.o, l.path)
		if _, ok := under(t).(*types.Slice); ok {
			add(&bvar{key: l.key(), loc: &l}, t)
		}
	}
	if len(out) > 3 {
		return nil
	}
	return out
}

// heads are the states that stand for an arbitrary iteration: a byte slice
// refers to the array it referred to at entry, or to new memory.
func (r *loopRun) heads() []*State {
	bs := r.bvars()
	var out []*State
	n := 1 << len(bs)
	for m := 0; m < n; m++ {
		keep := map[string]*bvar{}
		ok := true
		for i, b := range bs {
			if m>>i&1 == 0 {
				keep[b.key] = b
			} else if !r.fresh[b.key] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		st := r.entry.clone()
		r.havoc(st, keep)
		out = append(out, st)
	}
	return out
}

// window is an arbitrary part of the array that b refers to at entry.
func (b *bvar) window(st *State) Val {
	n := Len(st.mem[b.arr.Obj].(*BytesV).S)
	off := Ranged(Fresh("off", SInt), bigZero, MaxSliceLen)
	ln := Ranged(Fresh("len", SInt), bigZero, MaxSliceLen)
	cp := Ranged(Fresh("cap", SInt), bigZero, MaxSliceLen)
	st.assume(Le(ln, cp))
	st.assume(Le(Add(off, cp), n))
	return &Slice{Nil: False, Arr: b.arr, Off: off, Len: ln, Cap: cp}
}

// where a byte slice refers to at the end of an iteration
func (r *loopRun) aliases(b *State) (grown bool) {
	for _, v := range r.bvars() {
		c := v.get(r, b)
		if c == nil || c.Arr == nil {
			continue
		}
		if c.Arr.Obj == v.arr.Obj {
			continue
		}
		if _, ok := r.entry.mem[c.Arr.Obj]; ok {
			unsup("a loop makes a byte slice refer to other memory")
		}
		if !r.fresh[v.key] {
			r.fresh[v.key] = true
			grown = true
		}
	}
	return
}

func (x *Exec) enterInv(s *State, fr *Frame, h *ssa.BasicBlock, key string) {
	x.usedInv = true
	s.undo = s.undo[:0]
	x.phis(s, fr)
	r := &loopRun{x: x, depth: len(s.frames), h: h, entry: s.clone(), lkeys: map[string]bool{}, smalls: map[string]int64{}, fresh: map[string]bool{}}
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r.phis = append(r.phis, p)
		}
	}
	// 1. modified locations
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop modifies too much")
		}
		grown := false
		for _, st := range r.heads() {
			for _, b := range r.body(st) {
				if r.aliases(b) {
					grown = true
				}
				for _, o := range b.objs() {
					v := b.mem[o]
					v0, ok := st.mem[o]
					if !ok {
						continue
					}
					var ds []mloc
					diff(o, nil, v0, v, &ds)
					for _, d := range ds {
						if !r.lkeys[d.key()] && !r.covered(d) {
							r.lkeys[d.key()] = true
							r.locs = append(r.locs, d)
							grown = true
						}
					}
				}
				for g := range b.g {
					if strings.HasPrefix(g, "held:") {
						// locks are held across iterations or not
						if old := st.g[g]; old != b.g[g] && !(old == nil && b.g[g] == Zero) {
							unsup("a lock is held in some iterations only")
						}
						continue
					}
					if b.g[g] != st.g[g] && !r.lkeys["ghost:"+g] {
						r.lkeys["ghost:"+g] = true
						grown = true
					}
				}
			}
		}
		if !grown {
			break
		}
	}
	if os.Getenv("VC_LOOP") != "" {
		for _, l := range r.locs {
			v, _ := r.entry.getRec(r.entry.mem[l.o], l.o.Typ, l.path)
			fmt.Fprintf(os.Stderr, "loop %s: modifies %s %s (%T)\n", key, l.o.Name, l.key(), v)
		}
	}
	// 2. candidate invariants
	heads := r.heads()
	var cands []cand
	all := r.candidates()
	var gs []*Term
	for _, c := range all {
		gs = append(gs, c.f(r.entry))
	}
	for i, ok := range r.entry.provesEach(gs, 3) {
		if ok {
			cands = append(cands, all[i])
		} else if os.Getenv("VC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s: entry drops %s\n", key, all[i].name)
		}
	}
	for round := 0; ; round++ {
		var backs []*State
		for _, head := range heads {
			st := head.clone()
			r.assumeInv(st, cands)
			backs = append(backs, r.body(st)...)
		}
		keep := cands
		for _, b := range backs {
			var gs []*Term
			for _, c := range keep {
				gs = append(gs, c.f(b))
			}
			var left []cand
			for i, ok := range b.provesEach(gs, 4) {
				if ok {
					left = append(left, keep[i])
				} else if os.Getenv("VC_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "loop %s: step drops %s\n", key, keep[i].name)
					if os.Getenv("VC_LOOP") == "2" {
						fmt.Fprintf(os.Stderr, "   goal %v\n", b.simp(gs[i]))
						for _, f := range b.pc {
							fmt.Fprintf(os.Stderr, "   pc %v\n", f)
						}
					}
				}
			}
			keep = left
		}
		if len(keep) == len(cands) {
			break
		}
		cands = keep
	}
	if os.Getenv("VC_LOOP") != "" {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "loop %s: invariant %s\n", key, c.name)
		}
	}
	if x.probe == 0 {
		for _, c := range cands {
			x.Obls = append(x.Obls, &Obligation{Fn: x.Fn, Case: x.Case, Kind: "inv", Msg: key + " invariant (initially and preserved): " + c.name, Goal: True, Status: "proved", Solver: "houdini"})
		}
	}
	// 3. continue from an arbitrary iteration
	for i, head := range heads {
		st := head.clone()
		r.assumeInv(st, cands)
		if x.hooks.LoopIter != nil && x.probe == 0 {
			x.hooks.LoopIter(st, nil, "enter")
		}
		iter0 := st.clone()
		ctx := &loopCtx{header: h, key: key}
		ctx.onBack = func(b *State) bool {
			if x.hooks.LoopIter != nil && x.probe == 0 {
				x.hooks.LoopIter(b, iter0, "back")
			}
			return false
		}
		st.top().loops[h] = ctx
		if i == len(heads)-1 {
			*s = *st
		} else {
			x.work = append(x.work, st)
		}
	}
}

func (r *loopRun) covered(d mloc) bool {
	for i := range d.path {
		if r.lkeys[(mloc{d.o, d.path[:i]}).key()] {
			return true
		}
	}
	return false
}

// body runs one iteration and returns the states at the back edges (phis
// evaluated).
func (r *loopRun) body(st *State) []*State {
	x := r.x
	st = st.clone()
	var backs []*State
	ctx := &loopCtx{header: r.h}
	ctx.onBack = func(b *State) bool {
		if len(b.frames) == r.depth {
			b2 := b.clone()
			b2.top().ip = 0
			x.phis(b2, b2.top())
			backs = append(backs, b2)
		}
		return false
	}
	ctx.onExit = func(b *State) bool { return false }
	fr := st.top()
	fr.loops[r.h] = ctx
	x.probe++
	obl := x.Obls
	x.Run(st, func(*State) {})
	x.Obls = obl
	x.probe--
	return backs
}

func (r *loopRun) havoc(st *State, keep map[string]*bvar) {
	fr := st.top()
	for _, p := range r.phis {
		if b := keep["phi "+p.Name()]; b != nil {
			fr.env[p] = b.window(st)
			continue
		}
		fr.env[p] = r.havocPhi(st, p)
	}
	for _, l := range r.locs {
		if b := keep[l.key()]; b != nil {
			st.mem[l.o] = st.setRec(st.mem[l.o], l.o.Typ, l.path, b.window(st))
			continue
		}
		t := ptrType(l.o, l.path)
		v, _ := st.getRec(st.mem[l.o], l.o.Typ, l.path)
		sp := r.entry.specAt(l.o, l.path)
		if len(l.path) == 0 {
			if sl := r.sliceSpec(l.o); sl != nil {
				sp = sl
			}
		}
		nv := st.havocVal(v, t, sp, "lp_"+l.o.Name)
		st.mem[l.o] = st.setRec(st.mem[l.o], l.o.Typ, l.path, nv)
	}
	for k := range r.lkeys {
		if len(k) > 6 && k[:6] == "ghost:" {
			g := k[6:]
			if strings.HasPrefix(g, "held:") {
				continue
			}
			if old := st.g[g]; old != nil && old.Sort == SBool {
				st.g[g] = Fresh(g, SBool)
			} else {
				st.g[g] = Ranged(Fresh(g, SInt), bigZero, nil)
			}
		}
	}
	st.undo = st.undo[:0]
}

// sliceSpec finds the spec type of the backing array o through the slices
// that refer to it.
func (r *loopRun) sliceSpec(o *Obj) *spec.Type {
	var found *spec.Type
	s := r.entry
	var walk func(ob *Obj, path []PathEl, v Val)
	walk = func(ob *Obj, path []PathEl, v Val) {
		switch c := v.(type) {
		case *StructV:
			for i, f := range c.F {
				walk(ob, append(append([]PathEl{}, path...), PathEl{Field: i}), f)
			}
		case *Slice:
			if c.Arr != nil && c.Arr.Obj == o && ob != o {
				if sp := s.specAt(ob, path); sp != nil {
					found = sp
				}
			}
		}
	}
	for _, ob := range s.objs() {
		v := s.mem[ob]
		walk(ob, nil, v)
	}
	return found
}

func (r *loopRun) havocPhi(st *State, p *ssa.Phi) Val {
	v := r.entry.top().env[p]
	return st.havocVal(v, p.Type(), nil, "phi_"+p.Comment)
}

func (r *loopRun) assumeInv(st *State, cs []cand) {
	for _, c := range cs {
		if c.pre != nil {
			c.pre(st)
		}
	}
	for _, c := range cs {
		st.assume(c.f(st))
	}
	for _, c := range cs {
		if c.def != nil {
			c.def(st)
		}
	}
	// one-step unfoldings of the array spec functions at the current count
	for _, e := range r.elemTypes() {
		for k := int64(0); k <= r.small(e); k++ {
			for _, o := range r.xsObjs() {
				x0 := r.entry.mem[o].(*XS)
				for _, d := range e.SmallDec(x0.W, x0.Pos, k) {
					st.define(d)
				}
			}
			for _, c := range r.arrays(e) {
				for _, d := range e.SmallEnc(c, k) {
					st.define(d)
				}
			}
		}
		for _, k := range r.counters(st) {
			for _, o := range r.xsObjs() {
				x0 := r.entry.mem[o].(*XS)
				for _, d := range e.DecArrStep(x0.W, x0.Pos, k) {
					st.define(d)
				}
			}
			for _, c := range r.arrays(e) {
				for _, d := range e.EncArrStep(arrOf(e), c, k) {
					st.define(d)
				}
			}
		}
	}
	st.undo = st.undo[:0]
}

// define assumes an equation and uses it as a rewrite rule left to right.
func (s *State) define(eq *Term) {
	if eq.Op != "=" {
		s.assume(eq)
		return
	}
	s.pc = append(s.pc, eq)
	l, rr := eq.Args[0], eq.Args[1]
	isArr := func(t *Term) bool { return t.Op == "app" && len(t.Args) > 0 }
	next := func(t *Term) bool { // the instance at k+1
		return isArr(t) && t.Args[len(t.Args)-1].Op == "+"
	}
	if next(rr) && !next(l) {
		l, rr = rr, l
	}
	if next(l) {
		s.lits[l] = rr
	}
}

// elemTypes are the element types of arrays within the verified type.
func (r *loopRun) elemTypes() []*spec.Type {
	if r.elems != nil || r.x.topT == nil {
		return r.elems
	}
	seen := map[string]bool{}
	var rec func(t *spec.Type, top bool)
	rec = func(t *spec.Type, top bool) {
		if t == nil || seen[t.Key] {
			return
		}
		switch t.K {
		case xspec.Opt:
			rec(t.Elem, false)
			return
		}
		if t.Named && !top {
			return
		}
		if t.K == xspec.ArrayFixed || t.K == xspec.ArrayVar {
			if t.K == xspec.ArrayFixed && t.N <= spec.SmallArr && t.N > r.smalls[t.Elem.Key] {
				r.smalls[t.Elem.Key] = t.N
			}
			if !seen["e:"+t.Elem.Key] {
				seen["e:"+t.Elem.Key] = true
				r.elems = append(r.elems, t.Elem)
			}
			rec(t.Elem, false)
			return
		}
		for _, f := range t.Fields {
			rec(f.T, false)
		}
		for _, a := range t.Arms {
			rec(a.F.T, false)
		}
	}
	rec(r.x.topT, true)
	return r.elems
}

// small is the largest size of a short fixed array with elements e.
func (r *loopRun) small(e *spec.Type) int64 { return r.smalls[e.Key] }

func (r *loopRun) xsObjs() []*Obj {
	var out []*Obj
	for _, l := range r.locs {
		if len(l.path) == 0 {
			if _, ok := r.entry.mem[l.o].(*XS); ok {
				out = append(out, l.o)
			}
		}
	}
	return out
}

// arrays are the array values of element type e present at loop entry.
func (r *loopRun) arrays(e *spec.Type) []*Term {
	sort := arrOf(e).Sort()
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if t != nil && t.Sort == sort && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	var walk func(v Val)
	walk = func(v Val) {
		switch c := v.(type) {
		case *Abs:
			add(c.A)
		case *SeqV:
			add(c.Base)
		case *StructV:
			for _, f := range c.F {
				walk(f)
			}
		}
	}
	for _, o := range r.entry.objs() {
		walk(r.entry.mem[o])
	}
	return out
}

// objs are the objects of the memory in order of creation.
func (s *State) objs() []*Obj {
	var objs []*Obj
	for o := range s.mem {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	return objs
}

// counters: the number of completed iterations, from each counting phi.
func (r *loopRun) counters(s *State) []*Term {
	var out []*Term
	fr := s.frames[r.depth-1]
	for _, p := range r.phis {
		if _, _, ok := intBounds(p.Type()); !ok {
			continue
		}
		v := fr.env[p].(*Term)
		e := r.entry.top().env[p].(*Term)
		out = append(out, Sub(v, e))
		if os.Getenv("VC_DESC") != "" || r.descending(p) {
			out = append(out, Sub(e, v))
		}
	}
	return out
}

func (r *loopRun) descending(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.SUB && b.X == p {
			return true
		}
	}
	return false
}

func (r *loopRun) candidates() []cand {
	var cs []cand
	add := func(n string, f func(s *State) *Term) { cs = append(cs, cand{name: n, f: f}) }
	x := r.x
	if x.hooks.LoopCands != nil {
		fs := x.hooks.LoopCands
		n := len(fs(r.entry, nil))
		for i := 0; i < n; i++ {
			i := i
			add(fmt.Sprintf("contract candidate %d", i), func(s *State) *Term { return fs(s, nil)[i] })
		}
		if x.hooks.OnlyCands {
			return cs
		}
	}
	li := x.P.loops(r.entry.top().fn)
	body := li.body[r.h]
	entryEnv := r.entry.top().env
	// comparison operands
	var bounds []ssa.Value
	seenB := map[ssa.Value]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if _, _, isInt := intBounds(v.Type()); !isInt {
							continue
						}
						if _, isC := v.(*ssa.Const); isC || entryEnv[v] != nil {
							if _, isPhi := v.(*ssa.Phi); isPhi && body[v.(*ssa.Phi).Block()] {
								continue
							}
							if !seenB[v] {
								seenB[v] = true
								bounds = append(bounds, v)
							}
						}
					}
				}
			}
		}
	}
	env := func(s *State, v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			return x.constVal(s, c).(*Term)
		}
		return s.frames[r.depth-1].env[v].(*Term)
	}
	for _, p := range r.phis {
		p := p
		if _, _, ok := intBounds(p.Type()); ok {
			e := entryEnv[p].(*Term)
			c := cand{name: p.Comment + " >= initial", f: func(s *State) *Term { return Le(e, env(s, p)) }}
			if e.Op == "int" {
				c.pre = func(s *State) {
					v := env(s, p)
					if v.Op == "var" && (v.Lo == nil || v.Lo.Cmp(e.Val) < 0) {
						s.frames[r.depth-1].env[p] = Ranged(Fresh("phi_"+p.Comment, SInt), e.Val, v.Hi)
					}
				}
			}
			cs = append(cs, c)
			add(p.Comment+" <= initial", func(s *State) *Term { return Le(env(s, p), e) })
			add(p.Comment+" >= 0", func(s *State) *Term { return Le(Zero, env(s, p)) })
			for _, b := range bounds {
				b := b
				add(p.Comment+" <= "+b.Name(), func(s *State) *Term { return Le(env(s, p), env(s, b)) })
				add(p.Comment+" < "+b.Name(), func(s *State) *Term { return Lt(env(s, p), env(s, b)) })
				add(p.Comment+" >= "+b.Name(), func(s *State) *Term { return Ge(env(s, p), env(s, b)) })
			}
			// bounds given by lengths loaded inside the loop
			for _, n := range r.lenTerms() {
				n := n
				add(p.Comment+" <= "+n.String(), func(s *State) *Term { return Le(env(s, p), n) })
				add(p.Comment+" < "+n.String(), func(s *State) *Term { return Lt(env(s, p), n) })
			}
		}
	}
	type cnt struct {
		n int
		f func(s *State) *Term
	}
	var cnts []cnt
	for i := range r.counters(r.entry) {
		i := i
		cnts = append(cnts, cnt{i, func(s *State) *Term { return r.counters(s)[i] }})
	}
	for _, o := range r.xsObjs() {
		o := o
		x0 := r.entry.mem[o].(*XS)
		cur := func(s *State) *XS { return s.mem[o].(*XS) }
		add("stream state unchanged", func(s *State) *Term { return Eq(cur(s).OK, x0.OK) })
		add("stream still good", func(s *State) *Term { return cur(s).OK })
		add("stream position unchanged", func(s *State) *Term { return Eq(cur(s).Pos, x0.Pos) })
		add("output unchanged", func(s *State) *Term { return Eq(cur(s).Out, x0.Out) })
		add("output extended", func(s *State) *Term { return s.prefixOf(x0.Out, cur(s).Out) })
		add("output unchanged when decoding", func(s *State) *Term { return Implies(x0.Reader, Eq(cur(s).Out, x0.Out)) })
		add("failed stream stays failed", func(s *State) *Term { return Or(x0.OK, Not(cur(s).OK)) })
		add("failed stream keeps position", func(s *State) *Term { return Or(x0.OK, Eq(cur(s).Pos, x0.Pos)) })
		add("failed stream keeps output", func(s *State) *Term { return Or(x0.OK, Eq(cur(s).Out, x0.Out)) })
		for _, e := range r.elemTypes() {
			e := e
			for _, c := range cnts {
				c := c
				nm := fmt.Sprintf("[%s, counter %d]", e.Key, c.n)
				add("decoded ok"+nm, func(s *State) *Term {
					return Implies(And(x0.OK, x0.Reader), Eq(cur(s).OK, e.OkArr(x0.W, x0.Pos, c.f(s))))
				})
				add("decode position"+nm, func(s *State) *Term {
					return Implies(And(cur(s).OK, x0.Reader), Eq(cur(s).Pos, e.EndArr(x0.W, x0.Pos, c.f(s))))
				})
				for _, arr := range r.arrays(e) {
					arr := arr
					add("encoded ok"+nm, func(s *State) *Term {
						return Implies(And(x0.OK, Not(x0.Reader)), Eq(cur(s).OK, e.WfArr(arr, c.f(s))))
					})
					add("encoded bytes"+nm, func(s *State) *Term {
						return Implies(And(cur(s).OK, Not(x0.Reader)), Eq(cur(s).Out, Concat(x0.Out, e.EncArr(arr, c.f(s)))))
					})
				}
				for _, l := range r.locs {
					l := l
					content := func(s *State) (elem func(j *Term) *Term, n *Term, base *Term) { return r.seqAt(s, l, e) }
					if el, _, _ := content(r.entry); el == nil {
						continue
					}
					add("decoded elements"+nm+l.key(), func(s *State) *Term {
						el, _, base := content(s)
						if el == nil {
							return False
						}
						j := BVar("j", SInt)
						var pats []*Term
						if base != nil && base.Op == "var" {
							pats = []*Term{App("at:"+e.Key, e.Sort(), base, j)}
						}
						return Implies(And(cur(s).OK, x0.Reader), Forall([]*Term{j}, pats, Implies(And(Le(Zero, j), Lt(j, c.f(s))),
							Eq(el(j), e.Val(x0.W, e.EndArr(x0.W, x0.Pos, j), false)))))
					})
					add("decoded count"+nm+l.key(), func(s *State) *Term {
						_, n, _ := content(s)
						if n == nil {
							return False
						}
						return Implies(x0.Reader, Eq(n, c.f(s)))
					})
					add("decoded count when ok"+nm+l.key(), func(s *State) *Term {
						_, n, _ := content(s)
						if n == nil {
							return False
						}
						return Implies(And(cur(s).OK, x0.Reader), Eq(n, c.f(s)))
					})
					add("array unchanged when encoding"+nm+l.key(), func(s *State) *Term {
						_, _, b := content(s)
						_, _, b0 := content(r.entry)
						if b == nil || b0 == nil {
							return False
						}
						return Or(x0.Reader, Eq(b, b0))
					})
				}
			}
		}
	}
	for _, l := range r.locs {
		l := l
		v0, _ := r.entry.getRec(r.entry.mem[l.o], l.o.Typ, l.path)
		if t0, ok := v0.(*Term); ok {
			add("unchanged "+l.key(), func(s *State) *Term {
				v, _ := s.getRec(s.mem[l.o], l.o.Typ, l.path)
				if t, ok := v.(*Term); ok {
					return Eq(t, t0)
				}
				return False
			})
			for _, o := range r.xsObjs() {
				o := o
				add("unchanged while ok "+l.key(), func(s *State) *Term {
					v, _ := s.getRec(s.mem[l.o], l.o.Typ, l.path)
					if t, ok := v.(*Term); ok {
						return Implies(s.mem[o].(*XS).OK, Eq(t, t0))
					}
					return False
				})
			}
		}
		if a0, ok := v0.(*Abs); ok {
			add("content unchanged "+l.key(), func(s *State) *Term {
				v, _ := s.getRec(s.mem[l.o], l.o.Typ, l.path)
				return s.identicalQ(v, a0.T, a0.A)
			})
		}
		if b0, ok := v0.(*BytesV); ok {
			add("bytes unchanged "+l.key(), func(s *State) *Term {
				v, _ := s.getRec(s.mem[l.o], l.o.Typ, l.path)
				return Eq(v.(*BytesV).S, b0.S)
			})
		}
	}
	r.byteCands(add, func(n string, f func(s *State) *Term, def func(s *State)) {
		cs = append(cs, cand{name: n, f: f, def: def})
	})
	var gs []string
	for k := range r.lkeys {
		if len(k) > 6 && k[:6] == "ghost:" && r.entry.g[k[6:]] != nil && r.entry.g[k[6:]].Sort == SInt {
			gs = append(gs, k[6:])
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		for i := range r.counters(r.entry) {
			g, i := g, i
			add(fmt.Sprintf("ghost %s counts iterations (%d)", g, i), func(s *State) *Term {
				return Eq(Sub(s.g[g], r.entry.g[g]), r.counters(s)[i])
			})
		}
	}
	return cs
}

// byteCands are candidates about byte slices that the loop appends to or
// consumes, and about byte arrays that it fills.
func (r *loopRun) byteCands(add func(n string, f func(s *State) *Term), addDef func(n string, f func(s *State) *Term, def func(s *State))) {
	if r.x.hooks.OnlyCands {
		return
	}
	e := r.entry
	// byte strings in scope
	type src struct {
		n string
		t *Term
	}
	var srcs []src
	var dsts []*Slice
	seen := map[*Term]bool{}
	addSrc := func(n string, t *Term) {
		if t.Sort == SBytes && !seen[t] && t != Empty {
			seen[t] = true
			srcs = append(srcs, src{n, t})
		}
	}
	var vals func(n string, v Val, d int)
	vals = func(n string, v Val, d int) {
		switch c := v.(type) {
		case *Term:
			addSrc(n, c)
		case *Slice:
			if c.Arr != nil && c.Arr.Obj != nil && len(c.Arr.Path) == 0 {
				if _, ok := e.mem[c.Arr.Obj].(*BytesV); ok {
					addSrc(n, e.bytesOf(c))
					dsts = append(dsts, c)
				}
			}
		case *StructV:
			for i, f := range c.F {
				vals(fmt.Sprintf("%s.%d", n, i), f, d)
			}
		case *Ptr:
			if c.Obj != nil && d < 2 && len(c.Path) == 0 {
				vals("*"+n, e.mem[c.Obj], d+1)
			}
		}
	}
	fr := e.frames[r.depth-1]
	var names []ssa.Value
	for v := range fr.env {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, v := range names {
		vals(v.Name(), fr.env[v], 0)
	}
	bvs := r.bvars()
	changed := map[*Obj]bool{}
	for _, l := range r.locs {
		if _, ok := e.mem[l.o].(*BytesV); ok && len(l.path) == 0 {
			changed[l.o] = true
		}
	}
	if len(bvs) == 0 && len(changed) == 0 || len(srcs) > 6 {
		return
	}
	nc := len(r.counters(e))
	inRange := func(s *State, i int, t *Term) *Term {
		k := r.counters(s)[i]
		if t == nil {
			return Le(Zero, k)
		}
		return And(Le(Zero, k), Le(k, Len(t)))
	}
	for _, b := range bvs {
		b := b
		c0 := b.get(r, e)
		t0 := e.bytesOf(c0)
		same := func(f func(s *State, c *Slice) *Term) func(s *State) *Term {
			return func(s *State) *Term {
				c := b.get(r, s)
				if c == nil || c.Arr == nil {
					return False
				}
				if c.Arr.Obj != b.arr.Obj {
					return True
				}
				return f(s, c)
			}
		}
		add("same start "+b.key, same(func(s *State, c *Slice) *Term { return Eq(c.Off, c0.Off) }))
		add("same end "+b.key, same(func(s *State, c *Slice) *Term { return Eq(Add(c.Off, c.Len), Add(c0.Off, c0.Len)) }))
		add("same capacity "+b.key, same(func(s *State, c *Slice) *Term { return Eq(Add(c.Off, c.Cap), Add(c0.Off, c0.Cap)) }))
		add("not before "+b.key, same(func(s *State, c *Slice) *Term { return Le(c0.Off, c.Off) }))
		add("longer "+b.key, func(s *State) *Term { return Le(c0.Len, b.get(r, s).Len) })
		for i := 0; i < nc; i++ {
			i := i
			add(fmt.Sprintf("grows by counter %d %s", i, b.key), func(s *State) *Term {
				return Eq(b.get(r, s).Len, Add(c0.Len, r.counters(s)[i]))
			})
			add(fmt.Sprintf("start advances by counter %d %s", i, b.key), same(func(s *State, c *Slice) *Term {
				return Eq(c.Off, Add(c0.Off, r.counters(s)[i]))
			}))
			for _, sr := range append(srcs[:len(srcs):len(srcs)], src{"zeros", nil}) {
				sr := sr
				piece := func(s *State) *Term {
					if sr.t == nil {
						return Zeros(r.counters(s)[i])
					}
					return Extract(sr.t, Zero, r.counters(s)[i])
				}
				addDef(fmt.Sprintf("appended %s, counter %d %s", sr.n, i, b.key), func(s *State) *Term {
					return And(inRange(s, i, sr.t), Eq(s.merged(s.bytesOf(b.get(r, s))), Concat(t0, piece(s))))
				}, func(s *State) { b.define(r, s, c0, t0, piece(s)) })
			}
		}
		add("content extended "+b.key, func(s *State) *Term { return e.prefixOf(t0, s.bytesOf(b.get(r, s))) })
		// what was there when the loop began stays
		if changed[b.arr.Obj] {
			o := b.arr.Obj
			n := Add(c0.Off, c0.Len)
			old := Extract(e.mem[o].(*BytesV).S, Zero, n)
			add("array unchanged before the end "+b.key, func(s *State) *Term {
				return Eq(Extract(s.mem[o].(*BytesV).S, Zero, n), old)
			})
		}
	}
	for _, d := range dsts {
		d := d
		if !changed[d.Arr.Obj] {
			continue
		}
		o := d.Arr.Obj
		old := e.mem[o].(*BytesV).S
		for i := 0; i < nc; i++ {
			i := i
			for _, sr := range append(srcs[:len(srcs):len(srcs)], src{"zeros", nil}) {
				sr := sr
				addDef(fmt.Sprintf("filled from %s, counter %d %s", sr.n, i, o.Name), func(s *State) *Term {
					k := r.counters(s)[i]
					at := Add(d.Off, k)
					v := Zeros(k)
					if sr.t != nil {
						v = Extract(sr.t, Zero, k)
					}
					return And(inRange(s, i, sr.t), Le(k, d.Len), Eq(s.merged(s.mem[o].(*BytesV).S), Concat(Extract(old, Zero, d.Off), v, Extract(old, at, Sub(Len(old), at)))))
				}, func(s *State) {
					if s.mem[o].(*BytesV).S.Op != "var" {
						return
					}
					k := r.counters(s)[i]
					at := Add(d.Off, k)
					v := Zeros(k)
					if sr.t != nil {
						v = Extract(sr.t, Zero, k)
					}
					s.mem[o] = &BytesV{Concat(Extract(old, Zero, d.Off), v, Extract(old, at, Sub(Len(old), at)))}
				})
			}
		}
	}
}

// define states the content of b in a state in which it is t0 (of c0, at
// entry) followed by piece.
func (b *bvar) define(r *loopRun, s *State, c0 *Slice, t0, piece *Term) {
	c := b.get(r, s)
	rhs := Concat(t0, piece)
	set := func(c *Slice) {
		if b.phi != nil {
			s.frames[r.depth-1].env[b.phi] = c
		} else {
			s.mem[b.loc.o] = s.setRec(s.mem[b.loc.o], b.loc.o.Typ, b.loc.path, c)
		}
	}
	cur, ok := s.mem[c.Arr.Obj].(*BytesV)
	if !ok {
		return
	}
	if c.Arr.Obj != b.arr.Obj {
		if c.Off == Zero && c.Len == Len(cur.S) && cur.S.Op == "var" {
			s.mem[c.Arr.Obj] = &BytesV{rhs}
			set(&Slice{Nil: c.Nil, Arr: c.Arr, Off: Zero, Len: Len(rhs), Cap: Len(rhs)})
		}
		return
	}
	if cur.S.Op != "var" || !s.proves(And(Eq(c.Off, c0.Off), Eq(c.Len, Len(rhs))), 1) {
		return
	}
	o := c.Arr.Obj
	e0 := Add(c0.Off, c0.Len)
	pre := Extract(cur.S, Zero, e0)
	if old := Extract(r.entry.mem[o].(*BytesV).S, Zero, e0); s.proves(Eq(pre, old), 1) {
		pre = old
	}
	at := Add(e0, Len(piece))
	s.mem[o] = &BytesV{Concat(pre, piece, Extract(cur.S, at, Sub(Len(cur.S), at)))}
	cp := c.Cap
	if s.proves(Eq(cp, c0.Cap), 1) {
		cp = c0.Cap
	}
	set(&Slice{Nil: c.Nil, Arr: c.Arr, Off: c0.Off, Len: Len(rhs), Cap: cp})
}

// merged joins a part of a string and its next byte.
func (s *State) merged(t *Term) *Term {
	if t.Op != "++" {
		return t
	}
	out := []*Term{}
	for _, p := range t.Args {
		if len(out) > 0 && p.Op == "unit" && p.Args[0].Op == "seq.nth" || len(out) > 0 && p.Op == "unit" && p.Args[0].Op == "nth" {
			q, n := out[len(out)-1], p.Args[0]
			if q.Op == "extract" && q.Args[0] == n.Args[0] && s.simp(Add(q.Args[1], q.Args[2])) == s.simp(n.Args[1]) &&
				s.proves(And(Le(Zero, q.Args[1]), Le(Zero, q.Args[2]), Lt(n.Args[1], Len(n.Args[0]))), 1) {
				out[len(out)-1] = Extract(q.Args[0], q.Args[1], Add(q.Args[2], One))
				continue
			}
		}
		out = append(out, p)
	}
	return Concat(out...)
}

// lenTerms are lengths of slices visible at entry.
func (r *loopRun) lenTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch c := v.(type) {
		case *Slice:
			if c.Arr != nil && !seen[c.Len] {
				seen[c.Len] = true
				out = append(out, c.Len)
			}
		case *StructV:
			for _, f := range c.F {
				walk(f)
			}
		case *Abs:
			if c.T.K == xspec.ArrayVar {
				n := c.T.ArrLen(c.A)
				if !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		case *Term:
		}
	}
	for _, o := range r.entry.objs() {
		v := r.entry.mem[o]
		if t, ok := v.(*Term); ok && t.Sort == SInt && !seen[t] {
			seen[t] = true
			out = append(out, t)
			continue
		}
		walk(v)
	}
	fr := r.entry.top()
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && fr.env[v] != nil {
				walk(fr.env[v])
			}
		}
	}
	for _, p := range fr.fn.Params {
		walk(fr.env[p])
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return out
}

// seqAt views location l as a sequence of element type e.
func (r *loopRun) seqAt(s *State, l mloc, e *spec.Type) (elem func(j *Term) *Term, n *Term, base *Term) {
	var v Val
	func() {
		defer func() {
			if rec := recover(); rec != nil {
				v = nil
			}
		}()
		v, _ = s.getRec(s.mem[l.o], l.o.Typ, l.path)
	}()
	if v == nil {
		return nil, nil, nil
	}
	return s.seqView(v, e)
}

// seqView views a slice / sequence value as elements of type e.
func (s *State) seqView(v Val, e *spec.Type) (elem func(j *Term) *Term, n *Term, base *Term) {
	switch c := v.(type) {
	case *Abs:
		if (c.T.K == xspec.ArrayVar || c.T.K == xspec.ArrayFixed) && c.T.Elem.Sort() == e.Sort() && c.T.Elem.Key == e.Key {
			return func(j *Term) *Term { return c.T.At(c.A, j) }, c.T.ArrLen(c.A), c.A
		}
	case *Slice:
		if c.Arr == nil {
			return func(j *Term) *Term { return e.Typed(App("nilat:"+e.Key, e.Sort(), j)) }, Zero, nil
		}
		if len(c.Arr.Path) > 0 || c.Off != Zero {
			return nil, nil, nil
		}
		el, _, b := s.seqView(s.mem[c.Arr.Obj], e)
		return el, c.Len, b
	case *SeqV:
		if c.T != nil && c.T.Elem.Key != e.Key {
			return nil, nil, nil
		}
		ups := c.Ups
		f := func(j *Term) *Term {
			var r *Term
			if c.Base != nil {
				r = arrOf(e).At(c.Base, j)
			} else {
				r = e.Typed(App("zeroat:"+e.Key, e.Sort(), j))
			}
			for _, u := range ups {
				a := s.tryAlpha(u.V, e)
				if a == nil {
					return nil
				}
				r = Ite(Eq(j, u.Idx), a, r)
			}
			return r
		}
		if f(Zero) == nil {
			return nil, nil, nil
		}
		return f, c.N, c.Base
	case *BytesV, *ArrV:
	}
	return nil, nil, nil
}

func (s *State) tryAlpha(v Val, e *spec.Type) (r *Term) {
	defer func() {
		if rec := recover(); rec != nil {
			r = nil
		}
	}()
	return s.alpha(v, e)
}
