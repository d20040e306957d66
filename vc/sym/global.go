package sym

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	. "verif/vc/smt"
)

// Package-level variables that nothing but the initialisation of their package
// writes to hold their initial value. This is decided from the whole program:
// every use of the variable's address is followed.

// constInit: the initialiser of such a variable; nil when it may change.
type constInit struct {
	ok     bool
	weak   bool         // provided the functions under contract do not write to it
	stores []*ssa.Store // in order
}

func (p *Prog) constGlobal(g *ssa.Global) *constInit {
	if p.gconst == nil {
		p.gconst = map[*ssa.Global]*constInit{}
		get := func(g *ssa.Global) *constInit {
			c := p.gconst[g]
			if c == nil {
				c = &constInit{ok: true}
				p.gconst[g] = c
			}
			return c
		}
		for fn := range ssautil.AllFunctions(p.SSA) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var rs [12]*ssa.Value
					for _, op := range in.Operands(rs[:0]) {
						if op == nil || *op == nil {
							continue
						}
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						c := get(g)
						u := &useScan{p: p, g: g, seen: map[ssa.Value]bool{}}
						if !u.addr(in, g) {
							c.ok = false
						}
						if u.weak {
							c.weak = true
							if !p.onlyVerified(g, in.Parent()) {
								c.ok = false
							}
						}
					}
				}
			}
		}
		// the stores of package initialisation, in order
		for _, pk := range p.SSA.AllPackages() {
			init := pk.Func("init")
			if init == nil {
				continue
			}
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, _ := rootGlobal(st.Addr); g != nil {
							get(g).stores = append(get(g).stores, st)
						}
					}
				}
			}
		}
	}
	c := p.gconst[g]
	if c == nil || !c.ok || g.Pkg == nil || !p.Inline[g.Pkg.Pkg.Path()] {
		return nil
	}
	return c
}

// rootGlobal resolves an address within a variable.
func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	switch a := v.(type) {
	case *ssa.Global:
		return a, true
	case *ssa.FieldAddr:
		return rootGlobal(a.X)
	case *ssa.IndexAddr:
		return rootGlobal(a.X)
	}
	return nil, false
}

type useScan struct {
	p    *Prog
	g    *ssa.Global
	seen map[ssa.Value]bool
	weak bool // a copy or an append may write to it: the verifier decides
}

// onlyVerified: every execution of fn is one of a function that is verified
// for all inputs, in which each write to g is an obligation that fails.
func (p *Prog) onlyVerified(g *ssa.Global, fn *ssa.Function) bool {
	if g.Object() == nil || g.Object().Exported() || p.Verified == nil || g.Pkg == nil {
		return false
	}
	path := g.Pkg.Pkg.Path()
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if seen[f] || f == g.Pkg.Func("init") {
			return true
		}
		seen[f] = true
		if f.Pkg != g.Pkg || f.Parent() != nil {
			return false
		}
		n := f.Name()
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if nt, ok := t.(*types.Named); ok {
				n = nt.Obj().Name() + "." + n
			}
		}
		if p.Verified[path+"."+n] {
			return true
		}
		if f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil {
			return false
		}
		for h := range ssautil.AllFunctions(p.SSA) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					var rs [12]*ssa.Value
					for _, op := range in.Operands(rs[:0]) {
						if op == nil || *op != ssa.Value(f) {
							continue
						}
						c, ok := in.(ssa.CallInstruction)
						if !ok || c.Common().StaticCallee() != f {
							return false
						}
						for _, a := range c.Common().Args {
							if a == ssa.Value(f) {
								return false
							}
						}
						if !up(h) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return up(fn)
}

// WeakGlobals: package variables are taken to be constant because the
// functions under contract are shown not to write to them.
func (p *Prog) WeakGlobals() bool {
	for _, k := range p.Pkgs {
		for _, m := range k.Members {
			if g, ok := m.(*ssa.Global); ok {
				if c := p.constGlobal(g); c != nil && c.weak {
					return true
				}
			}
		}
	}
	return false
}

func (u *useScan) isInit(fn *ssa.Function) bool {
	return u.g.Pkg != nil && fn == u.g.Pkg.Func("init")
}

// addr: the instruction uses address v without changing what is there.
func (u *useScan) addr(in ssa.Instruction, v ssa.Value) bool {
	switch i := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		return u.value(i)
	case *ssa.Store:
		return i.Addr == v && i.Val != v && u.isInit(i.Parent())
	case *ssa.FieldAddr:
		return u.addrs(i)
	case *ssa.IndexAddr:
		return u.addrs(i)
	case *ssa.Slice:
		return u.value(i)
	case *ssa.Phi:
		return u.addrs(i)
	case *ssa.BinOp:
		return true
	case *ssa.Call:
		return u.call(i.Common(), v, true)
	case *ssa.Defer:
		return u.call(i.Common(), v, true)
	}
	return false
}

func (u *useScan) addrs(v ssa.Value) bool {
	if u.seen[v] {
		return true
	}
	u.seen[v] = true
	for _, r := range *v.Referrers() {
		if !u.addr(r, v) {
			return false
		}
	}
	return true
}

// refs: values of the type refer to memory that could be changed through them.
func refs(t types.Type) bool {
	switch c := t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < c.NumFields(); i++ {
			if refs(c.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs(c.Elem())
	}
	return true
}

// value: nothing changes the memory that value v refers to.
func (u *useScan) value(v ssa.Value) bool {
	if !refs(v.Type()) || u.seen[v] {
		return true
	}
	u.seen[v] = true
	for _, r := range *v.Referrers() {
		ok := false
		switch i := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.Lookup:
			ok = true
		case *ssa.Range:
			ok = true
		case *ssa.FieldAddr:
			ok = u.addrs(i)
		case *ssa.IndexAddr:
			ok = u.addrs(i)
		case *ssa.UnOp:
			ok = u.value(i)
		case *ssa.Slice:
			ok = u.value(i)
		case *ssa.Phi:
			ok = u.value(i)
		case *ssa.Field:
			ok = u.value(i)
		case *ssa.Index:
			ok = u.value(i)
		case *ssa.ChangeType:
			ok = u.value(i)
		case *ssa.Convert:
			ok = u.value(i)
		case *ssa.Call:
			ok = u.call(i.Common(), v, false)
		case *ssa.Defer:
			ok = u.call(i.Common(), v, false)
		}
		if !ok {
			return false
		}
	}
	return true
}

var readOnly = map[string]bool{
	"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.Contains": true, "bytes.IndexByte": true,
	"(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint64": true,
	"(*sync.Pool).Get": true, "(*sync.Pool).Put": true, "encoding/binary.Size": true, "crypto/subtle.ConstantTimeCompare": true,
}

func (u *useScan) call(c *ssa.CallCommon, v ssa.Value, isAddr bool) bool {
	if c.IsInvoke() {
		// io.Writer: Write must not modify the slice
		return c.Value != v && c.Method.Name() == "Write"
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			return true
		case "copy", "append":
			if len(c.Args) == 2 && c.Args[0] == v {
				if b.Name() == "append" {
					return false // the result may share the memory
				}
				u.weak = true
			}
			return len(c.Args) == 2
		}
		return false
	}
	fn := c.StaticCallee()
	if fn == nil {
		return false
	}
	if readOnly[fn.String()] {
		return true
	}
	if !u.p.Inlinable(fn) {
		return false
	}
	for i, a := range c.Args {
		if a == v {
			if isAddr && !u.addrs(fn.Params[i]) || !isAddr && !u.value(fn.Params[i]) {
				return false
			}
		}
	}
	return true
}

type noInit struct{}

// initGlobal is the initial value of a variable that never changes; nil when
// it is outside what is evaluated.
func (x *Exec) initGlobal(s *State, g *ssa.Global, t types.Type) (v Val) {
	c := x.P.constGlobal(g)
	if c == nil {
		return nil
	}
	acc, nu := x.hooks.Access, len(s.undo)
	x.hooks.Access = nil
	x.probe++
	defer func() {
		x.probe--
		x.hooks.Access = acc
		if len(s.undo) > nu {
			s.undo = s.undo[:nu]
		}
		if r := recover(); r != nil {
			switch r.(type) {
			case noInit, unsupported:
				v = nil
				return
			}
			panic(r)
		}
	}()
	x.weakInit = c.weak
	defer func() { x.weakInit = false }()
	return x.initContent(s, g, t, c.stores, g)
}

func (x *Exec) weakGlobal(g *ssa.Global) bool {
	c := x.P.constGlobal(g)
	return c != nil && c.weak
}

// keepsConst: the memory of a variable taken to be constant is not changed.
func (s *State) keepsConst(o *Obj, old, v Val) {
	if s.x.probe > 0 {
		return
	}
	msg := o.Name + ", which the functions of the package take to be constant, is not modified"
	if a, ok := old.(*BytesV); ok {
		if b, ok := v.(*BytesV); ok {
			s.oblige("global", Eq(a.S, b.S), msg)
			return
		}
	}
	var ds []mloc
	diff(o, nil, old, v, &ds)
	if len(ds) > 0 {
		s.oblige("global", False, msg)
	}
}

// initContent assembles what the stores leave at an address.
func (x *Exec) initContent(s *State, root ssa.Value, t types.Type, stores []*ssa.Store, g *ssa.Global) Val {
	if len(stores) == 1 && stores[0].Addr == root {
		return x.initVal(s, stores[0].Val, g)
	}
	if st, ok := t.Underlying().(*types.Struct); ok && len(stores) == 0 {
		for i := 0; i < st.NumFields(); i++ {
			if refs(st.Field(i).Type()) {
				return nil // a lock or another value of a library
			}
		}
	}
	nobj++
	o := &Obj{ID: nobj, Name: "init " + g.Name(), Typ: t}
	s.mem[o] = x.zero(s, t)
	for _, st := range stores {
		p := x.initPath(o, root, st.Addr)
		s.mem[o] = s.setRec(s.mem[o], t, p, x.initVal(s, st.Val, g))
	}
	r := s.mem[o]
	delete(s.mem, o)
	return r
}

func (x *Exec) initPath(o *Obj, root, a ssa.Value) []PathEl {
	switch c := a.(type) {
	case *ssa.FieldAddr:
		return append(x.initPath(o, root, c.X), PathEl{Field: c.Field})
	case *ssa.IndexAddr:
		k, ok := c.Index.(*ssa.Const)
		if !ok {
			panic(noInit{})
		}
		return append(x.initPath(o, root, c.X), PathEl{Idx: IntT(k.Int64())})
	}
	if a != root {
		panic(noInit{})
	}
	return nil
}

// storesTo are the stores into memory allocated during initialisation.
func storesTo(a *ssa.Alloc) (out []*ssa.Store) {
	in := func(v ssa.Value) bool {
		for {
			switch c := v.(type) {
			case *ssa.FieldAddr:
				v = c.X
			case *ssa.IndexAddr:
				v = c.X
			default:
				return v == ssa.Value(a)
			}
		}
	}
	for _, b := range a.Parent().Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok && in(st.Addr) {
				out = append(out, st)
			}
		}
	}
	return
}

func (x *Exec) initVal(s *State, v ssa.Value, g *ssa.Global) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(s, c)
	case *ssa.Function:
		return &FuncV{Nil: False, Fn: c}
	case *ssa.ChangeInterface:
		return x.initVal(s, c.X, g)
	case *ssa.ChangeType:
		return x.initVal(s, c.X, g)
	case *ssa.MakeInterface:
		return &Iface{Nil: False, Dyn: c.X.Type(), V: x.initVal(s, c.X, g)}
	case *ssa.Call:
		if fn := c.Common().StaticCallee(); fn != nil {
			switch fn.String() {
			case "errors.New", "fmt.Errorf":
				return &Iface{Nil: False, Tag: x.gtag(g)}
			}
		}
	case *ssa.UnOp:
		if h, ok := c.X.(*ssa.Global); ok && h != g {
			if ci := x.P.constGlobal(h); ci != nil {
				if r := x.initContent(s, h, c.Type(), ci.stores, h); r != nil {
					return r
				}
			}
		}
		// a composite literal built in a temporary
		if a, ok := c.X.(*ssa.Alloc); ok {
			if r := x.initContent(s, a, c.Type(), storesTo(a), g); r != nil {
				return r
			}
		}
	case *ssa.Alloc:
		t := c.Type().(*types.Pointer).Elem()
		if r := x.initContent(s, c, t, storesTo(c), g); r != nil {
			nobj++
			o := &Obj{ID: nobj, Name: "global " + g.Name(), Typ: t, Weak: x.weakInit}
			s.mem[o] = r
			return &Ptr{Nil: False, Obj: o}
		}
	case *ssa.Slice:
		a, ok := c.X.(*ssa.Alloc)
		if !ok || c.Low != nil || c.Max != nil {
			break
		}
		at := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if k, ok := c.High.(*ssa.Const); c.High != nil && (!ok || k.Int64() != at.Len()) {
			break
		}
		if p, ok := x.initVal(s, a, g).(*Ptr); ok {
			n := IntT(at.Len())
			return &Slice{Nil: False, Arr: p, Off: Zero, Len: n, Cap: n}
		}
	case *ssa.MakeMap:
		nobj++
		mt := c.Type().Underlying().(*types.Map)
		o := &Obj{ID: nobj, Name: "of " + g.Name(), Typ: mt, RO: true}
		k := &constMap{}
		for _, r := range *c.Referrers() {
			u, ok := r.(*ssa.MapUpdate)
			if !ok || u.Map != ssa.Value(c) {
				continue
			}
			k.keys = append(k.keys, x.initVal(s, u.Key, g))
			k.vals = append(k.vals, x.initVal(s, u.Value, g))
		}
		s.mem[o] = k
		return &MapV{Nil: False, Obj: o, Typ: mt}
	}
	panic(noInit{})
}

// constMap is the content of a map that never changes.
type constMap struct{ keys, vals []Val }

func (s *State) constLookup(k *constMap, key Val, mt *types.Map, commaOk bool) Val {
	kt, ok := key.(*Term)
	if !ok {
		unsup("map key %T", key)
	}
	done := func(v Val, has *Term) Val {
		if commaOk {
			return TupleV{v, has}
		}
		return v
	}
	for i := range k.keys {
		t, ok := k.keys[i].(*Term)
		if !ok {
			unsup("map key %T", k.keys[i])
		}
		if s.decide(Eq(kt, t)) {
			return done(k.vals[i], True)
		}
	}
	return done(s.x.zero(s, mt.Elem()), False)
}

// gtag is the identity of the error held by a variable.
func (x *Exec) gtag(g *ssa.Global) *Term {
	if x.gtags == nil {
		x.gtags = map[*ssa.Global]*Term{}
	}
	if x.gtags[g] == nil {
		x.gtags[g] = Fresh("error", "Dyn")
	}
	return x.gtags[g]
}
