package sym

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	. "verif/vc/smt"
)

// Numbers and flags shared by requests: while one request is handled, others
// may be, and earlier ones have been. A shared number or flag that some
// function other than the constructor writes to therefore holds an arbitrary
// value whenever it is read. Which are written is decided from the text of the
// package, over-approximated by the struct type and field (or the name of the
// variable).

type writers struct {
	by map[string]map[*ssa.Function]bool // location key -> functions writing it
	// reachable from the functions that handle requests
	request map[*ssa.Function]bool
}

func plain(n string) string { return strings.TrimRight(n, "0123456789") }

func fieldKey(t types.Type, i int) string {
	st, ok := isStruct(t)
	if !ok {
		return ""
	}
	return "field " + types.TypeString(t, nil) + "." + st.Field(i).Name()
}

func addrKey(a ssa.Value) string {
	el := a.Type().Underlying().(*types.Pointer).Elem()
	switch c := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(c.X.Type().Underlying().(*types.Pointer).Elem(), c.Field)
	case *ssa.Global:
		return "var global " + plain(c.Name())
	case *ssa.FreeVar:
		return "var " + plain(c.Name())
	case *ssa.Alloc:
		return "var " + plain(allocName(c))
	}
	return "type " + types.TypeString(el, nil)
}

// making: the store initialises memory nobody else knows of yet.
func making(st *ssa.Store) bool {
	v := st.Addr
	for {
		if f, ok := v.(*ssa.FieldAddr); ok {
			v = f.X
			continue
		}
		if f, ok := v.(*ssa.IndexAddr); ok {
			v = f.X
			continue
		}
		break
	}
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Block() != st.Block() {
		return false
	}
	in := false
	for _, i := range a.Block().Instrs {
		if i == ssa.Instruction(st) {
			return in
		}
		if i == ssa.Instruction(a) {
			in = true
			continue
		}
		if !in {
			continue
		}
		var rs [16]*ssa.Value
		for _, op := range i.Operands(rs[:0]) {
			if op == nil || *op != ssa.Value(a) {
				continue
			}
			switch u := i.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.UnOp:
			case *ssa.Store:
				if u.Val == ssa.Value(a) {
					return false
				}
			default:
				return false
			}
		}
	}
	return false
}

func (p *Prog) writersOf(path string) *writers {
	if w := p.wr[path]; w != nil {
		return w
	}
	w := &writers{by: map[string]map[*ssa.Function]bool{}, request: map[*ssa.Function]bool{}}
	add := func(k string, fn *ssa.Function) {
		if w.by[k] == nil {
			w.by[k] = map[*ssa.Function]bool{}
		}
		w.by[k][fn] = true
	}
	pk := p.Pkgs[path]
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == pk || f.Pkg == nil && f.Object() != nil && f.Object().Pkg() == pk.Pkg {
			fns = append(fns, fn)
		}
	}
	calls := map[*ssa.Function][]*ssa.Function{}
	var roots []*ssa.Function
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					switch v := g.Call.Value.(type) {
					case *ssa.Function:
						roots = append(roots, v)
					case *ssa.MakeClosure:
						roots = append(roots, v.Fn.(*ssa.Function))
					}
				}
				if _, isGo := in.(*ssa.Go); !isGo {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil {
							calls[fn] = append(calls[fn], f)
						}
					}
				}
				var rs [16]*ssa.Value
				for _, op := range in.Operands(rs[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && f.Parent() != nil {
						if _, isGo := in.(*ssa.Go); !isGo {
							calls[fn] = append(calls[fn], f)
						}
					}
					pt, ok := (*op).Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.BinOp, *ssa.Phi, *ssa.MakeClosure:
						continue
					case *ssa.Store:
						if i.Addr != *op || making(i) {
							continue
						}
					}
					if u, ok := isStruct(pt.Elem()); ok {
						if _, ok := in.(*ssa.Store); ok {
							for k := 0; k < u.NumFields(); k++ {
								add(fieldKey(pt.Elem(), k), fn)
							}
						}
						continue
					}
					add(addrKey(*op), fn)
				}
			}
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if w.request[f] {
			return
		}
		w.request[f] = true
		for _, c := range calls[f] {
			visit(c)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	if p.wr == nil {
		p.wr = map[string]*writers{}
	}
	p.wr[path] = w
	return w
}

// locKeys are the keys a location may be written under.
func locKeys(o *Obj, path []PathEl, t types.Type) []string {
	ks := []string{"type " + types.TypeString(t, nil)}
	if len(path) == 0 {
		return append(ks, "var "+plain(o.Name))
	}
	if e := path[len(path)-1]; e.Idx == nil {
		ks = append(ks, fieldKey(ptrType(o, path[:len(path)-1]), e.Field))
	}
	return ks
}

// volatile: may another thread write the number or flag at this place.
func (e *rpcEnv) volatile(s *State, o *Obj, path []PathEl, t types.Type) bool {
	if e.thread == "" {
		return false
	}
	shared := e.old[o]
	for _, g := range e.x.globals {
		if g == o {
			shared = true
		}
	}
	if it := s.g["iter"]; it != nil && e.iters != nil {
		i, _ := it.Int64()
		if _, was := e.iters[i].mem[o]; was {
			shared = true
		}
	}
	if !shared {
		return false
	}
	w := e.x.P.writersOf(e.path)
	for _, k := range locKeys(o, path, t) {
		for fn := range w.by[k] {
			f := fn
			for f.Parent() != nil {
				f = f.Parent()
			}
			switch {
			case f.Name() == "init" || f.Name() == "MakeServer":
			case e.thread == "request":
				return true
			case w.request[fn] || f.Object() != nil && f.Object().Exported() && f.Name() != "Run":
				return true
			}
		}
	}
	return false
}

// others replaces what other threads may have written in a value just read.
func (e *rpcEnv) others(s *State, o *Obj, path []PathEl, t types.Type, v Val) Val {
	switch c := v.(type) {
	case *Term:
		if e.volatile(s, o, path, t) {
			if c.Sort == SBool {
				return Fresh("shared", SBool)
			}
			if _, _, ok := intBounds(t); ok {
				return freshInt("shared", t)
			}
			unsup("%s, which is shared and changes", o.Name)
		}
	case *Slice, *Ptr, *FuncV, *Iface:
		if e.volatile(s, o, path, t) {
			unsup("%s, which is shared and changes", o.Name)
		}
	case *StructV:
		st, ok := isStruct(t)
		if !ok {
			return v
		}
		var r *StructV
		for i, f := range c.F {
			n := e.others(s, o, append(append([]PathEl{}, path...), PathEl{Field: i}), st.Field(i).Type(), f)
			if n != f {
				if r == nil {
					r = &StructV{c.T, append([]Val{}, c.F...)}
				}
				r.F[i] = n
			}
		}
		if r != nil {
			return r
		}
	}
	return v
}

// arbitrary makes the numbers and flags of a server arbitrary that change
// after it was made.
func (e *rpcEnv) arbitrary(s *State) {
	th := e.thread
	e.thread = "request"
	e.old = map[*Obj]bool{}
	for _, o := range s.objs() {
		e.old[o] = true
	}
	for o := range e.old {
		if o.Typ == nil {
			continue
		}
		switch s.mem[o].(type) {
		case *Term, *StructV:
			s.mem[o] = e.others(s, o, nil, o.Typ, s.mem[o])
		}
	}
	e.thread = th
}
