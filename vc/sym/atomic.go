package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
)

// sync/atomic: read, change and write back in one step. Where other threads
// may access the variable (hooks.Shared) its value is arbitrary at every step.

func init() {
	for _, n := range []string{"Int32", "Uint32", "Int64", "Uint64"} {
		for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			op := op
			externs["sync/atomic."+op+n] = func(s *State, a []Val, c *ssa.CallCommon) Val { return s.atomic(op, a) }
			externs["(*sync/atomic."+n+")."+op] = func(s *State, a []Val, c *ssa.CallCommon) Val { return s.atomic(op, a) }
		}
	}
	for _, op := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		op := op
		externs["(*sync/atomic.Bool)."+op] = func(s *State, a []Val, c *ssa.CallCommon) Val { return s.atomic(op, a) }
	}
	for _, n := range []string{"Add", "Done", "Wait"} {
		n := n
		externs["(*sync.WaitGroup)."+n] = func(s *State, a []Val, c *ssa.CallCommon) Val {
			if n == "Wait" && s.g["iter"] != nil {
				s.oblige("progress", False, "reading the next record waits for nothing")
			}
			return TupleV{}
		}
	}
	for _, n := range []string{"Fprintln", "Fprint", "Print"} {
		externs["fmt."+n] = externs["fmt.Printf"]
	}
	for _, n := range []string{"Print", "Printf", "Println"} {
		externs["log."+n] = nop
		externs["(*log.Logger)."+n] = nop
	}
	externs["fmt.Sprintln"] = externs["fmt.Sprint"]
}

func (s *State) atomic(op string, a []Val) Val {
	p, ok := a[0].(*Ptr)
	if !ok || p.Obj == nil {
		unsup("unknown atomic variable")
	}
	t := ptrType(p.Obj, p.Path)
	isBool := atomicBool(t) // stored as a number
	if st, ok := isStruct(t); ok {
		k := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "v" {
				k = i
			}
		}
		if k < 0 {
			unsup("atomic variable of type %s", t)
		}
		p = p.field(k)
		t = st.Field(k).Type()
	}
	s.require("nil", Not(p.Nil), "atomic variable exists")
	bits, sg, ok := intBounds(t)
	if !ok {
		unsup("atomic variable of type %s", t)
	}
	// accesses of this kind exclude each other
	old, had := s.g["held:atomic"]
	s.g["held:atomic"] = IntT(2)
	defer func() {
		if had {
			s.g["held:atomic"] = old
		} else {
			delete(s.g, "held:atomic")
		}
	}()
	cur, ok := s.loadT(p, t).(*Term)
	if !ok {
		unsup("atomic variable")
	}
	if s.x.hooks.Shared {
		cur = rangedBits(Fresh("atomic", SInt), bits, sg)
	}
	conv := func(v Val) *Term {
		w, ok := v.(*Term)
		if !ok {
			unsup("atomic operand")
		}
		if w.Sort == SBool {
			return Ite(w, One, Zero)
		}
		return w
	}
	res := func(v *Term) Val {
		if isBool {
			return Not(Eq(v, Zero))
		}
		return v
	}
	switch op {
	case "Load":
		return res(cur)
	case "Store":
		s.store(p, conv(a[1]))
		return TupleV{}
	case "Add":
		v := wrap(Add(cur, conv(a[1])), t)
		s.store(p, v)
		return v
	case "Swap":
		s.store(p, conv(a[1]))
		return res(cur)
	case "CompareAndSwap":
		key := fmt.Sprint(len(s.log))
		eq := Eq(cur, conv(a[1]))
		if s.x.hooks.Shared {
			eq = Fresh("swapped", SBool)
		}
		ok := s.decideNow("swap", eq, key)
		s.logEv(Event{Kind: "swap"})
		if ok {
			s.store(p, conv(a[2]))
			return True
		}
		return False
	}
	unsup("atomic %s", op)
	return nil
}

func atomicBool(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Bool"
}
