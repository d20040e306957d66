package sym

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
)

// MapV is a map reference; contents are handled by hooks (see rpc.go).
type MapV struct {
	Nil  *Term
	Ref  *Term // identity
	Keys []*Term
	Obj  *Obj
	Typ  *types.Map
}

func (s *State) makeMap(t types.Type) Val {
	if h := s.x.hooks.Extern["makemap"]; h != nil {
		return h(s, []Val{t}, nil)
	}
	unsup("make(map)")
	return nil
}

func (s *State) lookup(i *ssa.Lookup) Val {
	if m, ok := s.get(i.X).(*MapV); ok && m.Obj != nil {
		if k, ok := s.mem[m.Obj].(*constMap); ok {
			return s.constLookup(k, s.get(i.Index), m.Typ, i.CommaOk)
		}
	}
	if h := s.x.hooks.Extern["lookup"]; h != nil {
		if m, ok := s.get(i.X).(*MapV); ok {
			r := h(s, []Val{m, s.get(i.Index), i.X.Type(), i.CommaOk}, nil)
			return r
		}
	}
	if t, ok := s.get(i.X).(*Term); ok {
		idx := s.term(i.Index)
		s.require("bounds", And(Le(Zero, idx), Lt(idx, Len(t))), "string index in range")
		return Nth(t, idx)
	}
	unsup("map lookup")
	return nil
}

func (s *State) mapUpdate(i *ssa.MapUpdate) {
	if h := s.x.hooks.Extern["mapupdate"]; h != nil {
		h(s, []Val{s.get(i.Map), s.get(i.Key), s.get(i.Value), i.Map.Type()}, nil)
		return
	}
	unsup("map update")
}
