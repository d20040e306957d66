package sym

import (
	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
)

type externFn func(s *State, args []Val, c *ssa.CallCommon) Val

func newError(s *State) Val {
	return &Iface{Nil: False, Tag: Fresh("error", "Dyn")}
}

// Trusted models of standard library functions.
var externs = map[string]externFn{
	"errors.New": func(s *State, a []Val, c *ssa.CallCommon) Val { return newError(s) },
	"fmt.Errorf": func(s *State, a []Val, c *ssa.CallCommon) Val { return newError(s) },
	"fmt.Fprintf": func(s *State, a []Val, c *ssa.CallCommon) Val {
		return TupleV{freshBits("n", 64), &Iface{Nil: Fresh("noerr", SBool), Tag: Fresh("error", "Dyn")}}
	},
	"fmt.Printf": func(s *State, a []Val, c *ssa.CallCommon) Val {
		return TupleV{freshBits("n", 64), &Iface{Nil: Fresh("noerr", SBool), Tag: Fresh("error", "Dyn")}}
	},
	"fmt.Println": func(s *State, a []Val, c *ssa.CallCommon) Val {
		return TupleV{freshBits("n", 64), &Iface{Nil: Fresh("noerr", SBool), Tag: Fresh("error", "Dyn")}}
	},
	"fmt.Sprintf": func(s *State, a []Val, c *ssa.CallCommon) Val { return Seqlike(Fresh("sprintf", SBytes)) },
	"fmt.Sprint":  func(s *State, a []Val, c *ssa.CallCommon) Val { return Seqlike(Fresh("sprint", SBytes)) },

	"(encoding/binary.bigEndian).PutUint32": func(s *State, a []Val, c *ssa.CallCommon) Val { return putBE(s, a, 4) },
	"(encoding/binary.bigEndian).PutUint64": func(s *State, a []Val, c *ssa.CallCommon) Val { return putBE(s, a, 8) },
	"(encoding/binary.bigEndian).Uint32":    func(s *State, a []Val, c *ssa.CallCommon) Val { return getBE(s, a, 4) },
	"(encoding/binary.bigEndian).Uint64":    func(s *State, a []Val, c *ssa.CallCommon) Val { return getBE(s, a, 8) },
	"(encoding/binary.bigEndian).AppendUint32": func(s *State, a []Val, c *ssa.CallCommon) Val {
		return appendBE(s, a, 4)
	},
	"(encoding/binary.bigEndian).AppendUint64": func(s *State, a []Val, c *ssa.CallCommon) Val {
		return appendBE(s, a, 8)
	},
	"bytes.Equal": func(s *State, a []Val, c *ssa.CallCommon) Val {
		return Eq(s.bytesOf(a[0].(*Slice)), s.bytesOf(a[1].(*Slice)))
	},
	"(*sync.Mutex).Lock":      nop,
	"(*sync.Mutex).Unlock":    nop,
	"(*sync.RWMutex).Lock":    nop,
	"(*sync.RWMutex).Unlock":  nop,
	"(*sync.RWMutex).RLock":   nop,
	"(*sync.RWMutex).RUnlock": nop,
}

func nop(s *State, a []Val, c *ssa.CallCommon) Val { return TupleV{} }

func freshBits(n string, bits uint) *Term { return rangedBits(Fresh(n, SInt), bits, true) }

func putBE(s *State, a []Val, n int) Val {
	b := a[1].(*Slice)
	s.require("bounds", Le(IntT(int64(n)), b.Len), "PutUint needs enough room")
	s.setBytes(b, Zero, BE(a[2].(*Term), n))
	return TupleV{}
}

func getBE(s *State, a []Val, n int) Val {
	b := a[1].(*Slice)
	s.require("bounds", Le(IntT(int64(n)), b.Len), "Uint needs enough bytes")
	return BEVal(s.bytesOf(b), Zero, n)
}

func appendBE(s *State, a []Val, n int) Val {
	v := BE(a[2].(*Term), n)
	return s.appendBuiltin([]Val{a[1], v}, byteType)
}
