// Package smt builds hash-consed SMT-LIB terms with light simplification and
// discharges queries with the installed solvers.
package smt

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const (
	SInt   = "Int"
	SBool  = "Bool"
	SBytes = "(Seq Int)"
)

// Term is an immutable hash-consed term.
type Term struct {
	ID     int
	Op     string // "int","var","bvar","app","+", ...
	Name   string // variable / function name
	Args   []*Term
	Sort   string
	Val    *big.Int
	Lo, Hi *big.Int // known bounds for Int terms (nil: unknown)
	Bound  bool     // contains a bound variable that is not closed here
	BVars  []*Term  // for quantifiers
	Typed  bool     // bounds come from a type: asserted as facts in queries
	MaxLen *big.Int // for Bytes leaves: length bound fact
	FixLen *Term    // for Bytes leaves: exact length fact
}

var (
	mu    sync.Mutex
	table = map[string]*Term{}
	nvar  int
)

func mk(op, name string, srt string, args ...*Term) *Term {
	return mkFull(op, name, srt, nil, args...)
}

func mkFull(op, name, srt string, val *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	if val != nil {
		b.WriteByte('|')
		b.WriteString(val.String())
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	mu.Lock()
	defer mu.Unlock()
	if t, ok := table[k]; ok {
		return t
	}
	t := &Term{ID: len(table), Op: op, Name: name, Args: args, Sort: srt, Val: val}
	for _, a := range args {
		if a.Bound {
			t.Bound = true
		}
	}
	if op == "bvar" {
		t.Bound = true
	}
	table[k] = t
	return t
}

// ---- leaves

func BigT(v *big.Int) *Term {
	t := mkFull("int", "", SInt, v)
	t.Lo, t.Hi = v, v
	return t
}
func IntT(v int64) *Term { return BigT(big.NewInt(v)) }

var (
	True  = mk("true", "", SBool)
	False = mk("false", "", SBool)
	Zero  = IntT(0)
	One   = IntT(1)
	Empty = mk("empty", "", SBytes)
)

// Reset forgets all terms but the constants, so that every unit of work builds
// the same queries whatever ran before it.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	table = map[string]*Term{}
	nvar = 0
	for i, t := range []*Term{True, False, Zero, One, Empty} {
		t.ID = i
		k := t.Op + "||" + t.Sort
		if t.Val != nil {
			k += "|" + t.Val.String()
		}
		table[k] = t
	}
}

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Var declares a free constant.
func Var(name, srt string) *Term { return mk("var", name, srt) }

// Fresh makes a new free constant with a readable prefix.
func Fresh(prefix, srt string) *Term {
	mu.Lock()
	nvar++
	n := nvar
	mu.Unlock()
	prefix = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, prefix)
	return Var(fmt.Sprintf("%s!%d", prefix, n), srt)
}

func BVar(name, srt string) *Term { return mk("bvar", name, srt) }

// Ranged attaches type bounds to an opaque Int term.
func Ranged(t *Term, lo, hi *big.Int) *Term {
	if t.Op == "int" {
		return t
	}
	mu.Lock()
	defer mu.Unlock()
	if lo != nil && (t.Lo == nil || t.Lo.Cmp(lo) < 0) {
		t.Lo = lo
	}
	if hi != nil && (t.Hi == nil || t.Hi.Cmp(hi) > 0) {
		t.Hi = hi
	}
	t.Typed = true
	return t
}

// Seqlike marks an opaque Bytes term as having a bounded length.
func Seqlike(t *Term) *Term {
	if t.Op == "var" || t.Op == "app" {
		mu.Lock()
		t.MaxLen = MaxSliceLen
		mu.Unlock()
	}
	return t
}

// Sized marks an opaque Bytes term as having exactly n bytes.
func Sized(t, n *Term) *Term {
	if t.Op == "var" || t.Op == "app" {
		mu.Lock()
		t.FixLen = n
		mu.Unlock()
	}
	return t
}

// MaxSliceLen: no Go object is larger than the 48-bit address space.
var MaxSliceLen = new(big.Int).Lsh(big.NewInt(1), 48)

// App applies an uninterpreted or defined function.
func App(fn, srt string, args ...*Term) *Term { return mk("app", fn, srt, args...) }

func (t *Term) IsInt() bool { return t.Op == "int" }
func (t *Term) Int64() (int64, bool) {
	if t.Op == "int" && t.Val.IsInt64() {
		return t.Val.Int64(), true
	}
	return 0, false
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		switch {
		case x.Op == "true":
		case x.Op == "false":
			return false
		case x.Op == "and":
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
		default:
			if seen[Not(x).ID] {
				return false
			}
			if !seen[x.ID] {
				seen[x.ID] = true
				out = append(out, x)
			}
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var neg []*Term
	for _, x := range xs {
		neg = append(neg, Not(x))
	}
	n := And(neg...)
	if n.Op == "and" {
		var out []*Term
		for _, y := range n.Args {
			out = append(out, Not(y))
		}
		return mk("or", "", SBool, out...)
	}
	return Not(n)
}

func Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return True
	}
	if b.Op == "false" {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c.Op == "true" || a == b {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a.Sort == SBool {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	t := mk("ite", "", a.Sort, c, a, b)
	if a.Sort == SInt && a.Lo != nil && b.Lo != nil && t.Lo == nil {
		lo := a.Lo
		if b.Lo.Cmp(lo) < 0 {
			lo = b.Lo
		}
		t.Lo = lo
	}
	if a.Sort == SInt && a.Hi != nil && b.Hi != nil && t.Hi == nil {
		hi := a.Hi
		if b.Hi.Cmp(hi) > 0 {
			hi = b.Hi
		}
		t.Hi = hi
	}
	return t
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sorts %s and %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if a.Sort == SBool {
		switch {
		case a.Op == "true":
			return b
		case b.Op == "true":
			return a
		case a.Op == "false":
			return Not(b)
		case b.Op == "false":
			return Not(a)
		}
	}
	if a.Op == "int" && b.Op == "int" {
		return False // hash-consed, distinct
	}
	if a.Sort == SInt {
		d := Sub(a, b)
		if d.Op == "int" {
			return BoolT(d.Val.Sign() == 0)
		}
		if d.Lo != nil && d.Lo.Sign() > 0 || d.Hi != nil && d.Hi.Sign() < 0 {
			return False
		}
	}
	if a.Sort == SBytes {
		return eqSeq(a, b)
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

// EqRaw is an equality that is not simplified.
func EqRaw(a, b *Term) *Term { return mk("=", "", SBool, a, b) }

// FindIte is the condition of some conditional inside t, nil if there is none.
func FindIte(t *Term, srt string) *Term {
	seen := map[int]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t.ID] {
			return nil
		}
		seen[t.ID] = true
		if t.Op == "ite" && t.Sort == srt {
			return t.Args[0]
		}
		for _, a := range t.Args {
			if c := rec(a); c != nil {
				return c
			}
		}
		return nil
	}
	return rec(t)
}

// ---- datatypes

func Ctor(name, srt string, args ...*Term) *Term {
	return mk("ctor", name, srt, args...)
}

// Sel applies a datatype selector; ctor/idx identify it for simplification.
func Sel(sel, ctor string, idx int, srt string, x *Term) *Term {
	if x.Op == "ctor" && x.Name == ctor {
		return x.Args[idx]
	}
	if x.Op == "ite" {
		if (x.Args[1].Op == "ctor" && x.Args[1].Name == ctor) && (x.Args[2].Op == "ctor" && x.Args[2].Name == ctor) {
			return Ite(x.Args[0], x.Args[1].Args[idx], x.Args[2].Args[idx])
		}
	}
	return mk("app", sel, srt, x)
}

func Is(ctor string, x *Term) *Term {
	if x.Op == "ctor" {
		return BoolT(x.Name == ctor)
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], Is(ctor, x.Args[1]), Is(ctor, x.Args[2]))
	}
	return mk("is", ctor, SBool, x)
}

// ---- integers: canonical linear sums

type lin struct {
	c  *big.Int
	co map[int]*big.Int
	tm map[int]*Term
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.Val))
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
	case "*c":
		addLin(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].Val))
	default:
		c := l.co[t.ID]
		if c == nil {
			c = new(big.Int)
		}
		l.co[t.ID] = new(big.Int).Add(c, k)
		l.tm[t.ID] = t
	}
}

func fromLin(l lin) *Term {
	var ids []int
	for id, c := range l.co {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, id := range ids {
		x := l.tm[id]
		c := l.co[id]
		xl, xh := x.Lo, x.Hi
		if c.Sign() < 0 {
			xl, xh = xh, xl
		}
		if lo != nil {
			if xl == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, xl))
			}
		}
		if hi != nil {
			if xh == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, xh))
			}
		}
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, x)
		} else {
			m := mk("*c", "", SInt, BigT(c), x)
			if m.Lo == nil && xl != nil {
				m.Lo = new(big.Int).Mul(c, xl)
			}
			if m.Hi == nil && xh != nil {
				m.Hi = new(big.Int).Mul(c, xh)
			}
			args = append(args, m)
		}
	}
	if len(args) == 0 {
		return BigT(l.c)
	}
	if l.c.Sign() != 0 {
		args = append(args, BigT(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	t := mk("+", "", SInt, args...)
	if t.Lo == nil {
		t.Lo = lo
	}
	if t.Hi == nil {
		t.Hi = hi
	}
	return t
}

func Add(xs ...*Term) *Term {
	l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	for _, x := range xs {
		addLin(&l, x, big.NewInt(1))
	}
	return fromLin(l)
}

func Sub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}

func MulC(c *big.Int, a *Term) *Term {
	l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	addLin(&l, a, c)
	return fromLin(l)
}

func Mul(a, b *Term) *Term {
	if a.Op == "int" {
		return MulC(a.Val, b)
	}
	if b.Op == "int" {
		return MulC(b.Val, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// Mod is the Euclidean remainder by a positive constant.
func Mod(a *Term, m *big.Int) *Term {
	if a.Op == "int" {
		return BigT(new(big.Int).Mod(a.Val, m))
	}
	if a.Lo != nil && a.Hi != nil && a.Lo.Sign() >= 0 && a.Hi.Cmp(m) < 0 {
		return a
	}
	// drop multiples of m inside linear sums, and inner mods by multiples of m
	l := toLin(a)
	changed := false
	for id, c := range l.co {
		if new(big.Int).Mod(c, m).Sign() == 0 {
			delete(l.co, id)
			changed = true
			continue
		}
		x := l.tm[id]
		if x.Op == "mod" && new(big.Int).Mod(x.Args[1].Val, m).Sign() == 0 {
			delete(l.co, id)
			l2 := toLin(x.Args[0])
			for id2, c2 := range l2.co {
				k := new(big.Int).Mul(c, c2)
				if old := l.co[id2]; old != nil {
					k.Add(k, old)
				}
				l.co[id2] = k
				l.tm[id2] = l2.tm[id2]
			}
			l.c = new(big.Int).Add(l.c, new(big.Int).Mul(c, l2.c))
			changed = true
		}
	}
	if c := new(big.Int).Mod(l.c, m); c.Cmp(l.c) != 0 {
		l.c = c
		changed = true
	}
	if changed {
		return Mod(fromLin(l), m)
	}
	t := mk("mod", "", SInt, a, BigT(m))
	if t.Lo == nil {
		t.Lo = big.NewInt(0)
		t.Hi = new(big.Int).Sub(m, big.NewInt(1))
	}
	return t
}

// Div is floor division by a positive constant.
func Div(a *Term, m *big.Int) *Term {
	if a.Op == "int" {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(a.Val, m, r)
		return BigT(q)
	}
	if m.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.Lo != nil && a.Hi != nil && a.Lo.Sign() >= 0 && a.Hi.Cmp(m) < 0 {
		return Zero
	}
	if a.Op == "mod" {
		q, r := new(big.Int), new(big.Int)
		if q.DivMod(a.Args[1].Val, m, r); r.Sign() == 0 {
			return Mod(Div(a.Args[0], m), q)
		}
	}
	if a.Op == "div" {
		return Div(a.Args[0], new(big.Int).Mul(a.Args[1].Val, m))
	}
	t := mk("div", "", SInt, a, BigT(m))
	if a.Lo != nil && t.Lo == nil {
		t.Lo = new(big.Int).Div(a.Lo, m)
	}
	if a.Hi != nil && t.Hi == nil {
		t.Hi = new(big.Int).Div(a.Hi, m)
	}
	return t
}

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.Lo != nil && d.Lo.Sign() >= 0 {
		return True
	}
	if d.Hi != nil && d.Hi.Sign() < 0 {
		return False
	}
	// canonical: linear sum >= 0 printed as a <= b
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- byte sequences

func UnitSeq(x *Term) *Term { return mk("unit", "", SBytes, x) }

func Len(s *Term) *Term {
	switch s.Op {
	case "empty":
		return Zero
	case "unit":
		return One
	case "++":
		var xs []*Term
		for _, a := range s.Args {
			xs = append(xs, Len(a))
		}
		return Add(xs...)
	case "extract":
		return s.Args[2] // only built in range (see Extract)
	case "zeros":
		return s.Args[0]
	case "be":
		return IntT(int64(len(s.Name)))
	case "ite":
		return Ite(s.Args[0], Len(s.Args[1]), Len(s.Args[2]))
	case "update":
		return Len(s.Args[0])
	}
	if s.FixLen != nil {
		return s.FixLen
	}
	t := mk("len", "", SInt, s)
	if t.Lo == nil {
		t.Lo = big.NewInt(0)
		if s.MaxLen != nil {
			t.Hi = s.MaxLen
		}
	} else if t.Hi == nil && s.MaxLen != nil {
		t.Hi = s.MaxLen
	}
	return t
}

func Concat(xs ...*Term) *Term {
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		switch x.Op {
		case "empty":
		case "++":
			for _, y := range x.Args {
				add(y)
			}
		default:
			if n := Len(x); n.Op == "int" && n.Val.Sign() == 0 {
				return
			}
			if len(out) > 0 && x.Op == "extract" {
				p := out[len(out)-1]
				if p.Op == "extract" && p.Args[0] == x.Args[0] && Add(p.Args[1], p.Args[2]) == x.Args[1] {
					out = out[:len(out)-1]
					add(Extract(p.Args[0], p.Args[1], Add(p.Args[2], x.Args[2])))
					return
				}
			}
			out = append(out, x)
		}
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 0 {
		return Empty
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("++", "", SBytes, out...)
}

// Zeros is n zero bytes, n >= 0.
func Zeros(n *Term) *Term {
	if v, ok := n.Int64(); ok && v <= 16 {
		if v <= 0 {
			return Empty
		}
		var xs []*Term
		for i := int64(0); i < v; i++ {
			xs = append(xs, UnitSeq(Zero))
		}
		return Concat(xs...)
	}
	return mk("zeros", "", SBytes, n)
}

// BE is the n-byte big-endian encoding of x, 0 <= x < 2^(8n).
func BE(x *Term, n int) *Term {
	var xs []*Term
	for i := 0; i < n; i++ {
		sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1-i)))
		xs = append(xs, UnitSeq(Mod(Div(x, sh), big.NewInt(256))))
	}
	return Concat(xs...)
}

// BEVal is the big-endian value of n bytes of s starting at off.
func BEVal(s, off *Term, n int) *Term {
	var xs []*Term
	for i := 0; i < n; i++ {
		sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1-i)))
		xs = append(xs, MulC(sh, Nth(s, Add(off, IntT(int64(i))))))
	}
	return Add(xs...)
}

// splitAt splits s at offset o when o falls on a piece boundary or inside an
// extract/zeros piece by constant arithmetic.
func pieces(s *Term) []*Term {
	if s.Op == "++" {
		return s.Args
	}
	if s.Op == "empty" {
		return nil
	}
	return []*Term{s}
}

// Extract is the subsequence [o, o+l); the caller guarantees (as a side
// condition it has proved) 0 <= o, 0 <= l and o+l <= len(s).
func Extract(s, o, l *Term) *Term {
	if l.Op == "int" && l.Val.Sign() <= 0 {
		return Empty
	}
	if o == Zero && Len(s) == l {
		return s
	}
	if s.Op == "ite" {
		return Ite(s.Args[0], Extract(s.Args[1], o, l), Extract(s.Args[2], o, l))
	}
	if s.Op == "extract" {
		return Extract(s.Args[0], Add(s.Args[1], o), l)
	}
	if s.Op == "zeros" {
		return Zeros(l)
	}
	if s.Op == "++" {
		// drop whole leading pieces
		ps := s.Args
		for len(ps) > 0 {
			n := Len(ps[0])
			d := Sub(o, n)
			if d.Lo != nil && d.Lo.Sign() >= 0 {
				o = d
				ps = ps[1:]
				continue
			}
			break
		}
		if len(ps) < len(s.Args) {
			return Extract(Concat(ps...), o, l)
		}
		if o == Zero {
			// whole leading pieces covered by l
			var out []*Term
			i := 0
			for i < len(ps) {
				n := Len(ps[i])
				d := Sub(l, n)
				if d.Lo != nil && d.Lo.Sign() >= 0 {
					out = append(out, ps[i])
					l = d
					i++
					continue
				}
				break
			}
			if l == Zero {
				return Concat(out...)
			}
			if i > 0 && i < len(ps) {
				out = append(out, Extract(Concat(ps[i:]...), Zero, l))
				return Concat(out...)
			}
			if len(ps) > 1 {
				// entirely inside the first piece?
				d := Sub(Len(ps[0]), l)
				if d.Lo != nil && d.Lo.Sign() >= 0 {
					return Extract(ps[0], Zero, l)
				}
			}
		} else {
			// inside the first piece?
			d := Sub(Len(ps[0]), Add(o, l))
			if d.Lo != nil && d.Lo.Sign() >= 0 {
				return Extract(ps[0], o, l)
			}
			d = Sub(Len(ps[0]), o)
			if d.Lo != nil && d.Lo.Sign() >= 0 {
				// starts in first piece and extends past it (or unknown): split if provable
				e := Sub(Add(o, l), Len(ps[0]))
				if e.Lo != nil && e.Lo.Sign() >= 0 {
					return Concat(Extract(ps[0], o, d), Extract(Concat(ps[1:]...), Zero, e))
				}
			}
		}
	}
	return mk("extract", "", SBytes, s, o, l)
}

var big0, big255 = big.NewInt(0), big.NewInt(255)

func Nth(s, i *Term) *Term {
	switch s.Op {
	case "unit":
		if i == Zero {
			return s.Args[0]
		}
	case "extract":
		return Nth(s.Args[0], Add(s.Args[1], i))
	case "zeros":
		return Zero
	case "ite":
		return Ite(s.Args[0], Nth(s.Args[1], i), Nth(s.Args[2], i))
	case "++":
		ps := s.Args
		for len(ps) > 0 {
			n := Len(ps[0])
			d := Sub(i, n)
			if d.Lo != nil && d.Lo.Sign() >= 0 {
				i = d
				ps = ps[1:]
				continue
			}
			if d.Hi != nil && d.Hi.Sign() < 0 {
				return Nth(ps[0], i)
			}
			break
		}
		if len(ps) < len(s.Args) {
			return Nth(Concat(ps...), i)
		}
	}
	t := mk("nth", "", SInt, s, i)
	if t.Lo == nil {
		t.Lo, t.Hi = big0, big255
		t.Typed = true
	}
	return t
}

func eqSeq(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		if pa[len(pa)-1] == pb[len(pb)-1] {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		break
	}
	x, y := Concat(pa...), Concat(pb...)
	if x == y {
		return True
	}
	if x.Op == "zeros" && y.Op == "zeros" {
		return Eq(x.Args[0], y.Args[0])
	}
	if x.Op == "unit" && y.Op == "unit" {
		return Eq(x.Args[0], y.Args[0])
	}
	if x == Empty {
		return Eq(Len(y), Zero)
	}
	if y == Empty {
		return Eq(Len(x), Zero)
	}
	if x.Op == "extract" && y.Op == "extract" && x.Args[0] == y.Args[0] && x.Args[1] == y.Args[1] {
		return Eq(x.Args[2], y.Args[2])
	}
	// piecewise when both start with units
	if len(pa) > 0 && len(pb) > 0 && pa[0].Op == "unit" && pb[0].Op == "unit" {
		return And(Eq(pa[0].Args[0], pb[0].Args[0]), eqSeq(Concat(pa[1:]...), Concat(pb[1:]...)))
	}
	if len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1].Op == "unit" && pb[len(pb)-1].Op == "unit" {
		return And(Eq(pa[len(pa)-1].Args[0], pb[len(pb)-1].Args[0]), eqSeq(Concat(pa[:len(pa)-1]...), Concat(pb[:len(pb)-1]...)))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return mk("=", "", SBool, x, y)
}

// ---- arrays are not used: element sequences are uninterpreted sorts.

// Forall quantifies over bound variables; pats are optional triggers.
func Forall(vars []*Term, pats []*Term, body *Term) *Term {
	if body.Op == "true" {
		return True
	}
	args := append([]*Term{body}, pats...)
	name := ""
	for _, v := range vars {
		name += v.Name + ":" + v.Sort + ";"
	}
	t := mk("forall", name, SBool, args...)
	mu.Lock()
	t.BVars = vars
	// closed if no other bound variables remain
	t.Bound = false
	fv := map[int]bool{}
	collectBV(t, fv, map[int]bool{})
	for range fv {
		t.Bound = true
	}
	mu.Unlock()
	return t
}

func collectBV(t *Term, fv map[int]bool, bound map[int]bool) {
	if t.Op == "bvar" {
		if !bound[t.ID] {
			fv[t.ID] = true
		}
		return
	}
	if t.Op == "forall" {
		b2 := map[int]bool{}
		for k := range bound {
			b2[k] = true
		}
		for _, v := range t.BVars {
			b2[v.ID] = true
		}
		bound = b2
	} else if !t.Bound {
		return
	}
	for _, a := range t.Args {
		collectBV(a, fv, bound)
	}
}

// Subst replaces free constants / bound variables by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		if r := Eq(a[0], a[1]); r.Op != "true" || a[0] == a[1] || a[0].Sort != SBytes {
			return r
		}
		return EqRaw(a[0], a[1]) // sequences known to be empty
	case "+":
		return Add(a...)
	case "*c", "*":
		return Mul(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1].Val)
	case "div":
		return Div(a[0], a[1].Val)
	case "<=":
		return Le(a[0], a[1])
	case "unit":
		return UnitSeq(a[0])
	case "len":
		return Len(a[0])
	case "++":
		return Concat(a...)
	case "zeros":
		return Zeros(a[0])
	case "extract":
		return Extract(a[0], a[1], a[2])
	case "nth":
		return Nth(a[0], a[1])
	case "is":
		return Is(t.Name, a[0])
	case "forall":
		return Forall(t.BVars, a[1:], a[0])
	case "app":
		if f := SelInfo(t.Name); f != nil {
			return Sel(t.Name, f.Ctor, f.Idx, t.Sort, a[0])
		}
		r := mk("app", t.Name, t.Sort, a...)
		if t.Typed && !r.Typed {
			mu.Lock()
			r.Lo, r.Hi, r.Typed = t.Lo, t.Hi, true
			mu.Unlock()
		}
		if t.MaxLen != nil {
			Seqlike(r)
		}
		if t.FixLen != nil {
			Sized(r, t.FixLen)
		}
		return r
	}
	return mk(t.Op, t.Name, t.Sort, a...)
}

// SelDesc identifies the constructor behind a selector.
type SelDesc struct {
	Ctor string
	Idx  int
}

var selTab sync.Map

// RegisterSel records that sel selects argument idx of ctor.
func RegisterSel(sel, ctor string, idx int) { selTab.Store(sel, &SelDesc{ctor, idx}) }

// SelInfo looks a selector up.
func SelInfo(sel string) *SelDesc {
	if v, ok := selTab.Load(sel); ok {
		return v.(*SelDesc)
	}
	return nil
}

func (t *Term) String() string {
	var b strings.Builder
	print(&b, t, nil)
	s := b.String()
	return s
}

// LowZeroBits is the number of low bits of t that are certainly zero.
func LowZeroBits(t *Term) uint {
	l := toLin(t)
	g := new(big.Int).Abs(l.c)
	for _, k := range l.co {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Sign() == 0 {
		return 64
	}
	return g.TrailingZeroBits()
}

// LinBound reads the comparison literal as a bound on t: t <= hi or t >= lo,
// when the literal compares t with constants.
func LinBound(lit, t *Term) (lo, hi *big.Int) {
	neg := false
	if lit.Op == "not" {
		neg, lit = true, lit.Args[0]
	}
	if lit.Op != "<=" {
		return nil, nil
	}
	a, b := lit.Args[0], lit.Args[1] // a <= b, or b+1 <= a
	if neg {
		a, b = Add(b, One), a
	}
	d := Sub(a, b) // d <= 0
	if c := Sub(d, t); c.Op == "int" {
		hi = new(big.Int).Neg(c.Val) // t + c <= 0
	}
	if c := Add(d, t); c.Op == "int" {
		lo = c.Val // c - t <= 0
	}
	return
}
