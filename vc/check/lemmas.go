package check

import (
	"fmt"
	"sort"

	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// Lemmas over the spec functions.  They contain no code of the repository:
// together with the codec contracts (E1 and D1, proved from the source) they
// give the round trip, and they justify the facts clients use after a call
// (decFacts).  Each is proved by structural induction: the lemma for the
// components of a type is assumed for the lemma of the type; the arrays by
// induction on the number of elements.

// lemmaTypes lists the types of a package the lemmas are about: named types
// and, once each, the element sequences and primitives they use.
func lemmaTypes(p *spec.Pkg) (named []*spec.Type, elems []*spec.Type, prims []*spec.Type) {
	seen := map[string]bool{}
	var walk func(t *spec.Type)
	walk = func(t *spec.Type) {
		if t == nil || seen[t.Key] {
			return
		}
		seen[t.Key] = true
		switch {
		case t.Prim():
			prims = append(prims, t)
		case t.K == xspec.ArrayFixed || t.K == xspec.ArrayVar:
			if !seen["elem "+t.Elem.Key] {
				seen["elem "+t.Elem.Key] = true
				elems = append(elems, t.Elem)
			}
			walk(t.Elem)
		case t.K == xspec.Opt:
			walk(t.Elem)
		}
		for _, f := range t.Fields {
			walk(f.T)
		}
		if t.K == xspec.Union {
			walk(t.Disc.T)
			for _, a := range t.Arms {
				walk(a.F.T)
			}
		}
	}
	var names []string
	for _, d := range p.Spec.Defs {
		names = append(names, d.Name)
	}
	sort.Strings(names)
	dup := map[string]bool{}
	for _, n := range names {
		t := p.Lookup(n)
		walk(t)
		if !dup[t.Key] && !t.Prim() {
			dup[t.Key] = true
			named = append(named, t)
		}
	}
	return
}

// inv: the value is one a Go variable can represent (union bodies agree with
// their discriminants, fixed data has its size); opaque for named types.
func inv(t *spec.Type, a *Term, unfold bool) *Term {
	switch {
	case t.K == xspec.OpaqueFixed:
		return Eq(Len(a), t.Size())
	case t.K == xspec.Void, t.Prim():
		return True
	case t.K == xspec.Opt:
		return Or(t.IsNone(a), inv(t.Elem, t.Get(a), false))
	case t.K == xspec.ArrayFixed:
		return App("invArr:"+t.Elem.Key, SBool, a, IntT(t.N))
	case t.K == xspec.ArrayVar:
		return App("invArr:"+t.Elem.Key, SBool, a, t.ArrLen(a))
	}
	if t.Named && !unfold {
		return App("inv:"+t.Name, SBool, a)
	}
	var cs []*Term
	for i, f := range t.Fields {
		cs = append(cs, inv(f.T, t.FieldOf(a, i), false))
	}
	if t.K == xspec.Union {
		cs = append(cs, t.UnionInv(a))
		d := t.DiscOf(a)
		for k := range t.Arms {
			if t.Arms[k].Ctor != "" {
				cs = append(cs, Implies(t.ArmCond(d, k), inv(t.Arms[k].F.T, t.ArmOf(a, k), false)))
			}
		}
	}
	return And(cs...)
}

// rt states the round trip of a at the end of pre.
func rt(t *spec.Type, w, pre, a *Term, unfold bool) (ok, end, val *Term) {
	p := Len(pre)
	return t.Ok(w, p, unfold), Eq(t.End(w, p, unfold), Add(p, Len(t.Enc(a, unfold)))), Eq(t.Val(w, p, unfold), a)
}

// rtFact is the round trip lemma of a component, used as an assumption.
func rtFact(t *spec.Type, w, pre, a *Term) []*Term {
	switch t.K {
	case xspec.Void:
		return nil
	case xspec.Struct, xspec.Union:
		if !t.Named {
			return rtFactInline(t, w, pre, a)
		}
	case xspec.Opt:
		b := t.World().Prim(xspec.Bool, 0)
		some := Not(t.IsNone(a))
		fs := rtFact(b, w, pre, some)
		for _, f := range rtFact(t.Elem, w, Concat(pre, BE(One, 4)), t.Get(a)) {
			fs = append(fs, Implies(some, f))
		}
		return fs
	case xspec.ArrayVar, xspec.ArrayFixed:
		e := t.Elem
		n := t.ArrLen(a)
		var fs []*Term
		if t.K == xspec.ArrayVar {
			u := t.World().Prim(xspec.UInt, 0)
			fs = rtFact(u, w, pre, n)
			pre = Concat(pre, BE(n, 4))
		}
		p := Len(pre)
		// lemma elems:E, and extensionality of element sequences
		h := And(e.OkArr(w, p, n), Eq(e.EndArr(w, p, n), Add(p, Len(e.EncArr(a, n)))), Eq(e.ValArr(w, p, n), a))
		return append(fs, Implies(And(inv(t, a, false), t.Wf(a, false)), h))
	}
	o, e, v := rt(t, w, pre, a, false)
	if t.K == xspec.OpaqueFixed && t.N == 0 {
		v = EqRaw(t.Val(w, Len(pre), false), a) // both are empty
	}
	return []*Term{Implies(And(inv(t, a, false), t.Wf(a, false)), And(o, e, v))}
}

func rtFactInline(t *spec.Type, w, pre, a *Term) []*Term {
	if t.K == xspec.Struct {
		var fs []*Term
		for i, f := range t.Fields {
			x := t.FieldOf(a, i)
			fs = append(fs, rtFact(f.T, w, pre, x)...)
			pre = Concat(pre, f.T.Enc(x, false))
		}
		return fs
	}
	d := t.DiscOf(a)
	fs := rtFact(t.Disc.T, w, pre, d)
	pre = Concat(pre, t.Disc.T.Enc(d, false))
	for k := range t.Arms {
		if t.Arms[k].Ctor != "" {
			for _, f := range rtFact(t.Arms[k].F.T, w, pre, t.ArmOf(a, k)) {
				fs = append(fs, Implies(t.ArmCond(d, k), f))
			}
		}
	}
	return fs
}

// goals states the round trip of a, split on the union arms and optional data
// the encoding depends on.
func rtGoals(c *Ctx, name string, as []*Term, w, o, e, v *Term, depth int) {
	for _, a := range as {
		if a.Op == "false" {
			return
		}
	}
	cond := FindIte(w, SBytes)
	if cond == nil || depth > 40 {
		c.Goal("lemma", name+": the encoding decodes", as, o)
		c.Goal("lemma", name+": the encoding ends after itself", as, e)
		c.Goal("lemma", name+": the encoding decodes to the value", as, v)
		return
	}
	for i, val := range []*Term{True, False} {
		m := map[*Term]*Term{cond: val, Not(cond): Not(val)}
		lit := cond
		if val == False {
			lit = Not(cond)
		}
		if lit.Op == "and" {
			for _, x := range lit.Args {
				m[x], m[Not(x)] = True, False
			}
		}
		var n []*Term
		for _, a := range as {
			n = append(n, Subst(a, m))
		}
		n = append(n, lit)
		rtGoals(c, fmt.Sprintf("%s%s", name, []string{"+", "-"}[i]), n, Subst(w, m), Subst(o, m), Subst(e, m), Subst(v, m), depth+1)
	}
}

func lemmaUnits(path string, sp *xspec.Spec) []*Unit {
	short := shortOf(path)
	unit := func(id string, run func(c *Ctx)) *Unit {
		return &Unit{ID: id, Fn: "lemma", Path: path, Abs: true, Run: func(c *Ctx) { c.Leafs++; run(c) }}
	}
	pkg := func(c *Ctx) *spec.Pkg { return c.P.W.Pkgs[path] }
	frame := func() (w, pre *Term, rest func(enc *Term) (*Term, *Term)) {
		pre = Seqlike(Fresh("pre", SBytes))
		post := Seqlike(Fresh("post", SBytes))
		return nil, pre, func(enc *Term) (*Term, *Term) { return Concat(pre, enc, post), post }
	}
	return []*Unit{
		unit("lemma:roundtrip-prims:"+short, func(c *Ctx) {
			_, _, ps := lemmaTypes(pkg(c))
			for _, t := range ps {
				_, pre, mk := frame()
				a := t.Typed(Fresh("a", t.Sort()))
				w, _ := mk(t.Enc(a, true))
				o, e, v := rt(t, w, pre, a, true)
				as := append(t.Defs(w, Len(pre)), inv(t, a, true), t.Wf(a, true))
				c.Goal("lemma", t.Key+": the encoding decodes", as, o)
				c.Goal("lemma", t.Key+": the encoding ends after itself", as, e)
				c.Goal("lemma", t.Key+": the encoding decodes to the value", as, v)
			}
		}),
		unit("lemma:roundtrip-elems:"+short, func(c *Ctx) {
			_, es, _ := lemmaTypes(pkg(c))
			for _, e := range es {
				arr := spec.ArrOf(e)
				_, pre, mk := frame()
				a := Fresh("c", arr.Sort())
				n := Ranged(Fresh("n", SInt), IntT(0).Lo, MaxSliceLen)
				x := arr.At(a, n)
				w, _ := mk(Concat(e.EncArr(a, n), e.Enc(x, false)))
				p := Len(pre)
				j := Ranged(Fresh("j", SInt), IntT(0).Lo, MaxSliceLen)
				invA := func(n *Term) *Term { return App("invArr:"+e.Key, SBool, a, n) }
				elem := Eq(e.Val(w, e.EndArr(w, p, j), false), arr.At(a, j))
				// one element more
				as := append(e.EncArrStep(arr, a, n), e.DecArrStep(w, p, n)...)
				as = append(as, Eq(invA(Add(n, One)), And(invA(n), inv(e, x, false))), invA(Add(n, One)), e.WfArr(a, Add(n, One)))
				// induction hypothesis: n elements followed by anything
				as = append(as, Implies(And(invA(n), e.WfArr(a, n)), And(e.OkArr(w, p, n), Eq(e.EndArr(w, p, n), Add(p, Len(e.EncArr(a, n)))), Implies(And(Le(Zero, j), Lt(j, n)), elem))))
				as = append(as, rtFact(e, w, Concat(pre, e.EncArr(a, n)), x)...)
				c.Goal("lemma", "elements "+e.Key+": the encoding decodes", as, e.OkArr(w, p, Add(n, One)))
				c.Goal("lemma", "elements "+e.Key+": the encoding ends after itself", as, Eq(e.EndArr(w, p, Add(n, One)), Add(p, Len(e.EncArr(a, Add(n, One))))))
				c.Goal("lemma", "elements "+e.Key+": each element decodes to its value", append(as, Le(Zero, j), Le(j, n)), elem)
				c.Goal("lemma", "elements "+e.Key+": none", nil, And(e.OkArr(w, p, Zero), Eq(e.EndArr(w, p, Zero), Add(p, Len(e.EncArr(a, Zero))))))
				// prefixes (used as instances in every query)
				m := Ranged(Fresh("m", SInt), IntT(0).Lo, MaxSliceLen)
				ih := Implies(And(Le(m, n), e.OkArr(w, p, n)), e.OkArr(w, p, m))
				c.Goal("lemma", "elements "+e.Key+": prefixes of a decodable sequence are decodable", append(e.DecArrStep(w, p, n), ih, Le(m, Add(n, One)), e.OkArr(w, p, Add(n, One))), e.OkArr(w, p, m))
				ih = Implies(And(Le(m, n), e.WfArr(a, n)), e.WfArr(a, m))
				c.Goal("lemma", "elements "+e.Key+": prefixes of an in-bounds sequence are in bounds", append(e.EncArrStep(arr, a, n), ih, Le(m, Add(n, One)), e.WfArr(a, Add(n, One))), e.WfArr(a, m))
			}
		}),
		unit("lemma:roundtrip:"+short, func(c *Ctx) {
			ts, _, _ := lemmaTypes(pkg(c))
			for _, t := range ts {
				_, pre, mk := frame()
				a := t.Typed(Fresh("a", t.Sort()))
				w, _ := mk(t.Enc(a, true))
				o, e, v := rt(t, w, pre, a, true)
				as := []*Term{inv(t, a, true), t.Wf(a, true)}
				switch t.K {
				case xspec.Struct, xspec.Union:
					as = append(as, rtFactInline(t, w, pre, a)...)
				default:
					as = append(as, rtFact(t, w, pre, a)...)
				}
				rtGoals(c, t.Key+" ", as, w, o, e, v, 0)
			}
		}),
		unit("lemma:size:"+short, func(c *Ctx) {
			ts, es, ps := lemmaTypes(pkg(c))
			bound := func(t *spec.Type, w, p *Term, unfold bool) *Term {
				end := t.End(w, p, unfold)
				f := And(Le(Add(p, IntT(t.MinSize())), end), Le(end, Len(w)))
				if t.IsBytes() {
					v := t.Val(w, p, false)
					if t.K == xspec.OpaqueFixed {
						f = And(f, Eq(Len(v), t.Size()))
					} else {
						f = And(f, Le(Len(v), t.Max()), Le(Add(p, IntT(4), Len(v)), end))
					}
				}
				return f
			}
			fact := func(t *spec.Type, w, p *Term) *Term {
				return Implies(And(Le(p, Len(w)), t.Ok(w, p, false)), bound(t, w, p, false))
			}
			encFact := func(t *spec.Type, a *Term) *Term {
				return Implies(inv(t, a, false), Le(IntT(t.MinSize()), Len(t.Enc(a, false))))
			}
			var comps func(t *spec.Type, w, p *Term) []*Term
			comps = func(t *spec.Type, w, p *Term) []*Term {
				var fs []*Term
				in := func(x *spec.Type, p *Term) {
					switch {
					case (x.K == xspec.Struct || x.K == xspec.Union) && !x.Named:
						fs = append(fs, comps(x, w, p)...)
					case x.K == xspec.Opt:
						b := x.World().Prim(xspec.Bool, 0)
						fs = append(fs, fact(b, w, p), fact(x.Elem, w, b.End(w, p, false)))
					case x.K == xspec.ArrayFixed || x.K == xspec.ArrayVar:
						n := IntT(x.N)
						if x.K == xspec.ArrayVar {
							u := x.World().Prim(xspec.UInt, 0)
							fs = append(fs, fact(u, w, p))
							n = u.Val(w, p, false)
							p = u.End(w, p, false)
						}
						e := x.Elem.EndArr(w, p, n)
						fs = append(fs, Implies(And(Le(p, Len(w)), x.Elem.OkArr(w, p, n)), And(Le(Add(p, Mul(IntT(x.Elem.MinSize()), n)), e), Le(e, Len(w)))))
					case x.K == xspec.Void:
					default:
						fs = append(fs, fact(x, w, p))
					}
				}
				switch t.K {
				case xspec.Struct:
					for _, f := range t.Fields {
						in(f.T, p)
						p = f.T.End(w, p, false)
					}
				case xspec.Union:
					in(t.Disc.T, p)
					p = t.Disc.T.End(w, p, false)
					for _, a := range t.Arms {
						if a.Ctor != "" {
							in(a.F.T, p)
						}
					}
				default:
					in(t, p)
				}
				return fs
			}
			var encComps func(t *spec.Type, a *Term) []*Term
			encComps = func(t *spec.Type, a *Term) []*Term {
				var fs []*Term
				in := func(x *spec.Type, a *Term) {
					switch {
					case (x.K == xspec.Struct || x.K == xspec.Union) && !x.Named:
						fs = append(fs, encComps(x, a)...)
					case x.K == xspec.Opt || x.K == xspec.ArrayVar:
					case x.K == xspec.ArrayFixed:
						fs = append(fs, Implies(inv(x, a, false), Le(IntT(x.MinSize()), Len(x.Elem.EncArr(a, IntT(x.N))))))
					default:
						fs = append(fs, encFact(x, a))
					}
				}
				switch t.K {
				case xspec.Struct:
					for i, f := range t.Fields {
						in(f.T, t.FieldOf(a, i))
					}
				case xspec.Union:
					in(t.Disc.T, t.DiscOf(a))
				default:
					in(t, a)
				}
				return fs
			}
			for _, t := range append(append([]*spec.Type{}, ps...), ts...) {
				w := Seqlike(Fresh("W", SBytes))
				p := Ranged(Fresh("p", SInt), IntT(0).Lo, MaxSliceLen)
				as := []*Term{Le(p, Len(w)), t.Ok(w, p, true)}
				if t.Prim() {
					as = append(as, t.Defs(w, p)...)
				} else {
					as = append(as, comps(t, w, p)...)
				}
				c.Goal("lemma", t.Key+": a decoded value lies within the input", as, bound(t, w, p, true))
				a := t.Typed(Fresh("a", t.Sort()))
				as = []*Term{inv(t, a, true)}
				if !t.Prim() {
					as = append(as, encComps(t, a)...)
				}
				c.Goal("lemma", t.Key+": an encoding has at least the minimal size", as, Le(IntT(t.MinSize()), Len(t.Enc(a, true))))
			}
			for _, e := range es {
				arr := spec.ArrOf(e)
				w := Seqlike(Fresh("W", SBytes))
				p := Ranged(Fresh("p", SInt), IntT(0).Lo, MaxSliceLen)
				n := Ranged(Fresh("n", SInt), IntT(0).Lo, MaxSliceLen)
				st := func(n *Term) *Term {
					return Implies(And(Le(p, Len(w)), e.OkArr(w, p, n)), And(Le(Add(p, Mul(IntT(e.MinSize()), n)), e.EndArr(w, p, n)), Le(e.EndArr(w, p, n), Len(w))))
				}
				as := append(e.DecArrStep(w, p, n), st(n))
				as = append(as, comps1(comps, e, w, e.EndArr(w, p, n), fact)...)
				c.Goal("lemma", "elements "+e.Key+": decoded values lie within the input", as, st(Add(n, One)))
				a := Fresh("c", arr.Sort())
				invA := func(n *Term) *Term { return App("invArr:"+e.Key, SBool, a, n) }
				se := func(n *Term) *Term {
					return Implies(invA(n), Le(Mul(IntT(e.MinSize()), n), Len(e.EncArr(a, n))))
				}
				x := arr.At(a, n)
				as = append(e.EncArrStep(arr, a, n), se(n), Eq(invA(Add(n, One)), And(invA(n), inv(e, x, false))))
				if (e.K == xspec.Struct || e.K == xspec.Union) && e.Named || e.Prim() {
					as = append(as, encFact(e, x))
				} else {
					as = append(as, encComps(e, x)...)
				}
				c.Goal("lemma", "elements "+e.Key+": encodings have at least the minimal size", as, se(Add(n, One)))
			}
		}),
	}
}

func comps1(comps func(t *spec.Type, w, p *Term) []*Term, e *spec.Type, w, p *Term, fact func(t *spec.Type, w, p *Term) *Term) []*Term {
	if (e.K == xspec.Struct || e.K == xspec.Union) && e.Named || e.Prim() {
		return []*Term{fact(e, w, p)}
	}
	return comps(e, w, p)
}
