package smt

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func sym(s string) string { return "|" + s + "|" }

func print(b *strings.Builder, t *Term, names map[int]string) {
	if names != nil {
		if n, ok := names[t.ID]; ok {
			b.WriteString(n)
			return
		}
	}
	printNode(b, t, names)
}

func printNode(b *strings.Builder, t *Term, names map[int]string) {
	app := func(op string, args ...*Term) {
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range args {
			b.WriteByte(' ')
			print(b, a, names)
		}
		b.WriteByte(')')
	}
	switch t.Op {
	case "int":
		b.WriteString(intLit(t.Val))
	case "true", "false":
		b.WriteString(t.Op)
	case "empty":
		if _, abs := names[absKey]; abs {
			b.WriteString("bempty")
			break
		}
		b.WriteString("(as seq.empty (Seq Int))")
	case "var", "bvar":
		b.WriteString(sym(t.Name))
	case "app", "ctor":
		if len(t.Args) == 0 {
			b.WriteString(sym(t.Name))
		} else {
			app(sym(t.Name), t.Args...)
		}
	case "is":
		app("(_ is "+sym(t.Name)+")", t.Args...)
	case "*c":
		app("*", t.Args...)
	case "unit":
		app("seq.unit", t.Args...)
	case "len":
		app("seq.len", t.Args...)
	case "++":
		if _, abs := names[absKey]; abs {
			app(fmt.Sprintf("bcat%d", len(t.Args)), t.Args...)
			break
		}
		app("seq.++", t.Args...)
	case "extract":
		app("seq.extract", t.Args...)
	case "nth":
		app("seq.nth", t.Args...)
	case "zeros":
		app("zeros", t.Args...)
	case "forall":
		if _, abs := names[absKey]; abs {
			fmt.Fprintf(b, "|forall%d|", t.ID)
			break
		}
		b.WriteString("(forall (")
		for _, v := range t.BVars {
			fmt.Fprintf(b, "(%s %s)", sym(v.Name), v.Sort)
		}
		b.WriteString(") ")
		if len(t.Args) > 1 {
			b.WriteString("(! ")
		}
		print(b, t.Args[0], names)
		if len(t.Args) > 1 {
			b.WriteString(" :pattern (")
			for i, p := range t.Args[1:] {
				if i > 0 {
					b.WriteByte(' ')
				}
				print(b, p, names)
			}
			b.WriteString("))")
		}
		b.WriteByte(')')
	default:
		app(t.Op, t.Args...)
	}
}

// Decls supplies declarations for the non-builtin symbols of a query.
type Decls interface {
	// DeclareFun returns the declaration of an application symbol (or ""),
	// plus axioms to add when it is used.
	DeclareFun(name string, t *Term) (string, []*Term)
	// SortDecls returns declarations for the sorts used (in order).
	SortDecls(sorts map[string]bool, ctors map[string]bool) string
}

// Instancer adds facts about the ground applications of a query.
type Instancer interface {
	Instances(apps []*Term) []*Term
}

// Script renders assumptions and the negated goal as an SMT-LIB script body
// (without logic and check-sat).
func Script(d Decls, assume []*Term, goal *Term) (string, []*Term) {
	return script(d, assume, goal, false)
}

const absKey = -1

var absNames = strings.NewReplacer("(Seq Int)", "BSeq", "(seq.len ", "(blen ", "(seq.nth ", "(bnth ", "(seq.extract ", "(bext ", "(seq.unit ", "(bunit ")

// AbsScript renders a weakening of the query without the theory of sequences
// and without quantifiers: its models include those of the query.
func AbsScript(d Decls, assume []*Term, goal *Term) string {
	b, _ := script(d, assume, goal, true)
	return absNames.Replace(b)
}

func script(d Decls, assume []*Term, goal *Term, abs bool) (string, []*Term) {
	all := append([]*Term{}, assume...)
	if goal != nil {
		all = append(all, Not(goal))
	}
	seen := map[int]bool{}
	refs := map[int]int{}
	var order []*Term
	var facts []*Term
	funs := map[string]string{}
	var funOrder []string
	vars := map[string]*Term{}
	sorts := map[string]bool{}
	ctors := map[string]bool{}
	var pendingAx []*Term
	zeros := map[int]*Term{}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t.ID]++
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			visit(a)
		}
		sorts[t.Sort] = true
		for _, v := range t.BVars {
			sorts[v.Sort] = true
		}
		switch t.Op {
		case "var":
			vars[t.Name] = t
		case "ctor", "is":
			ctors[t.Name] = true
		case "app":
			if _, ok := funs[t.Name]; !ok {
				ds, ax := d.DeclareFun(t.Name, t)
				funs[t.Name] = ds
				funOrder = append(funOrder, t.Name)
				pendingAx = append(pendingAx, ax...)
			}
		case "zeros":
			if !t.Bound {
				zeros[t.ID] = t
			}
		}
		order = append(order, t)
		if !t.Bound {
			if t.Typed && (t.Op == "var" || t.Op == "app" || t.Op == "nth") {
				if t.Lo != nil {
					facts = append(facts, mk("<=", "", SBool, BigT(t.Lo), t))
				}
				if t.Hi != nil {
					facts = append(facts, mk("<=", "", SBool, t, BigT(t.Hi)))
				}
			}
			if t.Sort == SBytes && t.FixLen != nil {
				facts = append(facts, mk("=", "", SBool, mk("len", "", SInt, t), t.FixLen))
			}
			if t.Sort == SBytes && t.MaxLen != nil {
				facts = append(facts, mk("<=", "", SBool, mk("len", "", SInt, t), BigT(t.MaxLen)))
			}
		}
	}
	for _, t := range all {
		visit(t)
	}
	if in, ok := d.(Instancer); ok {
		var apps []*Term
		for _, t := range order {
			if t.Op == "app" && !t.Bound {
				apps = append(apps, t)
			}
		}
		for _, f := range in.Instances(apps) {
			if f.Op != "true" {
				all = append([]*Term{f}, all...)
				visit(f)
			}
		}
	}
	for len(pendingAx) > 0 {
		ax := pendingAx
		pendingAx = nil
		for _, a := range ax {
			facts = append(facts, a)
			visit(a)
		}
	}
	var zs []int
	for id := range zeros {
		zs = append(zs, id)
	}
	sort.Ints(zs)
	for _, id := range zs {
		z := zeros[id]
		n := z.Args[0]
		ln := mk("len", "", SInt, z)
		facts = append(facts,
			Implies(mk("<=", "", SBool, Zero, n), mk("=", "", SBool, ln, n)),
			Implies(Eq(n, Zero), mk("=", "", SBool, z, Empty)),
			Implies(Eq(n, One), mk("=", "", SBool, z, UnitSeq(Zero))),
			Implies(Eq(n, IntT(2)), mk("=", "", SBool, z, Concat(UnitSeq(Zero), UnitSeq(Zero)))),
			Implies(Eq(n, IntT(3)), mk("=", "", SBool, z, Concat(UnitSeq(Zero), UnitSeq(Zero), UnitSeq(Zero)))))
	}
	for _, f := range facts {
		visit(f)
	}
	// extract length facts: built only in range
	var ext []*Term
	for _, t := range order {
		if t.Op == "extract" && !t.Bound {
			ext = append(ext, mk("=", "", SBool, mk("len", "", SInt, t), t.Args[2]))
		}
	}
	_ = ext
	var b strings.Builder
	names := map[int]string{}
	var absFacts []*Term
	if abs {
		names[absKey] = ""
		b.WriteString("(declare-sort BSeq 0)\n(declare-fun bempty () BSeq)\n(declare-fun blen (BSeq) Int)\n(declare-fun bnth (BSeq Int) Int)\n(declare-fun bext (BSeq Int Int) BSeq)\n(declare-fun bunit (Int) BSeq)\n")
		cat := map[int]bool{}
		ln := func(t *Term) *Term { return mk("len", "", SInt, t) }
		absFacts = append(absFacts, mk("=", "", SBool, ln(Empty), Zero))
		for _, t := range order {
			if t.Op == "forall" {
				fmt.Fprintf(&b, "(declare-fun |forall%d| () Bool)\n", t.ID)
			}
			if t.Op == "++" && !cat[len(t.Args)] {
				cat[len(t.Args)] = true
				fmt.Fprintf(&b, "(declare-fun bcat%d (%s) BSeq)\n", len(t.Args), strings.Repeat("BSeq ", len(t.Args)))
			}
			if t.Bound || t.Sort != SBytes {
				continue
			}
			absFacts = append(absFacts, mk("<=", "", SBool, Zero, ln(t)))
			switch t.Op {
			case "++":
				var ls []*Term
				for _, a := range t.Args {
					ls = append(ls, ln(a))
				}
				absFacts = append(absFacts, mk("=", "", SBool, ln(t), mk("+", "", SInt, ls...)))
			case "unit":
				absFacts = append(absFacts, mk("=", "", SBool, ln(t), One))
			case "extract":
				end := mk("+", "", SInt, t.Args[1], t.Args[2])
				absFacts = append(absFacts, Implies(And(mk("<=", "", SBool, Zero, t.Args[1]), mk("<=", "", SBool, Zero, t.Args[2]), mk("<=", "", SBool, end, ln(t.Args[0]))), mk("=", "", SBool, ln(t), t.Args[2])))
			}
		}
	}
	b.WriteString(d.SortDecls(sorts, ctors))
	if len(zs) > 0 || anyOp(order, "zeros") {
		b.WriteString("(declare-fun zeros (Int) (Seq Int))\n")
	}
	for _, n := range funOrder {
		if funs[n] != "" {
			b.WriteString(funs[n])
			b.WriteByte('\n')
		}
	}
	var vn []string
	for n := range vars {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	var vlist []*Term
	for _, n := range vn {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", sym(n), vars[n].Sort)
		vlist = append(vlist, vars[n])
	}
	for _, t := range order {
		if refs[t.ID] > 1 && len(t.Args) > 0 && !t.Bound && t.Op != "forall" {
			var e strings.Builder
			printNode(&e, t, names)
			n := fmt.Sprintf("$%d", t.ID)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, e.String())
			names[t.ID] = n
		}
	}
	emit := func(t *Term) {
		b.WriteString("(assert ")
		print(&b, t, names)
		b.WriteString(")\n")
	}
	for _, f := range facts {
		emit(f)
	}
	for _, f := range absFacts {
		emit(f)
	}
	for _, a := range all {
		emit(a)
	}
	return b.String(), vlist
}

func anyOp(ts []*Term, op string) bool {
	for _, t := range ts {
		if t.Op == op {
			return true
		}
	}
	return false
}
