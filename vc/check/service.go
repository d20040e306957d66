package check

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"verif/vc/spec"
	"verif/vc/sym"
	"verif/vc/xspec"
)

// service builds the description of a program version in the current world.
func service(c *Ctx, path string, pr *xspec.Program, ve *xspec.Version) *sym.Service {
	k := c.P.W.Pkgs[path]
	sv := &sym.Service{Path: path, Base: xspec.GoName(pr.Name) + "_" + xspec.GoName(ve.Name), Prog: uint32(pr.Num), Vers: uint32(ve.Num), Pkg: k}
	conv := func(t *xspec.Type) *spec.Type {
		switch t.Kind {
		case xspec.Void:
			return nil
		case xspec.Named:
			return k.Lookup(t.Name)
		}
		return c.P.W.Prim(t.Kind, t.N)
	}
	for _, p := range ve.Procs {
		sv.Proc = append(sv.Proc, sym.ServiceProc{Name: xspec.GoName(p.Name), Num: uint32(p.Num), Arg: conv(p.Arg), Res: conv(p.Res)})
	}
	return sv
}

// serviceUnits: the registration table and each handler in it.
func serviceUnits(path string, sp *xspec.Spec) []*Unit {
	var us []*Unit
	for i := range sp.Progs {
		pr := &sp.Progs[i]
		for j := range pr.Vers {
			ve := &pr.Vers[j]
			base := shortOf(path) + "." + xspec.GoName(pr.Name) + "_" + xspec.GoName(ve.Name)
			if path == R1057 {
				continue // the published port mapper program has no generated service
			}
			us = append(us, &Unit{ID: "svc:" + base + ":table", Fn: base + "_regs", Path: path, Run: func(c *Ctx) {
				c.X.VerifyTable(service(c, path, pr, ve), &c.Leafs)
			}})
			for n := range ve.Procs {
				n := n
				us = append(us, &Unit{ID: "svc:" + base + ":" + xspec.GoName(ve.Procs[n].Name), Fn: base + "_handler_wrapper." + xspec.GoName(ve.Procs[n].Name), Path: path, Run: func(c *Ctx) {
					sv := service(c, path, pr, ve)
					c.X.VerifyWrapper(sv, sv.Proc[n], &c.Leafs)
				}})
			}
		}
	}
	return us
}

type named struct {
	name string
	val  int64
}

func namedValues(sp *xspec.Spec) []named {
	var out []named
	for _, c := range sp.Consts {
		out = append(out, named{c.Name, c.Val})
	}
	for _, e := range sp.EnumItems() {
		out = append(out, named{e.Name, e.Val})
	}
	for _, p := range sp.Progs {
		out = append(out, named{p.Name, p.Num})
		for _, v := range p.Vers {
			out = append(out, named{v.Name, v.Num})
			for _, q := range v.Procs {
				out = append(out, named{q.Name, q.Num})
			}
		}
	}
	return out
}

// constUnits: the value of every name the specification assigns.
func constUnits(path string, sp *xspec.Spec) []*Unit {
	return []*Unit{{ID: "const:" + shortOf(path), Fn: "constants of " + shortOf(path), Path: path, Run: func(c *Ctx) {
		pk := c.P.Pkgs[path]
		for _, n := range namedValues(sp) {
			c.Leafs++
			g := xspec.GoName(n.name)
			o, ok := pk.Pkg.Scope().Lookup(g).(*types.Const)
			if !ok {
				c.Decide("const", g+" is an exported constant with value "+big.NewInt(n.val).String(), false, "no such constant")
				continue
			}
			v := constant.ToInt(o.Val())
			got := v.ExactString()
			c.Decide("const", g+" is an exported constant with value "+big.NewInt(n.val).String(), v.Kind() == constant.Int && got == big.NewInt(n.val).String(), "value "+got)
		}
	}}}
}

// declUnits: the declarations emitted for a specification of the corpus.
func declUnits(path string, sp *xspec.Spec, g genJSON) []*Unit {
	return []*Unit{{ID: "decl:" + shortOf(path), Fn: "declarations of " + shortOf(path), Path: path, Run: func(c *Ctx) {
		pk := c.P.Pkgs[path].Pkg
		is := func(what string, ok bool, got interface{}) { c.Decide("const", what, ok, fmt.Sprintf("got %v", got)) }
		c.Leafs++
		is("the package is called "+g.Name, pk.Name() == g.Name, pk.Name())
		konst := func(n string, val int64, typ string) {
			n = xspec.GoName(n)
			o, ok := pk.Scope().Lookup(n).(*types.Const)
			what := n + " is a constant with value " + big.NewInt(val).String()
			if typ != "" {
				what += " of type " + typ
			}
			if !ok {
				is(what, false, "no such constant")
				return
			}
			v := constant.ToInt(o.Val())
			if v.Kind() != constant.Int || v.ExactString() != big.NewInt(val).String() {
				is(what, false, o.Val())
				return
			}
			t := types.TypeString(o.Type(), types.RelativeTo(pk))
			is(what, typ == "" || t == typ, t)
		}
		for _, k := range sp.Consts {
			konst(k.Name, k.Val, g.CT)
		}
		et := types.Typ[types.Int32]
		if g.Uns {
			et = types.Typ[types.Uint32]
		}
		for _, d := range sp.Defs {
			if d.T.Kind != xspec.Enum {
				continue
			}
			n := xspec.GoName(d.Name)
			o, ok := pk.Scope().Lookup(n).(*types.TypeName)
			is("the enumeration "+n+" is a "+et.Name(), ok && types.Identical(o.Type().Underlying(), et), pk.Scope().Lookup(n))
			for _, it := range d.T.Items {
				konst(it.Name, it.Val, n)
			}
		}
		for _, pr := range sp.Progs {
			konst(pr.Name, pr.Num, "uint32")
			for _, ve := range pr.Vers {
				konst(ve.Name, ve.Num, "uint32")
				for _, q := range ve.Procs {
					konst(q.Name, q.Num, "uint32")
				}
				base := xspec.GoName(pr.Name) + "_" + xspec.GoName(ve.Name)
				o, ok := pk.Scope().Lookup(base + "_handler").(*types.TypeName)
				if !ok {
					is("there is an interface "+base+"_handler", false, nil)
					continue
				}
				it, ok := o.Type().Underlying().(*types.Interface)
				is(base+"_handler is an interface with one method for each procedure", ok && it.NumMethods() == len(ve.Procs), o)
				for _, q := range ve.Procs {
					if !ok {
						break
					}
					n := xspec.GoName(q.Name)
					m, _, _ := types.LookupFieldOrMethod(o.Type(), true, pk, n)
					f, _ := m.(*types.Func)
					want := "func(" + goTypeOf(q.Arg) + ")"
					if r := goTypeOf(q.Res); r != "" {
						want += " " + r
					}
					got := "no such method"
					if f != nil {
						got = types.TypeString(f.Type(), types.RelativeTo(pk))
					}
					is(base+"_handler."+n+" is a "+want, got == want, got)
				}
				r, ok := pk.Scope().Lookup(base + "_regs").(*types.Func)
				is("there is a function "+base+"_regs", ok, nil)
				if ok {
					got := types.TypeString(r.Type(), types.RelativeTo(pk))
					sg := r.Type().(*types.Signature)
					is(base+"_regs makes a registration table of a "+base+"_handler", sg.Params().Len() == 1 && types.Identical(sg.Params().At(0).Type(), o.Type()) && sg.Results().Len() == 1 && types.TypeString(sg.Results().At(0).Type(), nil) == "[]"+ModPath+"/xdr.ProcRegistration", got)
				}
			}
		}
	}}}
}

// goTypeOf spells the Go type of an argument or result in its own package.
func goTypeOf(t *xspec.Type) string { return strings.TrimPrefix(goTypeName("", t, false), ".") }
