package check

import (
	"sort"

	"verif/vc/sym"
	"verif/vc/xspec"
)

// codecUnits: one unit per behaviour of each codec of a bound package.
func codecUnits(path string, sp *xspec.Spec) []*Unit {
	var us []*Unit
	var names []string
	for _, d := range sp.Defs {
		names = append(names, d.Name)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		alias := sp.ByName[n].T.Kind == xspec.Named
		for _, b := range []string{"decode", "encode", "sticky"} {
			b := b
			fn := xspec.GoName(n) + ".Xdr"
			us = append(us, &Unit{ID: "codec:" + shortOf(path) + "." + xspec.GoName(n) + ":" + b, Fn: "(*" + shortOf(path) + "." + xspec.GoName(n) + ").Xdr", Path: path, Spec: n,
				Run: func(c *Ctx) {
					f := c.fn(path, fn)
					t := c.P.W.Pkgs[path].Lookup(n)
					cd := c.X.MethodCodec(f, t)
					cd.Alias = alias
					c.X.VerifyCodec(cd, b, &c.Leafs)
				}})
		}
	}
	return us
}

var _ = sym.XdrPath
