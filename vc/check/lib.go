package check

import "verif/vc/sym"

// libUnits verifies the runtime library: each codec against RFC 4506 and each
// stream operation against its contract.
func libUnits() []*Unit {
	var us []*Unit
	for _, sig := range sym.RuntimeCodecs {
		sig := sig
		for _, b := range []string{"decode", "encode", "sticky-reader", "sticky-writer"} {
			b := b
			us = append(us, &Unit{ID: "lib:" + sig.Fn + ":" + b, Fn: "xdr." + sig.Fn, Path: XdrPath, Run: func(c *Ctx) {
				c.X.VerifyRuntime(sig, b, &c.Leafs)
			}})
		}
	}
	for _, op := range sym.StateOps {
		op := op
		sits := []string{"ok-reader", "ok-writer", "no-reader", "no-writer"}
		if op == "MakeReader" || op == "MakeWriter" {
			sits = []string{"new"}
		}
		for _, sit := range sits {
			sit := sit
			us = append(us, &Unit{ID: "state:" + op + ":" + sit, Fn: "xdr." + op, Path: XdrPath, Run: func(c *Ctx) {
				c.X.VerifyStateOp(op, sit, &c.Leafs)
			}})
		}
	}
	return us
}

func bufUnits() []*Unit {
	var us []*Unit
	for _, n := range []string{"EncodeBuf", "DecodeBuf"} {
		n := n
		us = append(us, &Unit{ID: "buf:" + n, Fn: "xdr." + n, Path: XdrPath, Run: func(c *Ctx) { c.X.VerifyBuf(n, &c.Leafs) }})
	}
	return us
}
