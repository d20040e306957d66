package check

import "verif/vc/sym"

func rpcUnits() []*Unit {
	mk := func(id, fn string, f func(x *sym.Exec, path string, n *int)) *Unit {
		return &Unit{ID: "rpc:" + id, Fn: "rfc1057." + fn, Path: R1057, Abs: true, Run: func(c *Ctx) {
			f(c.X, R1057, &c.Leafs)
		}}
	}
	return []*Unit{
		mk("call", "Client.Call", (*sym.Exec).VerifyClient),
		mk("new", "MakeServer", (*sym.Exec).VerifyMakeServer),
		mk("register", "Server.Register", (*sym.Exec).VerifyRegister),
		mk("registermany", "Server.RegisterMany", (*sym.Exec).VerifyRegisterMany),
		mk("run", "Server.Run", (*sym.Exec).VerifyRun),
		mk("conc", "Server.Run, request handling and registration", (*sym.Exec).VerifyConc),
		mk("handle", "request handling of Server.Run", (*sym.Exec).VerifyHandle),
	}
}
