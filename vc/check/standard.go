package check

import (
	"os"
	"path/filepath"

	"verif/vc/xspec"
)

// Standard loads the repository and lists all units about its own packages.
func Standard(repo, verif string) (*Env, []*Unit, error) {
	e, err := NewEnv(repo, nil, "./xdr", "./rfc1057", "./rfc1813")
	if err != nil {
		return e, nil, err
	}
	var us []*Unit
	us = append(us, libUnits()...)
	us = append(us, bufUnits()...)
	for _, p := range []string{R1057, R1813} {
		b, err := os.ReadFile(filepath.Join(verif, "specs", shortOf(p)+".x"))
		if err != nil {
			return e, nil, err
		}
		sp, err := xspec.Parse(string(b))
		if err != nil {
			return e, nil, err
		}
		e.AddSpec(p, sp, true)
		us = append(us, codecUnits(p, sp)...)
		us = append(us, serviceUnits(p, sp)...)
		us = append(us, constUnits(p, sp)...)
		us = append(us, lemmaUnits(p, sp)...)
	}
	us = append(us, rpcUnits()...)
	return e, us, nil
}
