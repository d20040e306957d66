package xspec

import "testing"

func TestParse(t *testing.T) {
	for _, f := range []string{"/repo/rfc1057/prot.x", "/repo/rfc1813/prot.x"} {
		s, err := ParseFile(f)
		if err != nil {
			t.Fatal(f, err)
		}
		t.Log(len(s.Defs), len(s.Consts), len(s.Progs))
	}
}
