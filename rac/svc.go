package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/zeldovich/go-rpcgen/xdr"
	. "verif/vc/xspec"
)

type svcCall struct {
	name string
	arg  interface{} // pointer, nil for void
}

// svcRec records the calls of a handler.
type svcRec struct {
	calls []svcCall
	res   map[string]interface{}
	par   bool // calls arrive at the same time: nothing is recorded
}

func (r *svcRec) hit(name string, arg interface{}) {
	if !r.par {
		r.calls = append(r.calls, svcCall{name, arg})
	}
}

// service is one program version.
type service struct {
	name       string
	sp         *Spec
	prog, vers uint32
	procs      []Proc
	gen        bool
	mk         func() (*svcRec, []xdr.ProcRegistration)
}

func init() { extra["svc"] = svcSuite }

func svcSuite(o *oracle, rounds int) {
	for _, s := range services() {
		o.sp = s.sp
		o.service(s, rounds)
	}
}

func (o *oracle) service(s *service, rounds int) {
	r := o.rng
	wrap, table := []string{"C13"}, []string{"C14"}
	if s.gen {
		wrap, table = []string{"C23"}, []string{"C23"}
	}
	begin(both(wrap, table), "service %s", s.name)
	rec, regs := s.mk()
	check(len(regs) == len(s.procs), table, s.name+" table", "%d entries, want %d", len(regs), len(s.procs))
	for i := range s.procs {
		p := &s.procs[i]
		n := 0
		var h func(*xdr.XdrState) (xdr.Xdrable, error)
		for _, g := range regs {
			if g.Prog == s.prog && g.Vers == s.vers && g.Proc == uint32(p.Num) {
				n++
				h = g.Handler
			}
		}
		if !check(n == 1 && h != nil, table, s.name+" table", "%d entries for procedure %d (%s)", n, p.Num, p.Name) {
			continue
		}
		at, rt := o.res(p.Arg), o.res(p.Res)
		cuts := 0
		var cut []byte
		for k := 0; k < rounds+cuts; k++ {
			rec.calls, rec.res = nil, map[string]interface{}{}
			av := o.gen(at, 0, nil)
			in := append(o.enc(at, av, nil), o.blob(4*r.Intn(2), false)...)
			if r.Intn(3) == 0 && len(in) > 0 {
				if r.Intn(2) == 0 {
					in = in[:r.Intn(len(in))]
				} else {
					in[r.Intn(len(in))] ^= byte(1 << r.Intn(8))
				}
			}
			if k == 0 {
				// every truncation of one of them
				cut = o.enc(at, av, nil)
				for t := 0; t < 8 && (len(cut) == 0 || len(cut) > 2000); t++ {
					cut = o.enc(at, o.gen(at, 0, nil), nil)
				}
				cuts = len(cut)
				if cuts > 60 {
					cuts = 60
				}
			} else if k >= rounds {
				in = cut[:len(cut)-1-(k-rounds)]
			}
			av, _, ok := o.dec(at, in)
			resv := o.gen(rt, 0, nil)
			if rt.Kind != Void {
				rp := svcResult(s.name, p.Name)
				g := reflect.ValueOf(rp).Elem()
				o.put(rt, resv, g)
				resv = o.get(rt, g)
				rec.res[p.Name] = rp
			}
			desc := fmt.Sprintf("%s on request %s", p.Name, hex(in))
			var x xdr.Xdrable
			var err error
			a := xdr.MakeReader(in)
			pn := guard(func() { x, err = h(a) })
			if !check(pn == "", wrap, s.name+" "+p.Name+" panic", "%s panics: %s", desc, pn) {
				continue
			}
			if !ok {
				check(err != nil && len(rec.calls) == 0, wrap, s.name+" "+p.Name+" reject", "%s, which does not decode: error %v, calls %v", desc, err, names(rec.calls))
				continue
			}
			if !check(len(rec.calls) == 1 && rec.calls[0].name == p.Name, both(wrap, table), s.name+" "+p.Name+" dispatch", "%s: calls %v", desc, names(rec.calls)) {
				continue
			}
			if at.Kind != Void {
				got := o.get(at, reflect.ValueOf(rec.calls[0].arg).Elem())
				check(eq(got, av), wrap, s.name+" "+p.Name+" argument", "%s: the method received %s, want %s", desc, show(got), show(av))
			}
			if !check(err == nil && x != nil, wrap, s.name+" "+p.Name+" error", "%s: error %v, result %v", desc, err, x) {
				continue
			}
			w := xdr.MakeWriter(nil)
			x.Xdr(w)
			want := o.enc(rt, resv, nil)
			check(w.Error() == nil && bytes.Equal(w.WriteBuf(), want), wrap, s.name+" "+p.Name+" result", "%s: result encodes as %s (error %v), the method returned %s", desc, hex(w.WriteBuf()), w.Error(), hex(want))
		}
	}
}

func names(cs []svcCall) []string {
	var n []string
	for _, c := range cs {
		n = append(n, c.name)
	}
	return n
}
