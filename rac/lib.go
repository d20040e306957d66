package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/zeldovich/go-rpcgen/xdr"
	. "verif/vc/xspec"
)

// prim adapts a runtime primitive to the codec interface.
type prim struct{ f func(xs *xdr.XdrState) }

func (p *prim) Xdr(xs *xdr.XdrState) { p.f(xs) }

func ref(p interface{}) reflect.Value { return reflect.ValueOf(p).Elem() }

func libEntries() []*entry {
	sp := &Spec{ByName: map[string]*Def{}}
	var es []*entry
	add := func(name string, t *Type, mk func() (xdr.Xdrable, reflect.Value)) {
		es = append(es, &entry{name: name, sp: sp, t: t, mk: mk, lib: true})
	}
	k := func(k Kind) *Type { return &Type{Kind: k} }
	add("XdrBool", k(Bool), func() (xdr.Xdrable, reflect.Value) {
		v := new(bool)
		return &prim{func(xs *xdr.XdrState) { xdr.XdrBool(xs, v) }}, ref(v)
	})
	add("XdrS32", k(Int), func() (xdr.Xdrable, reflect.Value) {
		v := new(int32)
		return &prim{func(xs *xdr.XdrState) { xdr.XdrS32(xs, v) }}, ref(v)
	})
	add("XdrU32", k(UInt), func() (xdr.Xdrable, reflect.Value) {
		v := new(uint32)
		return &prim{func(xs *xdr.XdrState) { xdr.XdrU32(xs, v) }}, ref(v)
	})
	add("XdrS64", k(Hyper), func() (xdr.Xdrable, reflect.Value) {
		v := new(int64)
		return &prim{func(xs *xdr.XdrState) { xdr.XdrS64(xs, v) }}, ref(v)
	})
	add("XdrU64", k(UHyper), func() (xdr.Xdrable, reflect.Value) {
		v := new(uint64)
		return &prim{func(xs *xdr.XdrState) { xdr.XdrU64(xs, v) }}, ref(v)
	})
	add("Bool.Xdr", k(Bool), func() (xdr.Xdrable, reflect.Value) { v := new(xdr.Bool); return v, ref(v) })
	add("Int32.Xdr", k(Int), func() (xdr.Xdrable, reflect.Value) { v := new(xdr.Int32); return v, ref(v) })
	add("Uint32.Xdr", k(UInt), func() (xdr.Xdrable, reflect.Value) { v := new(xdr.Uint32); return v, ref(v) })
	add("Int64.Xdr", k(Hyper), func() (xdr.Xdrable, reflect.Value) { v := new(xdr.Int64); return v, ref(v) })
	add("Uint64.Xdr", k(UHyper), func() (xdr.Xdrable, reflect.Value) { v := new(xdr.Uint64); return v, ref(v) })
	add("Void.Xdr", k(Void), func() (xdr.Xdrable, reflect.Value) { v := new(xdr.Void); return v, ref(v) })
	for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 9, 64, 257, 1003} {
		n := n
		add(fmt.Sprintf("XdrArray[%d]", n), &Type{Kind: OpaqueFixed, N: int64(n)}, func() (xdr.Xdrable, reflect.Value) {
			v := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0))))
			return &prim{func(xs *xdr.XdrState) { xdr.XdrArray(xs, v.Elem().Slice(0, n).Bytes()) }}, v.Elem()
		})
	}
	for _, n := range []int{-1, 0, 1, 3, 4, 5, 8, 16, 17, 64, 255, 1024, 4097, 0x7fffffff, 0xffffffff} {
		n := n
		add(fmt.Sprintf("XdrVarArray<%d>", n), &Type{Kind: OpaqueVar, N: int64(n)}, func() (xdr.Xdrable, reflect.Value) {
			v := new([]byte)
			return &prim{func(xs *xdr.XdrState) { xdr.XdrVarArray(xs, n, v) }}, ref(v)
		})
		add(fmt.Sprintf("XdrString<%d>", n), &Type{Kind: String, N: int64(n)}, func() (xdr.Xdrable, reflect.Value) {
			v := new(string)
			return &prim{func(xs *xdr.XdrState) { xdr.XdrString(xs, n, v) }}, ref(v)
		})
	}
	return es
}

// state checks the stream operations against a model.
func (o *oracle) state() {
	tags := func(x ...string) []string { return x }
	everything := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12"}
	begin(everything, "stream operations")
	for i := 0; i < 3000; i++ {
		reader := o.rng.Intn(2) == 0
		data := o.blob(o.rng.Intn(20), false)
		keep := append([]byte{}, data...)
		var s *xdr.XdrState
		if reader {
			s = xdr.MakeReader(data)
		} else {
			s = xdr.MakeWriter(data)
		}
		bad := false
		tr := fmt.Sprintf("reader %v over %x", reader, data)
		for k := 0; k < 6; k++ {
			p := guard(func() {
				switch o.rng.Intn(6) {
				case 0:
					tr += "; Encoding"
					check(s.Encoding() == (!bad && !reader), everything, "XdrState.Encoding", "%s: %v", tr, s.Encoding())
				case 1:
					tr += "; Decoding"
					check(s.Decoding() == (!bad && reader), everything, "XdrState.Decoding", "%s: %v", tr, s.Decoding())
				case 2:
					if o.rng.Intn(3) == 0 {
						tr += "; SetError"
						s.SetError([]string{"", "boom"}[o.rng.Intn(2)])
						bad = true
					}
				case 3:
					n := uint32(o.rng.Intn(1000))
					l := []int{0, 5, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 40}[o.rng.Intn(8)]
					sz := n
					s.EncodingSetSize(&sz, l)
					tr += fmt.Sprintf("; EncodingSetSize(%d,%d)", n, l)
					if bad || reader {
						check(sz == n, tags("C04", "C05", "C06", "C09"), "XdrState.EncodingSetSize", "%s changed the size to %d", tr, sz)
					} else if l > 1<<32-1 {
						check(s.Error() != nil, tags("C04"), "XdrState.EncodingSetSize", "%s accepts a length that does not fit", tr)
						bad = true
					} else {
						check(sz == uint32(l), tags("C04", "C08"), "XdrState.EncodingSetSize", "%s sets %d", tr, sz)
					}
				case 4:
					check((s.Error() != nil) == bad, everything, "XdrState.Error", "%s: error %v", tr, s.Error())
				case 5:
					check(bytes.Equal(s.WriteBuf(), keep) || reader && !bad, tags("C01", "C05", "C08"), "XdrState.WriteBuf", "%s: buffer %x", tr, s.WriteBuf())
				}
			})
			check(p == "", everything, "XdrState panic", "%s panics: %s", tr, p)
		}
		check((s.Error() != nil) == bad, everything, "XdrState.Error", "%s: error %v", tr, s.Error())
		check(bytes.Equal(data, keep), tags("C06"), "XdrState frame", "%s changed the buffer to %x", tr, data)
	}
}

// huge lengths: the data is zero pages that are never touched.
func (o *oracle) huge() {
	t := []string{"C04", "C01", "C08"}
	begin(t, "XdrVarArray of 2^32+5 bytes")
	d := make([]byte, 1<<32+5)
	w := xdr.MakeWriter(nil)
	p := guard(func() { xdr.XdrVarArray(w, -1, &d) })
	check(p == "" && w.Error() != nil, t, "XdrVarArray huge", "encode of 2^32+5 bytes without a declared maximum: panic %q, error %v, output starts %s", p, w.Error(), hex(w.WriteBuf()[:min(8, len(w.WriteBuf()))]))
	if w.Error() == nil {
		return
	}
}

func libSuite(o *oracle, rounds int) {
	o.state()
	for _, e := range libEntries() {
		o.sp = e.sp
		o.codec(e, rounds)
	}
}
