package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
	. "verif/vc/xspec"
)

// entry is a codec under contract.
type entry struct {
	name string
	sp   *Spec
	t    *Type
	mk   func() (xdr.Xdrable, reflect.Value) // fresh variable and its content
	lib  bool
	gen  bool
}

// tagset maps the contract clauses to properties.
type tagset struct{ enc, dec, rej, bound, sticky, frame, rt, cost []string }

func (e *entry) tags() tagset {
	if e.gen {
		c := []string{"C22"}
		return tagset{c, c, c, c, c, c, c, c}
	}
	if e.lib {
		return tagset{[]string{"C01", "C07", "C08"}, []string{"C02", "C07", "C09"}, []string{"C03", "C10"}, []string{"C04", "C01", "C08"}, []string{"C05"}, []string{"C06"}, []string{"C07"}, []string{"C12"}}
	}
	return tagset{[]string{"C08", "C07"}, []string{"C09", "C07"}, []string{"C10"}, []string{"C04", "C08"}, []string{"C05"}, []string{"C06"}, []string{"C07"}, []string{"C12"}}
}

// guard runs f; a panic is returned as text.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(mismatch); ok {
				p = "declaration: " + string(m)
				return
			}
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// limit ends the process when f takes too long; the last case announced is
// then the failing input.
func limit(d time.Duration, tags []string, name, detail string, f func()) {
	done := make(chan bool)
	go func() {
		select {
		case <-done:
		case <-time.After(d):
			fail(tags, name, "%s", detail)
			emit(line{Evals: evals, Done: true})
			os.Exit(0)
		}
	}()
	f()
	close(done)
}

func both(a, b []string) []string { return append(append([]string{}, a...), b...) }

func (o *oracle) codec(e *entry, rounds int) {
	tg := e.tags()
	all := both(both(both(both(tg.enc, tg.dec), tg.rej), tg.cost), both(tg.bound, both(tg.sticky, tg.frame)))
	begin(all, "%s", e.name)
	for i := 0; i < rounds; i++ {
		v := o.gen(e.t, 0, nil)
		want := o.enc(e.t, v, nil)
		if len(want) > 1<<20 {
			continue
		}
		pre := o.blob(o.rng.Intn(9), false)
		suf := o.blob(o.rng.Intn(9), false)
		o.encCase(e, tg, v, want, pre)
		o.decCase(e, tg, want, suf, false)
		if i%3 == 0 {
			o.stickyCase(e, tg, want)
		}
		// malformed inputs
		for k := 0; k < 4 && len(want) > 0; k++ {
			o.decCase(e, tg, want[:o.rng.Intn(len(want))], nil, true)
		}
		if len(want) > 0 {
			o.decCase(e, tg, want[:len(want)-1], nil, true)
		}
		for k := 0; k < 3 && len(want) >= 4; k++ {
			m := append([]byte{}, want...)
			at := o.rng.Intn(len(m)/4) * 4
			if k < 2 && i < len(m)/4 {
				at = i * 4
			}
			switch o.rng.Intn(8) {
			case 0:
				binary.BigEndian.PutUint32(m[at:], 0xffffffff-uint32(o.rng.Intn(5)))
			case 1:
				binary.BigEndian.PutUint32(m[at:], 0x7fffffff)
			case 2:
				binary.BigEndian.PutUint32(m[at:], 0x10000000)
			case 3:
				binary.BigEndian.PutUint32(m[at:], binary.BigEndian.Uint32(m[at:])+1)
			case 4:
				m[at+3] ^= byte(1 << o.rng.Intn(8))
			case 5:
				m[at+o.rng.Intn(4)] ^= byte(1 << o.rng.Intn(8))
			case 6:
				binary.BigEndian.PutUint32(m[at:], 0xfffffffd)
			default:
				o.rng.Read(m[at:])
			}
			o.decCase(e, tg, m, suf, true)
		}
		if e.lib || o.bounded(e.t, map[*Type]bool{}) {
			o.boundCase(e, tg)
		}
	}
	o.hostile(e, tg)
	o.largeCases(e, tg)
}

// largeCases: long lists, arrays and byte strings.
func (o *oracle) largeCases(e *entry, tg tagset) {
	defer func() { o.large = false }()
	sizes := []int{1100, 70000}
	if e.gen {
		sizes = []int{3000}
	}
	for _, n := range sizes {
		for k := 0; k < 2; k++ {
			o.large, o.chain, o.many = true, n*k, n*(1-k)
			v := o.gen(e.t, 0, nil)
			o.large = false
			want := o.enc(e.t, v, nil)
			if len(want) < 250 || len(want) > 8<<20 {
				continue
			}
			o.largeCase(e, tg, v, want)
		}
	}
}

func (o *oracle) largeCase(e *entry, tg tagset, v V, want []byte) {
	x, g := e.mk()
	if p := guard(func() { o.put(e.t, v, g) }); p != "" {
		fail(tg.enc, e.name+" declaration", "%s", p)
		return
	}
	var b []byte
	var err error
	begin(both(both(tg.enc, tg.dec), tg.rt), "%s: %s", e.name, hex(want))
	limit(20*time.Second, both(both(tg.enc, tg.dec), tg.rt), e.name+" large", "encode of a large value, "+hex(want)+", runs longer than 20 seconds", func() {
		p := guard(func() { b, err = xdr.EncodeBuf(x) })
		check(p == "" && err == nil && bytes.Equal(b, want), both(tg.enc, tg.rt), e.name+" large", "encode of a large value: panic %q, error %v, got %s, want %s", p, err, hex(b), hex(want))
	})
	in := append(append([]byte{}, want...), 1, 2, 3, 4)
	y, gy := e.mk()
	o.dirty(e, gy)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	limit(20*time.Second, both(tg.cost, tg.dec), e.name+" cost", "decode of "+hex(in)+" runs longer than 20 seconds", func() {
		r := xdr.MakeReader(in)
		p := guard(func() { y.Xdr(r); err = r.Error() })
		if !check(p == "" && err == nil, both(tg.dec, tg.rt), e.name+" large", "decode of %s: panic %q, error %v", hex(in), p, err) {
			return
		}
		got := o.enc(e.t, o.get(e.t, gy), nil)
		check(bytes.Equal(got, want), both(tg.dec, tg.rt), e.name+" large", "decode of %s: got the value %s", hex(in), hex(got))
		d, ok := rest(r, 4)
		check(ok && bytes.Equal(d, in[len(want):]), tg.dec, e.name+" large", "decode of %s: left %x unread", hex(in), d)
	})
	runtime.ReadMemStats(&m1)
	check(m1.TotalAlloc-m0.TotalAlloc <= 1<<24+4096*uint64(len(in)), tg.cost, e.name+" cost", "decode of %s allocates %d bytes", hex(in), m1.TotalAlloc-m0.TotalAlloc)
	z, _ := e.mk()
	p := guard(func() { err = xdr.DecodeBuf(want[:len(want)-1], z) })
	check(p == "" && err != nil, tg.rej, e.name+" large", "decode of %s without its last byte: panic %q, error %v", hex(want), p, err)
}

func (o *oracle) encCase(e *entry, tg tagset, v V, want, pre []byte) {
	x, g := e.mk()
	if p := guard(func() { o.put(e.t, v, g) }); p != "" {
		fail(tg.enc, e.name+" declaration", "%s", p)
		return
	}
	v = o.get(e.t, g)
	// a recycled buffer: what lies behind it is not zero
	room := o.rng.Intn(20)
	if o.rng.Intn(2) == 0 {
		room += len(want)
	}
	buf := bytes.Repeat([]byte{0xa5}, len(pre)+room)[:len(pre)]
	copy(buf, pre)
	var b []byte
	var err error
	in := func() string { return fmt.Sprintf("encode of %s after %x", show(v), pre) }
	p := guard(func() {
		w := xdr.MakeWriter(buf)
		x.Xdr(w)
		b, err = w.WriteBuf(), w.Error()
	})
	if !check(p == "" && err == nil, both(tg.enc, tg.bound), e.name+" encode", "%s: panic %q error %v", in(), p, err) {
		return
	}
	check(bytes.Equal(b, append(append([]byte{}, pre...), want...)), tg.enc, e.name+" encode", "%s: got %s, want %s", in(), hex(b), hex(append(append([]byte{}, pre...), want...)))
	check(bytes.Equal(buf, pre), both(tg.frame, tg.enc), e.name+" frame", "%s changed the bytes already written to %x", in(), buf)
	check(eq(o.get(e.t, g), v), tg.frame, e.name+" frame", "%s changed the value to %s", in(), show(o.get(e.t, g)))
	y, gy := e.mk()
	o.dirty(e, gy)
	p = guard(func() { err = xdr.DecodeBuf(append(append([]byte{}, b[len(pre):]...), 1, 2, 3), y) })
	check(p == "" && err == nil && eq(o.get(e.t, gy), v), tg.rt, e.name+" roundtrip", "%s then decode: %s error %v panic %s", in(), show(o.get(e.t, gy)), err, p)
	p = guard(func() { b, err = xdr.EncodeBuf(x) })
	check(p == "" && err == nil && bytes.Equal(b, want), tg.enc, e.name+" EncodeBuf", "%s: got %s error %v panic %s, want %s", in(), hex(b), err, p, hex(want))
}

// dirty stores something in a destination.
func (o *oracle) dirty(e *entry, g reflect.Value) {
	if o.rng.Intn(4) > 0 {
		o.put(e.t, o.gen(e.t, 8, nil), g)
	}
}

// rest reads what a reader has left.
func rest(r *xdr.XdrState, n int) ([]byte, bool) {
	d := make([]byte, n)
	for i := range d {
		d[i] = 0xEE
	}
	if n%4 != 0 {
		// fixed opaque data is read with its padding; read word by word
		// and the tail byte by byte is impossible, so ask for whole words
		d = make([]byte, n)
	}
	xdr.XdrArray(r, d)
	return d, r.Error() == nil
}

func (o *oracle) decCase(e *entry, tg tagset, in, suf []byte, malformed bool) {
	// keep the tail word-aligned so that it can be read back
	for (len(in)+len(suf))%4 != 0 && !malformed {
		suf = append(suf, 7)
	}
	full := append(append(make([]byte, 0, len(in)+len(suf)+8), in...), suf...)
	keep := append([]byte{}, full[:cap(full)]...)
	ov, orest, ook := o.dec(e.t, full)
	x, g := e.mk()
	if p := guard(func() { o.dirty(e, g) }); p != "" {
		fail(tg.dec, e.name+" declaration", "%s", p)
		return
	}
	before := show(o.get(e.t, g))
	desc := func() string { return fmt.Sprintf("decode of %s into a variable holding %s", hex(full), before) }
	var err error
	var r *xdr.XdrState
	begin(both(tg.rej, tg.cost), "%s: %s", e.name, hex(full))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var p string
	limit(3*time.Second, both(tg.cost, tg.rej), e.name+" cost", "decode of "+hex(full)+" runs longer than 3 seconds", func() {
		p = guard(func() {
			r = xdr.MakeReader(full)
			x.Xdr(r)
			err = r.Error()
		})
	})
	runtime.ReadMemStats(&m1)
	check(m1.TotalAlloc-m0.TotalAlloc <= 1<<17+1024*uint64(len(full)), tg.cost, e.name+" cost", "%s allocates %d bytes", desc(), m1.TotalAlloc-m0.TotalAlloc)
	if p != "" {
		fail(both(tg.rej, tg.dec), e.name+" panic", "%s panics: %s", desc(), p)
		return
	}
	if !ook {
		check(err != nil, both(tg.rej, tg.bound), e.name+" reject", "%s succeeds", desc())
	} else {
		v := o.get(e.t, g)
		if check(err == nil, both(tg.dec, tg.bound), e.name+" decode", "%s fails: %v", desc(), err) {
			check(eq(v, ov), tg.dec, e.name+" decode", "%s: got %s, want %s", desc(), show(v), show(ov))
			if len(orest)%4 == 0 {
				d, ok := rest(r, len(orest))
				check(ok && bytes.Equal(d, orest), tg.dec, e.name+" remaining", "%s does not leave exactly %x unread", desc(), orest)
				if len(orest) == 0 {
					var b xdr.Bool
					b.Xdr(r)
					check(r.Error() != nil, tg.dec, e.name+" remaining", "%s leaves input unread at the end", desc())
				}
			}
			// appending to decoded data changes nothing else
			o.appendAll(e.t, g)
			check(eq(o.get(e.t, g), v), tg.frame, e.name+" alias", "%s: appending to decoded opaque data changed other data", desc())
		}
	}
	if err == nil && ook {
		// nothing
	} else if r != nil && err != nil {
		o.afterError(e, tg, r, desc)
	}
	check(bytes.Equal(keep, full[:cap(full)]), tg.frame, e.name+" frame", "%s changed the input bytes", desc())
}

// afterError: a failed stream stays failed and inert.
func (o *oracle) afterError(e *entry, tg tagset, r *xdr.XdrState, desc func() string) {
	y, gy := e.mk()
	o.dirty(e, gy)
	v := o.get(e.t, gy)
	w0 := len(r.WriteBuf())
	p := guard(func() { y.Xdr(r) })
	check(p == "" && r.Error() != nil && len(r.WriteBuf()) == w0 && eq(o.get(e.t, gy), v), tg.sticky, e.name+" sticky", "after %s failed, decoding again: panic %q error %v", desc(), p, r.Error())
}

// appendAll appends to every byte slice of the value.
func (o *oracle) appendAll(t *Type, g reflect.Value) {
	switch g.Kind() {
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			o.appendAll(nil, g.Field(i))
		}
	case reflect.Slice:
		if g.Type().Elem().Kind() == reflect.Uint8 {
			b := g.Bytes()
			_ = append(b, 0xA5, 0x5A, 0xA5, 0x5A)
			return
		}
		for i := 0; i < g.Len(); i++ {
			o.appendAll(nil, g.Index(i))
		}
	case reflect.Array:
		if g.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < g.Len(); i++ {
				o.appendAll(nil, g.Index(i))
			}
		}
	case reflect.Ptr:
		if !g.IsNil() {
			o.appendAll(nil, g.Elem())
		}
	}
}

func (o *oracle) stickyCase(e *entry, tg tagset, want []byte) {
	for _, reader := range []bool{true, false} {
		x, g := e.mk()
		o.dirty(e, g)
		v := o.get(e.t, g)
		data := append([]byte{}, want...)
		var s *xdr.XdrState
		if reader {
			s = xdr.MakeReader(data)
		} else {
			s = xdr.MakeWriter(data)
		}
		s.SetError("x")
		p := guard(func() { x.Xdr(s) })
		check(p == "" && s.Error() != nil, tg.sticky, e.name+" sticky", "on a failed stream (reader %v): panic %q, error %v", reader, p, s.Error())
		check(eq(o.get(e.t, g), v), tg.sticky, e.name+" sticky", "on a failed stream (reader %v) over %s, %s was changed to %s", reader, hex(data), show(v), show(o.get(e.t, g)))
		check(bytes.Equal(s.WriteBuf(), want), tg.sticky, e.name+" sticky", "on a failed stream (reader %v) the buffer %s became %s", reader, hex(want), hex(s.WriteBuf()))
		check(!s.Encoding() && !s.Decoding(), tg.sticky, e.name+" sticky", "a failed stream (reader %v) claims to be working", reader)
	}
}

// boundCase: one item beyond its maximum.
func (o *oracle) boundCase(e *entry, tg tagset) {
	bad := o.rng.Intn(4)
	v := o.gen(e.t, 0, &bad)
	if o.inBounds(e.t, v) {
		return
	}
	x, g := e.mk()
	o.put(e.t, v, g)
	var err error
	p := guard(func() {
		w := xdr.MakeWriter(nil)
		x.Xdr(w)
		err = w.Error()
	})
	check(p == "" && err != nil, tg.bound, e.name+" bound", "encode of %s, which has an item beyond its maximum: panic %q, error %v", show(v), p, err)
	in := o.enc(e.t, v, nil)
	y, gy := e.mk()
	o.dirty(e, gy)
	p = guard(func() { err = xdr.DecodeBuf(in, y) })
	check(p == "" && err != nil, both(tg.bound, tg.rej), e.name+" bound", "decode of %s, which has an item beyond its maximum: panic %q, error %v", hex(in), p, err)
}

// hostile: huge announced counts, cheap to refuse.
func (o *oracle) hostile(e *entry, tg tagset) {
	for k := 0; k < 6; k++ {
		v := o.gen(e.t, 0, nil)
		b := o.enc(e.t, v, nil)
		for at := 0; at+4 <= len(b) && at < 400; at += 4 {
			for _, n := range []uint32{0xffffffff, 0x7fffffff, 0x10000000, 0x00ffffff} {
				m := append([]byte{}, b[:at]...)
				m = u32(m, n)
				if k%2 == 0 {
					m = append(m, b[at+4:]...)
				}
				o.costCase(e, tg, m)
			}
		}
	}
}

func (o *oracle) costCase(e *entry, tg tagset, in []byte) {
	x, _ := e.mk()
	begin(both(tg.cost, tg.rej), "%s: %s", e.name, hex(in))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var p string
	var err error
	limit(3*time.Second, both(tg.cost, tg.rej), e.name+" cost", "decode of "+hex(in)+" runs longer than 3 seconds", func() {
		p = guard(func() { err = xdr.DecodeBuf(in, x) })
	})
	runtime.ReadMemStats(&m1)
	prej := tg.rej
	if strings.Contains(p, "index out of range") {
		prej = both(tg.rej, tg.cost) // went on past what was decoded
	}
	check(p == "", prej, e.name+" panic", "decode of %s panics: %s", hex(in), p)
	_, _, ok := o.dec(e.t, in)
	check(ok == (err == nil), both(tg.rej, tg.bound), e.name+" reject", "decode of %s: error %v, accepted by the layout: %v", hex(in), err, ok)
	check(m1.TotalAlloc-m0.TotalAlloc <= 1<<17+1024*uint64(len(in)), tg.cost, e.name+" cost", "decode of %s allocates %d bytes", hex(in), m1.TotalAlloc-m0.TotalAlloc)
}

func show(v V) string {
	switch x := v.(type) {
	case nil:
		return "void"
	case []byte:
		return fmt.Sprintf("x'%s'", hex(x))
	case []V:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			if len(s) > 600 {
				s += "..."
				break
			}
			s += show(e)
		}
		return s + "]"
	case *opt:
		if x == nil {
			return "absent"
		}
		return "&" + show(x.v)
	case *uni:
		return fmt.Sprintf("{%d: %s}", x.disc, show(x.arm))
	}
	return fmt.Sprint(v)
}
