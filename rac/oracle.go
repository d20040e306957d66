// Package main is the runtime assertion checker: it evaluates the contracts
// of the verifier on concrete inputs against the real code, to turn a failed
// obligation into a failing input.  The oracle here is independent of the
// code under test: it interprets the protocol definition directly.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	. "verif/vc/xspec"
)

// V is a protocol value: uint64 (bits of any integer), bool, []byte (opaque
// and string), []V (struct, array), *opt, *uni, nil (void).
type V interface{}
type opt struct{ v V } // nil pointer: absent
type uni struct {
	disc uint64
	arm  V
}

type oracle struct {
	sp  *Spec
	rng *rand.Rand

	// large values: a chain of optional data or an array of that many
	// elements (or bytes); everything else stays small
	large       bool
	chain, many int
}

func pad(n int) int { return (4 - n%4) % 4 }

func u32(b []byte, x uint32) []byte { return binary.BigEndian.AppendUint32(b, x) }
func u64(b []byte, x uint64) []byte { return binary.BigEndian.AppendUint64(b, x) }

func (o *oracle) res(t *Type) *Type { return o.sp.Resolve(t) }

// arm selected by d, or nil.
func arm(t *Type, d uint64) *Arm {
	var def *Arm
	for i := range t.Arms {
		a := &t.Arms[i]
		if len(a.Labels) == 0 {
			def = a
		}
		for _, l := range a.Labels {
			if uint32(l) == uint32(d) {
				return a
			}
		}
	}
	return def
}

func over(n int64, max int64) bool { return max >= 0 && n > max }

// enc is the RFC 4506 encoding.
func (o *oracle) enc(t *Type, v V, b []byte) []byte {
	t = o.res(t)
	switch t.Kind {
	case Void:
		return b
	case Int, UInt, Enum:
		return u32(b, uint32(v.(uint64)))
	case Hyper, UHyper:
		return u64(b, v.(uint64))
	case Bool:
		if v.(bool) {
			return u32(b, 1)
		}
		return u32(b, 0)
	case OpaqueFixed:
		b = append(b, v.([]byte)...)
		return append(b, make([]byte, pad(len(v.([]byte))))...)
	case OpaqueVar, String:
		d := v.([]byte)
		b = u32(b, uint32(len(d)))
		b = append(b, d...)
		return append(b, make([]byte, pad(len(d)))...)
	case ArrayFixed, ArrayVar:
		if t.Kind == ArrayVar {
			b = u32(b, uint32(len(v.([]V))))
		}
		for _, e := range v.([]V) {
			b = o.enc(t.Elem, e, b)
		}
		return b
	case Opt:
		p := v.(*opt)
		if p == nil {
			return u32(b, 0)
		}
		return o.enc(t.Elem, p.v, u32(b, 1))
	case Struct:
		for i, f := range t.Fields {
			b = o.enc(f.T, v.([]V)[i], b)
		}
		return b
	case Union:
		u := v.(*uni)
		if o.res(t.Disc.T).Kind == Bool {
			b = u32(b, uint32(u.disc))
		} else {
			b = u32(b, uint32(u.disc))
		}
		if a := arm(t, u.disc); a != nil {
			b = o.enc(a.F.T, u.arm, b)
		}
		return b
	}
	panic(fmt.Sprint("enc kind ", t.Kind))
}

// dec decodes at b; ok false if b does not start with an encoding.
func (o *oracle) dec(t *Type, b []byte) (v V, rest []byte, ok bool) {
	t = o.res(t)
	word := func() uint64 {
		x := binary.BigEndian.Uint32(b)
		b = b[4:]
		return uint64(x)
	}
	switch t.Kind {
	case Void:
		return nil, b, true
	case Int:
		if len(b) < 4 {
			return nil, nil, false
		}
		return uint64(int64(int32(word()))), b, true
	case UInt, Enum:
		if len(b) < 4 {
			return nil, nil, false
		}
		return word(), b, true
	case Hyper, UHyper:
		if len(b) < 8 {
			return nil, nil, false
		}
		return binary.BigEndian.Uint64(b), b[8:], true
	case Bool:
		if len(b) < 4 {
			return nil, nil, false
		}
		return word() != 0, b, true
	case OpaqueFixed, OpaqueVar, String:
		n := t.N
		if t.Kind != OpaqueFixed {
			if len(b) < 4 {
				return nil, nil, false
			}
			n = int64(word())
			if over(n, t.N) {
				return nil, nil, false
			}
		}
		if n+int64(pad(int(n))) > int64(len(b)) {
			return nil, nil, false
		}
		d := append([]byte{}, b[:n]...)
		return d, b[int(n)+pad(int(n)):], true
	case ArrayFixed, ArrayVar:
		n := t.N
		if t.Kind == ArrayVar {
			if len(b) < 4 {
				return nil, nil, false
			}
			n = int64(word())
			if over(n, t.N) {
				return nil, nil, false
			}
		}
		vs := []V{}
		for i := int64(0); i < n; i++ {
			e, r, ok := o.dec(t.Elem, b)
			if !ok {
				return nil, nil, false
			}
			if i > 1<<20 {
				return nil, nil, false
			}
			vs, b = append(vs, e), r
		}
		return vs, b, true
	case Opt:
		if len(b) < 4 {
			return nil, nil, false
		}
		if word() == 0 {
			return (*opt)(nil), b, true
		}
		e, r, ok := o.dec(t.Elem, b)
		return &opt{e}, r, ok
	case Struct:
		vs := []V{}
		for _, f := range t.Fields {
			e, r, ok := o.dec(f.T, b)
			if !ok {
				return nil, nil, false
			}
			vs, b = append(vs, e), r
		}
		return vs, b, true
	case Union:
		if len(b) < 4 {
			return nil, nil, false
		}
		u := &uni{disc: word()}
		switch o.res(t.Disc.T).Kind {
		case Bool:
			if u.disc != 0 {
				u.disc = 1
			}
		case Int:
			u.disc = uint64(int64(int32(u.disc)))
		}
		a := arm(t, u.disc)
		if a == nil {
			return u, b, true
		}
		u.arm, b, ok = o.dec(a.F.T, b)
		return u, b, ok
	}
	panic(fmt.Sprint("dec kind ", t.Kind))
}

var lens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65}

// length picks a length within bound max; big lets it reach the bound.
func (o *oracle) length(max int64, big bool) int {
	n := lens[o.rng.Intn(len(lens))]
	if max >= 0 {
		switch {
		case big && o.rng.Intn(3) == 0 && max <= 5000:
			n = int(max) - o.rng.Intn(2)
		case int64(n) > max:
			n = int(max)
		}
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (o *oracle) blob(n int, str bool) []byte {
	d := make([]byte, n)
	o.rng.Read(d)
	if k := o.rng.Intn(8); k < 2 {
		for i := range d {
			d[i] = byte(-k)
		}
		return d
	}
	if str && o.rng.Intn(2) == 0 {
		for i := range d {
			d[i] = 'a' + d[i]%26
		}
	}
	return d
}

// gen is a random in-bounds value; bad makes one bounded item too long when
// it can and reports so through *bad.
func (o *oracle) gen(t *Type, depth int, bad *int) V {
	t = o.res(t)
	r := o.rng
	pick := func() uint64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return uint64(r.Intn(3))
		case 2:
			return math.MaxUint64
		case 3:
			return 1 << 31
		}
		return r.Uint64()
	}
	exceed := func(max int64) int {
		if bad == nil || max < 0 || max > 5000 {
			return -1
		}
		if *bad == 0 {
			*bad = -1
			return int(max) + 1 + r.Intn(2)*r.Intn(6)
		}
		if *bad > 0 {
			*bad--
		}
		return -1
	}
	switch t.Kind {
	case Void:
		return nil
	case Int:
		return uint64(int64(int32(pick())))
	case UInt:
		return uint64(uint32(pick()))
	case Enum:
		if len(t.Items) > 0 && r.Intn(4) > 0 {
			return uint64(uint32(t.Items[r.Intn(len(t.Items))].Val))
		}
		return uint64(uint32(pick()))
	case Hyper, UHyper:
		return pick()
	case Bool:
		return r.Intn(2) == 0
	case OpaqueFixed:
		return o.blob(int(t.N), false)
	case OpaqueVar, String:
		if o.large {
			n := r.Intn(6)
			if o.many > 0 && (t.N < 0 || t.N > 255) && r.Intn(2) == 0 {
				n, o.many = o.many, 0
			}
			if t.N >= 0 && int64(n) > t.N {
				n = int(t.N)
			}
			return o.blob(n, t.Kind == String)
		}
		if n := exceed(t.N); n >= 0 {
			return o.blob(n, t.Kind == String)
		}
		return o.blob(o.length(t.N, true), t.Kind == String)
	case ArrayFixed, ArrayVar:
		n := int(t.N)
		if t.Kind == ArrayVar {
			n = r.Intn(4)
			if depth > 3 {
				n = r.Intn(2)
			}
			if t.N >= 0 && r.Intn(4) == 0 && t.N <= 64 {
				n = int(t.N)
			}
			if t.N >= 0 && int64(n) > t.N {
				n = int(t.N)
			}
			if e := exceed(t.N); e >= 0 && t.N < 1000 {
				n = e
			}
			if o.large {
				n = r.Intn(2)
				if o.many > 0 && (t.N < 0 || t.N > 64) && r.Intn(3) > 0 {
					n, o.many = o.many, 0
				}
				if t.N >= 0 && int64(n) > t.N {
					n = int(t.N)
				}
			}
		}
		vs := []V{}
		for i := 0; i < n; i++ {
			vs = append(vs, o.gen(t.Elem, depth+1, bad))
		}
		return vs
	case Opt:
		if o.large && o.chain > 0 {
			o.chain--
			return &opt{o.gen(t.Elem, 9, bad)}
		}
		if depth > 12 || r.Intn(3) == 0 {
			return (*opt)(nil)
		}
		return &opt{o.gen(t.Elem, depth+1, bad)}
	case Struct:
		vs := []V{}
		for _, f := range t.Fields {
			vs = append(vs, o.gen(f.T, depth+1, bad))
		}
		return vs
	case Union:
		u := &uni{}
		var all []int64
		for _, a := range t.Arms {
			all = append(all, a.Labels...)
		}
		if len(all) > 0 && r.Intn(5) > 0 {
			u.disc = uint64(all[r.Intn(len(all))])
		} else {
			u.disc = uint64(uint32(pick()))
		}
		switch o.res(t.Disc.T).Kind {
		case Bool:
			u.disc &= 1
		case Int:
			u.disc = uint64(int64(int32(u.disc)))
		default:
			u.disc = uint64(uint32(u.disc))
		}
		if a := arm(t, u.disc); a != nil {
			u.arm = o.gen(a.F.T, depth+1, bad)
		}
		return u
	}
	panic(fmt.Sprint("gen kind ", t.Kind))
}

func eq(a, b V) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case []V:
		y, ok := b.([]V)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eq(x[i], y[i]) {
				return false
			}
		}
		return true
	case *opt:
		y, ok := b.(*opt)
		if !ok || (x == nil) != (y == nil) {
			return false
		}
		return x == nil || eq(x.v, y.v)
	case *uni:
		y, ok := b.(*uni)
		return ok && x.disc == y.disc && eq(x.arm, y.arm)
	}
	return a == b
}

// field of a Go struct by protocol name.
func field(g reflect.Value, name string) reflect.Value {
	f := g.FieldByName(GoName(name))
	if !f.IsValid() {
		panic(mismatch(fmt.Sprintf("type %s has no field %s", g.Type(), GoName(name))))
	}
	return f
}

type mismatch string

// unwrap strips single-field wrapper structs around optional data.
func unwrap(t *Type, g reflect.Value) reflect.Value {
	for g.Kind() == reflect.Struct && t.Kind != Struct && t.Kind != Union && g.NumField() == 1 {
		g = g.Field(0)
	}
	return g
}

// put stores v into the Go variable g.
func (o *oracle) put(t *Type, v V, g reflect.Value) {
	t = o.res(t)
	g = unwrap(t, g)
	switch t.Kind {
	case Void:
	case Int, UInt, Hyper, UHyper, Enum:
		x := v.(uint64)
		switch g.Kind() {
		case reflect.Int32, reflect.Int64, reflect.Int:
			if g.Type().Size() == 4 {
				g.SetInt(int64(int32(x)))
			} else {
				g.SetInt(int64(x))
			}
		default:
			g.SetUint(x)
		}
	case Bool:
		g.SetBool(v.(bool))
	case OpaqueFixed:
		reflect.Copy(g, reflect.ValueOf(v.([]byte)))
	case OpaqueVar:
		g.SetBytes(append([]byte{}, v.([]byte)...))
	case String:
		g.SetString(string(v.([]byte)))
	case ArrayFixed:
		for i, e := range v.([]V) {
			o.put(t.Elem, e, g.Index(i))
		}
	case ArrayVar:
		s := reflect.MakeSlice(g.Type(), len(v.([]V)), len(v.([]V))+o.rng.Intn(3))
		for i, e := range v.([]V) {
			o.put(t.Elem, e, s.Index(i))
		}
		g.Set(s)
	case Opt:
		p := v.(*opt)
		if p == nil {
			g.Set(reflect.Zero(g.Type()))
			return
		}
		n := reflect.New(g.Type().Elem())
		o.put(t.Elem, p.v, n.Elem())
		g.Set(n)
	case Struct:
		for i, f := range t.Fields {
			if f.T.Kind != Void {
				o.put(f.T, v.([]V)[i], field(g, f.Name))
			}
		}
	case Union:
		u := v.(*uni)
		// arms that are not selected hold arbitrary data
		for i := range t.Arms {
			a := &t.Arms[i]
			if a.F.T.Kind != Void && a != arm(t, u.disc) && o.rng.Intn(2) == 0 {
				o.put(a.F.T, o.gen(a.F.T, 11, nil), field(g, a.F.Name))
			}
		}
		d := unwrap(o.res(t.Disc.T), field(g, t.Disc.Name))
		if d.Kind() == reflect.Bool {
			d.SetBool(u.disc != 0)
		} else {
			o.put(t.Disc.T, u.disc, d)
		}
		if a := arm(t, u.disc); a != nil && a.F.T.Kind != Void {
			o.put(a.F.T, u.arm, field(g, a.F.Name))
		}
	default:
		panic(fmt.Sprint("put kind ", t.Kind))
	}
}

// get reads the protocol value of the Go variable g.
func (o *oracle) get(t *Type, g reflect.Value) V {
	t = o.res(t)
	g = unwrap(t, g)
	switch t.Kind {
	case Void:
		return nil
	case Int, UInt, Hyper, UHyper, Enum:
		switch g.Kind() {
		case reflect.Int32, reflect.Int64, reflect.Int:
			x := uint64(g.Int())
			if t.Kind == Enum || t.Kind == UInt {
				x = uint64(uint32(x))
			}
			return x
		default:
			x := g.Uint()
			if t.Kind == Int {
				x = uint64(int64(int32(x)))
			}
			return x
		}
	case Bool:
		return g.Bool()
	case OpaqueFixed:
		d := make([]byte, g.Len())
		reflect.Copy(reflect.ValueOf(d), g)
		return d
	case OpaqueVar:
		return append([]byte{}, g.Bytes()...)
	case String:
		return []byte(g.String())
	case ArrayFixed, ArrayVar:
		vs := []V{}
		for i := 0; i < g.Len(); i++ {
			vs = append(vs, o.get(t.Elem, g.Index(i)))
		}
		return vs
	case Opt:
		if g.IsNil() {
			return (*opt)(nil)
		}
		return &opt{o.get(t.Elem, g.Elem())}
	case Struct:
		vs := []V{}
		for _, f := range t.Fields {
			if f.T.Kind == Void {
				vs = append(vs, nil)
				continue
			}
			vs = append(vs, o.get(f.T, field(g, f.Name)))
		}
		return vs
	case Union:
		u := &uni{}
		switch x := o.getDisc(t, g).(type) {
		case bool:
			if x {
				u.disc = 1
			}
		case uint64:
			u.disc = x
		}
		if a := arm(t, u.disc); a != nil && a.F.T.Kind != Void {
			u.arm = o.get(a.F.T, field(g, a.F.Name))
		}
		return u
	}
	panic(fmt.Sprint("get kind ", t.Kind))
}

func (o *oracle) getDisc(t *Type, g reflect.Value) V {
	d := unwrap(o.res(t.Disc.T), field(g, t.Disc.Name))
	if d.Kind() == reflect.Bool {
		return d.Bool()
	}
	return o.get(t.Disc.T, d)
}

// bounded reports whether t contains an item with a declared maximum.
func (o *oracle) bounded(t *Type, seen map[*Type]bool) bool {
	t = o.res(t)
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind {
	case OpaqueVar, String:
		return t.N >= 0 && t.N <= 5000
	case ArrayVar:
		if t.N >= 0 && t.N < 1000 {
			return true
		}
		return o.bounded(t.Elem, seen)
	case ArrayFixed, Opt:
		return o.bounded(t.Elem, seen)
	case Struct:
		for _, f := range t.Fields {
			if o.bounded(f.T, seen) {
				return true
			}
		}
	case Union:
		for _, a := range t.Arms {
			if o.bounded(a.F.T, seen) {
				return true
			}
		}
	}
	return false
}

// inBounds: v respects the declared maxima of t.
func (o *oracle) inBounds(t *Type, v V) bool {
	t = o.res(t)
	switch t.Kind {
	case OpaqueVar, String:
		return !over(int64(len(v.([]byte))), t.N)
	case ArrayFixed, ArrayVar:
		if t.Kind == ArrayVar && over(int64(len(v.([]V))), t.N) {
			return false
		}
		for _, e := range v.([]V) {
			if !o.inBounds(t.Elem, e) {
				return false
			}
		}
	case Opt:
		p := v.(*opt)
		return p == nil || o.inBounds(t.Elem, p.v)
	case Struct:
		for i, f := range t.Fields {
			if !o.inBounds(f.T, v.([]V)[i]) {
				return false
			}
		}
	case Union:
		u := v.(*uni)
		if a := arm(t, u.disc); a != nil {
			return o.inBounds(a.F.T, u.arm)
		}
	}
	return true
}
