package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
	"unsafe"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
	. "verif/vc/xspec"
)

func init() {
	extra["client"] = clientSuite
	extra["server"] = serverSuite
	extra["bigrecord"] = bigRecord
}

func rpcSpec() (*Spec, *Type) {
	sp, err := ParseFile(os.Getenv("RAC_SPECS") + "/rfc1057.x")
	if err != nil {
		panic(err)
	}
	return sp, sp.ByName["rpc_msg"].T
}

// blobArg is an argument or result of opaque bytes; a failing one records an
// error.
type blobArg struct {
	b    []byte
	fail bool
	got  *[]byte
}

func (a *blobArg) Xdr(xs *xdr.XdrState) {
	if a.fail {
		xs.SetError("argument cannot be encoded")
		return
	}
	xdr.XdrVarArray(xs, -1, &a.b)
}

func opaque(b []byte) []byte {
	r := u32(nil, uint32(len(b)))
	r = append(r, b...)
	return append(r, make([]byte, pad(len(b)))...)
}

type conn struct {
	writes  [][]byte
	reply   func(req []byte) []byte
	in      []byte
	used    int
	chunk   func() int
	werr    error
	rerr    error
	rerrAt  int
	replied bool
}

func (c *conn) Write(b []byte) (int, error) {
	c.writes = append(c.writes, append([]byte{}, b...))
	if c.werr != nil {
		return 0, c.werr
	}
	return len(b), nil
}

func (c *conn) Read(p []byte) (int, error) {
	if !c.replied && c.reply != nil && len(c.writes) > 0 {
		c.replied = true
		c.in = c.reply(c.writes[len(c.writes)-1])
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.rerr != nil && c.used >= c.rerrAt {
		return 0, c.rerr
	}
	if c.used >= len(c.in) {
		return 0, io.EOF
	}
	n := len(p)
	if c.chunk != nil {
		if k := c.chunk(); k < n {
			n = k
		}
	}
	if n > len(c.in)-c.used {
		n = len(c.in) - c.used
	}
	if c.rerr != nil && n > c.rerrAt-c.used {
		n = c.rerrAt - c.used
	}
	copy(p, c.in[c.used:c.used+n])
	c.used += n
	return n, nil
}

func record(body []byte) []byte { return append(u32(nil, 1<<31|uint32(len(body))), body...) }

func acceptedReply(xid uint32, stat uint32, verf []byte, tail []byte) []byte {
	b := u32(u32(u32(nil, xid), 1), 0)
	b = u32(b, 0)
	b = append(b, opaque(verf)...)
	b = u32(b, stat)
	return append(b, tail...)
}

// setXid sets the counter of a client that has made its first call.
func setXid(c *rfc1057.Client, x uint32) bool {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Uint32 && v.Type().Field(i).Name == "xid" {
			*(*uint32)(unsafe.Pointer(f.UnsafeAddr())) = x
			return true
		}
	}
	return false
}

func clientSuite(o *oracle, rounds int) {
	sp, msg := rpcSpec()
	o.sp = sp
	send := []string{"C15"}
	recv := []string{"C16"}
	r := o.rng
	begin([]string{"C15", "C16"}, "client")
	for i := 0; i < rounds*40; i++ {
		prog, vers, proc := r.Uint32(), r.Uint32(), r.Uint32()
		co := &conn{}
		if r.Intn(2) == 0 {
			co.chunk = func() int { return 1 + r.Intn(3) }
		}
		cl := rfc1057.MakeClient(co, prog, vers)
		var last uint32
		known := false
		var calls = 1 + r.Intn(3)
		for k := 0; k < calls; k++ {
			*co = conn{chunk: co.chunk}
			desc := fmt.Sprintf("call %d of client (%d,%d) to procedure %d", k, prog, vers, proc)
			if known && r.Intn(4) == 0 && setXid(cl, 0xffffffff-uint32(r.Intn(2))) {
				f := reflect.ValueOf(cl).Elem().FieldByName("xid")
				last = uint32(f.Uint())
				desc += fmt.Sprintf(" after transaction %d", last)
			}
			cred := rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(r.Intn(5)), Body: o.blob([]int{0, 1, 3, 4, 399, 400}[r.Intn(6)], false)}
			verf := rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(r.Intn(5)), Body: o.blob([]int{0, 1, 5, 399, 400}[r.Intn(5)], false)}
			arg := &blobArg{b: o.blob(r.Intn(20), false)}
			resp := &blobArg{b: []byte("old")}
			unenc := false
			switch r.Intn(12) {
			case 0:
				cred.Body = o.blob(401+r.Intn(3), false)
				unenc = true
			case 1:
				verf.Body = o.blob(401, false)
				unenc = true
			case 2:
				arg.fail = true
				unenc = true
			}
			desc += fmt.Sprintf(" cred %d bytes verf %d bytes arg %d bytes fail %v", len(cred.Body), len(verf.Body), len(arg.b), arg.fail)
			res := o.blob(r.Intn(16), false)
			kind := r.Intn(16)
			good := false
			extraIn := 0
			var rdesc string
			co.reply = func(req []byte) []byte {
				xid := uint32(0)
				if len(req) >= 8 {
					xid = binary.BigEndian.Uint32(req[4:])
				}
				tail := opaque(res)
				rep := acceptedReply(xid, 0, o.blob(r.Intn(9), false), tail)
				var out []byte
				switch kind {
				case 0, 1, 2:
					good = true
					out = record(rep)
				case 3:
					good = true
					out = append(record(rep), 1, 2, 3, 4, 5)
					extraIn = 5
				case 4: // other transaction
					rep = acceptedReply(xid+uint32(1+r.Intn(3))*0xffffffff, 0, nil, tail)
					out = record(rep)
				case 5: // status
					st := uint32(1 + r.Intn(6))
					if st == 2 {
						tail = append(make([]byte, 8), tail...)
					}
					out = record(acceptedReply(xid, st, nil, tail))
				case 6: // denied
					b := u32(u32(u32(nil, xid), 1), 1)
					if r.Intn(2) == 0 {
						b = u32(u32(u32(b, 0), 2), 2)
					} else {
						b = u32(u32(b, 1), 1)
					}
					out = record(append(b, tail...))
				case 7: // not a reply: the request itself
					out = append([]byte{}, req...)
				case 8: // fragment
					out = record(rep)
					out[0] &= 0x7f
				case 9: // truncated record
					out = record(rep)
					out = out[:r.Intn(len(out))]
				case 10: // record announces less than it carries
					out = record(rep[:r.Intn(len(rep))])
				case 11: // results do not decode
					rep = acceptedReply(xid, 0, nil, []byte{0, 0, 0, 9, 1, 2, 3, 4})
					out = record(rep)
				case 12: // read error
					out = record(rep)
					co.rerr = errors.New("broken")
					co.rerrAt = r.Intn(len(out))
				case 13: // other statuses of the reply
					b := u32(u32(u32(nil, xid), 1), uint32(2+r.Intn(3)))
					out = record(append(b, make([]byte, 24)...))
				case 14: // other message types
					b := u32(u32(nil, xid), uint32(2+r.Intn(3)))
					out = record(append(b, make([]byte, 24)...))
				case 15: // random damage
					out = record(rep)
					p := r.Intn(len(out))
					out[p] ^= byte(1 << r.Intn(8))
				}
				rdesc = fmt.Sprintf("; reply %s", hex(out))
				// what a client must conclude from these bytes
				good = false
				if len(out) >= 4 && out[0]&0x80 != 0 && co.rerr == nil {
					n := int(binary.BigEndian.Uint32(out) & 0x7fffffff)
					if n <= len(out)-4 {
						if v, rest, ok := o.dec(msg, out[4:4+n]); ok {
							m := v.([]V)
							body := m[1].(*uni)
							if uint32(m[0].(uint64)) == xid && body.disc == 1 {
								rb := body.arm.(*uni)
								if rb.disc == 0 && rb.arm.([]V)[1].(*uni).disc == 0 {
									if d, _, ok := o.dec(&Type{Kind: OpaqueVar, N: -1}, rest); ok {
										good = true
										res = d.([]byte)
										extraIn = len(out) - 4 - n
									}
								}
							}
						}
					}
				}
				return out
			}
			if r.Intn(20) == 0 {
				co.werr = errors.New("write failed")
			}
			begin([]string{"C15", "C16"}, "%s", desc)
			var err error
			p := guard(func() { err = cl.Call(proc, cred, verf, arg, resp) })
			if p != "" {
				fail([]string{"C15", "C16"}, "client panic", "%s%s panics: %s", desc, rdesc, p)
				break
			}
			if unenc {
				check(err != nil && len(co.writes) == 0, send, "client unencodable", "%s: error %v, wrote %d times", desc, err, len(co.writes))
				// the transaction id of an unsent call is not observable
				known = false
				continue
			}
			if !check(len(co.writes) == 1, send, "client writes", "%s: wrote %d times", desc, len(co.writes)) {
				break
			}
			w := co.writes[0]
			if !check(len(w) >= 8, send, "client record", "%s: wrote %s", desc, hex(w)) {
				break
			}
			xid := binary.BigEndian.Uint32(w[4:])
			if known {
				check(xid == last+1, send, "client transaction id", "%s: transaction %d follows %d", desc, xid, last)
			}
			last, known = xid, true
			want := u32(nil, xid)
			want = u32(u32(u32(u32(u32(want, 0), 2), prog), vers), proc)
			want = append(u32(want, uint32(cred.Flavor)), opaque(cred.Body)...)
			want = append(u32(want, uint32(verf.Flavor)), opaque(verf.Body)...)
			want = append(want, opaque(arg.b)...)
			check(bytes.Equal(w, record(want)), send, "client record", "%s: wrote %s, want %s", desc, hex(w), hex(record(want)))
			if co.werr != nil {
				check(err != nil, recv, "client write error", "%s: write error ignored", desc)
				continue
			}
			if good {
				ok := err == nil && bytes.Equal(resp.b, res) && co.used == len(co.in)-extraIn
				check(ok, recv, "client result", "%s%s: error %v, result %x, want %x, left %d bytes unread of %d", desc, rdesc, err, resp.b, res, len(co.in)-co.used, extraIn)
			} else {
				check(err != nil, recv, "client reply check", "%s%s: accepted", desc, rdesc)
			}
		}
	}
}

// bigRecord: messages too long for the record header.
func bigRecord(o *oracle, rounds int) {
	begin([]string{"C15"}, "client call with an argument of 2^31 bytes")
	if has([]string{"C15"}) {
		co := &conn{}
		cl := rfc1057.MakeClient(co, 1, 1)
		var err error
		big := make([]byte, 1<<31)
		p := guard(func() { err = cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &blobArg{b: big}, &blobArg{}) })
		check(p == "" && err != nil && len(co.writes) == 0, []string{"C15"}, "client long record", "a call with an argument of 2^31 bytes: panic %q, error %v, %d writes", p, err, len(co.writes))
	}
	begin([]string{"C17"}, "server reply of 2^31 bytes")
	if has([]string{"C17"}) {
		big := make([]byte, 1<<31)
		s := rfc1057.MakeServer()
		s.Register(1, 1, 1, func(a *xdr.XdrState) (xdr.Xdrable, error) { return &blobArg{b: big}, nil })
		s.Register(1, 1, 2, func(a *xdr.XdrState) (xdr.Xdrable, error) { return &blobArg{b: nil}, nil })
		c := newSconn(nil)
		done := make(chan bool)
		go func() { s.Run(c); close(done) }()
		c.feed(record(callMsg(7, 2, 1, 1, 1, nil)))
		time.Sleep(6 * time.Second)
		c.feed(record(callMsg(8, 2, 1, 1, 2, nil)))
		ws := c.wait(1, 5*time.Second)
		check(len(ws) == 1 && len(ws[0]) < 1<<20, []string{"C17"}, "server long record", "a result of 2^31 bytes: %d writes", len(ws))
		c.close()
		<-done
	}
}

func callMsg(xid, rpcvers, prog, vers, proc uint32, arg []byte) []byte {
	b := u32(u32(u32(u32(u32(u32(nil, xid), 0), rpcvers), prog), vers), proc)
	b = append(u32(b, 0), opaque(nil)...)
	b = append(u32(b, 0), opaque(nil)...)
	return append(b, arg...)
}

// sconn is the server's connection: input is fed by the test, writes are
// collected.
type sconn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	closed bool
	writes [][]byte
	chunk  func() int
	block  chan bool
	nblock int
}

func newSconn(chunk func() int) *sconn {
	c := &sconn{chunk: chunk}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *sconn) feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *sconn) close() {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *sconn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.in) == 0 && !c.closed {
		c.cond.Wait()
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if c.chunk != nil {
		if k := c.chunk(); k < n {
			n = k
		}
	}
	n = copy(p[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *sconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	bl := c.block
	c.mu.Unlock()
	if bl != nil {
		<-bl
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes = append(c.writes, append([]byte{}, b...))
	c.cond.Broadcast()
	return len(b), nil
}

// wait for n writes.
func (c *sconn) wait(n int, d time.Duration) [][]byte {
	t := time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(d)
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.writes) < n && time.Now().Before(end) {
		c.cond.Wait()
	}
	return append([][]byte{}, c.writes...)
}

type hcall struct {
	prog, vers, proc uint32
	gen              int
	arg              []byte
	rest             bool
}

func serverSuite(o *oracle, rounds int) {
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	old := os.Stderr
	os.Stderr = devnull
	defer func() { os.Stderr = old }()
	sp, msg := rpcSpec()
	o.sp = sp
	for i := 0; i < rounds*2; i++ {
		o.serverRun(msg)
	}
	o.framing(rounds)
	o.pool(rounds)
	o.confusion()
	o.soak(70000)
}

// soakConn is a connection with many requests, one at a time.
type soakConn struct {
	n, max int
	reqs   func(i int) []byte
	buf    []byte
	done   chan bool
	seen   func(i int, b []byte)
}

func (c *soakConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.buf) == 0 {
		if c.n > 0 {
			select {
			case <-c.done:
			case <-time.After(3 * time.Second):
				c.seen(c.n-1, nil)
				return 0, io.EOF
			}
		}
		if c.n == c.max {
			return 0, io.EOF
		}
		c.buf = record(c.reqs(c.n))
		c.n++
	}
	n := copy(p, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}

func (c *soakConn) Write(b []byte) (int, error) {
	c.seen(c.n-1, b)
	c.done <- true
	return len(b), nil
}

// soak: the replies do not depend on how many requests there were before.
func (o *oracle) soak(n int) {
	all := []string{"C17", "C18", "C19", "C20", "C21", "C27"}
	begin(all, "%d requests on one connection", n)
	s := rfc1057.MakeServer()
	s.Register(5, 1, 7, func(a *xdr.XdrState) (xdr.Xdrable, error) {
		var b blobArg
		b.Xdr(a)
		return &b, a.Error()
	})
	bad := false
	c := &soakConn{max: n, done: make(chan bool, 4)}
	c.reqs = func(i int) []byte {
		return callMsg(uint32(i), 2, 5, 1, uint32(7+i%2), opaque([]byte{byte(i), byte(i >> 8)}))
	}
	c.seen = func(i int, b []byte) {
		if bad {
			return
		}
		want := acceptedReply(uint32(i), 0, nil, opaque([]byte{byte(i), byte(i >> 8)}))
		if i%2 == 1 {
			want = acceptedReply(uint32(i), 3, nil, nil)
		}
		if !check(bytes.Equal(b, record(want)), all, "server soak", "request %d of one connection, %s: wrote %s, want %s", i+1, hex(c.reqs(i)), hex(b), hex(record(want))) {
			bad = true
		}
	}
	p := guard(func() { s.Run(c) })
	check(p == "", all, "server soak", "%d requests on one connection: panic %s", n, p)
	if !bad {
		check(c.n == n, all, "server soak", "one connection: the server stopped after %d of %d requests", c.n, n)
	}
}

// confusable: triples that are easily taken for a registered one.
func confusable(t [3]uint32) [][3]uint32 {
	var l [][3]uint32
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if i == j {
				continue
			}
			x := t
			x[i], x[j] = x[j], x[i]
			l = append(l, x)
			x = t
			x[i], x[j] = x[i]*10+x[j]%10, x[j]/10
			l = append(l, x)
			x = t
			x[i], x[j] = x[i]^x[j], 0
			l = append(l, x)
			x = t
			x[i], x[j] = x[i]+x[j], 0
			l = append(l, x)
			for d := uint32(1); d < 4; d++ {
				for _, sh := range []uint{0, 4, 8, 10, 12, 16, 20, 24} {
					x = t
					x[i], x[j] = x[i]^d, x[j]^d<<sh // overlapping bit fields
					l = append(l, x)
					x = t
					x[i], x[j] = x[i]+d, x[j]-d<<sh
					l = append(l, x)
				}
				for _, m := range []uint32{10, 31, 33, 37, 100, 131, 1000, 65599, 1000000, 16777619} {
					x = t
					x[i], x[j] = x[i]+d, x[j]-d*m // equal hashes
					l = append(l, x)
				}
			}
		}
		for sh := uint(0); sh < 32; sh++ {
			x := t
			x[i] ^= 1 << sh // truncated
			l = append(l, x)
		}
		for _, v := range []uint32{0, 0xffffffff, 31 * t[i], t[i] % 10, t[i] % 64} {
			x := t
			x[i] = v
			l = append(l, x)
		}
	}
	return l
}

// confusion: only the registered triples are served.
func (o *oracle) confusion() {
	r := o.rng
	tags := []string{"C18", "C19"}
	for round := 0; round < 6; round++ {
		s := rfc1057.MakeServer()
		table := map[[3]uint32]int{}
		var regs [][3]uint32
		add := func(t [3]uint32) {
			n := len(regs)
			regs = append(regs, t)
			table[t] = n
			s.Register(t[0], t[1], t[2], func(a *xdr.XdrState) (xdr.Xdrable, error) {
				return &blobArg{b: []byte{byte(n), byte(n >> 8)}}, nil
			})
		}
		base := [3]uint32{100003, 3, uint32(r.Intn(22))}
		switch round % 3 {
		case 1:
			base = [3]uint32{uint32(r.Intn(4)), uint32(r.Intn(4)), uint32(r.Intn(4))}
		case 2:
			base = [3]uint32{r.Uint32(), r.Uint32(), r.Uint32()}
		}
		add(base)
		near := confusable(base)
		// some of them, or all, are registered as well
		for k := range near {
			if round >= 3 {
				add(near[k])
			} else if k < 3 {
				add(near[r.Intn(len(near))])
			}
		}
		near = append(near, regs...)
		c := newSconn(nil)
		go s.Run(c)
		for k, t := range near {
			want := acceptedReply(uint32(k), 1, nil, nil)
			for g := range table {
				if g[0] == t[0] && want[len(want)-1] == 1 {
					want = acceptedReply(uint32(k), 2, nil, nil)
				}
				if g[0] == t[0] && g[1] == t[1] {
					want = acceptedReply(uint32(k), 3, nil, nil)
				}
			}
			if n, ok := table[t]; ok {
				want = acceptedReply(uint32(k), 0, nil, opaque([]byte{byte(n), byte(n >> 8)}))
			}
			some := regs
			if len(some) > 4 {
				some = some[:4]
			}
			desc := fmt.Sprintf("server with %d registrations %v ..., call of (%d,%d,%d) after %d others", len(regs), some, t[0], t[1], t[2], k)
			begin(tags, "%s", desc)
			req := callMsg(uint32(k), 2, t[0], t[1], t[2], nil)
			c.feed(record(req))
			ws := c.wait(k+1, 3*time.Second)
			if !check(len(ws) == k+1, tags, "server confusion", "%s: %d replies, want %d", desc, len(ws), k+1) {
				break
			}
			g := ws[k]
			if w := record(want); len(g) == 36 && w[27] == 2 {
				// the range of versions is not looked at
				want = append(want, g[28:]...)
			}
			check(bytes.Equal(g, record(want)), tags, "server confusion", "%s: request %s was answered %s, want %s", desc, hex(req), hex(g), hex(record(want)))
		}
		c.close()
	}
}

func (o *oracle) serverRun(msg *Type) {
	r := o.rng
	all := []string{"C17", "C18", "C19", "C20", "C21"}
	reply, disp, reg, frame := []string{"C17", "C27"}, []string{"C18"}, []string{"C19", "C18"}, []string{"C20"}
	s := rfc1057.MakeServer()
	var mu sync.Mutex
	var hits []hcall
	type mode struct {
		gen  int
		kind int
	}
	table := map[[3]uint32]mode{}
	desc := "registrations"
	vals := []uint32{0, 0, 1, 2, 3, 7, 100003, 0xffffffff}
	mk := func(p, v, q uint32, m mode) func(*xdr.XdrState) (xdr.Xdrable, error) {
		return func(a *xdr.XdrState) (xdr.Xdrable, error) {
			var b blobArg
			b.Xdr(a)
			h := hcall{p, v, q, m.gen, append([]byte{}, b.b...), a.Error() == nil}
			mu.Lock()
			hits = append(hits, h)
			mu.Unlock()
			if a.Error() != nil {
				return &b, a.Error()
			}
			switch m.kind {
			case 1:
				return nil, errors.New("no")
			case 2:
				return &blobArg{b: []byte("secret")}, errors.New("no")
			case 3:
				return &blobArg{fail: true}, nil
			case 4:
				return &xdr.Void{}, nil
			case 5:
				return nil, nil
			case 6:
				h := len(b.b) / 2
				return &pairRes{b.b[h:], b.b[:h]}, nil
			}
			return &blobArg{b: append([]byte{byte(m.gen)}, b.b...)}, nil
		}
	}
	gen := 0
	// register adds n registrations, as a list or one by one.
	register := func(n int) {
		var regs []xdr.ProcRegistration
		for k := 0; k < n; k++ {
			p, v, q := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
			if len(table) > 0 && r.Intn(2) == 0 {
				for t := range table {
					p, v = t[0], t[1]
					if r.Intn(2) == 0 {
						q = t[2]
					}
					break
				}
			}
			if len(regs) > 0 && r.Intn(4) == 0 {
				l := regs[r.Intn(len(regs))]
				p, v, q = l.Prog, l.Vers, l.Proc
			}
			gen++
			m := mode{gen, r.Intn(10)}
			h := mk(p, v, q, m)
			desc += fmt.Sprintf(" (%d,%d,%d)", p, v, q)
			if r.Intn(3) > 0 {
				regs = append(regs, xdr.ProcRegistration{Prog: p, Vers: v, Proc: q, Handler: h})
				if r.Intn(4) == 0 || k == n-1 {
					s.RegisterMany(regs)
					regs = nil
				}
			} else {
				if regs != nil {
					s.RegisterMany(regs)
					regs = nil
				}
				s.Register(p, v, q, h)
			}
			table[[3]uint32{p, v, q}] = m
		}
		if regs != nil {
			s.RegisterMany(regs)
		}
	}
	register(r.Intn(9))
	var chunk func() int
	if r.Intn(2) == 0 {
		var cmu sync.Mutex
		x := uint32(1)
		chunk = func() int { cmu.Lock(); defer cmu.Unlock(); x = x*1664525 + 1013904223; return 1 + int(x>>28)%5 }
	}
	c := newSconn(chunk)
	ended := make(chan error, 1)
	begin(all, "server with %s", desc)
	go func() {
		var err error
		p := guard(func() { err = s.Run(c) })
		if p != "" {
			fail(all, "server panic", "server with %s panics: %s", desc, p)
		}
		ended <- err
	}()
	total := 0
	var each [][3]uint32
	for t := range table {
		each = append(each, t)
	}
	for k := 0; k < 10+len(each); k++ {
		if k > 0 && r.Intn(3) == 0 {
			// while the connection is served
			desc += " then"
			register(1 + r.Intn(3))
		}
		p, v, q := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
		if k < len(each) {
			p, v, q = each[k][0], each[k][1], each[k][2]
		} else if r.Intn(4) > 0 {
			// near a registered triple
			for t := range table {
				p, v, q = t[0], t[1], t[2]
				break
			}
			switch r.Intn(6) {
			case 0:
				p = vals[r.Intn(len(vals))]
			case 1:
				v = vals[r.Intn(len(vals))]
			case 2:
				q = vals[r.Intn(len(vals))]
			case 3:
				l := confusable([3]uint32{p, v, q})
				t := l[r.Intn(len(l))]
				p, v, q = t[0], t[1], t[2]
			}
		}
		rv := uint32(2)
		if r.Intn(8) == 0 {
			rv = []uint32{0, 1, 3, 0xffffffff}[r.Intn(4)]
		}
		xid := r.Uint32()
		data := o.blob(r.Intn(12), false)
		if r.Intn(4) == 0 {
			data = o.blob(r.Intn(500), false)
		}
		body := u32(u32(u32(u32(u32(u32(nil, xid), 0), rv), p), v), q)
		body = append(u32(body, uint32(r.Intn(4))), opaque(o.blob([]int{0, 3, 400}[r.Intn(3)], false))...)
		body = append(u32(body, uint32(r.Intn(4))), opaque(o.blob([]int{0, 5, 400}[r.Intn(3)], false))...)
		head := len(body)
		body = append(body, opaque(data)...)
		switch r.Intn(14) {
		case 0: // not a call
			body = acceptedReply(xid, 0, nil, nil)
		case 1: // truncated header
			body = body[:r.Intn(head)]
		case 2: // truncated arguments
			body = body[:head+r.Intn(len(body)-head)]
		case 3: // other message type
			binary.BigEndian.PutUint32(body[4:], uint32(2+r.Intn(2)))
		case 4: // credential too long
			b := u32(u32(u32(u32(u32(u32(nil, xid), 0), 2), p), v), q)
			b = append(u32(b, 0), opaque(o.blob(401+r.Intn(4), false))...)
			body = append(u32(b, 0), opaque(nil)...)
		case 5:
			if len(body) > 0 {
				body[r.Intn(len(body))] ^= byte(1 << r.Intn(8))
			}
		}
		in := fmt.Sprintf("server with %s, request %s", desc, hex(body))
		begin(all, "%s", in)
		// expectation
		val, rest, ok := o.dec(msg, body)
		expReply, expHit := false, false
		var want []byte
		var m mode
		var hc hcall
		var status = uint32(99)
		if ok && val.([]V)[1].(*uni).disc == 0 {
			cb := val.([]V)[1].(*uni).arm.([]V)
			xid = uint32(val.([]V)[0].(uint64))
			key := [3]uint32{uint32(cb[1].(uint64)), uint32(cb[2].(uint64)), uint32(cb[3].(uint64))}
			expReply = true
			var pok, vok bool
			for t := range table {
				if t[0] == key[0] {
					pok = true
					if t[1] == key[1] {
						vok = true
					}
				}
			}
			var qok bool
			m, qok = table[key]
			switch {
			case cb[0].(uint64) != 2:
				status = 100
			case !pok:
				status = 1
			case !vok:
				status = 2
			case !qok:
				status = 3
			default:
				expHit = true
				hc = hcall{key[0], key[1], key[2], m.gen, nil, false}
				d, _, ok := o.dec(&Type{Kind: OpaqueVar, N: -1}, rest)
				status = 0
				if ok {
					hc.arg, hc.rest = d.([]byte), true
					switch m.kind {
					case 1, 2:
						status = 4
					case 3:
						expReply = false
					case 4, 5:
					case 6:
						h := len(hc.arg) / 2
						want = append(opaque(hc.arg[h:]), opaque(hc.arg[:h])...)
					default:
						want = opaque(append([]byte{byte(m.gen)}, hc.arg...))
					}
				} else {
					status = 4
				}
			}
		}
		mu.Lock()
		hits = nil
		mu.Unlock()
		c.feed(record(body))
		if expReply {
			total++
		}
		wait := 3 * time.Second
		ws := c.wait(total, wait)
		if !expReply {
			// let the request be handled before looking
			for t := 0; t < 20; t++ {
				runtime.Gosched()
				time.Sleep(200 * time.Microsecond)
			}
			ws = c.wait(total, 0)
		}
		if !check(len(ws) == total, both(reply, frame), "server replies", "%s: %d writes so far, want %d", in, len(ws), total) {
			break
		}
		mu.Lock()
		h := append([]hcall{}, hits...)
		mu.Unlock()
		if expHit {
			okh := len(h) == 1 && h[0].prog == hc.prog && h[0].vers == hc.vers && h[0].proc == hc.proc && h[0].gen == hc.gen
			check(okh, both(disp, reg), "server dispatch", "%s: handlers called %v, want once registration %d of (%d,%d,%d)", in, h, hc.gen, hc.prog, hc.vers, hc.proc)
			if okh {
				check(h[0].rest == hc.rest && (!hc.rest || bytes.Equal(h[0].arg, hc.arg)), both(disp, both(frame, []string{"C21"})), "server arguments", "%s: the handler decoded %x (ok %v), want %x (ok %v)", in, h[0].arg, h[0].rest, hc.arg, hc.rest)
			}
		} else {
			check(len(h) == 0, both(disp, reg), "server dispatch", "%s: handlers called %v, want none", in, h)
		}
		if !expReply {
			continue
		}
		w := ws[total-1]
		if !check(len(w) >= 4 && binary.BigEndian.Uint32(w) == 1<<31|uint32(len(w)-4), reply, "server record", "%s: wrote %s", in, hex(w)) {
			continue
		}
		rv2, tail, ok := o.dec(msg, w[4:])
		if !check(ok, reply, "server reply", "%s: reply %s does not decode", in, hex(w)) {
			continue
		}
		rm := rv2.([]V)
		rb := rm[1].(*uni)
		if !check(uint32(rm[0].(uint64)) == xid && rb.disc == 1, reply, "server reply", "%s: reply %s is not a reply to transaction %d", in, hex(w), xid) {
			continue
		}
		rr := rb.arm.(*uni)
		got := uint32(98)
		if rr.disc == 1 && rr.arm.(*uni).disc == 0 {
			got = 100
		} else if rr.disc == 0 {
			got = uint32(rr.arm.([]V)[1].(*uni).disc)
		}
		check(got == status, both(disp, reg), "server status", "%s: status %d, want %d (100: RPC mismatch)", in, got, status)
		if got == status {
			check(bytes.Equal(tail, want), reply, "server result", "%s: result %s, want %s", in, hex(tail), hex(want))
		}
	}
	c.close()
	select {
	case err := <-ended:
		check(err != nil, frame, "server end", "server with %s: the end of the stream is not reported", desc)
	case <-time.After(3 * time.Second):
		fail(frame, "server end", "server with %s does not return at the end of the stream", desc)
	}
}

// pairRes is a result of two byte strings.
type pairRes struct{ a, b []byte }

func (p *pairRes) Xdr(xs *xdr.XdrState) {
	xdr.XdrVarArray(xs, -1, &p.a)
	xdr.XdrVarArray(xs, -1, &p.b)
}

// framing: the records of the stream, and only those, reach the handlers.
func (o *oracle) framing(rounds int) {
	r := o.rng
	tags := []string{"C20", "C17"}
	for i := 0; i < rounds*2; i++ {
		s := rfc1057.MakeServer()
		var mu sync.Mutex
		got := map[string]int{}
		s.Register(1, 1, 1, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			var b blobArg
			b.Xdr(a)
			mu.Lock()
			got[string(b.b)]++
			mu.Unlock()
			return &xdr.Void{}, nil
		})
		var in []byte
		want := map[string]int{}
		n := r.Intn(5)
		for k := 0; k < n; k++ {
			d := o.blob([]int{0, 1, 4, 30, 200, 5000}[r.Intn(6)], false)
			if r.Intn(8) == 0 {
				d = o.blob([]int{65484, 65488, 65532, 70000, 1 << 20}[r.Intn(5)], false)
			}
			if i%40 == 13 && k == 0 {
				d = o.blob(1<<24+r.Intn(9), false)
			}
			in = append(in, record(callMsg(uint32(k), 2, 1, 1, 1, opaque(d)))...)
			want[string(d)]++
		}
		last := record(callMsg(99, 2, 1, 1, 1, opaque([]byte("last"))))
		how := r.Intn(4)
		switch how {
		case 0: // short record
			in = append(in, last[:r.Intn(len(last))]...)
		case 1: // not the last fragment
			last[0] &= 0x7f
			in = append(in, last...)
		case 2: // record length too big
			binary.BigEndian.PutUint32(last, 1<<31|uint32(len(last)-4+1+r.Intn(9)))
			in = append(in, last...)
		}
		c := newSconn(nil)
		if r.Intn(2) == 0 && len(in) < 100000 {
			c.chunk = func() int { return 1 + r.Intn(7) }
		}
		c.feed(in)
		c.close()
		desc := fmt.Sprintf("stream %s", hex(in))
		begin(both(tags, []string{"C18"}), "%s", desc)
		done := make(chan error, 1)
		go func() {
			var err error
			if p := guard(func() { err = s.Run(c) }); p != "" {
				fail(tags, "server panic", "%s: panic %s", desc, p)
			}
			done <- err
		}()
		select {
		case err := <-done:
			check(err != nil, tags, "framing end", "%s: the loop ends without an error", desc)
		case <-time.After(3 * time.Second):
			fail(tags, "framing end", "%s: the loop does not return", desc)
			continue
		}
		ws := c.wait(n, 2*time.Second)
		time.Sleep(time.Millisecond)
		ws = c.wait(n, 0)
		mu.Lock()
		check(len(ws) == n && reflect.DeepEqual(got, want), tags, "framing", "%s: %d replies for %d records; arguments handled %d", desc, len(ws), n, len(got))
		mu.Unlock()
	}
}

// slowRes is a result whose encoding waits, and which reads the argument
// bytes only then.
type slowRes struct {
	b    []byte
	wait chan bool
}

func (a *slowRes) Xdr(xs *xdr.XdrState) {
	if a.wait != nil {
		<-a.wait
	}
	xdr.XdrVarArray(xs, -1, &a.b)
}

// pool: buffers of requests in progress are not reused.
func (o *oracle) pool(rounds int) {
	r := o.rng
	tags := []string{"C21"}
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	for i := 0; i < rounds*2; i++ {
		s := rfc1057.MakeServer()
		type ev struct {
			key  byte
			gate chan bool
		}
		arrived := make(chan ev, 64)
		s.Register(1, 1, 1, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			var k xdr.Uint32
			k.Xdr(a)
			gate := make(chan bool)
			arrived <- ev{byte(k), gate}
			<-gate
			var b blobArg
			b.Xdr(a)
			if a.Error() != nil {
				return nil, a.Error()
			}
			if byte(k)%2 == 1 {
				w := make(chan bool)
				arrived <- ev{byte(k), w}
				return &slowRes{b: b.b, wait: w}, nil
			}
			if h := len(b.b) / 2; byte(k)%4 == 2 {
				return &pairRes{b.b[h:], b.b[:h]}, nil
			}
			return &blobArg{b: b.b}, nil
		})
		c := newSconn(nil)
		go s.Run(c)
		size := 4 * (1 + r.Intn(40))
		var gates []chan bool
		datas := map[uint32][]byte{}
		desc := fmt.Sprintf("requests in progress with arguments of %d bytes", size)
		begin(tags, "%s", desc)
		sent, replies := 0, 0
		take := func() bool {
			select {
			case e := <-arrived:
				gates = append(gates, e.gate)
				return true
			case <-time.After(2 * time.Second):
				fail(tags, "request lost", "%s: a request is not handled", desc)
				return false
			}
		}
		alive := true
		junk := i%2 == 1
		for k := 0; k < 12 && alive; k++ {
			if junk && r.Intn(3) == 0 {
				// records that are refused, as long as the calls
				j := callMsg(99, 2, 1, 1, 1, append(u32(nil, 0), opaque(o.blob(size, false))...))
				desc = fmt.Sprintf("requests in progress with arguments of %d bytes after records that are refused", size)
				switch r.Intn(3) {
				case 0:
					binary.BigEndian.PutUint32(j[4:], 1)
				case 1:
					binary.BigEndian.PutUint32(j[4:], 7)
				default:
					binary.BigEndian.PutUint32(j[28:], 5000)
				}
				c.feed(record(j))
				for t := 0; t < 5; t++ {
					runtime.Gosched()
					time.Sleep(100 * time.Microsecond)
				}
			}
			if len(gates) < 4 && r.Intn(3) > 0 || len(gates) == 0 {
				n := size
				if r.Intn(4) == 0 {
					n = 4 * r.Intn(60)
				}
				d := o.blob(n, false)
				xid := uint32(sent)
				datas[xid] = d
				c.feed(record(callMsg(xid, 2, 1, 1, 1, append(u32(nil, uint32(sent)), opaque(d)...))))
				sent++
				alive = take()
				continue
			}
			j := r.Intn(len(gates))
			g := gates[j]
			gates = append(gates[:j], gates[j+1:]...)
			close(g)
			// either the second gate of this request or its reply
			end := time.Now().Add(2 * time.Second)
			for {
				select {
				case e := <-arrived:
					gates = append(gates, e.gate)
				default:
					if len(c.wait(replies+1, time.Millisecond)) > replies {
						replies++
					} else if time.Now().Before(end) {
						continue
					} else {
						alive = false
					}
				}
				break
			}
		}
		for _, g := range gates {
			close(g)
		}
		end := time.Now().Add(2 * time.Second)
		for time.Now().Before(end) {
			select {
			case e := <-arrived:
				close(e.gate)
				continue
			default:
			}
			if len(c.wait(sent, time.Millisecond)) >= sent {
				break
			}
		}
		ws := c.wait(sent, 0)
		check(len(ws) == sent, tags, "request lost", "%s: %d replies to %d requests", desc, len(ws), sent)
		for _, w := range ws {
			if len(w) < 8 {
				continue
			}
			xid := binary.BigEndian.Uint32(w[4:])
			res := opaque(datas[xid])
			if h := len(datas[xid]) / 2; xid%4 == 2 {
				res = append(opaque(datas[xid][h:]), opaque(datas[xid][:h])...)
			}
			want := record(acceptedReply(xid, 0, nil, res))
			check(bytes.Equal(w, want), tags, "request buffer", "%s: request %d was answered %s, want %s", desc, xid, hex(w), hex(want))
		}
		c.close()
	}
}
