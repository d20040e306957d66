package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func init() {
	extra["race"] = raceSuite
	extra["progress"] = progressSuite
}

func quiet() func() {
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	old := os.Stderr
	os.Stderr = devnull
	return func() { os.Stderr = old }
}

// rconn is a connection that orders nothing by itself: the input is there
// from the start, and each reply has a place of its own.
type rconn struct {
	in    []byte
	slots [][]byte
	extra chan []byte
	done  *sync.WaitGroup
	gate  chan bool
}

func (c *rconn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		<-c.gate
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *rconn) Write(b []byte) (int, error) {
	w := append([]byte{}, b...)
	if len(w) >= 8 {
		if x := binary.BigEndian.Uint32(w[4:]); int(x) < len(c.slots) {
			c.slots[x] = w
			c.done.Done()
			return len(b), nil
		}
	}
	select {
	case c.extra <- w:
	default:
	}
	return len(b), nil
}

// raceSuite: requests of several connections handled at the same time, while
// handlers are registered. It is built with the race detector.
func raceSuite(o *oracle, rounds int) {
	defer quiet()()
	r := o.rng
	tags := []string{"C26"}
	o.raceCodecs(rounds)
	for i := 0; i < rounds*4; i++ {
		s := rfc1057.MakeServer()
		nconn, nreq := 1+r.Intn(3), 2+r.Intn(6)
		barrier := r.Intn(3) == 0
		regs := r.Intn(3) > 0
		var meet sync.WaitGroup
		h := func(tag byte) func(*xdr.XdrState) (xdr.Xdrable, error) {
			return func(a *xdr.XdrState) (xdr.Xdrable, error) {
				var b blobArg
				b.Xdr(a)
				if a.Error() != nil {
					return nil, a.Error()
				}
				if barrier {
					meet.Done()
					meet.Wait()
				}
				if len(b.b) > 0 && b.b[0]%5 == 0 {
					return nil, errors.New("no")
				}
				return &blobArg{b: append([]byte{tag}, b.b...)}, nil
			}
		}
		for q := uint32(0); q < 3; q++ {
			s.Register(1, 1, q, h(byte(q)))
		}
		desc := fmt.Sprintf("%d connections with %d requests each, handlers that meet: %v, registration meanwhile: %v", nconn, nreq, barrier, regs)
		begin(tags, "%s", desc)
		var done sync.WaitGroup
		var conns []*rconn
		type exp struct {
			stat uint32
			tail []byte
		}
		var want [][]exp
		for k := 0; k < nconn; k++ {
			c := &rconn{slots: make([][]byte, nreq), extra: make(chan []byte, 16), done: &done, gate: make(chan bool)}
			var w []exp
			for x := 0; x < nreq; x++ {
				d := o.blob(r.Intn(200), false)
				if r.Intn(4) == 0 {
					d = o.blob(r.Intn(5000), false)
				}
				q := uint32(r.Intn(3))
				e := exp{0, opaque(append([]byte{byte(q)}, d...))}
				if len(d) > 0 && d[0]%5 == 0 {
					e = exp{4, nil}
				}
				p, v := uint32(1), uint32(1)
				rv := uint32(2)
				bad := true
				switch r.Intn(12) {
				case 0:
					p, e = 9, exp{1, nil}
				case 1:
					v, e = 9, exp{2, u32(u32(nil, 0), 0)}
				case 2:
					q, e = 9, exp{3, nil}
				case 3:
					rv, e = 3, exp{100, nil}
				default:
					bad = false
				}
				if !bad && barrier {
					meet.Add(1)
				}
				c.in = append(c.in, record(callMsg(uint32(x), rv, p, v, q, opaque(d)))...)
				w = append(w, e)
				done.Add(1)
			}
			conns = append(conns, c)
			want = append(want, w)
		}
		var runs sync.WaitGroup
		for _, c := range conns {
			runs.Add(1)
			c := c
			go func() { s.Run(c); runs.Done() }()
		}
		if regs {
			n, many := 1+r.Intn(6), r.Intn(2) == 0
			runs.Add(1)
			base := uint32(r.Intn(2))
			reg := func() {
				for k := 0; k < n; k++ {
					p, v, q := base+uint32(k%2), base+uint32(k%3), 20+uint32(k)
					if many {
						s.RegisterMany([]xdr.ProcRegistration{{Prog: p + 30, Vers: v, Proc: q, Handler: h(9)}, {Prog: 1, Vers: 1, Proc: q, Handler: h(9)}})
					} else {
						s.Register(p+30, v, q, h(9))
						s.Register(1, v+30, q, h(9))
					}
				}
				runs.Done()
			}
			go reg()
			if r.Intn(2) == 0 {
				runs.Add(1)
				go reg()
			}
		}
		all := make(chan bool)
		go func() { done.Wait(); close(all) }()
		ok := false
		select {
		case <-all:
			ok = true
		case <-time.After(10 * time.Second):
		}
		if !check(ok, tags, "reply lost", "%s: not every request was answered under its transaction id within 10 s", desc) {
			return
		}
		for k, c := range conns {
			for x, w := range c.slots {
				e := want[k][x]
				full := record(acceptedReply(uint32(x), e.stat, nil, e.tail))
				if e.stat == 100 {
					full = record(u32(u32(u32(u32(u32(u32(nil, uint32(x)), 1), 1), 0), 0), 0))
				}
				check(bytes.Equal(w, full), tags, "reply mixed up", "%s: connection %d: request %d was answered %s, want %s", desc, k, x, hex(w), hex(full))
			}
			select {
			case w := <-c.extra:
				fail(tags, "reply mixed up", "%s: connection %d: unexpected write %s", desc, k, hex(w))
			default:
			}
			close(c.gate)
		}
		runs.Wait()
	}
}

// raceCodecs: values encoded and decoded, and registered handlers called, at
// the same time in several goroutines.
func (o *oracle) raceCodecs(rounds int) {
	r := o.rng
	tags := []string{"C26"}
	type job struct {
		in   []byte
		x, y xdr.Xdrable
		ok   bool
		err  error
		w    []byte
	}
	for _, e := range append(libEntries(), registry()...) {
		o.sp = e.sp
		n := 1 + rounds/40
		for k := 0; k < n; k++ {
			var js []*job
			for i := 0; i < 4; i++ {
				v := o.gen(e.t, 0, nil)
				j := &job{in: o.enc(e.t, v, nil), ok: true}
				if len(j.in) > 1<<16 {
					continue
				}
				var g reflect.Value
				j.x, g = e.mk()
				if guard(func() { o.put(e.t, v, g) }) != "" {
					continue
				}
				j.y, _ = e.mk()
				if i == 3 && len(j.in) > 0 {
					j.in, j.ok = j.in[:len(j.in)-1], false
				}
				js = append(js, j)
			}
			begin(tags, "%s: values encoded and decoded at the same time", e.name)
			var wg sync.WaitGroup
			for _, j := range js {
				wg.Add(1)
				j := j
				go func() {
					defer wg.Done()
					for t := 0; t < 3; t++ {
						j.w, _ = xdr.EncodeBuf(j.x)
						j.err = xdr.DecodeBuf(j.in, j.y)
					}
				}()
			}
			wg.Wait()
			for _, j := range js {
				check((j.err == nil) == j.ok && (!j.ok || bytes.Equal(j.w, j.in)), tags, e.name+" at the same time", "%s: %s encodes as %s, decodes with error %v, next to other values", e.name, hex(j.in), hex(j.w), j.err)
			}
		}
	}
	for _, s := range services() {
		o.sp = s.sp
		rec, regs := s.mk()
		rec.par = true
		for i := range s.procs {
			p := &s.procs[i]
			begin(tags, "%s: calls at the same time", s.name+" "+p.Name)
			var wg sync.WaitGroup
			for _, g := range regs {
				if g.Proc != uint32(p.Num) || g.Handler == nil {
					continue
				}
				h := g.Handler
				for k := 0; k < 3; k++ {
					at := o.res(p.Arg)
					in := o.enc(at, o.gen(at, 0, nil), nil)
					if r.Intn(5) == 0 && len(in) > 0 {
						in = in[:len(in)-1]
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						res, err := h(xdr.MakeReader(in))
						if err == nil && res != nil {
							xdr.EncodeBuf(res)
						}
					}()
				}
			}
			wg.Wait()
		}
	}
}

// progressSuite: a request that is held up does not delay others.
func progressSuite(o *oracle, rounds int) {
	defer quiet()()
	r := o.rng
	tags := []string{"C27"}
	const patience = 6 * time.Second
	for i := 0; i < rounds/4; i++ {
		s := rfc1057.MakeServer()
		gate := make(chan bool)
		s.Register(1, 1, 1, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			<-gate
			return &xdr.Void{}, nil
		})
		echo := func(a *xdr.XdrState) (xdr.Xdrable, error) {
			var b blobArg
			b.Xdr(a)
			if a.Error() != nil {
				return nil, a.Error()
			}
			return &b, nil
		}
		s.Register(1, 1, 2, echo)
		s.Register(1, 1, 3, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			s.Register(2, 1, 1, echo)
			s.RegisterMany([]xdr.ProcRegistration{{Prog: 2, Vers: 2, Proc: 1, Handler: echo}})
			return &xdr.Void{}, nil
		})
		s.Register(1, 1, 4, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			return nil, errors.New("no")
		})
		s.Register(1, 1, 6, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			return &blobArg{fail: true}, nil
		})
		// a result that takes its time to encode
		s.Register(1, 1, 5, func(a *xdr.XdrState) (xdr.Xdrable, error) {
			return &slowRes{b: []byte("slow"), wait: gate}, nil
		})
		ca, cb, cw, cs := newSconn(nil), newSconn(nil), newSconn(nil), newSconn(nil)
		ended := make(chan bool, 4)
		for _, c := range []*sconn{ca, cb, cw, cs} {
			c := c
			go func() { s.Run(c); ended <- true }()
		}
		held := []int{0, 1, 3, 20, 300, 1500}[r.Intn(6)]
		if i == 0 {
			held = 1500
		}
		cw.block = make(chan bool)
		desc := fmt.Sprintf("%d requests held up in their handler, one whose reply the peer does not take, one whose result takes its time to encode", held)
		begin(tags, "%s", desc)
		var hold []byte
		for k := 0; k < held; k++ {
			hold = append(hold, record(callMsg(uint32(1000+k), 2, 1, 1, 1, nil))...)
		}
		ca.feed(hold)
		cw.feed(record(callMsg(5, 2, 1, 1, 2, opaque(o.blob([]int{5, 100, 700, 5000, 70000}[r.Intn(5)], false)))))
		cs.feed(record(callMsg(6, 2, 1, 1, 5, nil)))
		if r.Intn(2) == 0 {
			for t := 0; t < 10; t++ {
				runtime.Gosched()
				time.Sleep(200 * time.Microsecond)
			}
		}
		bad := false
		var wantA, wantB int
		send := func(c *sconn, n *int, what string, b []byte, answered bool) {
			if bad {
				return
			}
			c.feed(record(b))
			if !answered {
				return
			}
			*n++
			ws := c.wait(*n, patience)
			if !check(len(ws) == *n, tags, "request not answered", "%s: %s: %d replies, want %d", desc, what, len(ws), *n) {
				bad = true
				return
			}
			w := ws[*n-1]
			check(len(w) >= 12 && bytes.Equal(w[4:8], b[:4]) && binary.BigEndian.Uint32(w[8:]) == 1, tags, "request not answered", "%s: %s (%s): answered %s", desc, what, hex(b), hex(w))
		}
		steps := 6 + r.Intn(10)
		if i%5 == 1 {
			steps = 400
		}
		for k := 0; k < steps && !bad; k++ {
			c, n := ca, &wantA
			if r.Intn(2) == 0 {
				c, n = cb, &wantB
			}
			xid := r.Uint32()
			if xid >= 1000 && xid < 4000 {
				xid = 0
			}
			switch r.Intn(9) {
			case 0:
				send(c, n, "a call that registers handlers", callMsg(xid, 2, 1, 1, 3, nil), true)
			case 1:
				send(c, n, "a call whose handler fails", callMsg(xid, 2, 1, 1, 4, nil), true)
			case 2:
				send(c, n, "a call of an unknown procedure", callMsg(xid, 2, 1, 1, 77, nil), true)
			case 3:
				send(c, n, "a call of another RPC version", callMsg(xid, 3, 1, 1, 2, nil), true)
			case 4:
				send(c, n, "a record that is no message", o.blob(r.Intn(30), false), false)
				for t := 0; t < 3; t++ {
					runtime.Gosched()
					time.Sleep(100 * time.Microsecond)
				}
				// such bytes may happen to be a call
				ws := c.wait(*n, 0)
				*n = len(ws)
			case 5:
				send(c, n, "a reply", acceptedReply(xid, 0, nil, nil), false)
			default:
				send(c, n, "a call", callMsg(xid, 2, 1, 1, 2, opaque(o.blob([]int{r.Intn(300), r.Intn(300), r.Intn(9000)}[r.Intn(3)], false))), true)
			}
		}
		if i%3 == 0 && !bad {
			// many of one kind, then a call
			c, n := ca, &wantA
			if r.Intn(2) == 0 {
				c, n = cb, &wantB
			}
			var junk []byte
			what := ""
			count := []int{40, 150, 1100}[r.Intn(3)]
			replied := 1
			kind := (i / 3) % 7
			for k := 0; k < count; k++ {
				var b []byte
				switch kind {
				case 0:
					what, replied, b = "records that are no message", 0, o.blob(r.Intn(4), false)
				case 1:
					what, replied, b = "replies", 0, acceptedReply(7, 0, nil, nil)
				case 2:
					what, b = "calls of an unknown procedure", callMsg(7, 2, 1, 1, 77, nil)
				case 3:
					what, b = "calls of another RPC version", callMsg(7, 3, 1, 1, 2, nil)
				case 4:
					what, b = "calls whose handler fails", callMsg(7, 2, 1, 1, 4, nil)
				case 5:
					what, replied, b = "calls whose result cannot be encoded", 0, callMsg(7, 2, 1, 1, 6, nil)
				case 6:
					what, b = "calls of an unknown program", callMsg(7, 2, 9, 1, 4, nil)
				}
				junk = append(junk, record(b)...)
			}
			c.feed(junk)
			*n += replied * count
			ws := c.wait(*n, patience)
			if !check(len(ws) == *n, tags, "request not answered", "%s: %d %s: %d replies, want %d", desc, count, what, len(ws), *n) {
				bad = true
			}
			for t := 0; t < 20; t++ {
				runtime.Gosched()
				time.Sleep(200 * time.Microsecond)
			}
			send(c, n, fmt.Sprintf("a call after %d %s", count, what), callMsg(8, 2, 1, 1, 2, opaque([]byte("after"))), true)
		}
		if !bad {
			ok := make(chan bool, 1)
			go func() {
				s.Register(3, 1, 1, echo)
				s.RegisterMany([]xdr.ProcRegistration{{Prog: 3, Vers: 2, Proc: 1, Handler: echo}})
				ok <- true
			}()
			select {
			case <-ok:
				send(cb, &wantB, "a call of a handler registered meanwhile", callMsg(1, 2, 3, 2, 1, opaque([]byte("x"))), true)
			case <-time.After(patience):
				fail(tags, "registration held up", "%s: registering a handler does not return", desc)
				bad = true
			}
		}
		if i%2 == 1 && !bad {
			// the peer has nothing more to send
			desc += ", and the peers close their sending sides meanwhile"
			for _, c := range []*sconn{ca, cw, cs} {
				c.close()
			}
			for k := 0; k < 3; k++ {
				select {
				case <-ended:
				case <-time.After(30 * time.Millisecond):
				}
			}
		}
		close(gate)
		close(cw.block)
		if !bad {
			ws := ca.wait(wantA+held, patience)
			check(len(ws) == wantA+held, tags, "request not answered", "%s: after their handlers returned, %d replies, want %d", desc, len(ws), wantA+held)
			ws = cw.wait(1, patience)
			check(len(ws) == 1, tags, "request not answered", "%s: after the peer took it, %d replies, want 1", desc, len(ws))
			ws = cs.wait(1, patience)
			check(len(ws) == 1, tags, "request not answered", "%s: after the result was encoded, %d replies, want 1", desc, len(ws))
		}
		for _, c := range []*sconn{ca, cb, cw, cs} {
			c.close()
		}
		if bad {
			return
		}
	}
}
