ns = {}
exec(open("/verif/tools/bugs/b2.py").read(), ns)
CONN = ns["CONN"] + '''
// live is a connection whose input is fed while the server runs.
type live struct {
	pr     *io.PipeReader
	pw     *io.PipeWriter
	writes chan []byte
	before func()
}

func newLive() *live {
	r, w := io.Pipe()
	return &live{r, w, make(chan []byte, 10000), nil}
}

func (c *live) Read(b []byte) (int, error) { return c.pr.Read(b) }
func (c *live) Write(b []byte) (int, error) {
	c.writes <- append([]byte{}, b...)
	if c.before != nil {
		c.before()
	}
	return len(b), nil
}

func (c *live) get(t *testing.T) []byte {
	select {
	case w := <-c.writes:
		return w
	case <-time.After(4 * time.Second):
		t.Fatal("no reply")
	}
	return nil
}

func echo(xs *xdr.XdrState) (xdr.Xdrable, error) {
	var r raw
	r.Xdr(xs)
	return &r, xs.Error()
}
'''

BUGS = [
dict(id="shared-reply", property="C26", dir="rfc1057",
 edits=[("rfc1057/server.go", "type serverConn struct {\n	s  *Server\n	rw io.ReadWriter\n}", "type serverConn struct {\n	s   *Server\n	rw  io.ReadWriter\n	res Rpc_msg\n}"),
        ("rfc1057/server.go", "	var res Rpc_msg\n", "	res := &sc.res\n	*res = Rpc_msg{}\n")],
 needs="two requests of one connection in progress at the same time",
 breaks="a reply carries the transaction id or status of another request",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	gate := make(chan bool)
	in := make(chan bool, 1)
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { in <- true; <-gate; return &raw{}, nil })
	c := newLive()
	go s.Run(c)
	c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, nil)))
	<-in
	c.pw.Write(rec(callMsg(6, 2, 9, 1, 1, nil)))
	if w := c.get(t); w[7] != 6 { t.Fatal(w) }
	close(gate)
	if w := c.get(t); !bytes.Equal(w, rec(replyMsg(5, SUCCESS, &raw{}))) { t.Fatal(w) }
}
'''),
dict(id="shared-write-buffer", property="C26", dir="rfc1057",
 edits=[("rfc1057/server.go", "type serverConn struct {\n	s  *Server\n	rw io.ReadWriter\n}", "type serverConn struct {\n	s    *Server\n	rw   io.ReadWriter\n	wbuf [512]byte\n}"),
        ("rfc1057/server.go", "	var reserveLen [4]byte\n", "	reserveLen := sc.wbuf[:4]\n"),
        ("rfc1057/server.go", "	wr := xdr.MakeWriter(reserveLen[:])\n", "	wr := xdr.MakeWriter(reserveLen)\n")],
 needs="a result of another request is encoded while a result is encoded on the same connection",
 breaks="short replies of one connection are encoded into one buffer",
 demo=CONN+'''
type slow struct{ gate, in chan bool }

func (r *slow) Xdr(xs *xdr.XdrState) {
	r.in <- true
	<-r.gate
	x := xdr.Uint32(7)
	(&x).Xdr(xs)
}

func TestDemo(t *testing.T) {
	s := MakeServer()
	r := &slow{make(chan bool), make(chan bool, 1)}
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { return r, nil })
	c := newLive()
	go s.Run(c)
	c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, nil)))
	<-r.in
	c.pw.Write(rec(callMsg(6, 2, 9, 1, 1, nil)))
	if w := c.get(t); w[7] != 6 { t.Fatal(w) }
	close(r.gate)
	seven := xdr.Uint32(7)
	if w := c.get(t); !bytes.Equal(w, rec(replyMsg(5, SUCCESS, &seven))) { t.Fatal(w) }
}
'''),
dict(id="split-write", property="C26", dir="rfc1057",
 edits=[("rfc1057/server.go", "	_, err = sc.rw.Write(wbuf)\n	return err\n", "	_, err = sc.rw.Write(wbuf[:4])\n	if err != nil {\n		return err\n	}\n\n	_, err = sc.rw.Write(wbuf[4:])\n	return err\n")],
 needs="two replies of one connection are sent at the same time",
 breaks="the record marks and the replies are interleaved on the connection",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, echo)
	c := newLive()
	var mu sync.Mutex
	n := 0
	gate := make(chan bool)
	c.before = func() {
		mu.Lock()
		n++
		first := n == 1
		mu.Unlock()
		if first { <-gate }
	}
	go s.Run(c)
	c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, &raw{[]byte("abcd")})))
	w := c.get(t)
	c.pw.Write(rec(callMsg(6, 2, 1, 1, 1, &raw{[]byte("efgh")})))
	v := c.get(t)
	close(gate)
	a, b := rec(replyMsg(5, SUCCESS, &raw{[]byte("abcd")})), rec(replyMsg(6, SUCCESS, &raw{[]byte("efgh")}))
	all := append(append([]byte{}, w...), v...)
	if !bytes.HasPrefix(all, a) && !bytes.HasPrefix(all, b) { t.Fatal(all) }
}
'''),
dict(id="codec-scratch", property="C26", dir="rfc1057",
 edits=[("xdr/lib.go", "func XdrU32(xs *XdrState, v *uint32) {\n	if xs.err != nil {\n		return\n	}\n\n	var buf [4]byte\n", "// wordBuf spares an allocation per word.\nvar wordBuf [4]byte\n\nfunc XdrU32(xs *XdrState, v *uint32) {\n	if xs.err != nil {\n		return\n	}\n\n	buf := &wordBuf\n")],
 needs="requests decoded or replies encoded at the same time",
 breaks="numbers of one request show up in another",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, echo)
	for round := 0; round < 20; round++ {
		const n = 2000
		var in []byte
		for i := 0; i < n; i++ {
			in = append(in, rec(callMsg(uint32(i), 2, 1, 1, 1, &raw{[]byte{1, 2, 3}}))...)
		}
		c := &conn{bytes.NewReader(in), make(chan []byte, 2*n)}
		s.Run(c)
		seen := map[uint32]bool{}
		for i := 0; i < n; i++ {
			select {
			case w := <-c.writes:
				x := binary.BigEndian.Uint32(w[4:])
				if seen[x] || !bytes.Equal(w, rec(replyMsg(x, SUCCESS, &raw{[]byte{1, 2, 3}}))) { t.Fatal(w) }
				seen[x] = true
			case <-time.After(4 * time.Second):
				t.Fatal("lost")
			}
		}
	}
}
'''),
dict(id="shared-padding", property="C08", dir="xdr",
 edits=[("xdr/lib.go", "		buf := xdrR(xs, sz)\n		*v = string(buf)\n\n		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))\n", "		buf := xdrR(xs, sz)\n		*v = string(buf)\n\n		xdrRW(xs, padding[:(4-len(*v)%4)%4])\n"),
        ("xdr/lib.go", "		xdrRW(xs, []byte(*v))\n		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))\n", "		xdrRW(xs, []byte(*v))\n		xdrRW(xs, padding[:(4-len(*v)%4)%4])\n"),
        ("xdr/lib.go", "func XdrString(", "var padding [4]byte\n\nfunc XdrString(")],
 needs="a string with non-zero padding decoded before a string is encoded",
 breaks="the padding of the decoded string is sent with every later string",
 demo='''
package xdr

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var s string
	XdrString(MakeReader([]byte{0, 0, 0, 1, 'a', 1, 2, 3}), -1, &s)
	w := MakeWriter(nil)
	XdrString(w, -1, &s)
	if !bytes.Equal(w.WriteBuf(), []byte{0, 0, 0, 1, 'a', 0, 0, 0}) { t.Fatal(w.WriteBuf()) }
}
'''),
dict(id="one-at-a-time", property="C27", dir="rfc1057",
 edits=[("rfc1057/server.go", "type serverConn struct {\n	s  *Server\n	rw io.ReadWriter\n}", "type serverConn struct {\n	s  *Server\n	rw io.ReadWriter\n	mu sync.Mutex // one handler of a connection at a time\n}"),
        ("rfc1057/server.go", "		resdata, err = h(rd)\n", "		sc.mu.Lock()\n		resdata, err = h(rd)\n		sc.mu.Unlock()\n")],
 needs="a call whose handler does not return, followed by another on the same connection",
 breaks="the second call is never answered",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	gate := make(chan bool)
	in := make(chan bool, 1)
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { in <- true; <-gate; return &raw{}, nil })
	s.Register(1, 1, 2, echo)
	c := newLive()
	go s.Run(c)
	c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, nil)))
	<-in
	c.pw.Write(rec(callMsg(6, 2, 1, 1, 2, &raw{})))
	c.get(t)
}
'''),
dict(id="worker-limit", property="C27", dir="rfc1057",
 edits=[("rfc1057/server.go", "		go sc.handleReq(buf)\n", "		workers <- true\n		go func() {\n			sc.handleReq(buf)\n			<-workers\n		}()\n"),
        ("rfc1057/server.go", "var reqBufPool sync.Pool\n", "var reqBufPool sync.Pool\n\n// workers limits the number of requests in progress.\nvar workers = make(chan bool, 256)\n")],
 needs="256 requests whose handlers do not return",
 breaks="no further request is answered, on any connection",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	gate := make(chan bool)
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { <-gate; return &raw{}, nil })
	s.Register(1, 1, 2, echo)
	c, d := newLive(), newLive()
	go s.Run(c)
	go s.Run(d)
	go func() {
		for i := 0; i < 1000; i++ {
			c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, nil)))
		}
	}()
	time.Sleep(300 * time.Millisecond)
	go d.pw.Write(rec(callMsg(6, 2, 1, 1, 2, &raw{})))
	d.get(t)
}
'''),
dict(id="small-inline", property="C27", dir="rfc1057",
 edits=[("rfc1057/server.go", "		go sc.handleReq(buf)\n", "		if buflen <= 40 {\n			// no arguments: not worth a goroutine\n			sc.handleReq(buf)\n			continue\n		}\n\n		go sc.handleReq(buf)\n")],
 needs="a call without arguments whose handler does not return",
 breaks="later requests of the connection are not read",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	gate := make(chan bool)
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { <-gate; return &raw{}, nil })
	s.Register(1, 1, 2, echo)
	c := newLive()
	go s.Run(c)
	go func() {
		c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, nil)))
		c.pw.Write(rec(callMsg(6, 2, 1, 1, 2, &raw{})))
	}()
	c.get(t)
}
'''),
dict(id="handler-under-lock", property="C27", dir="rfc1057",
 edits=[("rfc1057/server.go", "type serverConn struct {\n	s  *Server\n	rw io.ReadWriter\n}", "type serverConn struct {\n	s   *Server\n	rw  io.ReadWriter\n	wmu sync.Mutex\n}"),
        ("rfc1057/server.go", "	// Reserve 4 bytes at the front for the length\n	var reserveLen [4]byte\n", "	// replies are sent one after another\n	sc.wmu.Lock()\n\n	// Reserve 4 bytes at the front for the length\n	var reserveLen [4]byte\n"),
        ("rfc1057/server.go", "	_, err = sc.rw.Write(wbuf)\n	return err\n", "	_, err = sc.rw.Write(wbuf)\n	sc.wmu.Unlock()\n	return err\n")],
 needs="a result that cannot be encoded, then any other call on the connection",
 breaks="the lock is not released when the reply cannot be encoded: no further reply is sent",
 demo=CONN+'''
type badRes struct{}

func (badRes) Xdr(xs *xdr.XdrState) { xs.SetError("no") }

func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { return badRes{}, nil })
	s.Register(1, 1, 2, echo)
	c := newLive()
	go s.Run(c)
	c.pw.Write(rec(callMsg(5, 2, 1, 1, 1, nil)))
	time.Sleep(100 * time.Millisecond)
	c.pw.Write(rec(callMsg(6, 2, 1, 1, 2, &raw{})))
	c.get(t)
}
'''),
]
