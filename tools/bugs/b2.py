CONN = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

var _ = binary.BigEndian
var _ = errors.New
var _ = bytes.Equal
var _ sync.Mutex
var _ = time.Now

type conn struct {
	in     io.Reader
	writes chan []byte
}

func (c *conn) Read(b []byte) (int, error) { return c.in.Read(b) }
func (c *conn) Write(b []byte) (int, error) {
	c.writes <- append([]byte{}, b...)
	return len(b), nil
}

type raw struct{ b []byte }

func (r *raw) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, &r.b) }

func rec(b []byte) []byte {
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
	return append(h, b...)
}

func msg(vs ...xdr.Xdrable) []byte {
	w := xdr.MakeWriter(nil)
	for _, v := range vs {
		v.Xdr(w)
	}
	return w.WriteBuf()
}

func callMsg(xid, rpcvers, prog, vers, proc uint32, args xdr.Xdrable) []byte {
	var m Rpc_msg
	m.Xid = xid
	m.Body.Mtype = CALL
	m.Body.Cbody.Rpcvers = rpcvers
	m.Body.Cbody.Prog = prog
	m.Body.Cbody.Vers = vers
	m.Body.Cbody.Proc = proc
	if args == nil {
		return msg(&m)
	}
	return msg(&m, args)
}

func replyMsg(xid uint32, st Accept_stat, res xdr.Xdrable) []byte {
	var m Rpc_msg
	m.Xid = xid
	m.Body.Mtype = REPLY
	m.Body.Rbody.Areply.Reply_data.Stat = st
	if res == nil {
		return msg(&m)
	}
	return msg(&m, res)
}

func serve(s *Server, in []byte, n int) (out [][]byte, err error) {
	c := &conn{bytes.NewReader(in), make(chan []byte, 100)}
	err = s.Run(c)
	for len(out) < n {
		select {
		case w := <-c.writes:
			out = append(out, w)
		case <-time.After(2 * time.Second):
			return
		}
	}
	select {
	case w := <-c.writes:
		out = append(out, w)
	case <-time.After(100 * time.Millisecond):
	}
	return
}
'''

BUGS = [
dict(id="stale-empty", property="C09", dir="rfc1057",
 edits=[("xdr/lib.go", '''		*v = xdrR(xs, sz)
''', '''		if sz == 0 {
			return
		}

		*v = xdrR(xs, sz)
''')],
 needs="decoding empty opaque data into a variable that held something else",
 breaks="the destination keeps its old content",
 demo='''
package rfc1057
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	buf, err := xdr.EncodeBuf(&Opaque_auth{Flavor: 3})
	if err != nil { t.Fatal(err) }
	d := Opaque_auth{Body: []byte{1, 2}}
	if err := xdr.DecodeBuf(buf, &d); err != nil { t.Fatal(err) }
	if len(d.Body) != 0 { t.Fatal("stale body") }
}
'''),
dict(id="read-capacity", property="C10", dir="rfc1057",
 edits=[("xdr/lib.go", '''	if len(xs.buf) < n {
		xs.err''', '''	if cap(xs.buf) < n {
		xs.err'''),
        ("xdr/lib.go", '''	xs.buf = xs.buf[n:]
	return res''', '''	if n > len(xs.buf) {
		xs.buf = nil
	} else {
		xs.buf = xs.buf[n:]
	}
	return res''')],
 needs="a truncated message that lies in a larger (recycled) buffer",
 breaks="bytes behind the end of the message are taken for its data",
 demo='''
package rfc1057
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	b := make([]byte, 64)
	b[7] = 8
	var d Opaque_auth
	if xdr.DecodeBuf(b[:8], &d) == nil { t.Fatal("accepted data that is not there") }
}
'''),
dict(id="copied-out", property="C12", dir="rfc1057",
 edits=[("xdr/lib.go", '''		*v = xdrR(xs, sz)
''', '''		data := make([]byte, sz)
		xdrRW(xs, data)
		if xs.err != nil {
			data = nil
		}
		*v = data
''')],
 needs="a few bytes that announce opaque data of hundreds of megabytes",
 breaks="memory is allocated for the announced length instead of the bytes present",
 demo='''
package rfc1057
import ("testing"; "runtime"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	in := make([]byte, 20)
	in[12] = 0x20
	runtime.ReadMemStats(&a)
	var d Call_args
	if xdr.DecodeBuf(in, &d) == nil { t.Fatal("accepted") }
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 1<<20 { t.Fatal("allocated", b.TotalAlloc-a.TotalAlloc) }
}
'''),
dict(id="xid-after-reply", property="C15", dir="rfc1057",
 edits=[("rfc1057/client.go", '''	c.xid++

	var req Rpc_msg
	req.Xid = c.xid
''', '''	var req Rpc_msg
	req.Xid = c.xid + 1
'''), ("rfc1057/client.go", '''	if res.Xid != req.Xid {
''', '''	c.xid = res.Xid
	if res.Xid != req.Xid {
''')],
 needs="a call after one whose reply could not be read, or that carried another id",
 breaks="the next call reuses the transaction id (or continues from the peer's)",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	c := &conn{bytes.NewReader(nil), make(chan []byte, 10)}
	cl := MakeClient(c, 1, 2)
	cl.Call(3, Opaque_auth{}, Opaque_auth{}, &raw{}, &raw{})
	cl.Call(3, Opaque_auth{}, Opaque_auth{}, &raw{}, &raw{})
	a, b := <-c.writes, <-c.writes
	if bytes.Equal(a[4:8], b[4:8]) { t.Fatal("id reused") }
}
'''),
dict(id="two-writes", property="C15", dir="rfc1057",
 edits=[("rfc1057/client.go", '''	_, err = c.rw.Write(append(hdr[:], wbuf...))
''', '''	_, err = c.rw.Write(hdr[:])
	if err == nil {
		_, err = c.rw.Write(wbuf)
	}
''')],
 needs="a connection on which each write counts (shared, or message based)",
 breaks="the call is not one write any more",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	c := &conn{bytes.NewReader(nil), make(chan []byte, 10)}
	MakeClient(c, 1, 2).Call(3, Opaque_auth{}, Opaque_auth{}, &raw{}, &raw{})
	if len(c.writes) != 1 { t.Fatal("writes:", len(c.writes)) }
}
'''),
dict(id="unknown-status", property="C16", dir="rfc1057",
 edits=[("rfc1057/client.go", '''	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
''', '''	if st := res.Body.Rbody.Areply.Reply_data.Stat; st != SUCCESS && st <= GARBAGE_ARGS {
''')],
 needs="a reply with an accept status this version does not know",
 breaks="an unknown status counts as success",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	c := &conn{bytes.NewReader(rec(replyMsg(1, 77, &raw{}))), make(chan []byte, 10)}
	if MakeClient(c, 1, 2).Call(3, Opaque_auth{}, Opaque_auth{}, &raw{}, &raw{}) == nil { t.Fatal("success") }
}
'''),
dict(id="short-read", property="C16", dir="rfc1057",
 edits=[("rfc1057/client.go", '''	_, err = io.ReadFull(c.rw, buf)
	if err != nil {
		return err
	}
''', '''	_, err = io.ReadAtLeast(c.rw, buf, (len(buf)+1)/2)
	if err != nil {
		return err
	}
''')],
 needs="a reply that arrives in several pieces, with zero bytes where the rest belongs",
 breaks="a reply of which only a part was read is decoded, with zeros for the rest",
 demo=CONN+'''
type slow struct{ b []byte }
func (s *slow) Read(b []byte) (int, error) {
	if len(s.b) == 0 { return 0, io.EOF }
	if len(b) > 28 { b = b[:28] }
	n := copy(b, s.b)
	s.b = s.b[n:]
	return n, nil
}
func TestDemo(t *testing.T) {
	c := &conn{&slow{rec(replyMsg(1, SUCCESS, &raw{[]byte("abcdefghijkl")}))}, make(chan []byte, 10)}
	var r raw
	err := MakeClient(c, 1, 2).Call(3, Opaque_auth{}, Opaque_auth{}, &raw{}, &r)
	if err == nil && string(r.b) != "abcdefghijkl" { t.Fatalf("%q", r.b) }
}
'''),
dict(id="no-reply-on-error", property="C17", dir="rfc1057",
 edits=[("rfc1057/server.go", '''			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
''', '''			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			if rd.Error() != nil {
				return err
			}
			goto reply
''')],
 needs="a call whose arguments do not decode",
 breaks="the call is never answered",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
		var a raw
		a.Xdr(xs)
		return &a, xs.Error()
	})
	out, _ := serve(s, rec(callMsg(5, 2, 1, 1, 1, nil)), 1)
	if len(out) != 1 { t.Fatal("replies:", len(out)) }
}
'''),
dict(id="denied-without-id", property="C17", dir="rfc1057",
 edits=[("rfc1057/server.go", '''	res.Xid = req.Xid
	res.Body.Mtype = REPLY
''', '''	res.Body.Mtype = REPLY
'''), ("rfc1057/server.go", '''		res.Body.Rbody.Stat = MSG_ACCEPTED
''', '''		res.Xid = req.Xid
		res.Body.Rbody.Stat = MSG_ACCEPTED
''')],
 needs="a call with another RPC version",
 breaks="the denial does not carry the transaction id of the call",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	out, _ := serve(MakeServer(), rec(callMsg(5, 3, 1, 1, 1, nil)), 1)
	if len(out) != 1 || out[0][7] != 5 { t.Fatal(out) }
}
'''),
dict(id="version-of-any-program", property="C18", dir="rfc1057",
 edits=[("rfc1057/server.go", '''			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
			goto reply
''', '''			if len(vermap) == 1 {
				for _, m := range vermap {
					h, procok = m[req.Body.Cbody.Proc]
					verok = true
				}
			}
			if !verok {
				res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
				goto reply
			}
''')],
 needs="a call for an unregistered version of a program that has exactly one version",
 breaks="a handler of another version is called",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	called := false
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { called = true; return &raw{}, nil })
	serve(s, rec(callMsg(5, 2, 1, 9, 1, nil)), 1)
	if called { t.Fatal("called") }
}
'''),
dict(id="stream-rewound", property="C18", dir="rfc1057",
 edits=[("rfc1057/server.go", '''		resdata, err = h(rd)
''', '''		resdata, err = h(rd)
		if err != nil && req.Body.Cbody.Cred.Flavor != AUTH_NONE {
			// retry without the credentials
			resdata, err = h(xdr.MakeReader(buf))
		}
''')],
 needs="a handler that fails for a call that carries credentials",
 breaks="the handler is called twice, the second time with the stream at the call header",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	n := 0
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { n++; return nil, errors.New("no") })
	var m Rpc_msg
	m.Body.Cbody = Call_body{Rpcvers: 2, Prog: 1, Vers: 1, Proc: 1, Cred: Opaque_auth{Flavor: AUTH_UNIX}}
	serve(s, rec(msg(&m)), 1)
	if n != 1 { t.Fatal("calls:", n) }
}
'''),
dict(id="second-version-wipes", property="C19", dir="rfc1057",
 edits=[("rfc1057/server.go", '''	if !versok {
		s.handlers[prog][vers] = make(map[uint32]ProcHandler)
''', '''	if !versok || proc == 0 {
		s.handlers[prog][vers] = make(map[uint32]ProcHandler)
''')],
 needs="registering procedure 0 after other procedures of the same version",
 breaks="the other procedures are forgotten",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	h := func(xs *xdr.XdrState) (xdr.Xdrable, error) { return nil, nil }
	s.Register(1, 1, 5, h)
	s.Register(1, 1, 0, h)
	out, _ := serve(s, rec(callMsg(5, 2, 1, 1, 5, nil)), 1)
	if len(out) != 1 || out[0][27] != 0 { t.Fatal(out) }
}
'''),
dict(id="skip-duplicates", property="C19", dir="rfc1057",
 edits=[("rfc1057/server.go", '''	for _, r := range regs {
		s.Register''', '''	for i, r := range regs {
		if i > 0 && r.Prog == regs[i-1].Prog && r.Vers == regs[i-1].Vers && r.Proc == regs[i-1].Proc {
			continue
		}
		s.Register''')],
 needs="a list in which one procedure is registered twice in a row",
 breaks="the first instead of the last entry is effective",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	got := 0
	mk := func(n int) func(xs *xdr.XdrState) (xdr.Xdrable, error) { return func(xs *xdr.XdrState) (xdr.Xdrable, error) { got = n; return nil, nil } }
	s.RegisterMany([]xdr.ProcRegistration{{Prog: 1, Vers: 1, Proc: 1, Handler: mk(1)}, {Prog: 1, Vers: 1, Proc: 1, Handler: mk(2)}})
	serve(s, rec(callMsg(5, 2, 1, 1, 1, nil)), 1)
	if got != 2 { t.Fatal("handler", got) }
}
'''),
dict(id="narrow-length", property="C20", dir="rfc1057",
 edits=[("rfc1057/server.go", "		buflen := int(hlen & 0x7fffffff)", "		buflen := int(hlen & 0xffffff)")],
 needs="a record of 16 MB or more",
 breaks="the rest of the record is taken for the next one",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { return nil, nil })
	big := callMsg(5, 2, 1, 1, 1, &raw{make([]byte, 1<<24)})
	in := append(rec(big), rec(callMsg(6, 2, 1, 1, 1, nil))...)
	out, err := serve(s, in, 2)
	if len(out) != 2 || err != io.EOF { t.Fatal(len(out), err) }
}
'''),
dict(id="clean-end", property="C20", dir="rfc1057",
 edits=[("rfc1057/server.go", '''		_, err = io.ReadFull(sc.rw, buf)
		if err != nil {
			return err
		}
''', '''		n, err := io.ReadFull(sc.rw, buf)
		if err != nil && n == 0 {
			return err
		}
''')],
 needs="a connection that breaks in the middle of a record",
 breaks="the partial record is handled, filled up with whatever the buffer held",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	called := false
	s.Register(0, 0, 0, func(xs *xdr.XdrState) (xdr.Xdrable, error) { called = true; return nil, nil })
	in := rec(callMsg(5, 2, 0, 0, 0, nil))
	serve(s, in[:18], 0)
	if called { t.Fatal("partial record handled") }
}
'''),
dict(id="early-recycle", property="C21", dir="rfc1057",
 edits=[("rfc1057/server.go", '''		resdata, err = h(rd)
''', '''		resdata, err = h(rd)
		putReqBuf(buf)
'''), ("rfc1057/server.go", '''	defer putReqBuf(buf)

''', '')],
 needs="a result that refers to the bytes of the request while the next request arrives",
 breaks="the buffer is recycled before the reply is written",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	buf := callMsg(5, 2, 1, 1, 1, &raw{[]byte("request!")})
	s := MakeServer()
	var reused bool
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
		var a raw
		a.Xdr(xs)
		return &probe{&a, &buf[0], &reused}, nil
	})
	for i := 0; i < 50; i++ {
		c := &conn{nil, make(chan []byte, 9)}
		cp := append([]byte{}, buf...)
		first = &cp[0]
		(&serverConn{s: s, rw: c}).handleReq(cp)
	}
	if reused { t.Fatal("buffer given out while its request is in progress") }
}

var first *byte

type probe struct {
	a *raw
	_ *byte
	r *bool
}

func (p *probe) Xdr(xs *xdr.XdrState) {
	for i := 0; i < 8; i++ {
		if b := getReqBuf(1); first != nil && &b[0] == first { *p.r = true }
	}
	p.a.Xdr(xs)
}
'''),
dict(id="reply-in-request-buffer", property="C21", dir="rfc1057",
 edits=[("rfc1057/server.go", '''	wr := xdr.MakeWriter(reserveLen[:])
''', '''	wr := xdr.MakeWriter(append(buf[:0], reserveLen[:]...))
''')],
 needs="a result that refers to the bytes of its request",
 breaks="the reply is built over the request's bytes, which the result still refers to",
 demo=CONN+'''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
		var p two
		p.a.Xdr(xs)
		p.b.Xdr(xs)
		p.a, p.b = p.b, p.a
		return &p, xs.Error()
	})
	out, _ := serve(s, rec(callMsg(5, 2, 1, 1, 1, &two{raw{[]byte("abcdefghijklmnopqrstuvwxyz")}, raw{make([]byte, 26)}})), 1)
	if len(out) != 1 || !bytes.Contains(out[0], []byte("abcdefghijklmnopqrstuvwxyz")) { t.Fatal(out) }
}

type two struct{ a, b raw }

func (p *two) Xdr(xs *xdr.XdrState) { p.a.Xdr(xs); p.b.Xdr(xs) }
'''),
]
