ns5 = {}
exec(open("/verif/tools/bugs/b5.py").read(), ns5)
CONN = ns5["CONN"]
X = '''
package xdr

import (
	"bytes"
	"encoding/binary"
	"math"
	"testing"
)

var _ = bytes.Equal
var _ = binary.BigEndian
var _ = math.MaxInt64
'''
GEN = '''mkdir -p "$T/mod/p" && cp -r xdr "$T/mod/xdr" && cp go.mod "$T/mod/" 
go build -o "$T/gen" . || exit 3
cp "$D/in.x" "$T/in.x"
"$T/gen" -i "$T/in.x" -o "$T/mod/p/p.go" -p p || exit 4
cp "$D/p_test.go.txt" "$T/mod/p/p_test.go"
cd "$T/mod" && timeout 250 go test -vet=off -count=1 ./p'''
BUGS = [
dict(id="dirty-padding", property="C01", dir="xdr",
 edits=[("xdr/lib.go", """	xdrRW(xs, v)
	if len(v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(v)%4)%4))
	}
""", """	xdrRW(xs, v)
	if pad := (4 - len(v)%4) % 4; pad != 0 {
		if n := len(xs.buf) + pad; !xs.reader && n <= cap(xs.buf) {
			// room is left for the padding
			xs.buf = xs.buf[:n]
			return
		}
		xdrRW(xs, make([]byte, pad))
	}
""")],
 needs="encoding fixed opaque data into a recycled buffer whose spare capacity still holds old bytes",
 breaks="the padding bytes are not zero",
 demo=X + '''
func TestDemo(t *testing.T) {
	old := bytes.Repeat([]byte{0xff}, 64)
	w := MakeWriter(old[:0])
	XdrArray(w, []byte{1, 2, 3, 4, 5})
	if !bytes.Equal(w.WriteBuf(), []byte{1, 2, 3, 4, 5, 0, 0, 0}) {
		t.Fatal(w.WriteBuf())
	}
}
'''),
dict(id="carried-sign", property="C02", dir="xdr",
 edits=[("xdr/lib.go", "		*v = int64(binary.BigEndian.Uint64(buf[:]))\n", "		hi := int32(binary.BigEndian.Uint32(buf[:4]))\n		lo := int32(binary.BigEndian.Uint32(buf[4:]))\n		*v = int64(hi)<<32 + int64(lo)\n")],
 needs="a hyper whose low half has its top bit set",
 breaks="the decoded hyper is 2^32 too small",
 demo=X + '''
func TestDemo(t *testing.T) {
	for _, v := range []int64{0, -1, 1 << 31, -1 << 31, 1<<32 - 1, math.MaxInt64, math.MinInt64} {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(v))
		var r int64
		XdrS64(MakeReader(b), &r)
		if r != v {
			t.Fatal(v, r)
		}
	}
}
'''),
dict(id="text-cleaned", property="C07", dir="xdr",
 edits=[("xdr/lib.go", '		xdrRW(xs, []byte(*v))\n', '		xdrRW(xs, []byte(strings.TrimRight(*v, "\\x00")+strings.Repeat("\\x00", len(*v)-len(strings.TrimRight(*v, "\\x00"))))[:len(*v)])\n'),
        ("xdr/lib.go", '		*v = string(buf)\n', '		*v = strings.ToValidUTF8(string(buf), "???")\n'),
        ("xdr/lib.go", '	"math"\n', '	"math"\n	"strings"\n')],
 needs="a string that is not valid UTF-8",
 breaks="the string decodes to another one",
 demo=X + '''
func TestDemo(t *testing.T) {
	for _, s := range []string{"", "abc", "\\xff", "a\\xc3b", "\\x00"} {
		w := MakeWriter(nil)
		XdrString(w, -1, &s)
		var r string
		XdrString(MakeReader(w.WriteBuf()), -1, &r)
		if r != s {
			t.Fatalf("%q %q", s, r)
		}
	}
}
'''),
dict(id="round-trip-cap", property="C04", dir="xdr",
 edits=[("xdr/lib.go", """		if (maxlen >= 0 && sz > maxlen) || sz < 0 {
			xs.SetError("string too large")
""", """		if (maxlen >= 0 && (sz+3)&^3 > (maxlen+3)&^3) || sz < 0 {
			xs.SetError("string too large")
""")],
 needs="a string that exceeds its maximum, but whose padded length does not",
 breaks="the string is accepted",
 demo=X + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		for max := 0; max < 12; max++ {
			b := make([]byte, 4+(n+3)/4*4)
			b[3] = byte(n)
			var s string
			r := MakeReader(b)
			XdrString(r, max, &s)
			if (r.Error() == nil) != (n <= max) {
				t.Fatal(n, max, r.Error())
			}
		}
	}
}
'''),
dict(id="octal-bound", property="C22", dir="",
 edits=[("out.go", """	sz := t.sz
	if sz == "" {
		sz = "-1"
	}
	return fmt.Sprintf("xdr.XdrVarArray(""", """	sz := strings.TrimLeft(t.sz, "0")
	if sz == "" && t.sz != "" {
		sz = "0"
	}
	if sz == "" {
		sz = "-1"
	}
	return fmt.Sprintf("xdr.XdrVarArray(""")],
 needs="a maximum written in octal (or hexadecimal)",
 breaks="opaque data of a length the specification does not allow is accepted",
 files={"in.x": """struct s { opaque a<010>; opaque b<>; opaque c<0>; };
""", "p_test.go.txt": '''package p

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	if _, err := xdr.EncodeBuf(&S{A: make([]byte, 8), B: make([]byte, 20)}); err != nil {
		t.Fatal(err)
	}
	if _, err := xdr.EncodeBuf(&S{A: make([]byte, 9)}); err == nil {
		t.Fatal("9 bytes")
	}
}
'''}, script=GEN),
dict(id="split-header", property="C20", dir="rfc1057",
 edits=[("rfc1057/server.go", """		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}

		hlen""", """		n, err := sc.rw.Read(hdr[:])
		if n > 0 && n < len(hdr) {
			// nothing more may be there yet
			var m int
			m, err = sc.rw.Read(hdr[n:])
			if m+n < len(hdr) && err == nil {
				err = io.ErrUnexpectedEOF
			}
		}
		if err != nil {
			return err
		}

		hlen""")],
 needs="a record header that arrives in three or more pieces",
 breaks="the connection is given up although the stream is fine",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	b := rec(callMsg(77, 2, 9, 1, 1, nil))
	for k := 1; k < 3; k++ {
		c := newLive()
		go s.Run(c)
		go func() {
			c.pw.Write(b[:1])
			c.pw.Write(b[1:1+k])
			c.pw.Write(b[1+k:])
		}()
		if w := c.get(t); binary.BigEndian.Uint32(w[4:]) != 77 {
			t.Fatal(w)
		}
	}
}
'''),
dict(id="half-closed", property="C27", dir="rfc1057",
 edits=[("rfc1057/server.go", "	s  *Server\n	rw io.ReadWriter\n", "	s    *Server\n	rw   io.ReadWriter\n	over int32 // the connection has ended\n"),
        ("rfc1057/server.go", "	_, err = sc.rw.Write(wbuf)\n	return err\n", "	if atomic.LoadInt32(&sc.over) != 0 {\n		return nil\n	}\n	_, err = sc.rw.Write(wbuf)\n	return err\n"),
        ("rfc1057/server.go", "		_, err := io.ReadFull(sc.rw, hdr[:])\n		if err != nil {\n", "		_, err := io.ReadFull(sc.rw, hdr[:])\n		if err != nil {\n			atomic.StoreInt32(&sc.over, 1)\n"),
        ("rfc1057/server.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n')],
 needs="a peer that sends a call and closes its sending side before the handler returns",
 breaks="the call is never answered",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	gate := make(chan bool)
	s.Register(9, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) { <-gate; return nil, nil })
	c := newLive()
	done := make(chan bool)
	go func() { s.Run(c); close(done) }()
	c.pw.Write(rec(callMsg(5, 2, 9, 1, 1, nil)))
	c.pw.Close()
	<-done
	close(gate)
	if w := c.get(t); binary.BigEndian.Uint32(w[4:]) != 5 {
		t.Fatal(w)
	}
}
'''),
dict(id="unknown-flavor", property="C18", dir="rfc1057",
 edits=[("rfc1057/server.go", "	if req.Body.Cbody.Rpcvers != 2 {\n		res.Body.Rbody.Stat = MSG_DENIED\n		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH\n", "	if req.Body.Cbody.Cred.Flavor > AUTH_DES {\n		res.Body.Rbody.Stat = MSG_DENIED\n		res.Body.Rbody.Rreply.Stat = AUTH_ERROR\n		res.Body.Rbody.Rreply.Astat = AUTH_BADCRED\n	} else if req.Body.Cbody.Rpcvers != 2 {\n		res.Body.Rbody.Stat = MSG_DENIED\n		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH\n")],
 needs="a call with credentials of a flavor other than the four of RFC 1057 (RPCSEC_GSS, say)",
 breaks="a call for a registered procedure is denied",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(9, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) { return nil, nil })
	c := newLive()
	go s.Run(c)
	var m Rpc_msg
	m.Body.Cbody.Rpcvers = 2
	m.Body.Cbody.Prog, m.Body.Cbody.Vers, m.Body.Cbody.Proc = 9, 1, 1
	m.Body.Cbody.Cred.Flavor = 6
	c.pw.Write(rec(msg(&m)))
	if w := c.get(t); binary.BigEndian.Uint32(w[12:]) != 0 {
		t.Fatal(w)
	}
}
'''),
dict(id="low-xid-bits", property="C16", dir="rfc1057",
 edits=[("rfc1057/client.go", "	if res.Xid != req.Xid {", "	if uint16(res.Xid) != uint16(req.Xid) {")],
 needs="a reply whose transaction id differs from that of the call by a multiple of 65536",
 breaks="the reply to another call is taken for that of this one",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	for _, d := range []uint32{0, 1, 1 << 16, 1 << 31} {
		c := &conn{bytes.NewReader(rec(replyMsg(1+d, SUCCESS, nil))), make(chan []byte, 10)}
		err := MakeClient(c, 9, 1).Call(1, Opaque_auth{}, Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
		if (err == nil) != (d == 0) {
			t.Fatal(d, err)
		}
	}
}
'''),
dict(id="long-credential", property="C15", dir="rfc1057",
 edits=[("rfc1057/client.go", "	req.Body.Cbody.Cred = cred\n", "	req.Body.Cbody.Cred = cred\n	if len(cred.Body) > 400 {\n		req.Body.Cbody.Cred.Body = cred.Body[:400]\n	}\n")],
 needs="credentials of more than 400 bytes",
 breaks="the call is sent with other credentials than those given",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 400, 401} {
		c := &conn{bytes.NewReader(rec(replyMsg(1, SUCCESS, nil))), make(chan []byte, 10)}
		err := MakeClient(c, 9, 1).Call(1, Opaque_auth{Body: make([]byte, n)}, Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
		if (err == nil) != (n <= 400) || n > 400 && len(c.writes) > 0 {
			t.Fatal(n, err)
		}
	}
}
'''),
]
