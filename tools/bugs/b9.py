ns8 = {}
exec(open("/verif/tools/bugs/b8.py").read(), ns8)
X, GEN, CONN = ns8["X"], ns8["GEN"], ns8["CONN"]
S, C, L = "rfc1057/server.go", "rfc1057/client.go", "xdr/lib.go"
R = '''
package rfc1057

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/zeldovich/go-rpcgen/xdr"
)

var _ = bytes.Equal
var _ = binary.BigEndian
var _ = errors.New
var _ io.Reader
var _ net.Conn
var _ sync.Mutex
var _ = time.Second
var _ xdr.Void

func call(xid, prog, vers, proc uint32, args ...byte) []byte {
	var m Rpc_msg
	m.Xid = xid
	m.Body.Mtype = CALL
	m.Body.Cbody.Rpcvers = 2
	m.Body.Cbody.Prog, m.Body.Cbody.Vers, m.Body.Cbody.Proc = prog, vers, proc
	b, err := xdr.EncodeBuf(&m)
	if err != nil {
		panic(err)
	}
	b = append(b, args...)
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, 1<<31|uint32(len(b)))
	return append(h, b...)
}

func reply(t *testing.T, c net.Conn) *Rpc_msg {
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	var h [4]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		t.Fatal(err)
	}
	b := make([]byte, binary.BigEndian.Uint32(h[:])&0x7fffffff)
	if _, err := io.ReadFull(c, b); err != nil {
		t.Fatal(err)
	}
	var m Rpc_msg
	rd := xdr.MakeReader(b)
	m.Xdr(rd)
	if rd.Error() != nil {
		t.Fatal(rd.Error())
	}
	return &m
}

func stat(m *Rpc_msg) Accept_stat { return m.Body.Rbody.Areply.Reply_data.Stat }
'''
BUGS = [
dict(id="packed-key", property="C18", dir="rfc1057",
 edits=[(S, "	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n", "	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n	cache    map[uint64]ProcHandler // what was looked up before\n"),
  (S, "		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n", "		handlers: make(map[uint32]map[uint32]map[uint32]ProcHandler),\n		cache:    make(map[uint64]ProcHandler),\n"),
  (S, "	s.handlers[prog][vers][proc] = handler\n", "	s.handlers[prog][vers][proc] = handler\n	s.cache[cacheKey(prog, vers, proc)] = handler\n"),
  (S, "func (s *Server) RegisterMany(", """// cacheKey packs a procedure into one number.
func cacheKey(prog, vers, proc uint32) uint64 {
	return uint64(prog)<<32 | uint64(vers)<<16 ^ uint64(proc)
}

func (s *Server) RegisterMany("""),
  (S, "		resdata, err = h(rd)\n", """		sc.s.mu.RLock()
		if ch := sc.s.cache[cacheKey(req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc)]; ch != nil {
			h = ch
		}
		sc.s.mu.RUnlock()

		resdata, err = h(rd)
""")],
 needs="two procedures of one program whose packed numbers collide (a procedure number of 65536 or more)",
 breaks="a call is passed to the handler of another procedure",
 demo=R + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	got := 0
	h := func(n int) ProcHandler {
		return func(*xdr.XdrState) (xdr.Xdrable, error) { got = n; return nil, nil }
	}
	s.Register(7, 1, 5, h(1))
	s.Register(7, 2, 0x30005, h(2))
	a, b := net.Pipe()
	go s.Run(b)
	a.Write(call(1, 7, 1, 5))
	reply(t, a)
	if got != 1 {
		t.Fatal(got)
	}
	a.Write(call(2, 7, 2, 0x30005))
	reply(t, a)
	if got != 2 {
		t.Fatal(got)
	}
}
'''),
dict(id="kept-request", property="C15", dir="rfc1057",
 edits=[(C, "	vers uint32\n}\n", "	vers uint32\n	buf  []byte // of the last request, to be used again\n}\n"),
  (C, "	wr := xdr.MakeWriter(nil)\n", "	wr := xdr.MakeWriter(c.buf)\n"),
  (C, """	args.Xdr(wr)
	err = wr.Error()
	if err != nil {
		return err
	}

	wbuf := wr.WriteBuf()
""", """	args.Xdr(wr)
	wbuf := wr.WriteBuf()
	c.buf = wbuf
	err = wr.Error()
	if err != nil {
		return err
	}
	defer func() { c.buf = c.buf[:0] }()

""")],
 needs="a call whose arguments cannot be encoded, followed by another call",
 breaks="the record of the next call starts with what was encoded for the failed one",
 demo=R + '''
type bad struct{}

func (bad) Xdr(xs *xdr.XdrState) {
	n := uint32(9)
	xdr.XdrU32(xs, &n)
	xs.SetError("cannot be encoded")
}

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	c := MakeClient(a, 1, 2)
	if c.Call(3, Opaque_auth{}, Opaque_auth{}, bad{}, &xdr.Void{}) == nil {
		t.Fatal("no error")
	}
	go c.Call(4, Opaque_auth{}, Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
	m := reply(t, b)
	if m.Body.Cbody.Proc != 4 || m.Xid != 2 {
		t.Fatal(m)
	}
	b.Close()
}
'''),
dict(id="chunked-opaque", property="C12", dir="xdr",
 edits=[(L, "		*v = xdrR(xs, sz)\n", """		if sz <= 1024 {
			*v = xdrR(xs, sz)
		} else {
			// collected in chunks
			data := make([]byte, 0, 1024)
			for n := 0; n < sz; n += 16 {
				k := sz - n
				if k > 16 {
					k = 16
				}
				data = append(data, xdrR(xs, k)...)
			}
			*v = data
		}
""")],
 needs="a few bytes announcing opaque data of four gigabytes",
 breaks="hundreds of millions of iterations follow after the stream has failed",
 demo=X + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			var v []byte
			xs := MakeReader([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4})
			XdrVarArray(xs, -1, &v)
			if xs.Error() == nil {
				panic("accepted")
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still busy")
	}
}
'''.replace("@", "") , ),
dict(id="umount-anyway", property="C13", dir="rfc1813",
 edits=[("rfc1813/xdr.go", """func (w *MOUNT_PROGRAM_MOUNT_V3_handler_wrapper) MOUNTPROC3_UMNT(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Dirpath3
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
""", """func (w *MOUNT_PROGRAM_MOUNT_V3_handler_wrapper) MOUNTPROC3_UMNT(args *xdr.XdrState) (res xdr.Xdrable, err error) {
	var in Dirpath3
	in.Xdr(args)
	err = args.Error()
	if err != nil && in == "" {
		return
	}
""")],
 needs="an UMNT call whose path is complete but whose padding is missing",
 breaks="the implementation is called although the arguments are malformed",
 demo='''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type impl struct {
	MOUNT_PROGRAM_MOUNT_V3_handler
	n int
}

func (i *impl) MOUNTPROC3_UMNT(Dirpath3) { i.n++ }

func TestDemo(t *testing.T) {
	var i impl
	for _, r := range MOUNT_PROGRAM_MOUNT_V3_regs(&i) {
		if r.Proc != MOUNTPROC3_UMNT {
			continue
		}
		if _, err := r.Handler(xdr.MakeReader([]byte{0, 0, 0, 3, 'a', 'b', 'c'})); err == nil || i.n != 0 {
			t.Fatal(err, i.n)
		}
		if _, err := r.Handler(xdr.MakeReader([]byte{0, 0, 0, 3, 'a', 'b', 'c', 0})); err != nil || i.n != 1 {
			t.Fatal(err, i.n)
		}
	}
}
'''),
dict(id="character-number", property="C24",
 edits=[("scan.go", "	case token.INT:\n", "	case token.INT, token.CHAR:\n")],
 needs="a character literal in the specification",
 breaks="a character sequence outside the language is taken for a number",
 files={"in.x": "const LETTER = 'a';\n"},
 script='''go build -o "$T/gen" . || exit 3
cp "$D/in.x" "$T/in.x"
if "$T/gen" -i "$T/in.x" -o "$T/p.go" -p p 2>/dev/null; then exit 5; fi
exit 0'''),
dict(id="global-write-lock", property="C27", dir="rfc1057",
 edits=[(S, "type ProcHandler func", "// writeMu serialises replies.\nvar writeMu sync.Mutex\n\ntype ProcHandler func"),
  (S, "	_, err = sc.rw.Write(wbuf)\n", "	if len(wbuf) >= 512 {\n		// might be written in several pieces\n		writeMu.Lock()\n		defer writeMu.Unlock()\n	}\n	_, err = sc.rw.Write(wbuf)\n")],
 needs="a peer that does not take a long reply while another connection awaits a long reply",
 breaks="one connection's peer holds up the replies of another connection",
 demo=R + '''
type long struct{}

func (long) Xdr(xs *xdr.XdrState) {
	b := make([]byte, 2000)
	xdr.XdrArray(xs, b)
}

func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) { return long{}, nil })
	a, b := net.Pipe()
	go s.Run(b)
	a.Write(call(1, 1, 1, 1))
	time.Sleep(200 * time.Millisecond)
	c, d := net.Pipe()
	go s.Run(d)
	c.Write(call(2, 1, 1, 1))
	if reply(t, c).Xid != 2 {
		t.Fatal("xid")
	}
}
'''),
dict(id="twice-recycled", property="C21", dir="rfc1057",
 edits=[(S, """	var req Rpc_msg
	req.Xdr(rd)
	err := rd.Error()
	if err != nil {
		return err
	}
""", """	var req Rpc_msg
	req.Xdr(rd)
	err := rd.Error()
	if err != nil {
		putReqBuf(buf)
		return err
	}
""")],
 needs="a message that cannot be decoded, then two concurrent requests that get the same buffer",
 breaks="a buffer is recycled twice, so two requests share it",
 demo=R + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	enter, leave := make(chan bool, 100), make(chan bool)
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
		enter <- true
		<-leave
		v := new(xdr.Uint32)
		v.Xdr(xs)
		return v, nil
	})
	for try := 0; try < 50; try++ {
		a, b := net.Pipe()
		go s.Run(b)
		junk := append([]byte{0x80, 0, 0, 44}, make([]byte, 44)...)
		junk[11] = 0
		copy(junk[8:], []byte{0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0xff})
		a.Write(junk)
		time.Sleep(2 * time.Millisecond)
		go func() {
			a.Write(call(1, 1, 1, 1, 0, 0, 0, 1))
			a.Write(call(2, 1, 1, 1, 0, 0, 0, 2))
		}()
		<-enter
		<-enter
		leave <- true
		leave <- true
		for k := 0; k < 2; k++ {
			var h [4]byte
			io.ReadFull(a, h[:])
			m := make([]byte, binary.BigEndian.Uint32(h[:])&0x7fffffff)
			io.ReadFull(a, m)
			if !bytes.Equal(m[:4], m[len(m)-4:]) {
				t.Fatalf("try %d: % x", try, m)
			}
		}
		a.Close()
	}
}
'''),
dict(id="empty-record", property="C20", dir="rfc1057",
 edits=[(S, "		buflen := int(hlen & 0x7fffffff)\n", "		buflen := int(hlen & 0x7fffffff)\n		if buflen%4 != 0 || buflen == 0 {\n			// no message is that long\n			continue\n		}\n")],
 needs="a record whose length is no multiple of four (its bytes are not skipped)",
 breaks="the bytes of the record are taken for record headers",
 demo=R + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) { return nil, nil })
	a, b := net.Pipe()
	go s.Run(b)
	go func() {
		a.Write([]byte{0x80, 0, 0, 5, 1, 2, 3, 4, 5})
		a.Write(call(2, 1, 1, 1))
	}()
	if reply(t, a).Xid != 2 {
		t.Fatal("xid")
	}
}
'''),
dict(id="folded-true", property="C22",
 edits=[("out.go", """	switch ident {
	case "TRUE":
		return "true"
	case "FALSE":
		return "false"
	default:
""", """	switch strings.ToUpper(ident) {
	case "TRUE":
		return "true"
	case "FALSE":
		return "false"
	default:
""")],
 needs="a constant whose name differs from TRUE in case only",
 breaks="the code for a valid specification does not compile",
 files={"in.x": "enum answer { False = 0, True = 1 };\nunion u switch (answer a) { case True: int n; case False: void; };\n",
 "p_test.go.txt": '''package p

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	v := U{A: True, N: 5}
	b, err := xdr.EncodeBuf(&v)
	if err != nil || len(b) != 8 || b[7] != 5 {
		t.Fatal(b, err)
	}
}
'''},
 script=GEN),
dict(id="entry-budget", property="C09", dir="rfc1813",
 edits=[(L, "type XdrState struct {\n", "type XdrState struct {\n	depth int // nesting of lists\n\n"),
  (L, "func (xs *XdrState) Error() error {\n", """// Enter notes that a list goes one level deeper.
func (xs *XdrState) Enter() {
	if xs.depth++; xs.depth > 5000 {
		xs.SetError("list too deep")
	}
}

func (xs *XdrState) Error() error {
"""),
  ("rfc1813/xdr.go", "func (v *Entry3) Xdr(xs *xdr.XdrState) {\n", "func (v *Entry3) Xdr(xs *xdr.XdrState) {\n	xs.Enter()\n")],
 needs="a READDIR reply with more than 5000 entries",
 breaks="a valid encoding is refused",
 demo='''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemo(t *testing.T) {
	var b []byte
	n := 6000
	for i := 0; i < n; i++ {
		b = append(b, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 1, 'x', 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7)
	}
	b = append(b, 0, 0, 0, 0, 0, 0, 0, 1)
	var d Dirlist3
	if err := xdr.DecodeBuf(b, &d); err != nil {
		t.Fatal(err)
	}
	k := 0
	for e := d.Entries; e != nil; e = e.Nextentry {
		k++
	}
	if k != n || !d.Eof {
		t.Fatal(k)
	}
}
'''),
dict(id="flushed-together", property="C26", dir="rfc1057",
 edits=[(S, "	rw io.ReadWriter\n}\n", "	rw io.ReadWriter\n	bw *bufio.Writer\n}\n"),
  (S, "		rw: rw,\n	}\n", "		rw: rw,\n		bw: bufio.NewWriter(rw),\n	}\n"),
  (S, "	_, err = sc.rw.Write(wbuf)\n	return err\n", "	_, err = sc.bw.Write(wbuf)\n	if err != nil {\n		return err\n	}\n	return sc.bw.Flush()\n"),
  (S, 'import (\n', 'import (\n	"bufio"\n')],
 needs="two replies of one connection at the same time",
 breaks="replies are mixed up in the shared output buffer",
 demo=R + '''
type big []byte

func (b big) Xdr(xs *xdr.XdrState) { xdr.XdrArray(xs, b) }

func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) {
		var n uint32
		xdr.XdrU32(xs, &n)
		return big(bytes.Repeat([]byte{byte(n)}, 1000)), nil
	})
	a, b := net.Pipe()
	go s.Run(b)
	const N = 4000
	go func() {
		for i := 0; i < N; i++ {
			if _, err := a.Write(call(uint32(i), 1, 1, 1, 0, 0, 0, byte(i))); err != nil {
				return
			}
		}
	}()
	seen := map[uint32]bool{}
	for i := 0; i < N; i++ {
		a.SetReadDeadline(time.Now().Add(20 * time.Second))
		var h [4]byte
		if _, err := io.ReadFull(a, h[:]); err != nil {
			t.Fatal(err)
		}
		m := make([]byte, binary.BigEndian.Uint32(h[:])&0x7fffffff)
		if _, err := io.ReadFull(a, m); err != nil {
			t.Fatal(err)
		}
		x := binary.BigEndian.Uint32(m)
		if seen[x] || len(m) != 1024 || m[len(m)-1] != byte(x) || m[24] != byte(x) {
			t.Fatal("reply", x, seen[x], len(m))
		}
		seen[x] = true
	}
}
'''),
dict(id="tokens-lost", property="C27", dir="rfc1057",
 edits=[(S, "	rw io.ReadWriter\n}\n", "	rw io.ReadWriter\n	sem chan struct{} // limits the requests of a connection that are decoded at a time\n}\n"),
  (S, "		rw: rw,\n	}\n", "		rw: rw,\n		sem: make(chan struct{}, 32),\n	}\n"),
  (S, "	rd := xdr.MakeReader(buf)\n", "	sc.sem <- struct{}{}\n	rd := xdr.MakeReader(buf)\n"),
  (S, "	if req.Body.Mtype != CALL {\n", "	<-sc.sem\n\n	if req.Body.Mtype != CALL {\n")],
 needs="thirty-two undecodable messages on one connection",
 breaks="no later request of the connection is answered",
 demo=R + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	s.Register(1, 1, 1, func(*xdr.XdrState) (xdr.Xdrable, error) { return nil, nil })
	a, b := net.Pipe()
	go s.Run(b)
	go func() {
		for i := 0; i < 40; i++ {
			a.Write([]byte{0x80, 0, 0, 4, 1, 2, 3, 4})
		}
		time.Sleep(300 * time.Millisecond)
		a.Write(call(2, 1, 1, 1))
	}()
	if reply(t, a).Xid != 2 {
		t.Fatal("xid")
	}
}
'''),
]
for b in BUGS:
    if b["id"] == "chunked-opaque":
        b["demo"] = b["demo"].replace('	"testing"\n', '	"testing"\n	"time"\n')
