ns = {}
exec(open("/verif/tools/bugs/b5.py").read(), ns)
CONN = ns["CONN"]
SC = '''type serverConn struct {
	s  *Server
	rw io.ReadWriter
}
'''
BUGS = [
dict(id="every-65536th", property="C18", dir="rfc1057",
 edits=[("rfc1057/server.go", "	s  *Server\n	rw io.ReadWriter\n", "	s    *Server\n	rw   io.ReadWriter\n	mu   sync.Mutex\n	seen uint16\n"),
        ("rfc1057/server.go", "	if req.Body.Mtype != CALL {", "	sc.mu.Lock()\n	sc.seen++\n	seen := sc.seen\n	sc.mu.Unlock()\n	if seen == 0 {\n		return fmt.Errorf(\"request counter wrapped\")\n	}\n\n	if req.Body.Mtype != CALL {")],
 needs="65536 requests on one connection",
 breaks="one of them is never answered",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	c := newLive()
	go s.Run(c)
	for i := 0; i < 65540; i++ {
		c.pw.Write(rec(callMsg(uint32(i), 2, 9, 1, 1, nil)))
		c.get(t)
	}
}
'''),
dict(id="every-32768th", property="C17", dir="rfc1057",
 edits=[("rfc1057/server.go", "	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n}", "	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n	served   int32\n}"),
        ("rfc1057/server.go", "	res.Xid = req.Xid\n", "	res.Xid = req.Xid\n	if n := atomic.AddInt32(&sc.s.served, 1); n%(1<<15) == 0 {\n		res.Xid = uint32(n)\n	}\n"),
        ("rfc1057/server.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n')],
 needs="32768 requests to one server",
 breaks="a reply carries another transaction id than its request",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	c := newLive()
	go s.Run(c)
	for i := 0; i < 33000; i++ {
		c.pw.Write(rec(callMsg(uint32(i+7), 2, 9, 1, 1, nil)))
		if w := c.get(t); binary.BigEndian.Uint32(w[4:]) != uint32(i+7) {
			t.Fatal(i, w)
		}
	}
}
'''),
dict(id="stale-handler", property="C19", dir="rfc1057",
 edits=[("rfc1057/server.go", "	s  *Server\n	rw io.ReadWriter\n", "	s  *Server\n	rw io.ReadWriter\n\n	cacheMu sync.Mutex\n	cache   map[[3]uint32]ProcHandler\n"),
        ("rfc1057/server.go", "		s:  s,\n		rw: rw,\n", "		s:     s,\n		rw:    rw,\n		cache: make(map[[3]uint32]ProcHandler),\n"),
        ("rfc1057/server.go", "		resdata, err = h(rd)\n", "		key := [3]uint32{req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc}\n		sc.cacheMu.Lock()\n		if c, ok := sc.cache[key]; ok {\n			h = c\n		} else {\n			sc.cache[key] = h\n		}\n		sc.cacheMu.Unlock()\n\n		resdata, err = h(rd)\n")],
 needs="registering a procedure again after a connection has called it",
 breaks="the connection keeps calling the old handler",
 demo=CONN + '''
func TestDemo(t *testing.T) {
	s := MakeServer()
	c := newLive()
	go s.Run(c)
	for i := byte(0); i < 3; i++ {
		i := i
		s.Register(1, 1, 1, func(xs *xdr.XdrState) (xdr.Xdrable, error) { return &raw{[]byte{i}}, nil })
		c.pw.Write(rec(callMsg(uint32(i), 2, 1, 1, 1, nil)))
		if w := c.get(t); w[len(w)-4] != i {
			t.Fatal(i, w)
		}
	}
}
'''),
]
