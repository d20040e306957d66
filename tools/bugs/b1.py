BUGS = [
dict(id="opaque-capacity", property="C06", dir="xdr",
 edits=[("xdr/lib.go", "res := xs.buf[:n:n]", "res := xs.buf[:n]")],
 needs="append to a decoded opaque field while the bytes behind it are still to be decoded",
 breaks="the decoded field shares spare capacity with the rest of the input",
 demo='''
package xdr
import "testing"
func TestDemo(t *testing.T) {
	in := []byte{0, 0, 0, 4, 1, 2, 3, 4, 0, 0, 0, 9}
	r := MakeReader(in)
	var b []byte
	XdrVarArray(r, -1, &b)
	_ = append(b, 77, 77, 77, 77)
	var x uint32
	XdrU32(r, &x)
	if x != 9 || r.Error() != nil {
		t.Fatal("later data changed by an append to a decoded field", x)
	}
}
'''),
dict(id="padding-at-end", property="C03", dir="xdr",
 edits=[("xdr/lib.go", "	xdrRW(xs, v)\n	if len(v)%4 != 0 {", "	xdrRW(xs, v)\n	if len(v)%4 != 0 && (!xs.reader || len(xs.buf) > 0) {")],
 needs="fixed opaque data whose padding is cut off entirely at the end of the input",
 breaks="a truncated encoding is accepted",
 demo='''
package xdr
import "testing"
func TestDemo(t *testing.T) {
	var a [5]byte
	r := MakeReader([]byte{1, 2, 3, 4, 5})
	XdrArray(r, a[:])
	if r.Error() == nil {
		t.Fatal("truncated padding accepted")
	}
}
'''),
dict(id="frozen-writer-cleared", property="C05", dir="xdr",
 edits=[("xdr/lib.go", '''func XdrVarArray(xs *XdrState, maxlen int, v *[]byte) {
	if xs.err != nil {
		return
	}

	if xs.Encoding() {''', '''func XdrVarArray(xs *XdrState, maxlen int, v *[]byte) {
	if xs.Encoding() {''')],
 needs="variable-length opaque data handed to a stream that already failed",
 breaks="an operation on a failed stream overwrites its destination",
 demo='''
package xdr
import "testing"
func TestDemo(t *testing.T) {
	w := MakeWriter(nil)
	w.SetError("boom")
	b := []byte{1, 2, 3}
	XdrVarArray(w, -1, &b)
	if len(b) != 3 {
		t.Fatal("operand changed by a failed stream")
	}
}
'''),
dict(id="zero-bound", property="C04", dir="xdr",
 edits=[("xdr/lib.go", "if (maxlen >= 0 && sz > maxlen) || sz < 0 {\n			xs.SetError(\"var array too large\")", "if (maxlen > 0 && sz > maxlen) || sz < 0 {\n			xs.SetError(\"var array too large\")")],
 needs="a declared maximum of zero and a peer sending data anyway",
 breaks="a bound of zero is not enforced on decode",
 demo='''
package xdr
import "testing"
func TestDemo(t *testing.T) {
	r := MakeReader([]byte{0, 0, 0, 4, 1, 2, 3, 4})
	var b []byte
	XdrVarArray(r, 0, &b)
	if r.Error() == nil {
		t.Fatal("4 bytes accepted for a field of at most 0")
	}
}
'''),
dict(id="list-tail-kept", property="C09", dir="rfc1813",
 edits=[("rfc1813/xdr.go", '''			*(&((v).Nextentry)) = new(Entry3)
			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
		} else {
			*(&((v).Nextentry)) = nil
		}''', '''			*(&((v).Nextentry)) = new(Entry3)
			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
		}''')],
 needs="decoding the last directory entry into a variable that already held a longer list",
 breaks="absent optional data keeps the destination's old content",
 demo='''
package rfc1813
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	buf, err := xdr.EncodeBuf(&Entry3{Fileid: 7, Name: "a", Cookie: 9})
	if err != nil { t.Fatal(err) }
	d := Entry3{Nextentry: &Entry3{Name: "stale"}}
	if err := xdr.DecodeBuf(buf, &d); err != nil { t.Fatal(err) }
	if d.Nextentry != nil { t.Fatal("stale tail") }
}
'''),
dict(id="wrong-arm", property="C08", dir="rfc1813",
 edits=[("rfc1813/xdr.go", '''	case SET_TO_CLIENT_TIME:
		(*Nfstime3)(&((v).Mtime)).Xdr(xs)''', '''	case SET_TO_SERVER_TIME:
		(*Nfstime3)(&((v).Mtime)).Xdr(xs)''')],
 needs="a setattr request with the modification time set to a time chosen by the client",
 breaks="the union arm is tied to the wrong discriminant: round trips still work except that the time is lost",
 demo='''
package rfc1813
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	m := Set_mtime{Set_it: SET_TO_CLIENT_TIME}
	buf, err := xdr.EncodeBuf(&m)
	if err != nil || len(buf) != 12 { t.Fatal("length", len(buf), err) }
}
'''),
dict(id="swapped-limits", property="C08", dir="rfc1813",
 edits=[("rfc1813/xdr.go", '''	(*Uint32)(&((v).Rtmax)).Xdr(xs)
	(*Uint32)(&((v).Rtpref)).Xdr(xs)''', '''	(*Uint32)(&((v).Rtpref)).Xdr(xs)
	(*Uint32)(&((v).Rtmax)).Xdr(xs)''')],
 needs="a peer that follows the published layout and distinct values for the two fields",
 breaks="two fields of the FSINFO result travel in each other's place (encode and decode agree)",
 demo='''
package rfc1813
import ("testing"; "bytes"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	v := FSINFO3resok{Rtmax: 0x11111111, Rtpref: 0x22222222}
	buf, err := xdr.EncodeBuf(&v)
	if err != nil { t.Fatal(err) }
	if bytes.Index(buf, []byte{0x11, 0x11}) > bytes.Index(buf, []byte{0x22, 0x22}) { t.Fatal("order") }
}
'''),
dict(id="runaway-loop", property="C12", dir="rfc1057",
 edits=[("rfc1057/xdr.go", "for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {", "for i := uint64(0); i < uint64(__arraysz); i++ {"),
        ],
 count=1,
 needs="a truncated group list that announces the maximum number of groups",
 breaks="the decoder goes on element by element after the stream has failed (and indexes past the slice)",
 demo='''
package rfc1057
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	defer func() { if recover() != nil { t.Fatal("panic") } }()
	var a Auth_unix
	in := make([]byte, 20)
	in[19] = 16
	if xdr.DecodeBuf(in, &a) == nil { t.Fatal("accepted") }
	if len(a.Gids) > 1 { t.Fatal("went on after the failure") }
}
'''),
dict(id="prealloc", property="C12", dir="rfc1813",
 edits=[("rfc1813/xdr.go", "*&((v).Auth_flavors) = make([]uint32, 0)", "*&((v).Auth_flavors) = make([]uint32, 0, __arraysz)")],
 needs="a mount reply that announces hundreds of millions of flavors and ends there",
 breaks="memory is reserved for the announced count instead of what the input holds",
 demo='''
package rfc1813
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	var a Mountres3_ok
	in := []byte{0, 0, 0, 0, 1, 0, 0, 0}
	if xdr.DecodeBuf(in, &a) == nil { t.Fatal("accepted") }
	if cap(a.Auth_flavors) > 1000 { t.Fatal("capacity", cap(a.Auth_flavors)) }
}
'''),
dict(id="status-value", property="C11", dir="rfc1813",
 edits=[("rfc1813/types.go", "10007", "10008")],
 needs="comparing the exported status with the published number",
 breaks="one NFSv3 status has a wrong value",
 demo='''
package rfc1813
import "testing"
func TestDemo(t *testing.T) {
	if NFS3ERR_BADTYPE != 10007 { t.Fatal("NFS3ERR_BADTYPE") }
}
'''),
dict(id="rmdir-calls-remove", property="C13", dir="rfc1813",
 edits=[("rfc1813/xdr.go", '''	var in RMDIR3args
	in.Xdr(args)
	err = args.Error()
	if err != nil {
		return
	}
	var out RMDIR3res''', '''	var in RMDIR3args
	in.Xdr(args)
	if args.Error() != nil {
		return
	}
	var out RMDIR3res''')],
 needs="a RMDIR request with undecodable arguments",
 breaks="the handler reports success without calling the implementation",
 demo='''
package rfc1813
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	w := NFS_PROGRAM_NFS_V3_handler_wrapper{}
	_, err := w.NFSPROC3_RMDIR(xdr.MakeReader(nil))
	if err == nil { t.Fatal("undecodable arguments not reported") }
}
'''),
dict(id="table-mixed-up", property="C14", dir="rfc1813",
 edits=[("rfc1813/xdr.go", '''			Proc:    NFSPROC3_FSSTAT,
			Handler: w.NFSPROC3_FSSTAT,''', '''			Proc:    NFSPROC3_FSSTAT,
			Handler: w.NFSPROC3_FSINFO,''')],
 needs="calling FSSTAT through the registration table (its arguments look like those of FSINFO)",
 breaks="procedure 18 is served by the implementation of procedure 19",
 demo='''
package rfc1813
import ("testing"; "runtime"; "reflect"; "strings")
func TestDemo(t *testing.T) {
	for _, r := range NFS_PROGRAM_NFS_V3_regs(nil) {
		n := runtime.FuncForPC(reflect.ValueOf(r.Handler).Pointer()).Name()
		if r.Proc == 18 && !strings.Contains(n, "FSSTAT") { t.Fatal(n) }
	}
}
'''),
]
