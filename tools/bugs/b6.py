ns = {}
exec(open("/verif/tools/bugs/b5.py").read(), ns)
CONN = ns["CONN"]
BUGS = [
dict(id="shared-argument", property="C26", dir="rfc1813",
 edits=[("rfc1813/xdr.go", "	w := &MOUNT_PROGRAM_MOUNT_V3_handler_wrapper{h}\n", "	w := &MOUNT_PROGRAM_MOUNT_V3_handler_wrapper{h: h}\n"),
        ("rfc1813/xdr.go", "type MOUNT_PROGRAM_MOUNT_V3_handler_wrapper struct {\n	h MOUNT_PROGRAM_MOUNT_V3_handler\n}", "type MOUNT_PROGRAM_MOUNT_V3_handler_wrapper struct {\n	h  MOUNT_PROGRAM_MOUNT_V3_handler\n	in Dirpath3\n}"),
        ("rfc1813/xdr.go", "func (w *MOUNT_PROGRAM_MOUNT_V3_handler_wrapper) MOUNTPROC3_UMNT(args *xdr.XdrState) (res xdr.Xdrable, err error) {\n	var in Dirpath3\n	in.Xdr(args)\n	err = args.Error()\n	if err != nil {\n		return\n	}\n	var out xdr.Void\n	w.h.MOUNTPROC3_UMNT(in)", "func (w *MOUNT_PROGRAM_MOUNT_V3_handler_wrapper) MOUNTPROC3_UMNT(args *xdr.XdrState) (res xdr.Xdrable, err error) {\n	w.in.Xdr(args)\n	err = args.Error()\n	if err != nil {\n		return\n	}\n	var out xdr.Void\n	w.h.MOUNTPROC3_UMNT(w.in)")],
 needs="two calls of the same procedure at the same time",
 breaks="a handler receives the argument of another call",
 demo='''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

type mnt struct{ got chan string }

func (m *mnt) MOUNTPROC3_NULL()                       {}
func (m *mnt) MOUNTPROC3_MNT(a Dirpath3) Mountres3     { return Mountres3{} }
func (m *mnt) MOUNTPROC3_UMNT(a Dirpath3)              { m.got <- string(a) }
func (m *mnt) MOUNTPROC3_UMNTALL()                     {}
func (m *mnt) MOUNTPROC3_EXPORT() Exportsopt3          { return Exportsopt3{} }
func (m *mnt) MOUNTPROC3_DUMP() Mountopt3              { return Mountopt3{} }

func TestDemo(t *testing.T) {
	m := &mnt{make(chan string, 100000)}
	for _, r := range MOUNT_PROGRAM_MOUNT_V3_regs(m) {
		if r.Proc != MOUNTPROC3_UMNT { continue }
		const n = 20000
		done := make(chan bool)
		for _, s := range []string{"a", "bbbbbbbb"} {
			d := Dirpath3(s)
			in, _ := xdr.EncodeBuf(&d)
			go func() {
				for i := 0; i < n; i++ { r.Handler(xdr.MakeReader(in)) }
				done <- true
			}()
		}
		<-done
		<-done
		count := map[string]int{}
		for i := 0; i < 2*n; i++ { count[<-m.got]++ }
		if count["a"] != n || count["bbbbbbbb"] != n { t.Fatal(count) }
	}
}
'''),
]
