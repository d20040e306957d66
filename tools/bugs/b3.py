GEN = '''cat > "$T/in.x" <<'X'
%s
X
go build -o "$T/gen" . || exit 9
mkdir "$T/m"
"$T/gen" -i "$T/in.x" -o "$T/m/xdr.go" -p zzdemo %s || exit 1
cp "$D/demo_test.go" "$T/m/demo_test.go"
printf 'module zzdemo\\n\\ngo 1.20\\n\\nrequire github.com/zeldovich/go-rpcgen v0.0.0\\n\\nreplace github.com/zeldovich/go-rpcgen => %%s\\n' "$PWD" > "$T/m/go.mod"
cd "$T/m" && GOFLAGS=-mod=mod GOPROXY=off timeout 250 go test -vet=off -count=1 .'''
HEAD = '''package zzdemo

import (
	"bytes"
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

var _ = bytes.Equal
var _ = xdr.MakeWriter
'''
BUGS = [
dict(id="third-label", property="C22",
 edits=[("out.go", "			if idx != len(c.cases)-1 {", "			if idx == 0 && len(c.cases) > 1 {")],
 script=GEN % ('''union shape switch (int kind) {
case 1:
case 2:
case 3:
	unsigned int size;
default:
	void;
};''', ""),
 files={"demo_test.go": HEAD + '''
func TestDemo(t *testing.T) {
	for k := int32(1); k <= 4; k++ {
		w := xdr.MakeWriter(nil)
		v := Shape{Kind: k, Size: 9}
		v.Xdr(w)
		want := []byte{0, 0, 0, byte(k), 0, 0, 0, 9}
		if k == 4 {
			want = want[:4]
		}
		if !bytes.Equal(w.WriteBuf(), want) {
			t.Fatalf("kind %d: %v", k, w.WriteBuf())
		}
	}
}
'''},
 needs="a union with three or more labels on one arm, and a value with a label that is neither the first nor the last but one",
 breaks="the emitted codec falls out of the switch for a middle label and omits the arm"),
dict(id="empty-string-bound", property="C22",
 edits=[("out.go", '''func (t declTypeString) goXdr(valPtr string) string {
	sz := t.sz
	if sz == "" {''', '''func (t declTypeString) goXdr(valPtr string) string {
	sz := t.sz
	if sz <= "0" {''')],
 script=GEN % ('''struct rec { string must_be_empty<0>; string short<1>; };''', ""),
 files={"demo_test.go": HEAD + '''
func TestDemo(t *testing.T) {
	w := xdr.MakeWriter(nil)
	v := Rec{Must_be_empty: "x", Short: "y"}
	v.Xdr(w)
	if w.Error() == nil {
		t.Fatal("a string over its bound is encoded")
	}
}
'''},
 needs="a string declared with maximum 0",
 breaks="the bound 0 counts as no bound"),
dict(id="shared-version", property="C23",
 edits=[("out.go", '			fmt.Fprintf(out, "Vers: %s,\\n", i(v.name))', '			fmt.Fprintf(out, "Vers: %s,\\n", i(d.vers[0].name))')],
 script=GEN % ('''struct arg { int a; };
program PR { version V_ONE { void P_NULL(void) = 0; } = 1;
 version V_TWO { arg P_GET(arg) = 1; } = 2; } = 77;''', ""),
 files={"demo_test.go": HEAD + '''
type h struct{}

func (h) P_GET(a Arg) Arg { return a }

func TestDemo(t *testing.T) {
	r := PR_V_TWO_regs(h{})
	if len(r) != 1 || r[0].Prog != 77 || r[0].Vers != 2 || r[0].Proc != 1 {
		t.Fatalf("%+v", r)
	}
}
'''},
 needs="a program with two versions",
 breaks="the registration table of the second version announces the first version's number"),
dict(id="arg-as-result", property="C23",
 edits=[("out.go", '''			if !c.res.isVoid {
				fmt.Fprintf(out, "out = ")
			}''', '''			if !c.res.isVoid && (c.arg.isVoid || c.arg.t != c.res.t) {
				fmt.Fprintf(out, "out = ")
			}''')],
 script=GEN % ('''struct arg { int a; };
struct other { int b; };
program PR { version V_ONE { void P_NULL(void) = 0; other P_CONV(arg) = 1; arg P_GET(arg) = 2; } = 1; } = 77;''', ""),
 files={"demo_test.go": HEAD + '''
type h struct{}

func (h) P_NULL()            {}
func (h) P_CONV(a Arg) Other { return Other{B: a.A} }
func (h) P_GET(a Arg) Arg    { return Arg{a.A + 1} }

func TestDemo(t *testing.T) {
	for _, r := range PR_V_ONE_regs(h{}) {
		if r.Proc != 2 {
			continue
		}
		res, err := r.Handler(xdr.MakeReader([]byte{0, 0, 0, 4}))
		if err != nil || res.(*Arg).A != 5 {
			t.Fatalf("%v %v", res, err)
		}
	}
}
'''},
 needs="a procedure whose result type is its argument type",
 breaks="the wrapper drops the method's result and returns a zero value"),
dict(id="enum-sign", property="C23",
 edits=[("out.go", '''	fmt.Fprintf(tout, "type %s %s\\n", i(ident), t)

	fmt.Fprintf(out, "func (v *%s) Xdr(xs *xdr.XdrState) {\\n", i(ident))
	fmt.Fprintf(out, "%s", typeInt{*unsignedEnumFlag}''', '''	if len(val) == 1 {
		t = "int32"
	}

	fmt.Fprintf(tout, "type %s %s\\n", i(ident), t)

	fmt.Fprintf(out, "func (v *%s) Xdr(xs *xdr.XdrState) {\\n", i(ident))
	fmt.Fprintf(out, "%s", typeInt{t == "uint32"}''')],
 script=GEN % ('''enum lone { ALONE = 1 };
enum pair { FIRST = 1, SECOND = 2 };''', "-unsigned-enum"),
 files={"demo_test.go": HEAD + '''
func TestDemo(t *testing.T) {
	l, p := Lone(0), Pair(0)
	if l--; l < 0 {
		t.Fatal("the enumeration is not unsigned")
	}
	if p--; p < 0 {
		t.Fatal("the enumeration is not unsigned")
	}
}
'''},
 needs="an enumeration with a single value and -unsigned-enum",
 breaks="the option is not honoured: the Go type is signed"),
dict(id="zero-verifier-omitted", property="C08", dir="rfc1813",
 edits=[("rfc1813/xdr.go", "		(*Createverf3)(&((v).Verf)).Xdr(xs)", "		if xs.Decoding() || (v).Verf != (Createverf3{}) {\n			(*Createverf3)(&((v).Verf)).Xdr(xs)\n		}")],
 demo='''
package rfc1813

import (
	"testing"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestDemoExclusive(t *testing.T) {
	for _, b := range []byte{0, 1} {
		w := xdr.MakeWriter(nil)
		v := Createhow3{Mode: EXCLUSIVE}
		v.Verf[3] = b
		v.Xdr(w)
		if w.Error() != nil || len(w.WriteBuf()) != 12 {
			t.Fatalf("%v", w.WriteBuf())
		}
	}
}
''',
 needs="an exclusive create whose verifier is all zeroes",
 breaks="the verifier is omitted from the encoding"),
]
