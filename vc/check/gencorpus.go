package check

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// genSpec is one interface specification of the generator's corpus.
type genSpec struct {
	name string // package name of the emitted code
	text string
	uns  bool   // -unsigned-enum
	ct   string // -const-type
	sep  bool   // -t: separate type file
	// codecs are verified; of the other specifications only the declarations
	// and services are, and the codecs are run (bounded)
	proof bool
}

// corpus writes specifications that cover every construct in every position
// (and nested in every other construct).  It is a deterministic enumeration.
type corpus struct {
	b   strings.Builder
	seq int
	nb  int
}

func (c *corpus) p(f string, a ...interface{}) { fmt.Fprintf(&c.b, f, a...) }

func (c *corpus) id(p string) string {
	c.seq++
	return fmt.Sprintf("%s%d", p, c.seq)
}

// declForms are the declarations of RFC 4506 over a type specifier.
var declForms = []string{"plain", "fix", "var", "max", "opt"}

// leafForms are the declarations without a type specifier.
var leafForms = []string{"opaque[]", "opaque<>", "opaque<max>", "string<>", "string<max>"}

var sizes = []string{"2", "0x3", "CSZ", "03", "7", "csz2", "Oct", "1"}

func (c *corpus) size() string { c.seq++; return sizes[c.seq%len(sizes)] }

// bound is the maximum of something of variable length.
func (c *corpus) bound() string {
	if c.nb++; c.nb%8 == 3 {
		return []string{"0", "zero"}[c.nb/8%2]
	}
	return c.size()
}

// decl declares name with the form over the type specifier ts.
func (c *corpus) decl(form, ts, name string) string {
	switch form {
	case "plain":
		return ts + " " + name
	case "fix":
		return ts + " " + name + "[" + c.size() + "]"
	case "var":
		return ts + " " + name + "<>"
	case "max":
		return ts + " " + name + "<" + c.bound() + ">"
	case "opt":
		return ts + " *" + name
	case "opaque[]":
		return "opaque " + name + "[" + c.size() + "]"
	case "opaque<>":
		return "opaque " + name + "<>"
	case "opaque<max>":
		return "opaque " + name + "<" + c.bound() + ">"
	case "string<>":
		return "string " + name + "<>"
	case "string<max>":
		return "string " + name + "<" + c.bound() + ">"
	}
	return "void"
}

var prims = []string{"int", "unsigned int", "hyper", "unsigned hyper", "bool"}
var nameds = []string{"color", "point", "choice", "blob", "list", "Number"}

// prelude defines the constants and named types the corpus uses.
func (c *corpus) prelude() {
	c.p(`/* constants in every notation */
const CSZ = 4;
const csz2 = 0x2;
const Oct = 010;
const BIG = 0xffffffff;
const zero = 0;
const lab7 = 7;
// comments of the other kind
enum color { RED = 0, green = 1, Blue = 0x10, last = 2147483647 };
enum single { ONLY = csz2 };
struct point { int x; hyper y; };
struct nothing { };
union choice switch (color c) {
case RED:
	int r;
case green:
case Blue:
	point p;
default:
	void;
};
typedef opaque blob<>;
typedef unsigned int Number;
typedef color hue;
typedef point *maybe;
struct node { unsigned int v; node *next; };
typedef node *list;
`)
}

func (c *corpus) discs(n int) (decl string, labels []string) {
	switch n % 7 {
	case 0:
		return "int d", []string{"0", "1", "0x7", "2147483647", "4", "5", "6", "8", "9", "10", "11"}
	case 1:
		return "unsigned int d", []string{"lab7", "BIG", "0", "1", "2", "Oct", "3", "CSZ", "5", "6", "9"}
	case 2:
		return "bool d", []string{"TRUE", "FALSE"}
	case 3:
		return "color d", []string{"RED", "green", "Blue", "last"}
	case 4:
		return "hue d", []string{"last", "green", "RED", "Blue"}
	case 5:
		return "Number d", []string{"7", "lab7x", "0", "1", "2", "3", "4", "5", "6", "9", "10"}
	}
	return "int d", []string{"CSZ", "csz2", "0", "1", "lab7", "Oct", "3", "5", "6", "9", "10"}
}

// union writes the body of a union whose arms are decls.
func (c *corpus) union(n int, def int, arms []string) string {
	d, ls := c.discs(n)
	var b strings.Builder
	fmt.Fprintf(&b, "switch (%s) {\n", d)
	k := 0
	for i, a := range arms {
		if k == len(ls) {
			break
		}
		fmt.Fprintf(&b, "case %s:\n", strings.Replace(ls[k], "lab7x", "8", 1))
		k++
		if i%3 == 1 && k < len(ls) && len(ls)-k > len(arms)-i-1 {
			fmt.Fprintf(&b, "case %s:\n", strings.Replace(ls[k], "lab7x", "8", 1))
			k++
		}
		fmt.Fprintf(&b, "\t%s;\n", a)
	}
	switch def % 3 {
	case 1:
		fmt.Fprintf(&b, "default:\n\tvoid;\n")
	case 2:
		fmt.Fprintf(&b, "default:\n\t%s;\n", c.decl(leafForms[n%len(leafForms)], "", c.id("df")))
	}
	b.WriteString("}")
	return b.String()
}

// flat: every declaration form over every type specifier, as a typedef, as a
// field and as an arm of a union.
func (c *corpus) flat() {
	c.prelude()
	for _, f := range leafForms {
		c.p("typedef %s;\n", c.decl(f, "", c.id("tl")))
	}
	n := 0
	for _, ts := range append(append([]string{}, prims...), nameds...) {
		for _, f := range declForms {
			c.p("typedef %s;\n", c.decl(f, ts, c.id("t")))
			c.p("struct %s {\n\tint %s;\n\t%s;\n\tbool %s;\n};\n", c.id("s"), c.id("f"), c.decl(f, ts, c.id("f")), c.id("f"))
			as := []string{c.decl(f, ts, c.id("a")), "void"}
			if n%2 == 0 {
				as = []string{"void", c.decl(f, ts, c.id("a")), c.decl("plain", nameds[n%len(nameds)], c.id("a"))}
			}
			c.p("union %s %s;\n", c.id("u"), c.union(n, n/2, as))
			n++
		}
	}
	for i, f := range leafForms {
		c.p("struct %s {\n\t%s;\n\thyper %s;\n};\n", c.id("s"), c.decl(f, "", c.id("f")), c.id("f"))
		for d := 0; d < 3; d++ {
			c.p("union %s %s;\n", c.id("u"), c.union(n, d, []string{c.decl(f, "", c.id("a")), "void", c.decl(leafForms[(i+1+d)%len(leafForms)], "", c.id("a"))}))
			n++
		}
	}
	for d := 0; d < 7; d++ {
		var as []string
		for i := 0; i < 5; i++ {
			as = append(as, "void")
			if i%2 == 0 {
				as = append(as, c.decl("plain", prims[i], c.id("a")))
			}
		}
		c.p("union %s %s;\n", c.id("u"), c.union(d, d, as))
	}
	c.p(`union many switch (int which) {
case 9:
case 0x3:
case 1:
	opaque three<zero>;
case 0:
case Oct:
case csz2:
case 7:
case CSZ:
	unsigned hyper five;
case 5:
	void;
case 12:
case 13:
case 14:
	void;
default:
	bool other;
};
union manymore switch (color which) {
case Blue:
case last:
case RED:
	int three;
case green:
	string one<0>;
};
union onlydefault switch (unsigned int which) {
default:
	list rest;
};
union nodefault switch (bool is_it) {
case TRUE:
	void;
};
struct void_field {
	int before;
	void;
	int after;
};
struct UPPER_lower_9 {
	single u_nder;
	manymore m;
	UPPER_lower_9 *self;
	UPPER_lower_9 others<>;
};
typedef UPPER_lower_9 renamed;
typedef renamed twice;
typedef many pile[1];
`)
	c.p("struct %s {\n\tbool a;\n\tunsigned hyper b;\n\tstring c<>;\n\tint d[2];\n\tcolor *e;\n\tunsigned int f<2>;\n};\n", c.id("s"))
}

// edge: names that mean something to the emitted code or to Go, uses before
// definitions, mutual recursion, large numbers, long definitions, chains of
// typedefs over arrays.
func (c *corpus) edge() {
	c.p(`struct early { later first; later many<BOUND>; grid *board; };
const BOUND = 0xABcd;
const MAXLEN = 4294967295;
const maxlen2 = 037777777777;
const a = 1;
const A_ = 2;
const a__b_9 = 3;
struct later { evens *e; label l; labels ls; };
struct evens { int v; odds *next; };
struct odds { int v; evens *next; };
typedef string label<MAXLEN>;
typedef label labels<maxlen2>;
typedef opaque digest[16];
typedef opaque huge[70001];
typedef int row[a__b_9];
typedef row grid[0x3];
typedef grid cube[2];
typedef cube *cubes;
typedef digest digests[A_];
typedef digests sums<0XFFFFFFFF>;
struct i { int i; unsigned int j; };
struct v { int v; i xs; bool opted; hyper err; };
struct xs { v v[2]; v xs<>; v *opted; string res<>; };
struct args { xs in; i out[2]; opaque w<>; opaque h[3]; int regs; int len; int make; int append; };
struct wide {
	int f01; hyper f02; bool f03; unsigned int f04; unsigned hyper f05;
	int f06; hyper f07; bool f08; unsigned int f09; unsigned hyper f10;
	int f11; hyper f12; bool f13; unsigned int f14; unsigned hyper f15;
	int f16; hyper f17; bool f18; unsigned int f19; unsigned hyper f20;
	digest f21; row f22; label f23; color f24; cubes f25;
};
enum color {
	c00 = 0, c01 = 1, c02 = 2, c03 = 3, c04 = 4, c05 = 5, c06 = 6, c07 = 7, c08 = 8, c09 = 9,
	c10 = 0xa, c11 = 0XB, c12 = 014, c13 = 015, c14 = 016, c15 = 017, c16 = 020,
	C_200 = 200, c_65536 = 65536, c_max = 0x7FFFFFFF, c_again = 5
};
union tall switch (color i) {
case c16: case c15: case c14: case c13: case c12: case c11: case c10: case c09: case c08:
	row rows;
case c00:
	grid board;
case c_65536: case C_200:
	struct { int v; bool opted; } xs;
case c_max:
	tall *again;
case c07:
	void;
default:
	sums rest;
};
union signs switch (int v) {
case 2147483647: int last; case 0: hyper none; case 65536: bool big; case 0x7ffffffe: void;
};
union wides switch (unsigned int v) {
case 0x80000000: int high; case 4294967295: hyper last; case 0: void; default: bool others;
};
enum answer { False = 7, True = 9, Null = 3, Default = 5, nil = 6, func = 8, map = 10, Case = 11, enum_ = 12, i0 = 13 };
struct uint32 { int type; int func; int map; int chan; int range; int go; int nil; bool error; int byte; int new; int true; int select; int interface; int package; int import; int var; int return; };
union maybe switch (answer type) {
case True: int yes; case False: hyper no; case Null: uint32 u; case func: bool fn; case map: void;
case nil: byte b; case i0: case Default: new n;
};
typedef uint32 byte<3>;
typedef byte error[2];
typedef error *new;
union flagged switch (bool true) { case TRUE: int int32; case FALSE: hyper bool_; };
struct ends { int a; tall t; signs s; wides w; maybe m; flagged f; };
`)
}

// inline body over the declarations ds.
func (c *corpus) body(kind string, ds []string) string {
	if kind == "struct" {
		return "struct {\n\t" + strings.Join(ds, ";\n\t") + ";\n}"
	}
	c.seq++
	return "union " + c.union(c.seq, c.seq, ds)
}

// place puts a declaration over an inline type at a position.
func (c *corpus) place(k int, f, ts string) {
	switch k % 3 {
	case 0:
		c.p("typedef %s;\n", c.decl(f, ts, c.id("n")))
	case 1:
		c.p("struct %s {\n\tint %s;\n\t%s;\n};\n", c.id("n"), c.id("f"), c.decl(f, ts, c.id("f")))
	case 2:
		c.p("union %s %s;\n", c.id("n"), c.union(k, k, []string{"void", c.decl(f, ts, c.id("a"))}))
	}
}

// nest2: an inline struct or union in every form, holding every form.  The
// combinations whose proofs are long (arrays of anything with arrays or, in
// unions, with dynamic parts) are kept apart.
func (c *corpus) nest2(long bool) {
	c.prelude()
	tss := append(append([]string{}, prims...), nameds...)
	k := 0
	for _, kind := range []string{"struct", "union"} {
		for _, f := range declForms {
			for _, in := range append(append([]string{}, declForms...), leafForms...) {
				arr := f == "fix" || f == "var" || f == "max"
				l := arr && (in == "fix" || in == "var" || in == "max" || kind == "union" && (in == "opt" || in == "opaque<>" || in == "string<>"))
				k++
				if l != long {
					continue
				}
				ds := []string{c.decl(in, tss[k%len(tss)], c.id("x"))}
				if k%2 == 0 {
					ds = append([]string{"bool " + c.id("x")}, ds...)
				}
				c.place(k, f, c.body(kind, ds))
			}
		}
	}
}

// nest3: three levels.
func (c *corpus) nest3(all bool) {
	c.prelude()
	c.p(`struct loops {
	struct { struct { struct { int i[2]; } j[2]; } k[2]; } i0[2];
	struct { struct { bool i1<2>; } i2<2>; } i3<>;
};
`)
	tss := append(append([]string{}, prims...), nameds...)
	k := 0
	for _, f := range declForms {
		for _, mid := range declForms {
			for _, in := range declForms {
				k++
				if !all && k%5 != 1 {
					continue
				}
				inner := c.body([]string{"struct", "union"}[k/5%2], []string{c.decl(in, tss[k%len(tss)], c.id("x"))})
				outer := c.body([]string{"union", "struct"}[k/3%2], []string{c.decl(mid, inner, c.id("m"))})
				c.place(k, f, outer)
			}
		}
	}
}

// services: programs with every shape of argument and result.
func (c *corpus) services() {
	c.prelude()
	c.p(`struct Args { int a; string name<CSZ>; };
union Res switch (bool ok) { case TRUE: point p; case FALSE: void; };
program PROGA {
	version VERSONE {
		void ANULL(void) = 0;
		Res AREAD(Args) = 1;
		void asink(point) = 0x2;
		blob ASOURCE(void) = 3;
		list AWALK(list) = 010;
		color AMIX(choice) = 4294967295;
	} = 1;
	version VERSTWO {
		void BNULL(void) = 0;
		Res BREAD(Args) = 9;
	} = 0x2;
	version vlast {
		point DNULL(void) = 0;
	} = 3;
} = 0x20000001;
program progb {
	version BVERS {
		void CNULL(void) = 0;
		maybe C_maybe(hue) = 1;
	} = 4294967295;
} = 0;
`)
}

// genCorpus lists the specifications of a tier.
func genCorpus(verif, tier string) ([]genSpec, error) {
	mk := func(f func(c *corpus)) string {
		c := &corpus{}
		f(c)
		return c.b.String()
	}
	var out []genSpec
	// two option settings: the one the repository uses, and none
	add := func(n, text string, pu, ps bool) {
		out = append(out, genSpec{name: n + "u", text: text, uns: true, ct: "uint32", sep: true, proof: pu})
		out = append(out, genSpec{name: n + "s", text: text, proof: ps})
	}
	all := tier == "thorough"
	add("flat", mk(func(c *corpus) { c.flat() }), true, all)
	add("nest", mk(func(c *corpus) { c.nest2(false) }), true, all)
	add("edge", mk(func(c *corpus) { c.edge() }), true, all)
	add("knot", mk(func(c *corpus) { c.nest2(true) }), false, false)
	add("deep", mk(func(c *corpus) { c.nest3(true) }), false, false)
	add("svc", mk(func(c *corpus) { c.services() }), true, true)
	for _, n := range []string{"rfc1057", "rfc1813"} {
		b, err := os.ReadFile(filepath.Join(verif, "specs", n+".x"))
		if err != nil {
			return nil, err
		}
		add("g"+n, string(b), all, all)
	}
	// one more option: 64-bit constants
	out = append(out, genSpec{name: "svci", text: mk(func(c *corpus) { c.services() }), ct: "int64", sep: true})
	// other combinations of the options
	out = append(out, genSpec{name: "svcx", text: mk(func(c *corpus) { c.services() }), uns: true})
	out = append(out, genSpec{name: "svcy", text: mk(func(c *corpus) { c.services() }), ct: "uint32", uns: true})
	return out, nil
}
