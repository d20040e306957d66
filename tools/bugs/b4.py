LEX = '''package main

import (
	"go/token"
	"testing"
)

// scanOne returns the tokens of text; ok is false when it is refused.
func scanAll(text string) (codes []int, texts []string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	fs := token.NewFileSet()
	var l lexer
	l.s.Init(fs.AddFile("in", -1, len(text)), []byte(text), nil, 0)
	var v xdrSymType
	v.str = "old"
	for len(codes) < 100 {
		c := l.Lex(&v)
		if c == 0 {
			return codes, texts, true
		}
		codes, texts = append(codes, c), append(texts, v.str)
	}
	return codes, texts, false
}
'''
RUN = '''cat > "$T/in.x" <<'X'
%s
X
go build -o "$T/gen" . || exit 9
mkdir "$T/m" && cd "$T/m" || exit 9
%s'''
BUGS = [
dict(id="float-constant", property="C24", dir=".",
 edits=[("scan.go", "	case token.INT:\n", "	case token.INT, token.FLOAT:\n")],
 demo=LEX + '''
func TestDemo(t *testing.T) {
	if _, _, ok := scanAll("const C = 1.5;"); ok {
		t.Fatal("1.5 is taken for a number of the language")
	}
	if _, s, ok := scanAll("const C = 15 ;"); !ok || s[3] != "15" {
		t.Fatal(s, ok)
	}
}
''',
 needs="a decimal fraction where a number is expected",
 breaks="a character sequence outside the language is accepted as a number"),
dict(id="octal-text", property="C24", dir=".",
 edits=[("scan.go", "		l.checkNumber(lit)\n		lval.str = lit\n", "		l.checkNumber(lit)\n		lval.str = strings.TrimLeft(lit[:len(lit)-1], \"0\") + lit[len(lit)-1:]\n")],
 demo=LEX + '''
func TestDemo(t *testing.T) {
	for _, n := range []string{"0", "7", "10", "017", "0x1F", "00"} {
		if _, s, ok := scanAll(n + " ;"); !ok || s[0] != n {
			t.Fatal(n, s, ok)
		}
	}
}
''',
 needs="an octal or hexadecimal number",
 breaks="the token loses its leading zero, so 017 becomes seventeen"),
dict(id="boolean-keyword", property="C24", dir=".",
 edits=[("scan.go", '		case "bool":\n', '		case "bool", "boolean":\n')],
 demo=LEX + '''
func TestDemo(t *testing.T) {
	for _, n := range []string{"boolean", "bools", "Bool", "enumeration", "boo"} {
		if c, s, ok := scanAll(n + " ;"); !ok || c[0] != IDENT || s[0] != n {
			t.Fatal(n, c, s, ok)
		}
	}
	if c, _, ok := scanAll("bool ;"); !ok || c[0] != KWBOOL {
		t.Fatal(c)
	}
}
''',
 needs="a type or field called boolean",
 breaks="an identifier that only resembles a keyword is taken for it"),
dict(id="type-text-lost", property="C24", dir=".",
 edits=[("scan.go", '	case token.TYPE:\n		lval.str = "type"\n', '	case token.TYPE:\n')],
 demo=LEX + '''
func TestDemo(t *testing.T) {
	for _, n := range []string{"type", "map", "kind", "func"} {
		if c, s, ok := scanAll(n + " ;"); !ok || c[0] != IDENT || s[0] != n {
			t.Fatal(n, c, s, ok)
		}
	}
}
''',
 needs="an identifier called type",
 breaks="the identifier carries the text of another token"),
dict(id="error-exits", property="C25",
 edits=[("scan.go", "	panic(e)\n}", "	fmt.Fprintln(os.Stderr, e)\n	os.Exit(1)\n}"), ("scan.go", '	"go/token"\n', '	"go/token"\n	"os"\n')],
 script=RUN % ("struct { int a; };", '''printf old > out.go
"$T/gen" -i "$T/in.x" -o out.go -p zz 2>/dev/null && exit 1
[ "$(ls)" = out.go ] && [ "$(cat out.go)" = old ]'''),
 needs="an input with a syntax error",
 breaks="the temporary file of the run is left behind"),
dict(id="unformatted", property="C25",
 edits=[("main.go", "	buf, err = format.Source(buf)\n	if err != nil {\n		panic(err)\n	}\n\n	return buf",
                    "	res, err := format.Source(buf)\n	if err != nil {\n		fmt.Fprintf(os.Stderr, \"cannot format the code: %v\\n\", err)\n		return buf\n	}\n\n	return res")],
 script=RUN % ("struct s { int a; };", '''printf old > out.go
"$T/gen" -i "$T/in.x" -o out.go -p "1zz" 2>/dev/null && exit 1
[ "$(ls)" = out.go ] && [ "$(cat out.go)" = old ]'''),
 needs="options for which the generated text is not Go code",
 breaks="the run reports success and overwrites the output"),
dict(id="missing-input", property="C25",
 edits=[("main.go", "	src, err := ioutil.ReadFile(*inputFile)\n	if err != nil {", "	src, err := ioutil.ReadFile(*inputFile)\n	if err != nil && !os.IsNotExist(err) {")],
 script=RUN % ("", '''printf old > out.go
"$T/gen" -i "$T/none.x" -o out.go -p zz 2>/dev/null && exit 1
[ "$(ls)" = out.go ] && [ "$(cat out.go)" = old ]'''),
 needs="an input file that does not exist",
 breaks="the output is replaced by an empty package and success is reported"),
dict(id="types-open-exits", property="C25",
 edits=[("main.go", "		toutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)\n		if err != nil {\n			panic(err)\n",
                    "		toutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)\n		if err != nil {\n			fmt.Fprintln(os.Stderr, err)\n			os.Exit(1)\n")],
 script=RUN % ("struct s { int a; };", '''printf old > out.go
"$T/gen" -i "$T/in.x" -o out.go -t none/types.go -p zz 2>/dev/null && exit 1
[ "$(ls)" = out.go ] && [ "$(cat out.go)" = old ]'''),
 needs="the second temporary file cannot be created",
 breaks="the first temporary file is left behind"),
]
