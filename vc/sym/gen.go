package sym

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
)

// The code generator: its scanner runs on an arbitrary stream of Go tokens,
// its main function on an arbitrary file system with arbitrary failures.

const MainPath = "github.com/zeldovich/go-rpcgen"

// again is returned by a hook that wants the call instruction to be executed
// once more (after the frames it pushed have returned).
type again struct{}

func (x *Exec) mainConst(path, name string) (*Term, bool) {
	var sc *types.Scope
	if p := x.P.Pkgs[path]; p != nil {
		sc = p.Pkg.Scope()
	} else {
		for _, p := range x.P.SSA.AllPackages() {
			if p.Pkg.Path() == path {
				sc = p.Pkg.Scope()
			}
		}
	}
	if sc == nil {
		return nil, false
	}
	c, ok := sc.Lookup(name).(*types.Const)
	if !ok {
		return nil, false
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return IntT(n), ok
}

func (x *Exec) konst(path, name string) *Term {
	c, ok := x.mainConst(path, name)
	if !ok {
		unsup("no constant %s in %s", name, path)
	}
	return c
}

func strEq(t *Term, c string) *Term { return Eq(t, StrT(c)) }

// contains models strings.Contains and its kin for constant patterns.
func containsByte(t *Term, c byte) *Term {
	return App(fmt.Sprintf("contains%02x", c), SBool, t)
}

func litString(t *Term) (string, bool) {
	var b []byte
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch t.Op {
		case "empty":
			return true
		case "unit":
			n, ok := t.Args[0].Int64()
			b = append(b, byte(n))
			return ok
		case "++":
			for _, a := range t.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		return t == Empty
	}
	if !walk(t) {
		return "", false
	}
	return string(b), true
}

func stringHooks(m map[string]func(s *State, a []Val, c *ssa.CallCommon) Val) {
	m["strings.Contains"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		p, ok := litString(s.simp(a[1].(*Term)))
		if !ok || len(p) != 1 {
			unsup("strings.Contains with a pattern of several bytes")
		}
		return containsByte(a[0].(*Term), p[0])
	}
	m["strings.ContainsAny"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		p, ok := litString(s.simp(a[1].(*Term)))
		if !ok {
			unsup("strings.ContainsAny with a computed set")
		}
		var cs []*Term
		for i := 0; i < len(p); i++ {
			cs = append(cs, containsByte(a[0].(*Term), p[i]))
		}
		return Or(cs...)
	}
	in := func(s *State, set Val, r *Term) Val {
		p, ok := litString(s.simp(set.(*Term)))
		if !ok {
			unsup("search in a computed string")
		}
		var cs []*Term
		for i := 0; i < len(p); i++ {
			cs = append(cs, Eq(r, IntT(int64(p[i]))))
		}
		return Or(cs...)
	}
	rune1 := func(s *State, a []Val, c *ssa.CallCommon) Val {
		if p, ok := litString(s.simp(a[0].(*Term))); ok && p != "" {
			return in(s, a[0], a[1].(*Term))
		}
		n, ok := s.simp(a[1].(*Term)).Int64()
		if !ok || n >= 128 {
			unsup("search for a computed character")
		}
		return containsByte(a[0].(*Term), byte(n))
	}
	m["strings.ContainsRune"] = rune1
	m["strings.IndexByte"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		has := rune1(s, a, c).(*Term)
		i := Ranged(Fresh("index", SInt), bigZero, MaxSliceLen)
		s.assume(Implies(has, Lt(i, Len(a[0].(*Term)))))
		return Ite(has, i, IntT(-1))
	}
	m["strings.IndexRune"] = m["strings.IndexByte"]
	m["strings.HasPrefix"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		t, p := a[0].(*Term), a[1].(*Term)
		long := Le(Len(p), Len(t))
		if !s.decide(long) {
			return False
		}
		return Eq(Extract(t, Zero, Len(p)), p)
	}
}

// ---- the scanner

var goKeywords = map[string]string{
	"BREAK": "break", "CASE": "case", "CHAN": "chan", "CONST": "const", "CONTINUE": "continue", "DEFAULT": "default",
	"DEFER": "defer", "ELSE": "else", "FALLTHROUGH": "fallthrough", "FOR": "for", "FUNC": "func", "GO": "go", "GOTO": "goto",
	"IF": "if", "IMPORT": "import", "INTERFACE": "interface", "MAP": "map", "PACKAGE": "package", "RANGE": "range",
	"RETURN": "return", "SELECT": "select", "STRUCT": "struct", "SWITCH": "switch", "TYPE": "type", "VAR": "var",
}

// keywords of the interface language (RFC 4506 and RFC 5531) and the tokens
// of the grammar that stand for them.
var xdrKeywords = map[string]string{
	"const": "KWCONST", "typedef": "KWTYPEDEF", "enum": "KWENUM", "struct": "KWSTRUCT", "union": "KWUNION",
	"switch": "KWSWITCH", "case": "KWCASE", "default": "KWDEFAULT", "void": "KWVOID", "opaque": "KWOPAQUE",
	"string": "KWSTRING", "unsigned": "KWUNSIGNED", "int": "KWINT", "hyper": "KWHYPER", "float": "KWFLOAT",
	"double": "KWDOUBLE", "quadruple": "KWQUADRUPLE", "bool": "KWBOOL", "program": "KWPROGRAM", "version": "KWVERSION",
}

var xdrPunct = map[string]byte{
	"ASSIGN": '=', "SEMICOLON": ';', "COLON": ':', "LSS": '<', "GTR": '>', "LBRACK": '[', "RBRACK": ']',
	"LBRACE": '{', "RBRACE": '}', "COMMA": ',', "LPAREN": '(', "RPAREN": ')', "MUL": '*',
}

type scanEnv struct {
	x       *Exec
	tokPath string
}

func tokAt(i *Term) *Term { return App("TOK", SInt, i) }
func litAt(i *Term) *Term { return App("LIT", SBytes, i) }
func posAt(i *Term) *Term { return App("TPOS", SInt, i) }

// errAt is the number of errors reported with the first i tokens.
func errAt(i *Term) *Term { return App("NERR", SInt, i) }

func (e *scanEnv) tok(n string) *Term { return e.x.konst("go/token", n) }

// auto: the scanner's own end of statement.
func (e *scanEnv) auto(i *Term) *Term {
	return And(Eq(tokAt(i), e.tok("SEMICOLON")), strEq(litAt(i), "\n"))
}

// tokenFacts is the contract of (*go/scanner.Scanner).Scan for token i.
func (e *scanEnv) tokenFacts(i *Term) *Term {
	t, l := tokAt(i), litAt(i)
	fs := []*Term{
		Le(IntT(0), t), Le(t, IntT(100)), Le(Zero, posAt(i)), Le(posAt(i), IntT(1<<40)),
		Le(Zero, errAt(i)), Le(errAt(i), errAt(Add(i, One))), Le(errAt(Add(i, One)), IntT(1<<40)),
		Le(Len(l), BigT(MaxSliceLen)),
	}
	var names []string
	for n := range goKeywords {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fs = append(fs, Implies(Eq(t, e.tok(n)), strEq(l, goKeywords[n])))
		fs = append(fs, Implies(Eq(t, e.tok("IDENT")), Not(strEq(l, goKeywords[n]))))
	}
	fs = append(fs, Implies(Eq(t, e.tok("IDENT")), Le(One, Len(l))))
	fs = append(fs, Implies(Eq(t, e.tok("SEMICOLON")), Or(strEq(l, "\n"), strEq(l, ";"))))
	// integer literals are digits, with a base prefix and underscores
	fs = append(fs, Implies(Eq(t, e.tok("INT")), And(Le(One, Len(l)), Le(IntT('0'), Nth(l, Zero)), Le(Nth(l, Zero), IntT('9')))))
	return And(fs...)
}

// number: an integer literal of Go that is one of the interface language.
func (e *scanEnv) number(i *Term) *Term {
	l := litAt(i)
	second := Nth(l, One)
	var pre []*Term
	for _, c := range "bBoO" {
		pre = append(pre, Eq(second, IntT(int64(c))))
	}
	return And(Not(containsByte(l, '_')), Or(Lt(Len(l), IntT(2)), Not(Or(pre...))))
}

func (x *Exec) newScan() *scanEnv {
	e := &scanEnv{x: x}
	h := map[string]func(s *State, a []Val, c *ssa.CallCommon) Val{}
	x.hooks.Extern = h
	stringHooks(h)
	h["(*go/scanner.Scanner).Scan"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		p := a[0].(*Ptr)
		i := s.g["ntok"]
		s.assume(e.tokenFacts(i))
		n := Add(i, One)
		s.setG("skipped2", s.g["skipped"])
		sk := And(s.g["skipped"], e.auto(Sub(i, One)))
		s.setG("skipped", Or(Eq(i, s.g["n0"]), sk))
		s.setG("ntok", n)
		s.store(e.errField(p), errAt(n))
		return TupleV{posAt(i), tokAt(i), litAt(i)}
	}
	h["(go/token.Token).IsKeyword"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		var cs []*Term
		for n := range goKeywords {
			cs = append(cs, Eq(a[0].(*Term), e.tok(n)))
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
		return Or(cs...)
	}
	h["go/token.IsKeyword"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		var cs []*Term
		var ns []string
		for _, n := range goKeywords {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			cs = append(cs, strEq(a[0].(*Term), n))
		}
		return Or(cs...)
	}
	x.hooks.OnlyCands = true
	x.hooks.LoopCands = func(s *State, k *Term) []*Term {
		last := Sub(s.g["ntok"], One)
		cs := []*Term{s.g["skipped"], Le(Add(s.g["n0"], One), s.g["ntok"]), e.tokenFacts(last),
			Or(Eq(Add(s.g["n0"], One), s.g["ntok"]), e.auto(Sub(last, One))),
			// a loop that scans in its body
			Le(s.g["n0"], s.g["ntok"]), Or(Eq(s.g["n0"], s.g["ntok"]), And(e.auto(last), e.tokenFacts(last)))}
		fr := s.top()
		for _, in := range fr.block.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v, ok := fr.env[p].(*Term)
			if !ok {
				continue
			}
			switch v.Sort {
			case SInt:
				cs = append(cs, Eq(v, tokAt(last)), Eq(v, posAt(last)))
			case SBytes:
				cs = append(cs, Eq(v, litAt(last)))
			}
		}
		if p := x.lexErr; p != nil {
			if v, ok := s.load(p).(*Term); ok {
				cs = append(cs, Eq(v, errAt(s.g["ntok"])))
			}
		}
		return cs
	}
	return e
}

func (e *scanEnv) errField(p *Ptr) *Ptr {
	st, ok := isStruct(p.Obj.typAt(p.Path))
	if !ok {
		unsup("scanner of type %s", p.Obj.Typ)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "ErrorCount" {
			return p.field(i)
		}
	}
	unsup("scanner without an error count")
	return nil
}

func (o *Obj) typAt(path []PathEl) types.Type {
	t := o.Typ
	for _, p := range path {
		if st, ok := isStruct(t); ok && p.Idx == nil {
			t = st.Field(p.Field).Type()
			continue
		}
		return nil
	}
	return t
}

// VerifyLex: the scanner turns the next token of the input into the token of
// the grammar that means the same, with its text, and refuses anything else.
func (x *Exec) VerifyLex(leafs *int) {
	fn := x.P.FuncNamed(MainPath, "lexer.Lex")
	if fn == nil {
		unsup("there is no lexer.Lex")
	}
	if len(fn.Params) != 2 {
		Mismatch("%s does not take the value of the token", fn)
	}
	e := x.newScan()
	x.unwind = true
	s := x.NewState()
	x.mainGlobals(s)
	lt := elemOfPtr(fn.Params[0].Type())
	vt := elemOfPtr(fn.Params[1].Type())
	lo := s.newObj("lexer", lt, nil, false)
	s.setMem(lo, x.freshVal(s, "lexer", lt))
	vo := s.newObj("lval", vt, nil, false)
	s.setMem(vo, x.freshVal(s, "lval", vt))
	// the scanner within the lexer
	lst, ok := isStruct(lt)
	if !ok {
		unsup("lexer of type %s", lt)
	}
	for i := 0; i < lst.NumFields(); i++ {
		if types.TypeString(lst.Field(i).Type(), nil) == "go/scanner.Scanner" {
			x.lexErr = e.errField((&Ptr{Nil: False, Obj: lo}).field(i))
		}
	}
	if x.lexErr == nil {
		unsup("the lexer does not hold a go/scanner.Scanner")
	}
	strf := -1
	vst, ok := isStruct(vt)
	if ok {
		for i := 0; i < vst.NumFields(); i++ {
			if vst.Field(i).Name() == "str" {
				strf = i
			}
		}
	}
	if strf < 0 {
		unsup("token values have no text")
	}
	n0 := Ranged(Fresh("n0", SInt), bigZero, nil)
	s.g["n0"], s.g["ntok"] = n0, n0
	s.g["skipped"], s.g["skipped2"] = True, True
	s.assume(Eq(errAt(n0), Zero))
	s.store(x.lexErr, Zero)
	s.undo = nil
	s.Enter(fn, []Val{&Ptr{Nil: False, Obj: lo}, &Ptr{Nil: False, Obj: vo}}, nil)
	x.Run(s, func(t *State) {
		*leafs++
		n := t.g["ntok"]
		last := Sub(n, One)
		t.assume(e.tokenFacts(last))
		t.assume(e.tokenFacts(Sub(last, One)))
		tk, lit := tokAt(last), litAt(last)
		clean := Eq(errAt(n), Zero)
		negAt := func(i *Term) *Term { // token i is the number of the sign before it
			return And(Eq(tokAt(Sub(i, One)), e.tok("SUB")), Eq(tokAt(i), e.tok("INT")), Eq(posAt(i), Add(posAt(Sub(i, One)), One)), e.number(i), Eq(errAt(Add(i, One)), Zero))
		}
		neg := And(t.g["skipped2"], Le(Add(n0, IntT(2)), n), negAt(last))
		one := And(t.g["skipped"], Le(Add(n0, One), n), clean, Not(e.auto(last)))
		// what the token means
		var rows []*Term
		ret, _ := t.ret.(*Term)
		str, _ := t.load((&Ptr{Nil: False, Obj: vo}).field(strf)).(*Term)
		if str == nil {
			unsup("text of type %T", t.load((&Ptr{Nil: False, Obj: vo}).field(strf)))
		}
		var known []*Term
		row := func(what string, c *Term, code *Term, text *Term) {
			known = append(known, c)
			if ret == nil {
				return
			}
			g := Eq(ret, code)
			if text != nil {
				g = And(g, Eq(str, text))
			}
			rows = append(rows, c)
			t.oblige("token", Implies(And(one, c), g), what)
		}
		t.g["_"] = Zero
		var kws []string
		for k := range xdrKeywords {
			kws = append(kws, k)
		}
		sort.Strings(kws)
		isGo := map[string]string{}
		for n, k := range goKeywords {
			isGo[k] = n
		}
		var notKw []*Term
		for _, k := range kws {
			c := And(Eq(tk, e.tok("IDENT")), strEq(lit, k))
			if g := isGo[k]; g != "" {
				c = Eq(tk, e.tok(g))
			} else {
				notKw = append(notKw, Not(strEq(lit, k)))
			}
			row("the keyword "+k+" is recognised", c, x.konst(MainPath, xdrKeywords[k]), nil)
		}
		var gos []string
		for k, n := range isGo {
			if xdrKeywords[k] == "" {
				gos = append(gos, n)
			}
		}
		sort.Strings(gos)
		for _, g := range gos {
			row("the word "+goKeywords[g]+", no keyword of the language, is an identifier with its text", Eq(tk, e.tok(g)), x.konst(MainPath, "IDENT"), lit)
		}
		row("any other word is an identifier with its text", And(append([]*Term{Eq(tk, e.tok("IDENT"))}, notKw...)...), x.konst(MainPath, "IDENT"), lit)
		row("a number is a constant with its text", And(Eq(tk, e.tok("INT")), e.number(last)), x.konst(MainPath, "CONST"), lit)
		row("the end of the input is reported", Eq(tk, e.tok("EOF")), Zero, nil)
		var ps []string
		for p := range xdrPunct {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			row(fmt.Sprintf("the punctuation mark %c is recognised", xdrPunct[p]), Eq(tk, e.tok(p)), IntT(int64(xdrPunct[p])), nil)
		}
		if t.panics != "" {
			// a sign: the number after it has not been looked at yet, or was
			next := And(Eq(tk, e.tok("SUB")), e.tokenFacts(n), negAt(n))
			t.oblige("refuse", Not(And(one, Or(known...))), "no token of the language is refused")
			t.oblige("refuse", Not(And(one, next)), "no negative number is refused")
			t.oblige("refuse", Not(neg), "no negative number is refused")
			t.oblige("refuse", Or(one, Not(clean), And(t.g["skipped2"], Le(Add(n0, IntT(2)), n), Eq(tokAt(Sub(last, One)), e.tok("SUB")))), "nothing is skipped, no line end is refused")
			return
		}
		if t.exited() {
			t.oblige("refuse", False, "the scanner does not end the run by itself")
			return
		}
		if ret == nil {
			unsup("Lex returns %T", t.ret)
		}
		t.oblige("token", Implies(neg, And(Eq(ret, x.konst(MainPath, "CONST")), Eq(str, Concat(StrT("-"), lit)))), "a negative number is a constant with its text")
		t.oblige("token", Or(And(one, Or(known...)), neg), "exactly one token of the language is consumed; line ends are the only thing skipped, anything else is refused")
		t.oblige("token", Eq(t.load(x.lexErr).(*Term), Zero), "no error of the scanner is ignored")
	})
}

// VerifyLexError: reporting a syntax error ends the run.
func (x *Exec) VerifyLexError(leafs *int) {
	fn := x.P.FuncNamed(MainPath, "lexer.Error")
	if fn == nil {
		unsup("there is no lexer.Error")
	}
	x.newScan()
	x.exitHook()
	x.unwind = true
	s := x.NewState()
	x.mainGlobals(s)
	var args []Val
	for _, p := range fn.Params {
		if u, ok := under(p.Type()).(*types.Pointer); ok {
			o := s.newObj("lexer", u.Elem(), nil, false)
			s.setMem(o, x.freshVal(s, "lexer", u.Elem()))
			args = append(args, &Ptr{Nil: False, Obj: o})
			continue
		}
		args = append(args, x.freshVal(s, "arg", p.Type()))
	}
	s.undo = nil
	s.Enter(fn, args, nil)
	x.Run(s, func(t *State) {
		*leafs++
		bad := t.panics != ""
		if t.exited() {
			t.oblige("refuse", Not(Eq(t.g["exit"], Zero)), "the status is a failure")
			return
		}
		t.oblige("refuse", BoolT(bad), "a syntax error stops the generator")
	})
}

func elemOfPtr(t types.Type) types.Type {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		unsup("%s is not a pointer", t)
	}
	return p.Elem()
}

func (s *State) exited() bool { return s.g["exit"] != nil }

// mainGlobals: package-level variables initialised by the flag package point
// to the value of that flag.
func (x *Exec) mainGlobals(s *State) map[string]*Term {
	flags := map[string]*Term{}
	pk := x.P.Pkgs[MainPath]
	if pk == nil {
		unsup("package main is not loaded")
	}
	in := pk.Func("init")
	if in == nil {
		return flags
	}
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			c, ok := st.Val.(*ssa.Call)
			if !ok || c.Call.IsInvoke() {
				continue
			}
			f, ok := c.Call.Value.(*ssa.Function)
			if !ok || f.Pkg == nil || f.Pkg.Pkg.Path() != "flag" {
				continue
			}
			switch f.Name() {
			case "String", "Bool", "Int", "Uint":
			default:
				unsup("flag.%s", f.Name())
			}
			k, ok := c.Call.Args[0].(*ssa.Const)
			if !ok {
				unsup("computed flag name")
			}
			n := constant.StringVal(k.Value)
			et := elemOfPtr(f.Signature.Results().At(0).Type())
			fo := s.newObj("flag "+n, et, nil, false)
			v := x.freshVal(s, "flag_"+n, et)
			s.mem[fo] = v
			t := g.Type().(*types.Pointer).Elem()
			nobj++
			o := &Obj{ID: nobj, Name: "global " + g.Name(), Typ: t}
			s.mem[o] = &Ptr{Nil: False, Obj: fo}
			x.globals[g] = o
			if tv, ok := v.(*Term); ok {
				flags[n] = tv
			}
		}
	}
	return flags
}

func (x *Exec) exitHook() {
	x.hooks.Extern["os.Exit"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		s.setG("exit", a[0].(*Term))
		x.panicLeaf(s)
		panic(pathEnd{"exit"})
	}
}

var _ = strings.Contains
