package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
)

// The run of the generator: files are objects with a name and a content, every
// operation may fail, and what the run did to files is kept in the log.

type mainEnv struct {
	x     *Exec
	flags map[string]*Term
	src   *Term // content of the input
	obj   map[types.Object]*Obj
}

func fileKey(k string, o *Obj) string { return fmt.Sprintf("%s%d", k, o.ID) }

// opened files of this path, by object
func (s *State) isFile(o *Obj) bool { return s.g[fileKey("content", o)] != nil }

func (e *mainEnv) flip(s *State, what string) bool {
	return s.decideNow(what, Fresh(what, SBool), s.opKey())
}

// opKey identifies the next external operation of this path.
func (s *State) opKey() string {
	k := fmt.Sprint(len(s.log))
	if g := s.g["op"]; g != nil {
		k += "." + g.String()
	}
	return k
}

func (s *State) nextOp() {
	g := s.g["op"]
	if g == nil {
		g = Zero
	}
	s.setG("op", Add(g, One))
}

func errIf(ok bool, s *State) Val {
	if ok {
		return &Iface{Nil: True}
	}
	return newError(s)
}

func (e *mainEnv) bytes(s *State, name string, t *Term) *Slice {
	o := s.newObj(name, backing(byteType), nil, true)
	s.setMem(o, &BytesV{t})
	return &Slice{Nil: False, Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: Len(t), Cap: Len(t)}
}

func (e *mainEnv) external(s *State, name string, t types.Type) *Ptr {
	o := s.newObj(name, t, nil, true)
	s.setMem(o, &Opaque{t, Fresh(name, "Dyn")})
	return &Ptr{Nil: False, Obj: o}
}

// alive reports whether the file created under event i still exists.
func (s *State) created() (names []*Term, objs []*Obj, live []bool) {
	for _, ev := range s.log {
		switch ev.Kind {
		case "create":
			names = append(names, ev.Ts[0])
			objs = append(objs, ev.Args[0].(*Ptr).Obj)
			live = append(live, true)
		case "remove":
			for i := range names {
				if names[i] == ev.Ts[0] {
					live[i] = false
				}
			}
		case "rename":
			for i := range names {
				if names[i] == ev.Ts[0] {
					live[i] = false
				}
			}
		}
	}
	return
}

func (e *mainEnv) open(s *State, name *Term, flag *Term, rt types.Type) Val {
	f, ok := s.simp(flag).Int64()
	if !ok {
		unsup("computed file mode")
	}
	bit := func(n string) bool {
		v, _ := e.x.konst("os", n).Int64()
		return f&v == v && v != 0
	}
	wr := bit("O_WRONLY") || bit("O_RDWR")
	if !wr {
		unsup("file opened for reading")
	}
	good := e.flip(s, "open")
	if !good {
		s.nextOp()
		if bit("O_CREATE") && bit("O_EXCL") {
			s.logEv(Event{Kind: "failed", Ts: []*Term{Zero}})
		} else {
			s.logEv(Event{Kind: "write", Ts: []*Term{name, False, nil}})
		}
		return TupleV{e.x.zero(s, rt), newError(s)}
	}
	p := e.external(s, "file", elemOfPtr(rt))
	s.setG(fileKey("content", p.Obj), Empty)
	s.setG(fileKey("lost", p.Obj), False)
	if bit("O_CREATE") && bit("O_EXCL") {
		// the name did not exist
		names, _, live := s.created()
		for i := range names {
			if live[i] {
				s.assume(Not(Eq(names[i], name)))
			}
		}
		s.logEv(Event{Kind: "create", Args: []Val{p}, Ts: []*Term{name}})
	} else {
		if !bit("O_TRUNC") {
			s.setG(fileKey("content", p.Obj), Seqlike(Fresh("old", SBytes)))
		}
		s.logEv(Event{Kind: "write", Args: []Val{p}, Ts: []*Term{name, True, nil}})
	}
	return TupleV{p, &Iface{Nil: True}}
}

// put appends bytes to a file.
func (e *mainEnv) put(s *State, p *Ptr, n *Term, data *Term) Val {
	if p.Obj == nil || !s.isFile(p.Obj) {
		// the standard streams
		s.nextOp()
		return TupleV{freshBits("n", 64), &Iface{Nil: Fresh("noerr", SBool), Tag: Fresh("error", "Dyn")}}
	}
	good := e.flip(s, "write")
	s.nextOp()
	old := s.g[fileKey("content", p.Obj)]
	s.setG(fileKey("content", p.Obj), Seqlike(Fresh("written", SBytes)))
	if good && s.outputFile(p.Obj) {
		s.setG(fileKey("content", p.Obj), Concat(old, data))
	}
	if !good {
		s.setG(fileKey("lost", p.Obj), True)
		w := Ranged(Fresh("nwritten", SInt), bigZero, MaxSliceLen)
		s.assume(Lt(w, n))
		return TupleV{w, newError(s)}
	}
	return TupleV{n, &Iface{Nil: True}}
}

// outputFile: o was opened to replace what a file of that name held.
func (s *State) outputFile(o *Obj) bool {
	for _, ev := range s.log {
		if ev.Kind == "write" && len(ev.Args) > 0 && ev.Args[0].(*Ptr).Obj == o {
			return true
		}
	}
	return false
}

// written is what a write event left in its file, if it did.
func (t *State) written(ev Event) *Term {
	if ev.Ts[1].Op != "true" {
		return nil
	}
	if ev.Ts[2] != nil || len(ev.Args) == 0 {
		return ev.Ts[2]
	}
	o := ev.Args[0].(*Ptr).Obj
	if t.g[fileKey("lost", o)].Op != "false" {
		return nil
	}
	return t.g[fileKey("content", o)]
}

// failedWrite: a write event that failed, at once or later.
func (t *State) failedWrite(ev Event) bool {
	if ev.Ts[1].Op == "false" {
		return true
	}
	return ev.Ts[2] == nil && len(ev.Args) > 0 && t.g[fileKey("lost", ev.Args[0].(*Ptr).Obj)].Op != "false"
}

// buffers: a bytes.Buffer is a file without a name that never fails.
func (e *mainEnv) buffer(s *State, p *Ptr) *Obj {
	if p.Obj == nil || len(p.Path) != 0 {
		unsup("buffer within another object")
	}
	if !s.isFile(p.Obj) {
		s.setG(fileKey("content", p.Obj), Empty)
		s.setG(fileKey("lost", p.Obj), False)
	}
	return p.Obj
}

// outputs decides whether name may be one of the requested outputs.
func (e *mainEnv) requested(name *Term) *Term {
	o, t := e.flags["o"], e.flags["t"]
	return Or(Eq(name, o), And(Eq(name, t), Not(Eq(t, Empty))))
}

func fmtOf(c *Term) *Term { return App("FORMATTED", SBytes, c) }

func (e *mainEnv) hooks() {
	x := e.x
	h := map[string]func(s *State, a []Val, c *ssa.CallCommon) Val{}
	x.hooks.Extern = h
	stringHooks(h)
	x.exitHook()
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		h[n] = func(s *State, a []Val, c *ssa.CallCommon) Val {
			s.setG("exit", One)
			x.panicLeaf(s)
			panic(pathEnd{"exit"})
		}
	}
	for _, n := range []string{"flag.Parse", "flag.Usage", "flag.PrintDefaults", "log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix", "fmt.Print"} {
		h[n] = nop
	}
	read := func(s *State, a []Val, c *ssa.CallCommon) Val {
		name := a[0].(*Term)
		good := e.flip(s, "readfile")
		s.nextOp()
		if !good {
			s.logEv(Event{Kind: "failed", Ts: []*Term{Zero}})
			return TupleV{x.zero(s, types.NewSlice(byteType)), newError(s)}
		}
		names, objs, live := s.created()
		for i := range names {
			if live[i] && s.simp(Eq(names[i], name)).Op == "true" {
				s.logEv(Event{Kind: "readback", Args: []Val{&Ptr{Nil: False, Obj: objs[i]}}})
				return TupleV{e.bytes(s, "readback", s.g[fileKey("content", objs[i])]), &Iface{Nil: True}}
			}
		}
		t := Seqlike(Fresh("filecontent", SBytes))
		if s.simp(Eq(name, e.flags["i"])).Op == "true" {
			t = e.src
			s.logEv(Event{Kind: "input"})
		}
		return TupleV{e.bytes(s, "content", t), &Iface{Nil: True}}
	}
	h["io/ioutil.ReadFile"], h["os.ReadFile"] = read, read
	write := func(s *State, a []Val, c *ssa.CallCommon) Val {
		good := e.flip(s, "writefile")
		s.nextOp()
		data := s.bytesOf(a[1].(*Slice))
		s.logEv(Event{Kind: "write", Ts: []*Term{a[0].(*Term), BoolT(good), data}})
		return errIf(good, s)
	}
	h["io/ioutil.WriteFile"], h["os.WriteFile"] = write, write
	h["os.Remove"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		s.logEv(Event{Kind: "remove", Ts: []*Term{a[0].(*Term)}})
		return &Iface{Nil: Fresh("noerr", SBool), Tag: Fresh("error", "Dyn")}
	}
	for _, n := range []string{"os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.Is"} {
		h[n] = func(s *State, a []Val, c *ssa.CallCommon) Val {
			return And(Not(a[0].(*Iface).Nil), Fresh("isthaterror", SBool))
		}
	}
	h["os.Rename"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		good := e.flip(s, "rename")
		s.nextOp()
		from := a[0].(*Term)
		if !good {
			s.logEv(Event{Kind: "write", Ts: []*Term{a[1].(*Term), False, nil}})
			return newError(s)
		}
		names, objs, live := s.created()
		for i := range names {
			if live[i] && s.simp(Eq(names[i], from)).Op == "true" {
				s.logEv(Event{Kind: "rename", Args: []Val{&Ptr{Nil: False, Obj: objs[i]}}, Ts: []*Term{from}})
				s.logEv(Event{Kind: "write", Args: []Val{&Ptr{Nil: False, Obj: objs[i]}}, Ts: []*Term{a[1].(*Term), True, s.g[fileKey("content", objs[i])]}})
				return &Iface{Nil: True}
			}
		}
		unsup("rename of a file this run did not create")
		return nil
	}
	fileT := func(c *ssa.CallCommon) types.Type { return c.Signature().Results().At(0).Type() }
	h["os.OpenFile"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		return e.open(s, a[0].(*Term), a[1].(*Term), fileT(c))
	}
	h["os.Create"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		var f int64
		for _, n := range []string{"O_RDWR", "O_CREATE", "O_TRUNC"} {
			v, _ := x.konst("os", n).Int64()
			f |= v
		}
		return e.open(s, a[0].(*Term), IntT(f), fileT(c))
	}
	tempFile := func(s *State, a []Val, c *ssa.CallCommon) Val {
		var f int64
		for _, n := range []string{"O_RDWR", "O_CREATE", "O_EXCL"} {
			v, _ := x.konst("os", n).Int64()
			f |= v
		}
		name := Seqlike(Fresh("tempname", SBytes)) // random: not one of the options
		for _, n := range []string{"i", "o", "t"} {
			s.assume(Not(Eq(name, e.flags[n])))
		}
		return e.open(s, name, IntT(f), fileT(c))
	}
	h["os.CreateTemp"], h["io/ioutil.TempFile"] = tempFile, tempFile
	h["(*os.File).Write"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		return e.put(s, a[0].(*Ptr), a[1].(*Slice).Len, s.bytesOf(a[1].(*Slice)))
	}
	h["(*os.File).WriteString"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		return e.put(s, a[0].(*Ptr), Len(a[1].(*Term)), a[1].(*Term))
	}
	closing := func(s *State, a []Val, c *ssa.CallCommon) Val {
		p := a[0].(*Ptr)
		if p.Obj == nil || !s.isFile(p.Obj) {
			return newError(s)
		}
		good := e.flip(s, "close")
		s.nextOp()
		if !good {
			s.setG(fileKey("lost", p.Obj), True)
		}
		return errIf(good, s)
	}
	h["(*os.File).Close"], h["(*os.File).Sync"] = closing, closing
	h["(*os.File).Name"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		names, objs, _ := s.created()
		for i := range objs {
			if objs[i] == a[0].(*Ptr).Obj {
				return names[i]
			}
		}
		return Seqlike(Fresh("filename", SBytes))
	}
	h["(*bytes.Buffer).Write"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		o := e.buffer(s, a[0].(*Ptr))
		s.setG(fileKey("content", o), Seqlike(Fresh("buffered", SBytes)))
		return TupleV{a[1].(*Slice).Len, &Iface{Nil: True}}
	}
	h["(*bytes.Buffer).WriteString"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		o := e.buffer(s, a[0].(*Ptr))
		s.setG(fileKey("content", o), Seqlike(Fresh("buffered", SBytes)))
		return TupleV{Len(a[1].(*Term)), &Iface{Nil: True}}
	}
	h["(*bytes.Buffer).Bytes"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		o := e.buffer(s, a[0].(*Ptr))
		s.logEv(Event{Kind: "readback", Args: []Val{a[0]}})
		return e.bytes(s, "buffered", s.g[fileKey("content", o)])
	}
	h["(*bytes.Buffer).String"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		o := e.buffer(s, a[0].(*Ptr))
		s.logEv(Event{Kind: "readback", Args: []Val{a[0]}})
		return s.g[fileKey("content", o)]
	}
	h["go/format.Source"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		in := s.bytesOf(a[0].(*Slice))
		good := e.flip(s, "format")
		s.nextOp()
		if !good {
			s.logEv(Event{Kind: "failed", Ts: []*Term{Zero}})
			return TupleV{x.zero(s, types.NewSlice(byteType)), newError(s)}
		}
		return TupleV{e.bytes(s, "formatted", fmtOf(in)), &Iface{Nil: True}}
	}
	h["go/token.NewFileSet"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		return e.external(s, "fset", elemOfPtr(c.Signature().Results().At(0).Type()))
	}
	h["(*go/token.FileSet).Base"] = func(s *State, a []Val, c *ssa.CallCommon) Val { return freshBits("base", 32) }
	h["(*go/token.FileSet).AddFile"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		s.oblige("scan-init", Eq(a[3].(*Term), Len(e.src)), "the file set is told the size of the input")
		return e.external(s, "tokfile", elemOfPtr(c.Signature().Results().At(0).Type()))
	}
	h["(*go/scanner.Scanner).Init"] = func(s *State, a []Val, c *ssa.CallCommon) Val {
		s.logEv(Event{Kind: "scan"})
		s.oblige("scan-init", Eq(s.bytesOf(a[2].(*Slice)), e.src), "the scanner reads the input, all of it")
		m, ok := s.simp(a[4].(*Term)).Int64()
		if !ok {
			unsup("computed scanner mode")
		}
		cm, _ := x.konst("go/scanner", "ScanComments").Int64()
		s.oblige("scan-init", BoolT(m&cm == 0), "comments are skipped")
		return TupleV{}
	}
	h["fmt.Fprintf"] = e.fprint
	h["fmt.Fprint"], h["fmt.Fprintln"] = e.fprint, e.fprint
	h["io.WriteString"] = e.fprint
	x.hooks.Redirect = func(s *State, name string, args []Val) (*ssa.Function, []Val) {
		switch name {
		case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		default:
			return nil, nil
		}
		w, ok := args[0].(*Iface)
		if !ok || w.Dyn == nil {
			return nil, nil
		}
		return e.writeMethod(w), []Val{w.V, e.bytes(s, "text", Seqlike(Fresh("text", SBytes)))}
	}
	h[MainPath+".xdrParse"] = e.parse
}

func (e *mainEnv) writeMethod(w *Iface) *ssa.Function {
	m := e.x.P.SSA.LookupMethod(w.Dyn, nil, "Write")
	if m == nil {
		unsup("writer of type %s", w.Dyn)
	}
	return m
}

// fprint is used for writers of unknown type.
func (e *mainEnv) fprint(s *State, a []Val, c *ssa.CallCommon) Val {
	unsup("output to an unknown writer")
	return nil
}

// parse is the contract of the parser that goyacc makes: it reads tokens from
// the lexer and runs the actions of the grammar, which write code to the
// package's writers (see VerifyEffects).  It may panic within the lexer or an
// action; after a syntax error it calls the lexer's Error and, should that
// return, returns 1.
func (e *mainEnv) parse(s *State, a []Val, c *ssa.CallCommon) Val {
	step := int64(0)
	if g := s.g["parse"]; g != nil {
		step, _ = g.Int64()
	}
	ws := e.writers()
	n := int64(len(ws))
	switch {
	case step < n:
		// some code is written
		s.setG("parse", IntT(step+1))
		w, ok := s.load(&Ptr{Nil: False, Obj: e.x.global(s, ws[step])}).(*Iface)
		if !ok {
			unsup("writer of type %s", ws[step].Type())
		}
		if w.Dyn == nil {
			if s.simp(w.Nil).Op == "true" {
				s.oblige("effects", False, "the parser's actions have a writer in "+ws[step].Name())
				return again{}
			}
			unsup("unknown writer in %s", ws[step].Name())
		}
		s.logEv(Event{Kind: "emit", Args: []Val{w}})
		text := e.bytes(s, "code", Seqlike(Fresh("code", SBytes)))
		e.x.callFn(s, e.writeMethod(w), []Val{w.V, text}, nil, c, nil, nil)
		return again{}
	case step == n:
		if e.flip(s, "parsed") {
			s.setG("parse", Zero)
			s.logEv(Event{Kind: "parsed", Ts: []*Term{True}})
			return Zero
		}
		s.setG("parse", IntT(n+1))
		s.logEv(Event{Kind: "failed", Ts: []*Term{Zero}})
		if e.flip(s, "syntax") {
			// a syntax error is reported to the lexer
			l, ok := a[0].(*Iface)
			if !ok || l.Dyn == nil {
				unsup("parser of an unknown lexer")
			}
			m := e.x.P.SSA.LookupMethod(l.Dyn, nil, "Error")
			if m == nil {
				unsup("lexer without Error")
			}
			e.x.callFn(s, m, []Val{l.V, Seqlike(Fresh("msg", SBytes))}, nil, c, nil, nil)
			return again{}
		}
		// a panic within the lexer or an action
		s.panics = "panic in the parser"
		s.top().panicking = true
		return again{}
	default:
		s.setG("parse", Zero)
		return One
	}
}

// writers are the package's writers that the parser's actions use.
func (e *mainEnv) writers() []*ssa.Global {
	pk := e.x.P.Pkgs[MainPath]
	rs := e.x.P.reachable(pk.Func("xdrParse"))
	seen := map[*ssa.Global]bool{}
	var out []*ssa.Global
	for _, f := range rs.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok || g.Pkg != pk || seen[g] {
					continue
				}
				if types.NewMethodSet(u.Type()).Lookup(nil, "Write") != nil || types.NewMethodSet(u.Type()).Lookup(pk.Pkg, "Write") != nil {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

type reachSet struct {
	fns  []*ssa.Function
	exts map[string]bool
	bad  []string
}

// reachable lists the functions of package main that f may call.
func (p *Prog) reachable(f *ssa.Function) *reachSet {
	r := &reachSet{exts: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	pk := p.Pkgs[MainPath]
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if !p.Inlinable(f) {
			r.exts[f.String()] = true
			return
		}
		r.fns = append(r.fns, f)
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// function values
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				var c *ssa.CallCommon
				switch i := in.(type) {
				case *ssa.Call:
					c = &i.Call
				case *ssa.Defer:
					c = &i.Call
				case *ssa.Go:
					c = &i.Call
					r.bad = append(r.bad, f.String()+" starts a goroutine")
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg == pk.Pkg {
						if !strings.HasPrefix(g.Name(), "xdr") && f.Name() != "init" {
							r.bad = append(r.bad, f.String()+" assigns "+g.Name())
						}
					}
				}
				if c == nil {
					continue
				}
				if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					r.bad = append(r.bad, f.String()+" recovers from panics")
				}
				if c.IsInvoke() {
					// all methods of that name in the package
					for _, m := range pk.Members {
						t, ok := m.(*ssa.Type)
						if !ok {
							continue
						}
						for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
							if it, ok := under(c.Value.Type()).(*types.Interface); ok && !types.IsInterface(t.Type()) && types.Implements(rt, it) {
								if mm := p.SSA.LookupMethod(rt, pk.Pkg, c.Method.Name()); mm != nil {
									visit(mm)
								}
							}
						}
					}
				}
			}
		}
	}
	visit(f)
	sort.Slice(r.fns, func(i, j int) bool { return r.fns[i].String() < r.fns[j].String() })
	return r
}

// Effects lists what the parser and its actions do that its contract does not
// allow.
func (p *Prog) Effects() (bad []string, fns []string) {
	pk := p.Pkgs[MainPath]
	f := pk.Func("xdrParse")
	if f == nil {
		Mismatch("there is no xdrParse")
	}
	r := p.reachable(f)
	bad = append(bad, r.bad...)
	allowed := []string{"fmt.", "strings.", "strconv.", "sort.", "unicode.", "unicode/utf8.", "errors.", "(go/token.", "go/token.", "(*go/scanner.Scanner).Scan", "math.", "math/big.", "(*math/big.Int).", "bytes.", "(*bytes.Buffer).", "(*strings.Builder).", "(*strings.Replacer).", "slices.", "maps."}
	for n := range r.exts {
		ok := false
		for _, a := range allowed {
			if strings.HasPrefix(n, a) {
				ok = true
			}
		}
		if !ok {
			bad = append(bad, "calls "+n)
		}
	}
	for _, f := range r.fns {
		fns = append(fns, shortName(f.String()))
	}
	sort.Strings(bad)
	return
}

// VerifyMain: a run of the generator.
func (x *Exec) VerifyMain(leafs *int) {
	fn := x.P.FuncNamed(MainPath, "main")
	if fn == nil {
		unsup("there is no main")
	}
	e := &mainEnv{x: x, src: Seqlike(Fresh("SRC", SBytes))}
	e.hooks()
	x.unwind = true
	s := x.NewState()
	e.flags = x.mainGlobals(s)
	for _, f := range []string{"i", "o", "t"} {
		if e.flags[f] == nil {
			unsup("option -%s is not a package-level flag", f)
		}
	}
	// the standard streams
	for _, p := range x.P.SSA.AllPackages() {
		if p.Pkg.Path() != "os" {
			continue
		}
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				nobj++
				t := g.Type().(*types.Pointer).Elem()
				o := &Obj{ID: nobj, Name: "os." + n, Typ: t}
				s.mem[o] = e.external(s, n, elemOfPtr(t))
				x.globals[g] = o
			}
		}
	}
	s.undo = nil
	s.Enter(fn, nil, nil)
	succ := 0
	x.Run(s, func(t *State) {
		*leafs++
		status := "success"
		switch {
		case t.exited():
			c := t.g["exit"]
			if t.simp(Eq(c, Zero)).Op == "true" {
				break
			}
			if t.simp(Eq(c, Zero)).Op != "false" {
				unsup("computed exit status")
			}
			status = "failure"
		case t.panics != "":
			status = "failure"
		}
		e.leaf(t, status)
		if status == "success" {
			succ++
		}
	})
	s.oblige("success", BoolT(succ > 0), "some run succeeds")
}

func (e *mainEnv) leaf(t *State, status string) {
	o, tf := e.flags["o"], e.flags["t"]
	names, objs, live := t.created()
	// files created by this run are temporary unless renamed to an output
	for i := range names {
		if live[i] {
			// a later write may have made it an output again
			t.oblige("temp", False, "every temporary file of the run is removed ("+status+")")
		}
	}
	mine := func(n *Term, upto int) *Term {
		var cs []*Term
		for _, ev := range t.log[:upto] {
			if ev.Kind == "create" {
				cs = append(cs, Eq(ev.Ts[0], n))
			}
		}
		return Or(cs...)
	}
	failedOutput := false
	input, parsed := false, false
	var unread []*Obj
	for k, ev := range t.log {
		switch ev.Kind {
		case "remove":
			// removes only what it created, and not after having written it
			t.oblige("untouched", Or(mine(ev.Ts[0], k), Not(e.requested(ev.Ts[0]))), "no output file is removed")
		case "write":
			if t.failedWrite(ev) {
				failedOutput = true
			}
		case "input":
			input = true
		case "parsed":
			parsed = true
		case "emit":
			w := ev.Args[0].(*Iface)
			if o := e.sink(t, w); o != nil && !hasObj(unread, o) {
				unread = append(unread, o)
			}
		}
	}
	if status == "failure" {
		for _, ev := range t.log {
			if ev.Kind == "write" && !failedOutput {
				t.oblige("untouched", Not(e.requested(ev.Ts[0])), "a failed run does not write to the output files")
			}
		}
		return
	}
	t.oblige("success", BoolT(input), "a successful run has read its input")
	t.oblige("success", BoolT(parsed), "a successful run has parsed its input")
	for _, o := range objs {
		t.oblige("success", Not(t.g[fileKey("lost", o)]), "a successful run wrote its temporary files completely")
	}
	for _, want := range []struct {
		n    *Term
		c    *Term
		what string
	}{{o, Not(Eq(o, Empty)), "output file (-o)"}, {tf, Not(Eq(tf, Empty)), "types file (-t)"}} {
		if want.n == o {
			t.oblige("success", want.c, "a successful run was given an "+want.what)
		}
		// the last operation on that name is a complete write of formatted code
		var ok []*Term
		for k, ev := range t.log {
			if ev.Kind != "write" || t.written(ev) == nil {
				continue
			}
			var code []*Term
			for _, u := range unread {
				code = append(code, Eq(t.written(ev), fmtOf(t.g[fileKey("content", u)])))
			}
			c := []*Term{Eq(ev.Ts[0], want.n), Or(code...)}
			for _, l := range t.log[k+1:] {
				switch l.Kind {
				case "write", "remove", "create":
					c = append(c, Not(Eq(l.Ts[0], want.n)))
				}
			}
			ok = append(ok, And(c...))
		}
		t.oblige("success", Implies(want.c, Or(ok...)), "a successful run leaves the complete formatted code in the "+want.what)
	}
	// all emitted code ends up in an output
	for _, u := range unread {
		var ok []*Term
		for _, ev := range t.log {
			if ev.Kind == "write" && t.written(ev) != nil {
				ok = append(ok, And(e.requested(ev.Ts[0]), Eq(t.written(ev), fmtOf(t.g[fileKey("content", u)]))))
			}
		}
		t.oblige("success", Or(ok...), "all emitted code ends up in an output")
	}
}

func hasObj(os []*Obj, o *Obj) bool {
	for _, p := range os {
		if p == o {
			return true
		}
	}
	return false
}

// sink is the file or buffer behind a writer.
func (e *mainEnv) sink(s *State, w *Iface) *Obj {
	var find func(v Val, d int) *Obj
	find = func(v Val, d int) *Obj {
		if d > 4 {
			return nil
		}
		switch c := v.(type) {
		case *Ptr:
			if c.Obj == nil {
				return nil
			}
			if s.isFile(c.Obj) {
				return c.Obj
			}
			if len(c.Path) == 0 {
				return find(s.mem[c.Obj], d+1)
			}
		case *Iface:
			if c.Dyn != nil {
				return find(c.V, d+1)
			}
		case *StructV:
			for _, f := range c.F {
				if o := find(f, d+1); o != nil {
					return o
				}
			}
		}
		return nil
	}
	o := find(w, 0)
	if o == nil {
		unsup("writer without a file")
	}
	return o
}
