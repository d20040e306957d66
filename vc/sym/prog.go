package sym

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/xspec"
)

// GIL serialises symbolic execution; it is released while solvers run.
var GIL sync.Mutex

// Prog is the loaded program under verification.
type Prog struct {
	SSA      *ssa.Program
	Pkgs     map[string]*ssa.Package // by import path
	W        *spec.World
	Inline   map[string]bool // import paths whose functions may be inlined
	specs    map[string]*spec.Type
	li       map[*ssa.Function]*loopInfo
	Contract func(x *Exec, fn *ssa.Function) func(s *State, args []Val, c *ssa.CallCommon) Val
	Errs     []string
	byGo     map[string]*spec.Type    // anonymous Go types
	goOf     map[string]*types.Struct // Go struct of structural spec types
	Kept     map[string]bool          // scalar codecs known to leave the destination alone when they fail
	Verified map[string]bool          // functions verified for all inputs
	gconst   map[*ssa.Global]*constInit
	wr       map[string]*writers
	Decl     []string // declaration mismatches found while binding
}

// Load reads packages of the repository at dir (overlay optional).
func Load(dir string, overlay map[string][]byte, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Prog{Pkgs: map[string]*ssa.Package{}, Inline: map[string]bool{}, specs: map[string]*spec.Type{}, li: map[*ssa.Function]*loopInfo{}, byGo: map[string]*spec.Type{}, goOf: map[string]*types.Struct{}}
	for _, k := range pkgs {
		for _, e := range k.Errors {
			p.Errs = append(p.Errs, e.Error())
		}
	}
	if len(p.Errs) > 0 {
		return p, fmt.Errorf("package errors: %s", strings.Join(p.Errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, k := range pkgs {
		if sp[i] != nil {
			p.Pkgs[k.PkgPath] = sp[i]
			p.Inline[k.PkgPath] = true
		}
	}
	p.W = spec.NewWorld()
	return p, nil
}

// Inlinable: functions of the repository (and wrappers synthesised for them).
func (p *Prog) Inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.Inline[f.Pkg.Pkg.Path()]
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return p.Inline[f.Object().Pkg().Path()]
	}
	return f.Synthetic != ""
}

// SpecOf maps a Go type to its specification type, when it has one.
func (p *Prog) SpecOf(t types.Type) *spec.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		if b, ok := t.(*types.Basic); ok {
			switch b.Kind() {
			case types.Int32:
				return p.W.Prim(xspec.Int, 0)
			case types.Uint32:
				return p.W.Prim(xspec.UInt, 0)
			case types.Int64:
				return p.W.Prim(xspec.Hyper, 0)
			case types.Uint64:
				return p.W.Prim(xspec.UHyper, 0)
			case types.Bool:
				return p.W.Prim(xspec.Bool, 0)
			}
		}
		if r, ok := p.byGo[types.TypeString(t, nil)]; ok {
			return r
		}
		return nil
	}
	if n.Obj().Pkg() == nil {
		return nil
	}
	key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if r, ok := p.specs[key]; ok {
		return r
	}
	return nil
}

// Bind registers the definitions of a specification for a Go package.
func (p *Prog) Bind(path, short string, sp *xspec.Spec, unsigned bool) *spec.Pkg {
	k := p.W.AddPkg(path, short, sp, unsigned)
	for _, d := range sp.Defs {
		t := k.Lookup(d.Name)
		p.specs[path+"."+xspec.GoName(d.Name)] = t
	}
	// anonymous types of inline structs and unions
	if gp := p.Pkgs[path]; gp != nil {
		for _, d := range sp.Defs {
			if o := gp.Pkg.Scope().Lookup(xspec.GoName(d.Name)); o != nil {
				p.bindAnon(o.Type().Underlying(), k.Lookup(d.Name), 0)
			}
		}
	}
	return k
}

func (p *Prog) bindAnon(t types.Type, st *spec.Type, depth int) {
	if depth > 20 || st == nil {
		return
	}
	if _, named := types.Unalias(t).(*types.Named); named && depth > 0 {
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if wrapperStruct(t, st) && u.NumFields() == 1 {
			p.bindAnon(u.Field(0).Type(), st, depth+1)
			return
		}
		if st.K != xspec.Struct && st.K != xspec.Union {
			return
		}
		if _, dup := p.goOf[st.Key]; !dup {
			p.goOf[st.Key] = u
		}
		if _, named := types.Unalias(t).(*types.Named); !named && depth > 0 && !st.Named {
			k := types.TypeString(t, nil)
			if _, dup := p.byGo[k]; !dup {
				p.byGo[k] = st
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			if st.K == xspec.Union && st.Disc.GoName == n {
				p.bindAnon(u.Field(i).Type(), st.Disc.T, depth+1)
			}
			for _, f := range st.Fields {
				if f.GoName == n {
					p.bindAnon(u.Field(i).Type(), f.T, depth+1)
				}
			}
			for _, a := range st.Arms {
				if a.Ctor != "" && a.F.GoName == n {
					p.bindAnon(u.Field(i).Type(), a.F.T, depth+1)
				}
			}
		}
	case *types.Array:
		p.bindAnon(u.Elem(), st.Elem, depth+1)
	case *types.Slice:
		p.bindAnon(u.Elem(), st.Elem, depth+1)
	case *types.Pointer:
		p.bindAnon(u.Elem(), st.Elem, depth+1)
	}
}

func (p *Prog) ContractOf(x *Exec, fn *ssa.Function) func(s *State, args []Val, c *ssa.CallCommon) Val {
	if p.Contract == nil {
		return nil
	}
	return p.Contract(x, fn)
}

// FuncNamed finds a package-level function or method: "pkgpath.F" or
// "pkgpath.T.M" (method on *T or T).
func (p *Prog) FuncNamed(path, name string) *ssa.Function {
	pk := p.Pkgs[path]
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		o := pk.Pkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		t := o.Type()
		if _, ok := o.(*types.TypeName); !ok {
			return nil
		}
		for _, rt := range []types.Type{types.NewPointer(t), t} {
			ms := p.SSA.MethodSets.MethodSet(rt)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name[i+1:] {
					f := p.SSA.MethodValue(ms.At(k))
					return f
				}
			}
		}
		return nil
	}
	return pk.Func(name)
}

// ---- natural loops

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (l *loopInfo) isHeader(b *ssa.BasicBlock) bool { return l.body[b] != nil }

func (p *Prog) loops(fn *ssa.Function) *loopInfo {
	if l, ok := p.li[fn]; ok {
		return l
	}
	l := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				if l.body[h] == nil {
					l.body[h] = map[*ssa.BasicBlock]bool{h: true}
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[h][n] {
						continue
					}
					l.body[h][n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	p.li[fn] = l
	return l
}

var _ = Zero

var byteType = types.Typ[types.Uint8]

// NewExec prepares the verification of one function.
func NewExec(p *Prog, fn string, modes map[string]string) *Exec {
	nobj = 0
	return &Exec{P: p, Fn: fn, modes: modes, absObjs: map[string]*Obj{}, globals: map[*ssa.Global]*Obj{}, Used: map[string]bool{}}
}

// Outcome classifies a panic of the engine.
func Outcome(r interface{}) (restartKey, uns, mis string) {
	switch e := r.(type) {
	case restart:
		return e.key, "", ""
	case unsupported:
		return "", e.msg, ""
	case declMismatch:
		return "", "", e.msg
	}
	if os.Getenv("VC_DEBUG") != "" {
		panic(r)
	}
	return "", fmt.Sprintf("engine: %v", r), ""
}

// Mismatch reports that the code does not declare what the contract needs.
func Mismatch(f string, a ...interface{}) { panic(declMismatch{fmt.Sprintf(f, a...)}) }

// Unsup reports code outside the supported subset.
func Unsup(f string, a ...interface{}) { unsup(f, a...) }

// ResetWorld forgets all specification bindings.
func (p *Prog) ResetWorld() {
	p.W = spec.NewWorld()
	p.specs = map[string]*spec.Type{}
	p.byGo = map[string]*spec.Type{}
	p.goOf = map[string]*types.Struct{}
}

// NewState is an initial state.
func (x *Exec) NewState() *State {
	return &State{x: x, lits: map[*Term]*Term{}, mem: map[*Obj]Val{}, g: map[string]*Term{}}
}

// Enter starts fn with the given arguments.
func (s *State) Enter(fn *ssa.Function, args, bind []Val) {
	s.x.Root = fn
	s.x.pushFrame(s, fn, args, bind, nil, false)
}
