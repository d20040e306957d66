// Package check turns properties into verification units (function, contract,
// behaviour), runs them through the verification condition generator and the
// solvers, and reports the obligations.
package check

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
	"verif/vc/spec"
	"verif/vc/sym"
	"verif/vc/xspec"
)

const (
	Repo    = "github.com/zeldovich/go-rpcgen"
	XdrPath = sym.XdrPath
	R1057   = Repo + "/rfc1057"
	R1813   = Repo + "/rfc1813"
)

// Seconds is the time limit of one obligation.
var Seconds = 20

// ObRes is the outcome of one obligation.
type ObRes struct {
	Fn, Case, Kind, Msg string
	Status              string // proved, refuted, unknown
	Solver              string
	Dur                 float64
	Output              string
	Model               string
	Loop                bool
	Trace               []string `json:",omitempty"`
	N                   int
}

// Result of a unit.
type UnitResult struct {
	Unit        string
	Fn          string
	Tags        []string
	Obls        []ObRes
	Unsupported string
	Mismatch    string
	Used        []string
	Leaves      int
	Queries     int64
	SolverSec   float64
	BySolver    map[string]int
	Sec         float64
}

// Unit of verification.
type Unit struct {
	ID   string
	Fn   string
	Path string   // package of the function
	Spec string   // type the unit is about
	Abs  bool     // decide paths without the theory of sequences
	Only []string // packages to bind (nil: all)
	Run  func(c *Ctx)
}

// Slots is the number of obligations of a unit discharged at the same time.
var Slots = 4

// Ctx is one attempt at a unit.
type Ctx struct {
	P     *sym.Prog
	X     *sym.Exec
	U     *Unit
	Leafs int
	Feas  map[string]bool
	lemma []ObRes
}

// Env loads the repository with its specifications.
type Env struct {
	Dir     string
	Overlay map[string][]byte
	Pats    []string
	P       *sym.Prog
	Specs   map[string]*xspec.Spec // by import path
	Uns     map[string]bool
	order   []string
	kept    map[string]bool
	keptBy  []ObRes
}

func NewEnv(dir string, overlay map[string][]byte, pats ...string) (*Env, error) {
	e := &Env{Dir: dir, Overlay: overlay, Pats: pats, Specs: map[string]*xspec.Spec{}, Uns: map[string]bool{}}
	p, err := sym.Load(dir, overlay, pats...)
	e.P = p
	if err != nil {
		return e, err
	}
	p.Contract = sym.ClientContracts
	p.Verified = map[string]bool{XdrPath + ".EncodeBuf": true, XdrPath + ".DecodeBuf": true}
	for _, c := range sym.RuntimeCodecs {
		p.Verified[XdrPath+"."+c.Fn] = true
	}
	for _, o := range sym.StateOps {
		p.Verified[XdrPath+"."+o] = true
	}
	return e, nil
}

func (e *Env) AddSpec(path string, sp *xspec.Spec, uns bool) {
	e.Specs[path] = sp
	e.Uns[path] = uns
	e.order = append(e.order, path)
}

func shortOf(path string) string { return path[strings.LastIndex(path, "/")+1:] }

// rebind builds a fresh world for one unit.
func (e *Env) rebind(only []string) {
	Reset()
	e.P.ResetWorld()
	for _, p := range e.order {
		if only != nil && !has(only, p) {
			continue
		}
		e.P.Bind(p, shortOf(p), e.Specs[p], e.Uns[p])
	}
}

// RunUnit runs one unit to completion.  A unit that fails is tried again with
// a stronger contract of the scalar codecs, as far as that can be proved: that
// they leave the destination alone when the input is too short.
func (e *Env) RunUnit(u *Unit) (res UnitResult) {
	res = e.runUnit(u)
	if res.Bad() == 0 || res.Unsupported != "" || res.Mismatch != "" || e.P.Kept != nil || res.Sec > 90 || strings.HasPrefix(u.ID, "lib:") || strings.HasPrefix(u.ID, "state:") {
		return res
	}
	kept, proofs := e.provenKept()
	if len(kept) == 0 {
		return res
	}
	e.P.Kept = kept
	res2 := e.runUnit(u)
	e.P.Kept = nil
	if res2.Unsupported != "" || res2.Mismatch != "" || res2.Bad() >= res.Bad() {
		return res
	}
	res2.Obls = append(res2.Obls, proofs...)
	res2.Sec += res.Sec
	return res2
}

// provenKept returns the scalar codecs proved to leave the destination alone
// when they fail, with those proofs.
func (e *Env) provenKept() (map[string]bool, []ObRes) {
	if e.kept != nil {
		return e.kept, e.keptBy
	}
	e.kept = map[string]bool{}
	for _, sig := range sym.RuntimeCodecs {
		sig := sig
		if sig.Max != 0 || sig.Raw || sig.Kind == xspec.Void {
			continue
		}
		r := e.runUnit(&Unit{ID: "lib:" + sig.Fn + ":kept", Fn: "xdr." + sig.Fn, Path: XdrPath, Run: func(c *Ctx) {
			c.X.WantKept = true
			c.X.VerifyRuntime(sig, "decode", &c.Leafs)
		}})
		if r.Unsupported != "" || r.Mismatch != "" || r.Bad() > 0 {
			continue
		}
		e.kept[sig.Fn] = true
		for _, o := range r.Obls {
			if o.Kind == "kept" {
				e.keptBy = append(e.keptBy, o)
			}
		}
	}
	return e.kept, e.keptBy
}

func (r *UnitResult) Bad() int {
	n := 0
	for _, o := range r.Obls {
		if o.Status != "proved" {
			n++
		}
	}
	return n
}

func (e *Env) runUnit(u *Unit) (res UnitResult) {
	t0 := time.Now()
	AbsFirst = u.Abs
	defer func() { AbsFirst = false }()
	sym.GIL.Lock()
	defer sym.GIL.Unlock()
	res = UnitResult{Unit: u.ID, Fn: u.Fn}
	q0, s0 := NQueries, NSolver
	modes := map[string]string{}
	by0 := map[string]int{}
	for k, v := range BySolver {
		by0[k] = v
	}
	var c *Ctx
	for try := 0; ; try++ {
		e.rebind(u.Only)
		c = &Ctx{P: e.P, U: u, Feas: map[string]bool{}}
		c.X = sym.NewExec(e.P, u.Fn, modes)
		if strings.HasPrefix(u.ID, "lib:") || strings.HasPrefix(u.ID, "state:") || strings.HasPrefix(u.ID, "buf:") || strings.HasPrefix(u.ID, "codec:") {
			c.X.NoSharing()
		}
		key, uns, mis := guarded(func() { u.Run(c) })
		if key != "" && try < 12 {
			modes[key] = "inv"
			continue
		}
		if key != "" {
			uns = "loop restarts do not converge"
		}
		res.Unsupported, res.Mismatch = uns, mis
		break
	}
	if res.Unsupported == "" && res.Mismatch == "" {
		c.discharge(&res)
	}
	res.Obls = append(res.Obls, c.lemma...)
	for k := range c.X.Used {
		res.Used = append(res.Used, k)
	}
	sort.Strings(res.Used)
	res.Leaves = c.Leafs
	res.Queries = NQueries - q0
	res.SolverSec = float64(NSolver-s0) / 1e9
	res.BySolver = map[string]int{}
	for k, v := range BySolver {
		if v > by0[k] {
			res.BySolver[k] = v - by0[k]
		}
	}
	res.Sec = time.Since(t0).Seconds()
	return res
}

func guarded(f func()) (restart, uns, mis string) {
	defer func() {
		if r := recover(); r != nil {
			restart, uns, mis = sym.Outcome(r)
		}
	}()
	f()
	return
}

// discharge sends the open obligations to the solvers.
func (c *Ctx) discharge(res *UnitResult) {
	sec := Seconds
	obls := c.X.Obls
	done := make(chan bool)
	slots := make(chan bool, Slots)
	for _, o := range obls {
		o := o
		go func() {
			slots <- true
			defer func() { <-slots; done <- true }()
			if o.Status == "proved" {
				return
			}
			r := Check(c.P.W, o.PC, o.Goal, sec, true)
			o.Solver, o.Dur, o.Output = r.Solver, r.Dur.Seconds(), r.Output
			switch r.Status {
			case "unsat":
				o.Status = "proved"
			case "sat":
				o.Status, o.Model = "refuted", r.Model
			default:
				o.Status = "unknown"
			}
		}()
	}
	sym.GIL.Unlock()
	for range obls {
		<-done
	}
	sym.GIL.Lock()
	for _, o := range obls {
		r := ObRes{Fn: o.Fn, Case: o.Case, Kind: o.Kind, Msg: o.Msg, Status: o.Status, Solver: o.Solver, Dur: o.Dur, Loop: o.Loop, N: 1}
		if o.Status == "proved" && o.Dur > 2 && os.Getenv("VC_SHOW") != "" {
			fmt.Fprintf(os.Stderr, "--- slow %.1fs %s %s %s %s: %s\n goal %s\n", o.Dur, o.Solver, o.Fn, o.Case, o.Kind, o.Msg, o.Goal)
			for _, p := range o.PC {
				fmt.Fprintf(os.Stderr, "   pc %s\n", p)
			}
		}
		if o.Status != "proved" {
			r.Output, r.Model, r.Trace = o.Output, o.Model, o.Trace
			if os.Getenv("VC_SHOW") != "" {
				fmt.Fprintf(os.Stderr, "--- %s %s %s %s: %s\n goal %s\n", o.Status, o.Fn, o.Case, o.Kind, o.Msg, o.Goal)
				for _, p := range o.PC {
					fmt.Fprintf(os.Stderr, "   pc %s\n", p)
				}
				if o.Model != "" && os.Getenv("VC_SHOW") == "2" {
					fmt.Fprintln(os.Stderr, o.Model)
				}
			}
		} else {
			r.Trace = nil
			// merge proved obligations of the same name
			merged := false
			for i := range res.Obls {
				q := &res.Obls[i]
				if q.Status == "proved" && q.Kind == r.Kind && q.Msg == r.Msg && q.Case == r.Case && q.Solver == r.Solver {
					q.N++
					q.Dur += r.Dur
					merged = true
					break
				}
			}
			if merged {
				continue
			}
		}
		res.Obls = append(res.Obls, r)
	}
}

// lemmaGoal records a proof goal that does not come from a path.
func (c *Ctx) Goal(kind, msg string, assume []*Term, goal *Term) {
	c.X.Obls = append(c.X.Obls, &sym.Obligation{Fn: c.U.Fn, Kind: kind, Msg: msg, PC: assume, Goal: goal})
}

// Fail records an obligation that is decided without a solver.
func (c *Ctx) Decide(kind, msg string, ok bool, detail string) {
	st := "proved"
	if !ok {
		st = "refuted"
	}
	c.lemma = append(c.lemma, ObRes{Fn: c.U.Fn, Kind: kind, Msg: msg, Status: st, Solver: "evaluation", Output: detail, N: 1})
}

// fn finds the function of a unit.
func (c *Ctx) fn(path, name string) *ssa.Function {
	f := c.P.FuncNamed(path, name)
	if f == nil {
		sym.Mismatch("function %s.%s does not exist", shortOf(path), name)
	}
	return f
}

// codecCase verifies fn as a codec of type t: stream at argument xsArg, value
// at the location mk creates.
type codecShape struct {
	fn    *ssa.Function
	xsArg int
	t     *spec.Type
	mk    func(s *sym.State) (args []sym.Val, loc sym.Loc) // args with a hole for the stream
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	sym.Mismatch("%s is not a pointer", t)
	return nil
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
