package check

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Pick selects obligations: units whose id matches a pattern, and of those the
// obligation kinds listed (nil: all).
type Pick struct {
	Units []string
	Kinds []string
}

// Property is a claimed property: the obligations that decide it and the
// replay suites that look for a concrete failing input.
type Property struct {
	ID      string
	Sels    []Pick
	Suites  []string // runtime assertion checking of the same contracts
	Trusted []string
	Note    string
	// the obligations are about the code the generator emits for the corpus
	Gen   bool
	Main  bool   // the obligations are about the generator program
	Level string // default: proof
}

var safety = []string{"nil", "bounds", "panic", "post", "pre", "global"}

func kinds(ks ...interface{}) []string {
	var out []string
	for _, k := range ks {
		switch v := k.(type) {
		case string:
			out = append(out, v)
		case []string:
			out = append(out, v...)
		}
	}
	return out
}

const (
	trustBE    = "models of encoding/binary.BigEndian, errors.New, fmt.Errorf (assumed)"
	trustInt   = "integers are mathematical with explicit wrap-around at every Go conversion and arithmetic operation; slices and strings are at most 2^48 bytes"
	trustSSA   = "go/ssa translation of the source, the verification condition generator in /verif/vc, z3 and cvc5"
	trustAlias = "arguments of a codec do not overlap (the value is a tree, separate from the stream's buffer)"
	trustStack = "unbounded goroutine stack (recursion over nested optional data)"
	trustSpec  = "the frozen protocol definitions /verif/specs/*.x and their RFC 4506 semantics in vc/spec"
)

func match(pats []string, id string) bool {
	for _, p := range pats {
		if ok, _ := filepath.Match(p, id); ok {
			return true
		}
	}
	return false
}

// Report of a run.
type failure struct {
	Unit, Fn, Case, Kind, Msg, Status, Solver, Output, Model string
	Trace                                                    []string `json:",omitempty"`
}

// RunCheck runs the check of one property and returns the exit code.
func RunCheck(repo, verif, id, tier string, seed int, jobs int) int {
	t0 := time.Now()
	var p *Property
	for i := range Properties {
		if Properties[i].ID == id {
			p = &Properties[i]
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), id)
	args := []string{"-worker", "-repo", repo, "-verif", verif}
	var env *Env
	var us []*Unit
	var err error
	var gen *GenDir
	if p.Gen {
		var ss []genSpec
		if ss, err = genCorpus(verif, tier); err == nil {
			gen, err = MakeGen(repo, ss)
			defer gen.Close()
		}
		if err == nil {
			args = append(args, "-gen", gen.Dir)
			env, us, err = StandardGen(gen.Dir, verif)
		}
	} else if p.Main {
		gen, err = MakeMain(repo)
		defer gen.Close()
		if err == nil {
			args = append(args, "-main", gen.Dir)
			env, us, err = StandardMain(gen.Dir)
		}
	} else {
		env, us, err = Standard(repo, verif)
	}
	if err != nil {
		// the repository does not type-check: nothing can hold
		return p.finish(verif, tier, seed, t0, nil, nil, []failure{{Unit: "load", Kind: "load", Msg: err.Error(), Status: "failed"}}, nil, known, nil, repo)
	}
	var ids []string
	kindOf := map[string]map[string]bool{}
	sels := p.Sels
	if env.P.WeakGlobals() && !p.Gen && !p.Main {
		// what one function takes to be constant another must not change
		sels = append(append([]Pick{}, sels...), Pick{[]string{"lib:*", "state:*", "buf:*"}, []string{"global"}})
	}
	for _, s := range sels {
		n := 0
		for _, u := range us {
			if !match(s.Units, u.ID) {
				continue
			}
			n++
			m := kindOf[u.ID]
			if m == nil {
				m = map[string]bool{}
				kindOf[u.ID] = m
				ids = append(ids, u.ID)
			}
			if s.Kinds == nil {
				m["*"] = true
			}
			for _, k := range s.Kinds {
				m[k] = true
			}
		}
		if n == 0 && (gen == nil || len(gen.Bad) == 0) {
			fmt.Fprintf(os.Stderr, "no units match %v\n", s.Units)
			return 2
		}
	}
	if tier == "thorough" {
		args = append(args, "-sec", "120")
	}
	rs := RunUnits(ids, args, jobs)
	sort.Slice(rs, func(i, j int) bool { return rs[i].Unit < rs[j].Unit })
	var fails []failure
	if gen != nil {
		fails = append(fails, gen.Bad...)
	}
	var unsup []UnitResult
	for _, r := range rs {
		if r.Mismatch != "" {
			fails = append(fails, failure{Unit: r.Unit, Fn: r.Fn, Kind: "declaration", Msg: r.Mismatch, Status: "failed"})
			continue
		}
		if r.Unsupported != "" {
			unsup = append(unsup, r)
			continue
		}
		n := 0
		for _, o := range r.Obls {
			if !kindOf[r.Unit]["*"] && !kindOf[r.Unit][o.Kind] {
				continue
			}
			n += o.N
			if o.Status != "proved" {
				fails = append(fails, failure{Unit: r.Unit, Fn: o.Fn, Case: o.Case, Kind: o.Kind, Msg: o.Msg, Status: o.Status, Solver: o.Solver, Output: o.Output, Model: o.Model, Trace: o.Trace})
			}
		}
		if len(r.Obls) == 0 || r.Leaves == 0 {
			// vacuous: nothing was generated
			fails = append(fails, failure{Unit: r.Unit, Fn: r.Fn, Kind: "vacuity", Msg: "the verifier generated no obligation for this function (no path reaches its end)", Status: "failed"})
		}
	}
	var rac *RacResult
	if p.Main {
		rac = RunRacMain(gen, verif, p.Suites, tier, seed)
	} else if p.Gen {
		rac = RunRacGen(env, gen, verif, p.Suites, p.ID, tier, seed)
		rac.Fails = append(append([]RacFail{}, gen.Inp...), rac.Fails...)
	} else if len(p.Suites) > 0 {
		var focus []string
		for _, f := range fails {
			focus = append(focus, f.Unit)
		}
		for _, u := range unsup {
			focus = append(focus, u.Unit)
		}
		rac = RunRac(env, repo, verif, p.Suites, p.ID, tier, seed, focus)
	}
	return p.finish(verif, tier, seed, t0, rs, kindOf, fails, unsup, known, rac, repo)
}

func (p *Property) finish(verif, tier string, seed int, t0 time.Time, rs []UnitResult, kindOf map[string]map[string]bool, fails []failure, unsup []UnitResult, known []string, rac *RacResult, repo string) int {
	obls, done := 0, 0
	by := map[string]int{}
	var solver float64
	fns := map[string]bool{}
	used := map[string]bool{}
	kindN := map[string]int{}
	var queries int64
	for _, r := range rs {
		if r.Unsupported != "" || r.Mismatch != "" {
			continue
		}
		fns[r.Fn] = true
		solver += r.SolverSec
		queries += r.Queries
		for _, u := range r.Used {
			used[u] = true
		}
		for _, o := range r.Obls {
			if !kindOf[r.Unit]["*"] && !kindOf[r.Unit][o.Kind] {
				continue
			}
			obls += o.N
			if o.Status == "proved" {
				done += o.N
				by[o.Solver] += o.N
				kindN[o.Kind] += o.N
			}
		}
	}
	cov := map[string]interface{}{
		"obligations":                obls,
		"discharged":                 done,
		"discharged_by":              by,
		"discharged_by_kind":         kindN,
		"functions_under_contract":   keys(fns),
		"units":                      len(rs),
		"solver_queries":             queries,
		"solver_seconds":             round(solver),
		"checker_cmd":                "vc/main.go: symbolic execution of go/ssa with contracts; obligations to z3-new, cvc5, z3",
		"trusted_base":               append([]string{trustSSA, trustInt}, p.Trusted...),
		"contracts_assumed_at_calls": keys(used),
	}
	var bnd []string
	for _, u := range unsup {
		bnd = append(bnd, u.Unit+": "+u.Unsupported)
	}
	if len(bnd) > 0 {
		cov["bounded_only"] = bnd
		cov["bounded_explanation"] = "these functions are outside the verifier's subset in the current tree; only runtime assertion checking of their contract on generated inputs was done (bounded, not proved)"
	}
	if rac != nil {
		cov["runtime_assertion_checking"] = map[string]interface{}{"suites": rac.Suites, "evaluations": rac.Evals, "failures": len(rac.Fails), "error": rac.Err}
	}
	// violations
	code := 0
	nviol := 0
	hide := func(s string) bool {
		for _, k := range known {
			if strings.Contains(s, k) {
				return true
			}
		}
		return false
	}
	if len(fails) > 0 || rac != nil && len(rac.Fails) > 0 || len(unsup) > 0 && rac != nil && rac.Err != "" {
		var listed []string
		live := []failure{}
		for _, f := range fails {
			if k := f.Unit + "/" + f.Kind + "/" + f.Msg; hide(k) {
				listed = append(listed, k)
				continue
			}
			live = append(live, f)
		}
		var racLive []RacFail
		if rac != nil {
			for _, f := range rac.Fails {
				if hide(f.Name) {
					listed = append(listed, f.Name)
					continue
				}
				racLive = append(racLive, f)
			}
		}
		for _, l := range listed {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, l)
		}
		nviol = len(live) + len(racLive)
		if nviol > 0 || rac != nil && rac.Err != "" && len(unsup) > 0 {
			path := filepath.Join(verif, "evidence", p.ID+".replay.json")
			rep := map[string]interface{}{"property": p.ID, "failed_obligations": live, "outside_subset": bnd, "repository": treeHash(repo)}
			if rac != nil {
				rep["failing_inputs"] = racLive
				rep["replay_command"] = rac.Cmd
				if rac.Err != "" {
					rep["replay_error"] = rac.Err
				}
			}
			writeJSON(path, rep)
			for i, f := range live {
				if i == 12 {
					fmt.Printf("  ... and %d more failed obligations\n", len(live)-i)
					break
				}
				fmt.Printf("  failed obligation: %s [%s %s] %s: %s (%s %s)\n", f.Fn, f.Unit, f.Case, f.Kind, f.Msg, f.Status, f.Solver)
			}
			tail := " no-failing-input-found"
			for _, f := range live {
				// decided by evaluating the declaration itself: the fact is its own witness
				if f.Kind == "const" || f.Kind == "declaration" {
					tail = ""
				}
			}
			if len(racLive) > 0 {
				tail = ""
				for i, f := range racLive {
					if i == 5 {
						break
					}
					fmt.Printf("  failing input: %s: %s\n", f.Name, f.Detail)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s%s\n", p.ID, path, tail)
			code = 1
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.level(), "coverage": cov, "wall_s": round(time.Since(t0).Seconds()),
		"violations":  nviol,
		"assumptions": append([]string{trustSSA, trustInt}, p.Trusted...),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	writeJSON(filepath.Join(verif, "evidence", p.ID+".json"), ev)
	if code == 0 {
		fmt.Printf("property %s: %d/%d obligations discharged over %d functions in %.1fs", p.ID, done, obls, len(fns), time.Since(t0).Seconds())
		if len(bnd) > 0 {
			fmt.Printf("; bounded only: %s", strings.Join(bnd, "; "))
		}
		fmt.Println()
	}
	return code
}

func (p *Property) level() string {
	if p.Level == "" {
		return "proof"
	}
	return p.Level
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b, _ = json.Marshal(fmt.Sprint(err))
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// readKnown returns the identifying texts of known findings of a property.
func readKnown(path, id string) []string {
	b, _ := os.ReadFile(path)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, strings.TrimSpace(strings.TrimPrefix(l, "finding: property="+id+" ")))
		}
	}
	return out
}

func treeHash(repo string) string {
	h := sha256.New()
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && (strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".y")) {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(h, "%s %d\n", p, len(b))
			h.Write(b)
		}
		return nil
	})
	return fmt.Sprintf("sha256 of sources %x", h.Sum(nil)[:8])
}
