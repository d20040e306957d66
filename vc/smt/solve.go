package smt

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a query: "unsat" (goal proved), "sat" (refuted), "unknown".
type Result struct {
	Status string
	Solver string
	Model  string
	Dur    time.Duration
	Output string
}

var (
	sem      = make(chan struct{}, 8)
	NQueries int64
	NSolver  int64 // nanoseconds
	ByMu     sync.Mutex
	BySolver = map[string]int{}
	Dump     string // directory to dump queries into (debugging)
	dumpN    int64
	// AbsFirst: try a weakening without sequences and quantifiers first, and
	// only that when deciding whether a path is feasible.
	AbsFirst bool
	// AbsFeasible: decide feasibility of paths without sequences.
	AbsFeasible = os.Getenv("VC_FULLFEAS") == ""
	// FeasLimit bounds one feasibility query.
	FeasLimit = 600 * time.Millisecond
)

type solver struct {
	name string
	args func(sec int) []string
	pre  string
}

var solvers = []solver{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, ""},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--produce-models"}
	}, "(set-logic ALL)\n"},
	{"z3", func(s int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", s)} }, ""},
}

var slowLog = os.Getenv("VC_SLOW") != "" // debugging

var quoted = regexp.MustCompile(`\|[^|]*\|`)

func runSolver(sv solver, body string, sec int, model bool) Result {
	return runSolverFor(sv, body, sec, time.Duration(sec+2)*time.Second, model)
}

var (
	fresh  = regexp.MustCompile(`[|][^|]*![0-9]+[|]`)
	memoMu sync.Mutex
	memo   = map[[32]byte]Result{}
	NMemo  int64
)

// canonical renames the fresh constants of a query in order of appearance.
func canonical(body string) string {
	names := map[string]string{}
	return fresh.ReplaceAllStringFunc(body, func(q string) string {
		n, ok := names[q]
		if !ok {
			n = fmt.Sprintf("|$%d|", len(names))
			names[q] = n
		}
		return n
	})
}

func runSolverFor(sv solver, body string, sec int, limit time.Duration, model bool) Result {
	if model {
		return runSolver1(sv, body, sec, limit, model)
	}
	// the same query up to renaming has the same answer
	key := sha256.Sum256([]byte(fmt.Sprintf("%s %d %v\n", sv.name, sec, limit) + canonical(body)))
	memoMu.Lock()
	r, ok := memo[key]
	memoMu.Unlock()
	if ok {
		atomic.AddInt64(&NMemo, 1)
		r.Dur = 0
		return r
	}
	t0 := time.Now()
	r = runSolver1(sv, body, sec, limit, model)
	if d := time.Since(t0); slowLog && d > time.Second {
		n := atomic.AddInt64(&dumpN, 1)
		f := fmt.Sprintf("/tmp/slow%d.smt2", n)
		os.WriteFile(f, []byte(body), 0644)
		fmt.Fprintf(os.Stderr, "slow: %s %s %v %s\n%s\n", sv.name, r.Status, d, f, debug.Stack())
	}
	memoMu.Lock()
	memo[key] = r
	memoMu.Unlock()
	return r
}

func runSolver1(sv solver, body string, sec int, limit time.Duration, model bool) Result {
	sem <- struct{}{}
	defer func() { <-sem }()
	if Persistent && sv.name == "z3-new" && !model {
		l := time.Duration(sec) * time.Second
		if limit < l {
			l = limit
		}
		t0 := time.Now()
		st := askServer(body, l)
		d := time.Since(t0)
		if st != "" && st != "error" {
			atomic.AddInt64(&NQueries, 1)
			atomic.AddInt64(&NSolver, int64(d))
			return Result{Status: st, Solver: sv.name, Dur: d, Output: st}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	a := sv.args(sec)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	tail := "(check-sat)\n"
	if model {
		tail += "(get-model)\n"
	}
	pre := sv.pre
	if model && strings.HasPrefix(sv.name, "z3") {
		pre = "(set-option :produce-models true)\n"
	}
	if sv.name == "cvc5" {
		// cvc5 does not accept quoted symbols as testers
		body = quoted.ReplaceAllStringFunc(body, func(q string) string {
			var b strings.Builder
			b.WriteString("q.")
			for _, c := range q[1 : len(q)-1] {
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
					b.WriteRune(c)
				} else {
					fmt.Fprintf(&b, "$%x$", c)
				}
			}
			return b.String()
		})
	}
	cmd.Stdin = strings.NewReader(pre + body + tail)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&NQueries, 1)
	atomic.AddInt64(&NSolver, int64(d))
	s := out.String()
	r := Result{Status: "unknown", Solver: sv.name, Dur: d, Output: s}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			r.Status = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			r.Output = s
			break
		}
	}
	if r.Status == "sat" && model {
		r.Model = s
	}
	return r
}

// Check asks whether assume implies goal (goal nil: is assume unsatisfiable).
func Check(d Decls, assume []*Term, goal *Term, sec int, wantModel bool) Result {
	if goal != nil && goal.Op == "true" {
		return Result{Status: "unsat", Solver: "simplifier"}
	}
	for _, a := range assume {
		if a.Op == "false" {
			return Result{Status: "unsat", Solver: "simplifier"}
		}
		if goal != nil && a == goal {
			return Result{Status: "unsat", Solver: "simplifier"}
		}
	}
	if AbsFirst {
		if r := runSolver(solvers[0], AbsScript(d, assume, goal), 3, false); r.Status == "unsat" {
			ByMu.Lock()
			BySolver[r.Solver]++
			ByMu.Unlock()
			return r
		} else if os.Getenv("VC_ABS") != "" && strings.Contains(r.Output, "error") {
			fmt.Fprintln(os.Stderr, r.Output)
		}
	}
	body, _ := Script(d, assume, goal)
	if Dump != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.MkdirAll(Dump, 0755)
		os.WriteFile(filepath.Join(Dump, fmt.Sprintf("q%05d.smt2", n)), []byte(body+"(check-sat)\n"), 0644)
	}
	best := Result{Status: "unknown"}
	var outs []string
	for i, sv := range solvers {
		s := sec
		if i == 0 && sec > 5 {
			s = 5
		}
		r := runSolver(sv, body, s, false)
		outs = append(outs, sv.name+": "+strings.TrimSpace(firstLines(r.Output, 3)))
		if r.Status == "unsat" {
			best = r
			break
		}
		if r.Status == "sat" {
			if wantModel {
				r2 := runSolver(sv, body, s, true)
				r.Model = r2.Model
			}
			best = r
			break
		}
	}
	best.Output = strings.Join(outs, "; ")
	if best.Status == "unsat" {
		ByMu.Lock()
		BySolver[best.Solver]++
		ByMu.Unlock()
	}
	return best
}

// Quick asks one solver for a short time whether goal follows.
func Quick(d Decls, assume []*Term, goal *Term) bool {
	body, _ := Script(d, assume, goal)
	r := runSolver(solvers[0], body, 1, false)
	if r.Status == "unsat" {
		ByMu.Lock()
		BySolver[r.Solver]++
		ByMu.Unlock()
	}
	return r.Status == "unsat"
}

// Feasible reports false only if the assumptions are definitely contradictory.
func Feasible(d Decls, assume []*Term) bool {
	for _, a := range assume {
		if a.Op == "false" {
			return false
		}
	}
	if AbsFirst || AbsFeasible {
		return runSolver(solvers[0], AbsScript(d, assume, nil), 2, false).Status != "unsat"
	}
	body, _ := Script(d, assume, nil)
	if Dump != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.MkdirAll(Dump, 0755)
		os.WriteFile(filepath.Join(Dump, fmt.Sprintf("f%05d.smt2", n)), []byte(body+"(check-sat)\n"), 0644)
	}
	// a model with huge sequences can take for ever: not worth waiting for
	r := runSolverFor(solvers[0], body, 2, FeasLimit, false)
	return r.Status != "unsat"
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " ")
}
