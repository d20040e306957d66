package check

import (
	"bytes"
	"context"
	"fmt"
	"go/format"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The generator program itself: scan.go and main.go, with the parser made from
// xdr.y of the current tree.

// MakeMain makes a scratch copy with the parser and the generator's binary.
func MakeMain(repo string) (*GenDir, error) {
	dir, err := os.MkdirTemp("", "verif-gen")
	if err != nil {
		return nil, err
	}
	g := &GenDir{Dir: dir}
	return g, scratchRepo(repo, dir)
}

// StandardMain loads package main of such a copy.
func StandardMain(dir string) (*Env, []*Unit, error) {
	e, err := NewEnv(dir, nil, ".")
	if err != nil {
		return e, nil, err
	}
	us := []*Unit{
		{ID: "scan:lex", Fn: "lexer.Lex", Path: ModPath, Run: func(c *Ctx) { c.X.VerifyLex(&c.Leafs) }},
		{ID: "scan:error", Fn: "lexer.Error", Path: ModPath, Run: func(c *Ctx) { c.X.VerifyLexError(&c.Leafs) }},
		{ID: "main:run", Fn: "main", Path: ModPath, Run: func(c *Ctx) { c.X.VerifyMain(&c.Leafs) }},
		{ID: "main:effects", Fn: "xdrParse", Path: ModPath, Run: func(c *Ctx) {
			bad, fns := c.P.Effects()
			c.Leafs = 1
			c.Decide("effects", fmt.Sprintf("the parser and the %d functions its actions use have no effect but writing code to the package's writers and panicking", len(fns)), len(bad) == 0, strings.Join(bad, "; "))
		}},
	}
	return e, us, nil
}

// RunRacMain runs the scanner and the generator on concrete inputs.
func RunRacMain(g *GenDir, verif string, suites []string, tier string, seed int) *RacResult {
	r := &RacResult{Suites: suites}
	for _, s := range suites {
		switch s {
		case "lex":
			racLex(r, g, verif, tier, seed)
		case "run":
			racRunMain(r, g, tier, seed)
		}
	}
	return r
}

// sourceWords are the string literals of the generator that are words.
func sourceWords(dir string) []string {
	seen := map[string]bool{}
	var out []string
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var s scanner.Scanner
		fset := token.NewFileSet()
		s.Init(fset.AddFile(f, -1, len(b)), b, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			if tok != token.STRING {
				continue
			}
			w, err := strconv.Unquote(lit)
			if err == nil && !seen[w] && wordRE.MatchString(w) {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	sort.Strings(out)
	return out
}

var wordRE = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

func racLex(r *RacResult, g *GenDir, verif, tier string, seed int) {
	b, err := os.ReadFile(filepath.Join(verif, "rac", "lex", "lex_test.go.txt"))
	if err != nil {
		r.Err = err.Error()
		return
	}
	p := filepath.Join(g.Dir, "zz_verif_lex_test.go")
	if err := os.WriteFile(p, b, 0644); err != nil {
		r.Err = err.Error()
		return
	}
	defer os.Remove(p)
	n := 20000
	if tier == "thorough" {
		n = 400000
	}
	env := goEnv("VERIF_LEX_SEED="+strconv.Itoa(seed), "VERIF_LEX_N="+strconv.Itoa(n), "VERIF_LEX_WORDS="+strings.Join(sourceWords(g.Dir), " "))
	out, err := run(g.Dir, 5*time.Minute, env, "go", "test", "-v", "-count=1", "-run", "^TestVerifLex$", ".")
	r.Cmd += "go test -run TestVerifLex with rac/lex/lex_test.go.txt in a copy of the repository" + "; "
	done := false
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VERIF-FAIL ") {
			f := strings.SplitN(strings.TrimPrefix(l, "VERIF-FAIL "), "\t", 2)
			d := ""
			if len(f) == 2 {
				d = f[1]
			}
			r.Fails = append(r.Fails, RacFail{"scan " + f[0], d})
		}
		if strings.HasPrefix(l, "VERIF-EVALS ") {
			var a, b int
			fmt.Sscanf(l, "VERIF-EVALS %d %d", &a, &b)
			r.Evals += a
			done = true
		}
	}
	if !done {
		r.Err = fmt.Sprintf("the scanner's test does not run: %v: %s", err, out)
	}
}

// ---- whole runs

type genRun struct {
	what  string
	spec  *string           // nil: no input file
	pre   map[string]string // files that exist before
	args  []string          // IN is the input file
	outs  []string          // requested outputs
	fail  bool              // must fail
	maybe bool              // may succeed or fail, but consistently
}

const goodSpec = `const A = 5;
enum color { RED = 0, GREEN = 1 };
struct pair { int a; opaque b<A>; color c; };
union u switch (color c) { case RED: int x; default: void; };
typedef pair pairs<10>;
program P { version V { void NULLPROC(void) = 0; pair GET(pairs) = 1; } = 1; } = 200000;
`

func racRunMain(r *RacResult, g *GenDir, tier string, seed int) {
	rnd := rand.New(rand.NewSource(int64(seed)))
	str := func(s string) *string { return &s }
	var rs []genRun
	out := []string{"-i", "IN", "-o", "out.go"}
	both := []string{"-i", "IN", "-o", "out.go", "-t", "types.go"}
	add := func(x genRun) { rs = append(rs, x) }
	for _, pre := range []map[string]string{nil, {"out.go": "old output\n", "types.go": "old types\n"}} {
		for _, args := range [][]string{out, both} {
			outs := []string{"out.go"}
			if len(args) > 4 {
				outs = append(outs, "types.go")
			}
			add(genRun{what: "good input", spec: str(goodSpec), pre: pre, args: args, outs: outs})
			add(genRun{what: "empty input", spec: str(""), pre: pre, args: args, outs: outs})
			add(genRun{what: "missing input", pre: pre, args: args, outs: outs, fail: true})
			bad := map[string]string{
				"syntax error at the start":         "stract x { int a; };",
				"syntax error at the end":           goodSpec + "struct y { int a; }",
				"unknown character":                 goodSpec + "@",
				"unterminated comment":              goodSpec + "/* ...",
				"unsupported inline enum":           goodSpec + "struct z { enum { Q = 1 } e; };",
				"unsupported float":                 goodSpec + "struct z { float f; };",
				"unsupported quadruple":             goodSpec + "typedef quadruple q;",
				"stray closing brace":               goodSpec + "}",
				"program without number":            goodSpec + "program Q { version W { void A(void) = 0; } = 1; };",
				"code that is not Go (identifier)":  "const x = 1;\nstruct y { int a[0x8; };",
				"syntax error after good code":      goodSpec + "typedef int",
				"malformed number":                  goodSpec + "const B = 09;",
				"two errors":                        "struct { int a; };\n" + goodSpec + "=",
				"missing arm after good code":       goodSpec + "union v switch (int a) { case 1: int a; default: };",
				"missing declaration after program": goodSpec + "struct w { };\nconst C = ;",
			}
			var ks []string
			for k := range bad {
				ks = append(ks, k)
			}
			for _, k := range sorted(ks) {
				add(genRun{what: k, spec: str(bad[k]), pre: pre, args: args, outs: outs, fail: true})
			}
			// every cut through the text: fails unless it ends between definitions
			step := 9
			if tier == "thorough" {
				step = 1
			}
			for i := rnd.Intn(step); i < len(goodSpec); i += step {
				add(genRun{what: fmt.Sprintf("input cut after %d bytes", i), spec: str(goodSpec[:i]), pre: pre, args: args, outs: outs, fail: !strings.HasSuffix(strings.TrimSpace(goodSpec[:i]), ";") && strings.TrimSpace(goodSpec[:i]) != "", maybe: true})
			}
			add(genRun{what: "package name that is not Go", spec: str(goodSpec), pre: pre, args: append(append([]string{}, args...), "-p", "1bad"), outs: outs, fail: true})
			// the code of one output alone is not Go
			if len(outs) == 2 {
				add(genRun{what: "types that are not Go", spec: str(goodSpec), pre: pre, args: append(append([]string{}, args...), "-const-type", "1bad"), outs: outs, fail: true})
			} else {
				add(genRun{what: "constants that are not Go", spec: str(goodSpec), pre: pre, args: append(append([]string{}, args...), "-const-type", "1bad"), outs: outs, fail: true})
			}
			tmp := map[string]string{"out.go.tmp": "someone's\n"}
			for k, v := range pre {
				tmp[k] = v
			}
			add(genRun{what: "the temporary name is taken", spec: str(goodSpec), pre: tmp, args: args, outs: outs, maybe: true})
			if len(outs) == 2 {
				tmp2 := map[string]string{"types.go.tmp": "someone's\n"}
				for k, v := range pre {
					tmp2[k] = v
				}
				add(genRun{what: "the temporary name of the types is taken", spec: str(goodSpec), pre: tmp2, args: args, outs: outs, maybe: true})
			}
		}
	}
	for _, s := range []string{goodSpec, goodSpec + "stract"} {
		f := s != goodSpec
		add(genRun{what: "output in a missing directory", spec: str(s), args: []string{"-i", "IN", "-o", "no/out.go"}, outs: []string{"no/out.go"}, fail: true})
		add(genRun{what: "types in a missing directory", spec: str(s), pre: map[string]string{"out.go": "old\n"}, args: []string{"-i", "IN", "-o", "out.go", "-t", "no/t.go"}, outs: []string{"out.go", "no/t.go"}, fail: true})
		add(genRun{what: "one name for both outputs", spec: str(s), pre: map[string]string{"out.go": "old\n"}, args: []string{"-i", "IN", "-o", "out.go", "-t", "out.go"}, outs: []string{"out.go"}, fail: true})
		add(genRun{what: "output named like the temporary file of the types", spec: str(s), args: []string{"-i", "IN", "-o", "a.tmp", "-t", "a"}, outs: []string{"a.tmp", "a"}, fail: f, maybe: true})
		add(genRun{what: "types named like the temporary file of the output", spec: str(s), args: []string{"-i", "IN", "-o", "a", "-t", "a.tmp"}, outs: []string{"a", "a.tmp"}, fail: f, maybe: true})
		add(genRun{what: "existing types named like the temporary file of the output", spec: str(s), pre: map[string]string{"a.tmp": "old\n"}, args: []string{"-i", "IN", "-o", "a", "-t", "a.tmp"}, outs: []string{"a", "a.tmp"}, fail: f, maybe: true})
		add(genRun{what: "no output given", spec: str(s), args: []string{"-i", "IN"}, fail: true})
		add(genRun{what: "no input given", spec: str(s), pre: map[string]string{"out.go": "old\n"}, args: []string{"-o", "out.go"}, outs: []string{"out.go"}, fail: true})
		add(genRun{what: "unknown option", spec: str(s), pre: map[string]string{"out.go": "old\n"}, args: []string{"-i", "IN", "-o", "out.go", "-zz"}, outs: []string{"out.go"}, fail: true})
		add(genRun{what: "debug output", spec: str(s), pre: map[string]string{"out.go": "old\n"}, args: []string{"-d", "-i", "IN", "-o", "out.go"}, outs: []string{"out.go"}, fail: f})
	}
	bin := filepath.Join(g.Dir, "generator.bin")
	r.Cmd += "runs of the generator built from the current tree in scratch directories" + "; "
	for _, x := range rs {
		r.Evals++
		if msg := x.try(bin); msg != "" {
			pre := ""
			if x.pre != nil {
				pre = ", outputs exist"
			}
			r.Fails = append(r.Fails, RacFail{"generator run: " + x.what + " (" + strings.Join(x.args, " ") + pre + ")", msg})
		}
	}
}

func sorted(xs []string) []string {
	for i := range xs {
		for j := i + 1; j < len(xs); j++ {
			if xs[j] < xs[i] {
				xs[i], xs[j] = xs[j], xs[i]
			}
		}
	}
	return xs
}

// try performs one run and compares the directory before and after.
func (x genRun) try(bin string) string {
	top, err := os.MkdirTemp("", "verif-run")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "d")
	os.Mkdir(dir, 0755)
	in := filepath.Join(top, "in.x")
	if x.spec != nil {
		os.WriteFile(in, []byte(*x.spec), 0644)
	}
	old := time.Now().Add(-time.Hour)
	for n, c := range x.pre {
		p := filepath.Join(dir, n)
		os.WriteFile(p, []byte(c), 0644)
		os.Chtimes(p, old, old)
	}
	var args []string
	for _, a := range x.args {
		if a == "IN" {
			a = in
		}
		args = append(args, a)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var b bytes.Buffer
	cmd.Stderr = &b
	err = cmd.Run()
	if ctx.Err() != nil {
		return "the generator does not end"
	}
	failed := err != nil
	if x.fail && !failed {
		return "the generator reports success"
	}
	if !x.fail && !x.maybe && failed {
		m := b.String()
		if len(m) > 200 {
			m = m[:200]
		}
		return "the generator reports failure: " + m
	}
	now := map[string]string{}
	filepath.Walk(top, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() && p != in {
			c, _ := os.ReadFile(p)
			n, _ := filepath.Rel(dir, p)
			now[n] = string(c)
			if _, had := x.pre[n]; had && failed && !i.ModTime().Equal(old) {
				now[n] = "rewritten: " + string(c)
			}
		}
		return nil
	})
	isOut := map[string]bool{}
	for _, o := range x.outs {
		isOut[o] = true
	}
	for n, c := range now {
		was, had := x.pre[n]
		switch {
		case failed && !had:
			return "the failed run leaves the file " + n
		case failed && c != was:
			return "the failed run changes the file " + n
		case !failed && !isOut[n] && !had:
			return "the run leaves the file " + n
		case !failed && !isOut[n] && c != was:
			return "the run changes the file " + n
		}
	}
	for n := range x.pre {
		if _, ok := now[n]; !ok {
			return "the run removes the file " + n
		}
	}
	if !failed {
		for _, o := range x.outs {
			c, ok := now[o]
			if !ok {
				return "success, but the output " + o + " does not exist"
			}
			f, err := format.Source([]byte(c))
			if err != nil {
				return "success, but the output " + o + " is not Go"
			}
			if string(f) != c {
				return "success, but the output " + o + " is not complete formatted code"
			}
			if x.spec != nil && *x.spec == goodSpec && len(x.outs) == 1 && !strings.Contains(c, "func (v *Pairs) Xdr(") {
				return "success, but the output " + o + " is incomplete"
			}
		}
		if len(x.outs) == 2 && x.spec != nil && *x.spec == goodSpec {
			all := now[x.outs[0]] + now[x.outs[1]]
			for _, w := range []string{"func (v *Pairs) Xdr(", "type Pairs ", "P_V_regs("} {
				if !strings.Contains(all, w) {
					return "success, but the outputs lack " + w
				}
			}
		}
	}
	return ""
}
