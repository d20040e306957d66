package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/vc/xspec"
)

// RacFail is a concrete input on which a contract does not hold.
type RacFail struct{ Name, Detail string }

// RacResult of runtime assertion checking.
type RacResult struct {
	Suites []string
	Evals  int
	Fails  []RacFail
	Err    string
	Cmd    string
}

// racPkg is a package whose codecs are checked: its Go import path and the
// file of its specification.
type racPkg struct {
	path, file string
	sp         *xspec.Spec
	gen        bool
	uns        bool
	types      *types.Package
}

// RunRac builds the runtime assertion checker against the repository's
// current tree and runs the suites.
func RunRac(env *Env, repo, verif string, suites []string, prop, tier string, seed int, focus []string) *RacResult {
	r := &RacResult{Suites: suites}
	var pk []racPkg
	for _, p := range []string{R1057, R1813} {
		f := filepath.Join(verif, "specs", shortOf(p)+".x")
		b, err := os.ReadFile(f)
		if err != nil {
			r.Err = err.Error()
			return r
		}
		sp, err := xspec.Parse(string(b))
		if err != nil {
			r.Err = err.Error()
			return r
		}
		q := racPkg{path: p, file: f, sp: sp, uns: true}
		if env != nil && env.P != nil {
			if gp := env.P.Pkgs[p]; gp != nil {
				q.types = gp.Pkg
			}
		}
		pk = append(pk, q)
	}
	dir, err := os.MkdirTemp("", "verif-rac")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	if err := racBuild(dir, repo, verif, pk, raceFlags(suites)...); err != nil {
		r.Err = "runtime assertion checker does not build: " + err.Error()
		return r
	}
	racRun(r, dir, verif, prop, tier, seed, focus)
	return r
}

// RunRacGen does the same for the code emitted for the corpus.
func RunRacGen(env *Env, g *GenDir, verif string, suites []string, prop, tier string, seed int) *RacResult {
	r := &RacResult{Suites: suites}
	var pk []racPkg
	for _, s := range g.Specs {
		sp, err := xspec.Parse(s.text)
		if err != nil {
			r.Err = err.Error()
			return r
		}
		q := racPkg{path: genPath(s.name), file: filepath.Join(g.Dir, "vgen", s.name, "in.x"), sp: sp, gen: true, uns: s.uns}
		if env != nil && env.P != nil {
			if gp := env.P.Pkgs[q.path]; gp != nil {
				q.types = gp.Pkg
			}
		}
		pk = append(pk, q)
	}
	dir, err := os.MkdirTemp("", "verif-rac")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	if err := racBuild(dir, g.Dir, verif, pk); err != nil {
		r.Err = "runtime assertion checker does not build: " + err.Error()
		return r
	}
	racRun(r, dir, verif, prop, tier, seed, nil)
	return r
}

// raceFlags: the suite race needs the race detector.
func raceFlags(suites []string) []string {
	for _, s := range suites {
		if s == "race" {
			return []string{"-race"}
		}
	}
	return nil
}

func racBuild(dir, repo, verif string, pk []racPkg, flags ...string) error {
	src, err := filepath.Glob(filepath.Join(verif, "rac", "*.go"))
	if err != nil {
		return err
	}
	for _, f := range src {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0644); err != nil {
			return err
		}
	}
	var mod bytes.Buffer
	fmt.Fprintf(&mod, "module verif/rac\n\ngo 1.26.0\n\nrequire (\n\tgithub.com/zeldovich/go-rpcgen v0.0.0\n\tverif/vc v0.0.0\n)\n\nreplace github.com/zeldovich/go-rpcgen => %s\n\nreplace verif/vc => %s\n", repo, filepath.Join(verif, "vc"))
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), mod.Bytes(), 0644); err != nil {
		return err
	}
	var sum []byte
	for _, f := range []string{filepath.Join(verif, "vc", "go.sum"), filepath.Join(repo, "go.sum")} {
		b, _ := os.ReadFile(f)
		sum = append(sum, b...)
	}
	os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0644)
	if err := os.WriteFile(filepath.Join(dir, "registry_gen.go"), []byte(racRegistry(pk)), 0644); err != nil {
		return err
	}
	cmd := exec.Command("go", append(append([]string{"build"}, flags...), "-tags", "registry", "-o", "rac", ".")...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	if out, err := cmd.CombinedOutput(); err != nil {
		if len(out) > 2000 {
			out = out[:2000]
		}
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// goTypeName spells the Go type of an argument or result.
func goTypeName(pkg string, t *xspec.Type, uns bool) string {
	switch t.Kind {
	case xspec.Named:
		return pkg + "." + xspec.GoName(t.Name)
	case xspec.Int:
		return "int32"
	case xspec.UInt:
		return "uint32"
	case xspec.Hyper:
		return "int64"
	case xspec.UHyper:
		return "uint64"
	case xspec.Bool:
		return "bool"
	}
	return ""
}

func racRegistry(pk []racPkg) string {
	var b, svc, res strings.Builder
	b.WriteString("//go:build registry\n\npackage main\n\nimport (\n\t\"reflect\"\n\n\t\"github.com/zeldovich/go-rpcgen/xdr\"\n\t. \"verif/vc/xspec\"\n\n")
	for i, p := range pk {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p.path)
	}
	b.WriteString(")\n\nvar _ reflect.Value\n\nfunc parse(f string) *Spec {\n\tsp, err := ParseFile(f)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\treturn sp\n}\n\nfunc registry() []*entry {\n\tvar es []*entry\n\tvar sp *Spec\n\t_ = sp\n")
	svc.WriteString("func services() []*service {\n\tvar ss []*service\n\tvar sp *Spec\n\t_ = sp\n")
	res.WriteString("func svcResult(service, name string) interface{} {\n\tswitch service + \".\" + name {\n")
	var decls strings.Builder
	for i, p := range pk {
		var use bool
		fmt.Fprintf(&b, "\tsp = parse(%q)\n", p.file)
		fmt.Fprintf(&svc, "\tsp = parse(%q)\n", p.file)
		has := func(name, method string) bool {
			if p.types == nil {
				return true
			}
			o, ok := p.types.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				return false
			}
			if method == "" {
				return true
			}
			m, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, p.types, method)
			return m != nil
		}
		for _, d := range p.sp.Defs {
			g := xspec.GoName(d.Name)
			if !has(g, "Xdr") {
				continue
			}
			use = true
			fmt.Fprintf(&b, "\tes = append(es, &entry{name: %q, sp: sp, gen: %v, t: sp.ByName[%q].T, mk: func() (xdr.Xdrable, reflect.Value) { v := new(p%d.%s); return v, ref(v) }})\n", shortOf(p.path)+"."+g, p.gen, d.Name, i, g)
		}
		for pi, pr := range p.sp.Progs {
			for vi, ve := range pr.Vers {
				base := xspec.GoName(pr.Name) + "_" + xspec.GoName(ve.Name)
				if p.types != nil && p.types.Scope().Lookup(base+"_regs") == nil {
					continue
				}
				use = true
				tn := fmt.Sprintf("svc%d_%d_%d", i, pi, vi)
				name := shortOf(p.path) + "." + base
				fmt.Fprintf(&decls, "type %s struct{ r *svcRec }\n\n", tn)
				for _, q := range ve.Procs {
					arg, ret := "", ""
					if k := goTypeName(fmt.Sprintf("p%d", i), q.Arg, p.uns); k != "" {
						arg = "a " + k
					}
					if k := goTypeName(fmt.Sprintf("p%d", i), q.Res, p.uns); k != "" {
						ret = k
					}
					fmt.Fprintf(&decls, "func (s *%s) %s(%s) %s {\n", tn, xspec.GoName(q.Name), arg, ret)
					if arg == "" {
						fmt.Fprintf(&decls, "\ts.r.hit(%q, nil)\n", q.Name)
					} else {
						fmt.Fprintf(&decls, "\ts.r.hit(%q, &a)\n", q.Name)
					}
					if ret != "" {
						fmt.Fprintf(&decls, "\tif p, ok := s.r.res[%q].(*%s); ok {\n\t\treturn *p\n\t}\n\tvar z %s\n\treturn z\n", q.Name, ret, ret)
						fmt.Fprintf(&res, "\tcase %q:\n\t\treturn new(%s)\n", name+"."+q.Name, ret)
					}
					decls.WriteString("}\n\n")
				}
				fmt.Fprintf(&svc, "\tss = append(ss, &service{name: %q, sp: sp, gen: %v, prog: %d, vers: %d, procs: sp.Progs[%d].Vers[%d].Procs, mk: func() (*svcRec, []xdr.ProcRegistration) { r := &svcRec{}; return r, p%d.%s_regs(&%s{r}) }})\n", name, p.gen, uint32(pr.Num), uint32(ve.Num), pi, vi, i, base, tn)
			}
		}
		if !use {
			fmt.Fprintf(&decls, "var _ p%d.Dummy\n", i)
		}
	}
	b.WriteString("\treturn es\n}\n\n")
	svc.WriteString("\treturn ss\n}\n\n")
	res.WriteString("\t}\n\treturn nil\n}\n\n")
	return b.String() + svc.String() + res.String() + decls.String()
}

// racRun runs each suite in a process of its own, limited in time and memory.
func racRun(r *RacResult, dir, verif, prop, tier string, seed int, focus []string) {
	type ln struct {
		Begin, Fail, Detail string
		Tags                []string
		Evals               int
		Done                bool
	}
	rounds, limit := 40, 100*time.Second
	if tier == "thorough" {
		rounds, limit = 400, 600*time.Second
	}
	var names []string
	seen := map[string]bool{}
	for _, f := range focus {
		p := strings.Split(f, ":")
		if len(p) > 1 && !seen[p[1]] {
			seen[p[1]] = true
			names = append(names, p[1])
		}
	}
	sort.Strings(names)
	for _, s := range r.Suites {
		n := rounds
		if s == "codec" && tier != "thorough" {
			n = 20
			if len(names) > 0 && len(names) < 40 {
				n = 80
			}
		}
		args := []string{"--as=24000000000", "./rac", "-suite", s, "-prop", prop, "-seed", fmt.Sprint(seed), "-rounds", fmt.Sprint(n), "-only", strings.Join(names, ",")}
		r.Cmd = "VERIF_SEED=" + fmt.Sprint(seed) + " runtime assertion suite " + strings.Join(r.Suites, ",") + " of /verif/rac"
		race := raceFlags(r.Suites) != nil
		if race {
			// the race detector reserves its address space
			args = append([]string{"--data=unlimited"}, args[1:]...)
		}
		cmd := exec.Command("prlimit", args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "RAC_SPECS="+filepath.Join(verif, "specs"), "GORACE=halt_on_error=1 exitcode=66")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Start(); err != nil {
			r.Err = err.Error()
			continue
		}
		t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		slow := !t.Stop()
		dec := json.NewDecoder(&out)
		var last ln
		done := false
		for {
			var l ln
			if dec.Decode(&l) != nil {
				break
			}
			switch {
			case l.Begin != "":
				last = l
			case l.Fail != "":
				r.Fails = append(r.Fails, RacFail{l.Fail, l.Detail})
			case l.Done:
				done = true
				r.Evals += l.Evals
			}
		}
		if done {
			continue
		}
		if slow {
			r.Err = "suite " + s + " exceeded its time"
			continue
		}
		mine := false
		for _, t := range last.Tags {
			if t == prop {
				mine = true
			}
		}
		e := errb.String()
		if i := strings.Index(e, "WARNING: DATA RACE"); race && i >= 0 {
			e = e[i:]
			if len(e) > 1800 {
				e = e[:1800]
			}
			r.Fails = append(r.Fails, RacFail{"data race", last.Begin + ": " + e})
			continue
		}
		if i := strings.Index(e, "\n\ngoroutine"); i >= 0 {
			e = e[:i]
		}
		if len(e) > 600 {
			e = e[:600]
		}
		if mine && last.Begin != "" {
			r.Fails = append(r.Fails, RacFail{"process ends: " + s, fmt.Sprintf("%s: the process ends with %v: %s", last.Begin, err, e)})
		} else {
			r.Err = fmt.Sprintf("suite %s ends with %v: %s", s, err, e)
		}
	}
}
