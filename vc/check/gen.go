package check

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/vc/xspec"
)

// ModPath is the module under verification.
const ModPath = "github.com/zeldovich/go-rpcgen"

// GenDir is a scratch copy of the repository in which the generator of the
// current tree was built and run on the corpus: package vgen/NAME holds the
// code emitted for specification NAME.
type GenDir struct {
	Dir   string
	Specs []genSpec
	// specifications the generator refuses or for which the emitted code does
	// not compile
	Bad []failure
	Inp []RacFail
}

func goEnv(extra ...string) []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	return append(env, extra...)
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel == ".git" {
			if i.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		q := filepath.Join(dst, rel)
		switch {
		case i.IsDir():
			return os.MkdirAll(q, 0755)
		case i.Mode().IsRegular():
			in, err := os.Open(p)
			if err != nil {
				return err
			}
			defer in.Close()
			out, err := os.Create(q)
			if err != nil {
				return err
			}
			defer out.Close()
			_, err = io.Copy(out, in)
			return err
		}
		return nil
	})
}

// run executes a command in dir with a time limit.
func run(dir string, limit time.Duration, env []string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	s := b.String()
	if len(s) > 3000 {
		s = s[:3000]
	}
	if ctx.Err() != nil {
		err = fmt.Errorf("no answer within %v", limit)
	}
	return s, err
}

func goyaccPath() string {
	for _, p := range []string{"/opt/vp/gobin/goyacc", "/root/go/bin/goyacc"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	p, _ := exec.LookPath("goyacc")
	return p
}

// scratchRepo copies the working tree, makes the parser and builds the
// generator as DIR/generator.bin.
func scratchRepo(repo, dir string) error {
	if err := copyTree(repo, dir); err != nil {
		return err
	}
	os.Remove(filepath.Join(dir, "xdr.go"))
	y := goyaccPath()
	if y == "" {
		return fmt.Errorf("no goyacc")
	}
	env := goEnv("PATH=" + filepath.Dir(y) + ":" + os.Getenv("PATH"))
	if out, err := run(dir, 2*time.Minute, env, "go", "generate", "."); err != nil {
		return fmt.Errorf("go generate: %v: %s", err, out)
	}
	if out, err := run(dir, 5*time.Minute, env, "go", "build", "-o", "generator.bin", "."); err != nil {
		return fmt.Errorf("go build: %v: %s", err, out)
	}
	return nil
}

// MakeGen prepares the scratch copy and runs the generator on specs.
func MakeGen(repo string, specs []genSpec) (*GenDir, error) {
	dir, err := os.MkdirTemp("", "verif-gen")
	if err != nil {
		return nil, err
	}
	g := &GenDir{Dir: dir}
	if err := scratchRepo(repo, dir); err != nil {
		return g, err
	}
	type res struct {
		s    genSpec
		fail string
		out  string
	}
	rs := make([]res, len(specs))
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	for i, s := range specs {
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			rs[i] = res{s: s}
			if msg, out := g.emit(s); msg != "" {
				rs[i].fail, rs[i].out = msg, out
			}
		}()
	}
	wg.Wait()
	for _, r := range rs {
		if r.fail != "" {
			g.Bad = append(g.Bad, failure{Unit: "gen:" + r.s.name, Fn: "generator", Kind: "declaration", Msg: r.fail, Status: "failed", Output: r.out})
			g.Inp = append(g.Inp, RacFail{r.fail + ": options" + strings.Join(r.s.opts(), " "), r.out + "\nspecification:\n" + r.s.text})
			os.RemoveAll(filepath.Join(g.Dir, "vgen", r.s.name))
			continue
		}
		g.Specs = append(g.Specs, r.s)
	}
	b, _ := json.Marshal(specsToJSON(g.Specs))
	return g, os.WriteFile(filepath.Join(dir, "vgen.json"), b, 0644)
}

func (s genSpec) opts() []string {
	o := []string{"-p", s.name}
	if s.uns {
		o = append(o, "-unsigned-enum")
	}
	if s.ct != "" {
		o = append(o, "-const-type", s.ct)
	}
	return o
}

// emit runs the generator on one specification and compiles the result.
func (g *GenDir) emit(s genSpec) (string, string) {
	d := filepath.Join(g.Dir, "vgen", s.name)
	if err := os.MkdirAll(d, 0755); err != nil {
		return err.Error(), ""
	}
	in := filepath.Join(d, "in.x")
	os.WriteFile(in, []byte(s.text), 0644)
	args := append([]string{"-i", in, "-o", filepath.Join(d, "xdr.go")}, s.opts()...)
	if s.sep {
		args = append(args, "-t", filepath.Join(d, "types.go"))
	}
	if out, err := run(d, time.Minute, goEnv(), filepath.Join(g.Dir, "generator.bin"), args...); err != nil {
		return "the generator refuses a supported specification (" + err.Error() + ")", out
	}
	for _, f := range []string{"xdr.go", "types.go"} {
		_, err := os.Stat(filepath.Join(d, f))
		if want := f == "xdr.go" || s.sep; want != (err == nil) {
			return fmt.Sprintf("the generator reports success but output %s: %v", f, err), ""
		}
	}
	if out, err := run(d, 5*time.Minute, goEnv(), "go", "build", "."); err != nil {
		return "the emitted code does not compile", out
	}
	return "", ""
}

type genJSON struct {
	Name, Text, CT  string
	Uns, Sep, Proof bool
}

func specsToJSON(ss []genSpec) (out []genJSON) {
	for _, s := range ss {
		out = append(out, genJSON{s.name, s.text, s.ct, s.uns, s.sep, s.proof})
	}
	return
}

func (g *GenDir) Close() {
	if g != nil && g.Dir != "" {
		os.RemoveAll(g.Dir)
	}
}

func genPath(name string) string { return ModPath + "/vgen/" + name }

// StandardGen loads the emitted packages of a scratch copy and lists the units
// about them.
func StandardGen(dir, verif string) (*Env, []*Unit, error) {
	b, err := os.ReadFile(filepath.Join(dir, "vgen.json"))
	if err != nil {
		return nil, nil, err
	}
	var ss []genJSON
	if err := json.Unmarshal(b, &ss); err != nil {
		return nil, nil, err
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Name < ss[j].Name })
	pats := []string{"./xdr"}
	for _, s := range ss {
		pats = append(pats, "./vgen/"+s.Name)
	}
	e, err := NewEnv(dir, nil, pats...)
	if err != nil {
		return e, nil, err
	}
	var us []*Unit
	us = append(us, libUnits()...)
	us = append(us, bufUnits()...)
	for _, s := range ss {
		sp, err := xspec.Parse(s.Text)
		if err != nil {
			return e, nil, fmt.Errorf("corpus %s: %v", s.Name, err)
		}
		p := genPath(s.Name)
		e.AddSpec(p, sp, s.Uns)
		if s.Proof {
			us = append(us, codecUnits(p, sp)...)
		}
		us = append(us, serviceUnits(p, sp)...)
		us = append(us, declUnits(p, sp, s)...)
	}
	for _, u := range us {
		if u.Path != "" && strings.HasPrefix(u.Path, ModPath+"/vgen/") {
			u.Only = []string{u.Path}
		} else {
			u.Only = []string{}
		}
	}
	return e, us, nil
}

// MakeGenMain makes a scratch copy for debugging.
func MakeGenMain(repo, verif, tier string) {
	ss, err := genCorpus(verif, tier)
	if err != nil {
		fmt.Println(err)
		return
	}
	g, err := MakeGen(repo, ss)
	fmt.Println(g.Dir, err)
	for _, b := range g.Bad {
		fmt.Println(b.Unit, b.Msg, b.Output)
	}
}
