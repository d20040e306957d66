// rpcverify verifies contracts of zeldovich/go-rpcgen.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/vc/check"
	"verif/vc/smt"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	worker := flag.Bool("worker", false, "serve units")
	units := flag.String("units", "", "run units with this prefix (debugging)")
	list := flag.Bool("list", false, "list units")
	dump := flag.String("dump", "", "dump queries")
	jobs := flag.Int("j", 8, "parallel workers")
	chk := flag.String("check", "", "run the check of this property")
	tier := flag.String("tier", "quick", "quick or thorough")
	gen := flag.String("gen", "", "scratch copy with emitted code: verify that instead of the repository")
	gmain := flag.String("main", "", "scratch copy with the parser: verify the generator program")
	mkmain := flag.Bool("mkmain", false, "make such a scratch copy and print its name (debugging)")
	mkgen := flag.Bool("mkgen", false, "make such a scratch copy and print its name (debugging)")
	seed := flag.Int("seed", 1, "seed of the runtime assertion checks")
	sec := flag.Int("sec", 20, "solver seconds per obligation")
	flag.Parse()
	smt.Dump = *dump
	load := func() (*check.Env, []*check.Unit, error) { return check.Standard(*repo, *verif) }
	if *gen != "" {
		load = func() (*check.Env, []*check.Unit, error) { return check.StandardGen(*gen, *verif) }
	}
	if *gmain != "" {
		load = func() (*check.Env, []*check.Unit, error) { return check.StandardMain(*gmain) }
	}
	if *mkmain {
		g, err := check.MakeMain(*repo)
		fmt.Println(g.Dir, err)
		return
	}
	if *mkgen {
		check.MakeGenMain(*repo, *verif, *tier)
		return
	}
	if *worker {
		check.Worker(load)
		return
	}
	check.Seconds = *sec
	if *chk != "" {
		os.Exit(check.RunCheck(*repo, *verif, *chk, *tier, *seed, *jobs))
	}
	if *list || *units != "" {
		_, us, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var ids []string
		for _, u := range us {
			for _, p := range strings.Split(*units, ",") {
				if ok, _ := filepath.Match(p, u.ID); ok || strings.HasPrefix(u.ID, p) {
					ids = append(ids, u.ID)
					break
				}
			}
		}
		if *list {
			fmt.Println(strings.Join(ids, "\n"))
			return
		}
		args := []string{"-worker", "-repo", *repo, "-verif", *verif}
		if *gen != "" {
			args = append(args, "-gen", *gen)
		}
		if *gmain != "" {
			args = append(args, "-main", *gmain)
		}
		if *dump != "" {
			args = append(args, "-dump", *dump)
		}
		bad := 0
		for _, r := range check.RunUnits(ids, args, *jobs) {
			st := map[string]int{}
			for _, o := range r.Obls {
				st[o.Status] += o.N
			}
			fmt.Printf("%-50s %v leaves=%d q=%d %.1fs %s%s\n", r.Unit, st, r.Leaves, r.Queries, r.Sec, r.Unsupported, r.Mismatch)
			if r.Unsupported != "" || r.Mismatch != "" {
				bad++
			}
			for _, o := range r.Obls {
				if o.Status != "proved" {
					bad++
					fmt.Printf("    %s %s: %s [%s]\n", o.Status, o.Kind, o.Msg, o.Output)
				}
			}
			if os.Getenv("VC_JSON") != "" {
				b, _ := json.MarshalIndent(r, "", " ")
				fmt.Println(string(b))
			}
		}
		fmt.Println("bad:", bad)
		return
	}
}
