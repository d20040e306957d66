package main

import (
	"flag"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
)

func main() {
	suites := flag.String("suite", "lib", "suites")
	p := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	rounds := flag.Int("rounds", 40, "rounds")
	only := flag.String("only", "", "names of entries to look at first")
	flag.Parse()
	prop = *p
	debug.SetMaxStack(1 << 30)
	o := &oracle{rng: rand.New(rand.NewSource(*seed))}
	focus := map[string]bool{}
	for _, n := range strings.Split(*only, ",") {
		if n != "" {
			focus[n] = true
		}
	}
	for _, s := range strings.Split(*suites, ",") {
		switch s {
		case "lib":
			libSuite(o, *rounds)
		case "huge":
			o.huge()
		case "codec":
			for _, e := range registry() {
				r := *rounds
				if len(focus) > 0 && !focus[e.name] {
					r /= 4
				}
				o.sp = e.sp
				o.codec(e, r)
			}
		default:
			if f := extra[s]; f != nil {
				f(o, *rounds)
			} else {
				println("unknown suite", s)
				os.Exit(2)
			}
		}
	}
	emit(line{Evals: evals, Done: true})
}

var extra = map[string]func(o *oracle, rounds int){}
