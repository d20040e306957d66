package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

type line struct {
	Begin  string   `json:",omitempty"`
	Fail   string   `json:",omitempty"`
	Detail string   `json:",omitempty"`
	Tags   []string `json:",omitempty"`
	Evals  int      `json:",omitempty"`
	Done   bool     `json:",omitempty"`
}

var (
	mu     sync.Mutex
	evals  int
	nfail  = map[string]int{}
	out    = json.NewEncoder(os.Stdout)
	prop   string
	curTag []string
)

func emit(l line) {
	mu.Lock()
	out.Encode(l)
	mu.Unlock()
}

// begin announces the case being run: if the process dies, this is the
// failing input.
func begin(tags []string, f string, a ...interface{}) {
	curTag = tags
	emit(line{Begin: fmt.Sprintf(f, a...), Tags: tags})
}

func has(tags []string) bool {
	if prop == "" {
		return true
	}
	for _, t := range tags {
		if t == prop {
			return true
		}
	}
	return false
}

// fail reports a contract violated by a concrete input.
func fail(tags []string, name, f string, a ...interface{}) {
	if !has(tags) {
		return
	}
	mu.Lock()
	n := nfail[name]
	nfail[name]++
	mu.Unlock()
	if n >= 2 {
		return
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 1500 {
		d = d[:1500] + "..."
	}
	emit(line{Fail: name, Detail: d, Tags: tags})
}

func check(ok bool, tags []string, name, f string, a ...interface{}) bool {
	mu.Lock()
	evals++
	mu.Unlock()
	if !ok {
		fail(tags, name, f, a...)
	}
	return ok
}

func hex(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
