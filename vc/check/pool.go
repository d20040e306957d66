package check

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"time"
)

// Worker serves units named on stdin, one JSON result per line.
func Worker(units func() (*Env, []*Unit, error)) {
	env, us, err := units()
	enc := json.NewEncoder(os.Stdout)
	if err != nil {
		enc.Encode(UnitResult{Unit: "", Unsupported: err.Error()})
		return
	}
	by := map[string]*Unit{}
	for _, u := range us {
		by[u.ID] = u
	}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		u := by[in.Text()]
		if u == nil {
			enc.Encode(UnitResult{Unit: in.Text(), Unsupported: "no such unit"})
			continue
		}
		enc.Encode(env.RunUnit(u))
	}
}

// UnitLimit bounds the time of one unit, TotalLimit that of all of a check:
// what takes longer is not decided by proof.
var (
	UnitLimit  = 240 * time.Second
	TotalLimit = 480 * time.Second
	Started    = time.Now()
)

// RunUnits distributes unit ids over worker processes started with args.
func RunUnits(ids []string, args []string, n int) []UnitResult {
	if n > len(ids) {
		n = len(ids)
	}
	next := make(chan string)
	var mu sync.Mutex
	var out []UnitResult
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var w *bufio.Writer
			var dec *json.Decoder
			start := func() error {
				cmd = exec.Command(os.Args[0], args...)
				cmd.Stderr = os.Stderr
				ip, err := cmd.StdinPipe()
				if err != nil {
					return err
				}
				op, err := cmd.StdoutPipe()
				if err != nil {
					return err
				}
				w = bufio.NewWriter(ip)
				dec = json.NewDecoder(bufio.NewReaderSize(op, 1<<20))
				return cmd.Start()
			}
			for id := range next {
				if cmd == nil {
					if err := start(); err != nil {
						cmd = nil
					}
				}
				var r UnitResult
				ok := cmd != nil
				late := false
				if ok {
					limit := UnitLimit
					if l := TotalLimit - time.Since(Started); l < limit {
						limit = l
					}
					if limit <= 0 {
						limit = time.Millisecond
					}
					p := cmd.Process
					t := time.AfterFunc(limit, func() { p.Kill() })
					fmt.Fprintln(w, id)
					ok = w.Flush() == nil && dec.Decode(&r) == nil
					late = !t.Stop()
					ok = ok && !late
				}
				if !ok {
					r = UnitResult{Unit: id, Unsupported: "verifier process died"}
					if late {
						r.Unsupported = "the proof takes too long"
					}
					if cmd != nil {
						cmd.Process.Kill()
						cmd.Wait()
						cmd = nil
					}
				}
				if r.Unit == "" {
					r.Unit = id
				}
				mu.Lock()
				out = append(out, r)
				mu.Unlock()
			}
			if cmd != nil {
				cmd.Process.Kill()
				cmd.Wait()
			}
		}()
	}
	for _, id := range ids {
		next <- id
	}
	close(next)
	wg.Wait()
	return out
}
