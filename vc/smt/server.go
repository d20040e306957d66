package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// A server is a z3 process that answers one query after another, each after a
// (reset): most queries take less time than starting a process.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var (
	// Persistent: ask a running z3 first.
	Persistent = os.Getenv("VC_FRESH") == ""
	idleMu     sync.Mutex
	idle       []*server
)

func startServer() *server {
	s := &server{cmd: exec.Command("z3-new", "-in")}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil
	}
	if s.cmd.Start() != nil {
		return nil
	}
	s.in, s.out = in, bufio.NewReader(out)
	return s
}

func (s *server) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// ask sends one query; the status is "" if there was no answer.
func (s *server) ask(body string, limit time.Duration) string {
	t := time.AfterFunc(limit+500*time.Millisecond, func() { s.cmd.Process.Kill() })
	defer t.Stop()
	go fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"<done>\")\n", limit.Milliseconds(), body)
	st := ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		switch l = strings.TrimSpace(l); l {
		case "sat", "unsat", "unknown":
			if st == "" {
				st = l
			}
		case "<done>", "\"<done>\"":
			return st
		default:
			if strings.HasPrefix(l, "(error") && st == "" {
				st = "error"
			}
		}
	}
}

// askServer asks an idle server.
func askServer(body string, limit time.Duration) string {
	idleMu.Lock()
	var s *server
	if n := len(idle); n > 0 {
		s, idle = idle[n-1], idle[:n-1]
	}
	idleMu.Unlock()
	if s == nil {
		if s = startServer(); s == nil {
			return ""
		}
	}
	st := s.ask(body, limit)
	s.n++
	if st == "" || st == "error" || s.n >= 300 {
		s.close()
		return st
	}
	idleMu.Lock()
	idle = append(idle, s)
	idleMu.Unlock()
	return st
}
