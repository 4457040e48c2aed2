// Package sup runs cases in worker processes, so that a panic in a background
// goroutine, a hang or runaway memory of the code under test is an
// observation and not the end of the run.
package sup

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Result of one case.
type Result struct {
	Out   []byte // the worker's answer, nil if there is none
	Fault string // "", "panic: ...", "hang", "skipped"
}

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) first() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return First(string(t.b))
}

// First finds what matters in what a process said when it ended.
func First(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "WARNING: DATA RACE") {
			for _, x := range ls[i+1:] {
				if strings.HasPrefix(x, "  ") && strings.Contains(x, "()") && len(l) < 600 {
					l += " " + strings.TrimSpace(x)
				}
			}
			return l
		}
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return "worker ended: " + s
}

// Exe and Args say how to start a worker.
type Pool struct {
	Exe     string
	Args    []string
	N       int
	Timeout time.Duration
	Env     []string
}

func (p *Pool) start() (*worker, error) {
	c := exec.Command(p.Exe, p.Args...)
	c.Env = append(os.Environ(), p.Env...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	c.Stderr = t
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &worker{c, in, bufio.NewReaderSize(out, 1<<20), t}, nil
}

func (w *worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type ans struct {
	line []byte
	err  error
}

func (w *worker) ask(line []byte, timeout time.Duration) ([]byte, string) {
	ch := make(chan ans, 1)
	go func() {
		if _, err := w.in.Write(append(bytes.TrimRight(line, "\n"), '\n')); err != nil {
			// the reader below sees the end of the process
			_ = err
		}
		l, err := w.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			w.cmd.Wait()
			return nil, w.errb.first()
		}
		return a.line, ""
	case <-time.After(timeout):
		return nil, "hang"
	}
}

// Run runs all cases.
func (p *Pool) Run(cases [][]byte) []Result {
	res := make([]Result, len(cases))
	var next, faults int
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := p.N
	if n == 0 {
		n = runtime.NumCPU()
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for {
				mu.Lock()
				i := next
				next++
				stop := faults > 12
				mu.Unlock()
				if i >= len(cases) {
					return
				}
				if stop {
					res[i] = Result{Fault: "skipped"}
					continue
				}
				for try := 0; ; try++ {
					if w == nil {
						var err error
						if w, err = p.start(); err != nil {
							fmt.Fprintln(os.Stderr, "cannot start worker:", err)
							os.Exit(3)
						}
					}
					to := p.Timeout
					if try > 0 {
						to *= 2
					}
					line, fault := w.ask(cases[i], to)
					if fault == "" {
						res[i] = Result{Out: line}
						break
					}
					w.kill()
					w = nil
					if fault == "hang" && try == 0 {
						continue // once more, with more time
					}
					if strings.Contains(fault, "worker ended: ") && try < 2 {
						continue // not a panic: killed from outside?
					}
					res[i] = Result{Fault: fault}
					mu.Lock()
					faults++
					mu.Unlock()
					break
				}
			}
		}()
	}
	wg.Wait()
	return res
}

// Serve is the worker's side.
func Serve(f func(line []byte) []byte) {
	debug.SetGCPercent(200)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "panic: memory use grows without bound")
				os.Exit(4)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if len(l) > 0 {
			out.Write(bytes.TrimRight(f(l), "\n"))
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}
