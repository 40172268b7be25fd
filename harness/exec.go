package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Env gives oracles access to the code under test.
type Env struct {
	fbdl, lib, tok string
	scratch        string
	shard, shards  int
	seed           uint64
	tier           string
	tick           uint64
	n              int
	srv            *server
}

func newEnv(fbdl, lib, tok, scratch string) (*Env, error) {
	if scratch == "" {
		d, err := os.MkdirTemp("", "vh-")
		if err != nil {
			return nil, err
		}
		scratch = d
	}
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		return nil, err
	}
	return &Env{fbdl: fbdl, lib: lib, tok: tok, scratch: scratch, shards: 1}, nil
}

func (e *Env) Close() {
	if e.srv != nil {
		e.srv.kill()
	}
	os.RemoveAll(e.scratch)
}

// Files is a tree of files, relative path to content.
type Files map[string]string

func (f Files) paths() []string {
	ps := []string{}
	for p := range f {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func (f Files) String() string {
	b := strings.Builder{}
	for _, p := range f.paths() {
		fmt.Fprintf(&b, "--- %s\n%s\n", p, f[p])
	}
	return b.String()
}

// Dir makes a new directory with given files.
func (e *Env) Dir(files Files) string {
	e.n++
	d := filepath.Join(e.scratch, fmt.Sprintf("c%d", e.n))
	must(os.MkdirAll(d, 0o755))
	writeFiles(d, files)
	return d
}

func writeFiles(d string, files Files) {
	for p, c := range files {
		full := filepath.Join(d, p)
		if strings.Contains(p, "/") {
			must(os.MkdirAll(filepath.Dir(full), 0o755))
		}
		must(os.WriteFile(full, []byte(c), 0o644))
	}
}

func must(err error) {
	if err != nil {
		panic(infraErr{err})
	}
}

type infraErr struct{ err error }

type Out struct {
	Code    int
	Signal  bool
	Timeout bool
	Err     string // could not run at all
	Stdout  []byte
	Stderr  []byte
	MaxRSS  int64 // kB
}

const dfltTimeout = 20 * time.Second

// Run runs the compiler in directory dir.
func (e *Env) Run(dir string, args ...string) Out {
	return e.RunT(dfltTimeout, dir, nil, args...)
}

func (e *Env) RunT(timeout time.Duration, dir string, env []string, args ...string) Out {
	return e.RunBin(e.fbdl, timeout, dir, env, args...)
}

// raceBinary is the compiler built with the race detector, if there is one.
func raceBinary() string { return os.Getenv("VH_RACE") }

func (e *Env) RunBin(bin string, timeout time.Duration, dir string, env []string, args ...string) Out {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8"}, env...)
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	o := Out{Stdout: so.Bytes(), Stderr: se.Bytes()}
	if cmd.ProcessState != nil {
		if ru, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok {
			o.MaxRSS = ru.Maxrss
		}
	}
	if ctx.Err() != nil {
		o.Timeout = true
		return o
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		o.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.Signal = true
		}
	} else if err != nil {
		o.Err = err.Error()
	}
	return o
}

// Crashed tells whether the process crashed instead of exiting orderly.
func (o Out) Crashed() bool {
	return o.Signal || (o.Code != 0 && (bytes.Contains(o.Stderr, []byte("goroutine ")) || bytes.HasPrefix(o.Stderr, []byte("panic:")) || bytes.Contains(o.Stderr, []byte("\npanic:")) || o.Code == 2))
}

func (o Out) infra() string {
	if o.Err != "" {
		return "cannot run the compiler: " + o.Err
	}
	if o.Timeout {
		return "compiler timed out"
	}
	return ""
}

func (o Out) brief() string {
	s := strings.TrimSpace(string(o.Stderr))
	if len(s) > 800 {
		s = s[:800] + "..."
	}
	return fmt.Sprintf("exit %d, stderr: %s", o.Code, s)
}

// CompileFiles writes files, compiles mainFile and removes the files.
func (e *Env) Compile(files Files, mainFile string, args ...string) Out {
	d := e.Dir(files)
	defer os.RemoveAll(d)
	return e.Run(d, append(args, mainFile)...)
}

// ---------------------------------------------------------------------------
// Library helper process

type server struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
}

func (s *server) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

type LibReq struct {
	Op   string    `json:"op"`
	S    string    `json:"s,omitempty"`
	S2   string    `json:"s2,omitempty"`
	N    []int64   `json:"n,omitempty"`
	B    bool      `json:"b,omitempty"`
	Dir  string    `json:"dir,omitempty"`
	Rngs [][]int64 `json:"rngs,omitempty"`
}

type LibResp struct {
	OK    bool            `json:"ok"`
	Err   string          `json:"err,omitempty"`
	Panic string          `json:"panic,omitempty"`
	Died  string          `json:"-"`
	Hang  bool            `json:"-"`
	S     string          `json:"s,omitempty"`
	N     []int64         `json:"n,omitempty"`
	U     uint64          `json:"u,omitempty"`
	J     json.RawMessage `json:"j,omitempty"`
	J2    json.RawMessage `json:"j2,omitempty"`
}

func (e *Env) startLib() error {
	cmd := exec.Command(e.lib)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8"}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	se := &bytes.Buffer{}
	cmd.Stderr = se
	if err := cmd.Start(); err != nil {
		return err
	}
	e.srv = &server{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), stderr: se}
	return nil
}

// NewLib forces a new library process.
func (e *Env) NewLib() {
	if e.srv != nil {
		e.srv.kill()
		e.srv = nil
	}
}

// Lib sends a request to the library helper process.
func (e *Env) Lib(rq LibReq) LibResp {
	if e.srv == nil {
		if err := e.startLib(); err != nil {
			return LibResp{Hang: true, Died: err.Error()}
		}
	}
	data, err := json.Marshal(rq)
	must(err)
	e.srv.in.Write(append(data, '\n'))
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	r := e.srv.out
	go func() {
		l, err := r.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			e.srv.in.Close()
			e.srv.cmd.Wait()
			d := e.srv.stderr.String()
			e.srv = nil
			return LibResp{Died: "process exited: " + d}
		}
		resp := LibResp{}
		if err := json.Unmarshal(a.line, &resp); err != nil {
			return LibResp{Died: "bad answer: " + string(a.line)}
		}
		return resp
	case <-time.After(30 * time.Second):
		e.srv.kill()
		e.srv = nil
		return LibResp{Hang: true}
	}
}
