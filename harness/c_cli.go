package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C17: the command line tool

type CLICase struct {
	Src    Files    `json:"src"`
	Args   []string `json:"args"`
	Pre    Files    `json:"pre,omitempty"`  // files which exist already
	Dirs   []string `json:"dirs,omitempty"` // directories which exist already
	Full   bool     `json:"full,omitempty"` // standard output can not be written
	Buses  []string `json:"buses"`          // buses described in the main file
	Labels []string `json:"labels,omitempty"`
}

func (c *CLICase) Describe() string {
	return c.Src.String() + fmt.Sprintf("args: %q, existing files: %v, directories: %v, full: %v", c.Args, c.Pre.paths(), c.Dirs, c.Full)
}

// cliWant is what the documentation says about the arguments.
type cliWant struct {
	kind   string // help, version, fail, compile
	main   string
	file   string
	consts string
	ts     bool
	debug  bool
}

var cliFlags = []string{"-help", "-version", "-debug", "-add-timestamp"}

func cliModel(args []string) cliWant {
	w := cliWant{kind: "compile", main: "main"}
	needMain, maybePath := false, false
	known := func(a string) bool {
		for _, f := range append([]string{"-main", "-c"}, cliFlags...) {
			if a == f {
				return true
			}
		}
		return false
	}
	for i, a := range args {
		last := i == len(args)-1
		if last && (a == "-help" || a == "-version") {
			w.kind = a[1:]
			return w
		}
		switch {
		case last && needMain:
			w.kind = "fail"
			return w
		case last:
			w.file = a
			return w
		case needMain:
			w.main, needMain = a, false
		case maybePath && !known(a):
			w.consts, maybePath = a, false
		default:
			maybePath = false
			switch a {
			case "-help", "-version":
				w.kind = a[1:]
				return w
			case "-debug":
				w.debug = true
			case "-add-timestamp":
				w.ts = true
			case "-main":
				needMain = true
			case "-c":
				w.consts, maybePath = "const.json", true
			default:
				w.kind = "fail"
				return w
			}
		}
	}
	w.kind = "fail"
	return w
}

var cliCfg = GenCfg{MaxKids: 4, MaxDepth: 2, Kinds: allKinds, Types: 30, Refs: 30, Exprs: 15, Docs: 10, Values: 30, Consts: 40, MaxPkgs: 2}

func genCLI(t *rapid.T) CLICase {
	c := CLICase{Pre: Files{}}
	pr := genProgram(t, cliCfg)
	p := pr.Prog.copy()
	mf := p.mainFile()
	name := []string{"main", "main", "tb", "Main", "main2", "bus_under_test"}[intRange(0, 5).Draw(t, "name")]
	for _, it := range mf.Items {
		if it.Def != nil && it.Def.Name == "main" && !it.Def.IsType {
			it.Def.Name = name
		}
	}
	c.Buses = []string{name}
	if chance(t, 40, "second") {
		n := "second"
		if name != "main" && chance(t, 50, "main") {
			n = "main"
		}
		it := Item{Def: &Def{Name: n, Type: "bus", Props: []Prop{{"width", eInt(int64(intRange(3, 40).Draw(t, "w")))}},
			Items: []Item{{Def: &Def{Name: "only", Type: "status", Props: []Prop{{"width", eInt(3)}}}}}}}
		at := intRange(0, len(mf.Items)).Draw(t, "at")
		mf.Items = append(mf.Items[:at], append([]Item{it}, mf.Items[at:]...)...)
		c.Buses = append(c.Buses, n)
	}
	file := []string{"bus.fbd", "bus.fbd", "./bus.fbd", "my bus.fbd", "b.fbd", "dir/main.fbd", "a=b.fbd"}[intRange(0, 6).Draw(t, "file")]
	c.Src = p.render(canonStyle)
	if file != "bus.fbd" {
		c.Src[filepath.Clean(file)] = c.Src["bus.fbd"]
		if filepath.Clean(file) != "bus.fbd" {
			delete(c.Src, "bus.fbd")
		}
	}

	// Options in any order, some of them more than once.
	type opt []string
	opts := []opt{}
	labels := map[string]bool{}
	if chance(t, 45, "ts") {
		opts = append(opts, opt{"-add-timestamp"})
	}
	if chance(t, 30, "debug") {
		opts = append(opts, opt{"-debug"})
	}
	if chance(t, 10, "again") && len(opts) > 0 {
		opts = append(opts, opts[0])
	}
	if name != "main" || chance(t, 40, "withmain") {
		n := c.Buses[intRange(0, len(c.Buses)-1).Draw(t, "which")]
		if chance(t, 8, "unknown bus") {
			n = []string{"nobody", "Second", "mai", "only"}[intRange(0, 3).Draw(t, "nobody")]
		}
		if !chance(t, 5, "dropmain") {
			opts = append(opts, opt{"-main", n})
			if chance(t, 10, "twice") {
				opts = append(opts, opt{"-main", c.Buses[0]})
			}
		}
	}
	for k := 0; k < 2 && chance(t, []int{60, 10}[k], "c"); k++ {
		o := opt{"-c"}
		switch intRange(0, 7).Draw(t, "cpath") {
		case 0, 1, 2:
		case 3:
			o = append(o, "out.json")
		case 4:
			o = append(o, "results/the consts.txt")
			c.Dirs = append(c.Dirs, "results")
		case 5:
			o = append(o, "old.json")
			c.Pre["old.json"] = strings.Repeat("old content\n", 400)
		case 6:
			o = append(o, "const.json")
			c.Pre["const.json"] = strings.Repeat("{", 5000)
		case 7:
			if chance(t, 50, "uncreatable") {
				o = append(o, []string{"missing/dir/c.json", "adir"}[intRange(0, 1).Draw(t, "unc")])
				c.Dirs = append(c.Dirs, "adir")
				labels["constants can not be written"] = true
			}
		}
		opts = append(opts, o)
	}
	switch intRange(0, 13).Draw(t, "special") {
	case 0:
		opts = append(opts, opt{"-help"})
	case 1:
		opts = append(opts, opt{"-version"})
	case 2:
		opts = append(opts, opt{[]string{"-foo", "--debug", "-Debug", "-mains", "extra.fbd", "-", "-C", "-add_timestamp", "-h", "main"}[intRange(0, 9).Draw(t, "bogus")]})
		labels["unknown option"] = true
	}
	if len(opts) > 1 {
		opts = rapid.Permutation(opts).Draw(t, "order")
	}
	for _, o := range opts {
		c.Args = append(c.Args, o...)
	}
	// An unknown word after -c is a path.
	for i := 0; i+1 < len(c.Args); i++ {
		if c.Args[i] == "-c" && strings.HasPrefix(c.Args[i+1], "-") {
			switch c.Args[i+1] {
			case "-main", "-c", "-help", "-version", "-debug", "-add-timestamp":
			default:
				c.Args = append(c.Args[:i+1], append([]string{"given.json"}, c.Args[i+1:]...)...)
			}
		}
	}
	switch intRange(0, 15).Draw(t, "end") {
	case 0:
		labels["no file"] = true
	case 1:
		c.Args = append(c.Args, []string{"nofile.fbd", "dir2", "bus", "nodir/bus.fbd"}[intRange(0, 3).Draw(t, "missing")])
		c.Dirs = append(c.Dirs, "dir2")
		labels["missing file"] = true
	case 2:
		c.Args = append(c.Args, []string{"-help", "-version", "-main"}[intRange(0, 2).Draw(t, "lastopt")])
	case 3:
		c.Args = append(c.Args, "-main", file)
		labels["no file"] = true
	case 4:
		c.Args = append(c.Args, file)
		c.Full = chance(t, 50, "full")
	default:
		c.Args = append(c.Args, file)
	}
	c.Labels = sortedKeys(labels)
	return c
}

func tree(d string) map[string]string {
	out := map[string]string{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(d, p)
		if fi.IsDir() {
			out[r] = "directory"
		} else {
			b, _ := os.ReadFile(p)
			out[r] = "file " + string(b)
		}
		return nil
	})
	return out
}

// treeDiff lists paths which differ.
func treeDiff(a, b map[string]string) []string {
	ds := []string{}
	for p, s := range a {
		if b[p] != s {
			ds = append(ds, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			ds = append(ds, p)
		}
	}
	sort.Strings(ds)
	return ds
}

// runFull runs the compiler with a standard output which can not be written.
func (e *Env) runFull(dir string, args ...string) Out {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	must(err)
	defer f.Close()
	cmd := exec.Command(e.fbdl, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8"}
	cmd.Stdout = f
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		return Out{Err: err.Error()}
	}
	timer := time.AfterFunc(dfltTimeout, func() { cmd.Process.Kill() })
	cmd.Wait()
	o := Out{Stderr: se.Bytes(), Code: cmd.ProcessState.ExitCode()}
	if !timer.Stop() {
		o.Timeout = true
	}
	return o
}

func runCLI(env *Env, c *CLICase) Result {
	w := cliModel(c.Args)
	d := env.Dir(c.Src)
	defer os.RemoveAll(d)
	for _, x := range c.Dirs {
		must(os.MkdirAll(filepath.Join(d, x), 0o755))
	}
	writeFiles(d, c.Pre)

	// The reference: plain invocation, and the library.
	var ref Out
	if w.kind == "compile" {
		if _, ok := c.Src[filepath.Clean(w.file)]; !ok {
			w.kind = "fail"
		}
		known := false
		for _, b := range c.Buses {
			known = known || b == w.main
		}
		if !known {
			w.kind = "fail"
		}
		if w.consts != "" {
			p := filepath.Join(d, w.consts)
			if fi, err := os.Stat(filepath.Dir(p)); err != nil || !fi.IsDir() {
				w.kind = "fail"
			}
			if fi, err := os.Stat(p); err == nil && fi.IsDir() {
				w.kind = "fail"
			}
		}
	}
	if w.kind == "compile" {
		a := []string{"-main", w.main}
		if w.ts {
			a = append(a, "-add-timestamp")
		}
		ref = env.Run(d, append(a, w.file)...)
		if s := ref.infra(); s != "" {
			return Result{Infra: s}
		}
		if ref.Code != 0 {
			return fail("valid description is rejected: %s", ref.brief())
		}
	}
	c.Full = c.Full && w.kind == "compile"
	before := tree(d)
	var o Out
	if c.Full {
		o = env.runFull(d, c.Args...)
	} else {
		o = env.Run(d, c.Args...)
	}
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	after := tree(d)
	changed := treeDiff(before, after)
	labels := append([]string{w.kind}, c.Labels...)
	if o.Crashed() {
		return fail("arguments %q: crash: %s", c.Args, o.brief())
	}
	if c.Full {
		if o.Code == 0 {
			return fail("arguments %q: exit status is 0 although the result can not be written", c.Args)
		}
		if len(o.Stderr) == 0 {
			return fail("arguments %q: fails without any message", c.Args)
		}
		return Result{NonTrivial: true, Labels: append(labels, "full output")}
	}
	if w.kind != "compile" && len(changed) > 0 {
		return fail("arguments %q (%s): files changed: %v", c.Args, w.kind, changed)
	}
	switch w.kind {
	case "fail":
		if o.Code == 0 {
			return fail("arguments %q: exit status is 0, want failure", c.Args)
		}
		if len(o.Stdout) > 0 {
			return fail("arguments %q: fails but writes to standard output: %.200s", c.Args, o.Stdout)
		}
		if len(bytes.TrimSpace(o.Stderr)) == 0 {
			return fail("arguments %q: fails without any message", c.Args)
		}
		return Result{NonTrivial: true, Labels: labels}
	case "help", "version":
		if o.Code != 0 {
			return fail("arguments %q: fails: %s", c.Args, o.brief())
		}
		s := string(o.Stdout)
		if w.kind == "help" {
			for _, x := range append([]string{"-main", "-c", "Usage"}, cliFlags...) {
				if !strings.Contains(s, x) {
					return fail("arguments %q: there is no %s in the help:\n%s", c.Args, x, s)
				}
			}
		} else if n := len(strings.TrimSpace(s)); n == 0 || n > 100 || strings.Contains(strings.TrimSpace(s), "\n") || strings.Contains(s, "{") {
			return fail("arguments %q: not a version: %.300s", c.Args, s)
		}
		return Result{NonTrivial: len(c.Args) > 1, Labels: labels}
	}
	// Compiled.
	if o.Code != 0 {
		return fail("arguments %q: fails: %s", c.Args, o.brief())
	}
	if len(o.Stderr) > 0 && !w.debug {
		return fail("arguments %q: messages without the debug option: %.300s", c.Args, o.Stderr)
	}
	if len(o.Stderr) == 0 && w.debug {
		return fail("arguments %q: there are no debug messages", c.Args)
	}
	got, err := noTimestampValue(o.Stdout)
	if err != nil {
		return fail("arguments %q: standard output is not one JSON object: %v", c.Args, err)
	}
	want, err := noTimestampValue(ref.Stdout)
	if err != nil {
		return fail("standard output is not one JSON object: %v", err)
	}
	if !bytes.Equal(got, want) {
		return fail("arguments %q: result differs from the one of the plain invocation: %s", c.Args, sameJSON(want, got))
	}
	if !w.ts && !bytes.Equal(o.Stdout, ref.Stdout) {
		return fail("arguments %q: text of the result differs from the one of the plain invocation", c.Args)
	}
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return fail("arguments %q: %v", c.Args, err)
	}
	if bus.Name != w.main {
		return fail("arguments %q: the bus is %s, want %s", c.Args, bus.Name, w.main)
	}
	if (bus.static("TIMESTAMP") != nil) != w.ts {
		return fail("arguments %q: timestamp present: %v, want %v", c.Args, !w.ts, w.ts)
	}
	var consts []byte
	wantChanged := []string{}
	if w.consts != "" {
		wantChanged = append(wantChanged, filepath.Clean(w.consts))
		consts = []byte(strings.TrimPrefix(after[filepath.Clean(w.consts)], "file "))
		labels = append(labels, "constants")
	}
	if fmt.Sprint(changed) != fmt.Sprint(wantChanged) {
		return fail("arguments %q: changed files are %v, want %v", c.Args, changed, wantChanged)
	}
	if env.lib != "" {
		rs := env.Lib(LibReq{Op: "compile", S: w.file, S2: w.main, B: w.ts, Dir: d})
		switch {
		case rs.Hang:
			return Result{Infra: "library helper does not answer"}
		case rs.Died != "" || rs.Panic != "" || !rs.OK:
			return fail("library does not compile what the tool compiles: %s%s%s", rs.Died, rs.Panic, rs.Err)
		}
		lb, err := noTimestampValue(rs.J)
		if err != nil {
			return fail("result of the library: %v", err)
		}
		if !bytes.Equal(got, lb) {
			return fail("arguments %q: result differs from the one of the library: %s", c.Args, sameJSON(lb, got))
		}
		if w.consts != "" {
			a := bytes.Buffer{}
			if err := json.Compact(&a, consts); err != nil {
				return fail("arguments %q: constants are not JSON: %v", c.Args, err)
			}
			if !bytes.Equal(a.Bytes(), rs.J2) {
				return fail("arguments %q: constants differ from the ones of the library: %s", c.Args, sameJSON(rs.J2, a.Bytes()))
			}
		}
	} else if w.consts != "" && !json.Valid(consts) {
		return fail("arguments %q: constants are not JSON", c.Args)
	}
	return Result{NonTrivial: len(c.Args) > 1, Labels: labels}
}

// ---------------------------------------------------------------------------
// The value of the timestamp is the time of the compilation.

type NowCase struct {
	Width int64 `json:"w"`
}

func (c *NowCase) Describe() string { return fmt.Sprintf("bus width %d", c.Width) }

func genNow(t *rapid.T) NowCase { return NowCase{int64(intRange(1, 130).Draw(t, "w"))} }

func runNow(env *Env, c *NowCase) Result {
	src := Files{"bus.fbd": fmt.Sprintf("main bus\n  width = %d\n", c.Width)}
	a := time.Now().Unix()
	o := env.Compile(src, "bus.fbd", "-add-timestamp")
	b := time.Now().Unix()
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code != 0 {
		return fail("valid description is rejected: %s", o.brief())
	}
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return fail("%v", err)
	}
	ts := bus.static("TIMESTAMP")
	if ts == nil {
		return fail("there is no timestamp")
	}
	w := min(c.Width, 36)
	if ts.Width != w {
		return fail("timestamp on a bus of width %d has width %d", c.Width, ts.Width)
	}
	if b-a > 60 {
		return Result{Skip: true}
	}
	got := canonBits(ts.InitValue, w)
	for x := a; x <= b; x++ {
		s := fmt.Sprintf("%0*b", w, uint64(x)&(1<<uint(w)-1))
		if s == got {
			return Result{NonTrivial: true, Labels: []string{"timestamp"}}
		}
	}
	return fail("timestamp on a bus of width %d is %s, time is between %d and %d", c.Width, ts.InitValue, a, b)
}

func init() {
	register("C17", "random descriptions with one or two buses under random file names, compiled with random sequences of options (flags, repeated flags, main bus names, constants files: default, named, in directories, existing, uncreatable; unknown options; missing values, files and buses; output that can not be written), compared with a model of the documented arguments and with the library; all files of the working directory are compared before and after; non-trivial: at least one option besides the file, or a failure",
		sub("options", 11000, 120000, genCLI, runCLI),
		sub("timestamp-value", 400, 4000, genNow, runNow),
	)
}
