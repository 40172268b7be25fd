package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is what an oracle says about one case.
type Result struct {
	NonTrivial bool
	Labels     []string
	Skip       bool   // the case does not belong to the domain (counted as trivial)
	Fail       string // violation, empty if the property held
	Infra      string // the harness could not decide
}

func fail(format string, a ...any) Result {
	return Result{NonTrivial: true, Fail: fmt.Sprintf(format, a...)}
}

// Sub is one generated check. C is a JSON-serialisable case.
type Sub struct {
	Name            string
	Quick, Thorough int
	Gen             func(t *rapid.T) any
	New             func() any
	Run             func(env *Env, c any) Result
	NeedLib         bool
	NeedRace        bool                      // needs the compiler built with the race detector
	Extra           func(env *Env, w *Worker) // non-rapid exploration (fixed enumeration), run on shard 0..n-1
}

func sub[C any](name string, quick, thorough int, gen func(t *rapid.T) C, run func(env *Env, c *C) Result) *Sub {
	return &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) any { c := gen(t); return &c },
		New: func() any { return new(C) },
		Run: func(env *Env, c any) Result { return run(env, c.(*C)) },
	}
}

type Property struct {
	ID   string
	Rule string
	Subs []*Sub
}

var props = map[string]*Property{}

func register(id, rule string, subs ...*Sub) {
	props[id] = &Property{ID: id, Rule: rule, Subs: subs}
}

func propIDs() []string {
	ids := []string{}
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func findSub(prop, name string) *Sub {
	if p := props[prop]; p != nil {
		for _, s := range p.Subs {
			if s.Name == name {
				return s
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// Known findings

type Known struct {
	Property string `json:"property"`
	Sub      string `json:"sub"`
	Match    string `json:"match"` // regular expression on the failure message
	Case     string `json:"case"`  // regular expression on the serialised case
	What     string `json:"what"`
}

func loadKnown(path string) []Known {
	if path == "" {
		return nil
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	ks := []Known{}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		k := Known{}
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintf(os.Stderr, "known findings: %v\n", err)
			os.Exit(2)
		}
		ks = append(ks, k)
	}
	return ks
}

func matchKnown(ks []Known, prop, sub, msg string, c []byte) *Known {
	for i, k := range ks {
		if k.Property != prop || (k.Sub != "" && k.Sub != sub) {
			continue
		}
		if k.Match != "" && !regexp.MustCompile(k.Match).MatchString(msg) {
			continue
		}
		if k.Case != "" && !regexp.MustCompile(k.Case).Match(c) {
			continue
		}
		return &ks[i]
	}
	return nil
}

// ---------------------------------------------------------------------------
// Worker

type FailRec struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Msg      string          `json:"msg"`
	Case     json.RawMessage `json:"case"`
}

type WorkerOut struct {
	Evaluations int64            `json:"evaluations"`
	Hashes      []uint64         `json:"hashes"`
	Skipped     int64            `json:"skipped"`
	Infra       int64            `json:"infra"`
	Labels      map[string]int64 `json:"labels"`
	PerSub      map[string]int64 `json:"per_sub"`
	Samples     []string         `json:"samples"`
	Failures    []FailRec        `json:"failures"`
	Known       map[string]int64 `json:"known"`
	Harness     []string         `json:"harness"`
	Notes       []string         `json:"notes"`
	TimedOut    bool             `json:"timed_out"`
}

type Worker struct {
	out     WorkerOut
	hashes  map[uint64]bool
	prop    string
	sub     *Sub
	env     *Env
	known   []Known
	last    *FailRec
	dead    time.Time
	stop    string
	sampled map[string]int
	infraIn int
}

type tb struct {
	name   string
	failed bool
	logs   []string
}

type tbAbort struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	t.logs = append(t.logs, fmt.Sprintf(f, a...))
	if len(t.logs) > 60 {
		t.logs = t.logs[len(t.logs)-60:]
	}
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprintln(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbAbort{}) }
func (t *tb) Skip(a ...any)             { panic(tbAbort{}) }
func (t *tb) SkipNow()                  { panic(tbAbort{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(tbAbort{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(tbAbort{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbAbort{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (w *Worker) runSafe(s *Sub, c any) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			if ie, ok := p.(infraErr); ok {
				r = Result{Infra: ie.err.Error()}
				return
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r = fail("oracle could not interpret the result: %v\n%s", p, buf)
		}
	}()
	return s.Run(w.env, c)
}

// account runs and records one case. It returns a failure message or "".
func (w *Worker) account(s *Sub, c any) string {
	data, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	w.env.tick = hash64(string(data))
	r := w.runSafe(s, c)
	w.out.Evaluations++
	w.out.PerSub[s.Name]++
	if r.Infra != "" {
		w.out.Infra++
		w.infraIn++
		if len(w.out.Notes) < 5 {
			w.out.Notes = append(w.out.Notes, s.Name+": "+r.Infra)
		}
		return ""
	}
	if r.Skip {
		w.out.Skipped++
	}
	for _, l := range r.Labels {
		w.out.Labels[s.Name+":"+l]++
	}
	if r.Fail != "" {
		if k := matchKnown(w.known, w.prop, s.Name, r.Fail, data); k != nil {
			w.out.Known[k.What]++
			return ""
		}
		w.last = &FailRec{Property: w.prop, Sub: s.Name, Msg: r.Fail, Case: data}
		return r.Fail
	}
	if r.NonTrivial {
		h := hash64(s.Name, string(data))
		if !w.hashes[h] {
			w.hashes[h] = true
			n := w.sampled[s.Name]
			if n < 2 && (w.out.PerSub[s.Name] > 3 || s.Quick < 50) {
				w.sampled[s.Name]++
				smp := string(data)
				if len(smp) > 3000 {
					smp = smp[:3000] + "..."
				}
				w.out.Samples = append(w.out.Samples, s.Name+": "+smp)
			}
		}
	}
	return ""
}

func (w *Worker) over() bool {
	if time.Now().After(w.dead) {
		w.out.TimedOut = true
		return true
	}
	if w.infraIn > 3 {
		return true
	}
	return false
}

func (w *Worker) stopped() bool {
	_, err := os.Stat(w.stop)
	return err == nil
}

func (w *Worker) runSub(s *Sub, n int, seed uint64) {
	w.sub = s
	w.last = nil
	if seed == 0 {
		seed = 1
	}
	if s.Extra != nil {
		s.Extra(w.env, w)
	}
	if s.Gen == nil || n <= 0 {
		w.flushFail()
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	t := &tb{name: w.prop + "_" + s.Name}
	count := 0
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbAbort); !ok {
					t.failed = true
					t.Logf("panic: %v\n%s", p, debug.Stack())
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if w.last == nil {
				if w.over() {
					return
				}
				count++
				if count%32 == 0 && w.stopped() {
					w.dead = time.Now().Add(-time.Second)
					return
				}
			}
			c := s.Gen(rt)
			if msg := w.account(s, c); msg != "" {
				rt.Fatalf("violation")
			}
		})
	}()
	if t.failed && w.last == nil {
		keep := t.logs[:0]
		for _, l := range t.logs {
			if !strings.HasPrefix(l, "[rapid] draw ") {
				keep = append(keep, l)
			}
		}
		if t.logs = keep; len(t.logs) > 6 {
			t.logs = t.logs[len(t.logs)-6:]
		}
		w.out.Harness = append(w.out.Harness, s.Name+": "+strings.Join(t.logs, "\n"))
	}
	w.flushFail()
}

func (w *Worker) flushFail() {
	if w.last != nil {
		w.out.Failures = append(w.out.Failures, *w.last)
		os.WriteFile(w.stop, []byte("x"), 0o644)
		w.last = nil
	}
}

func cmdWorker(args []string) {
	testing.Init()
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 8, "")
	fbdl := fs.String("fbdl", "", "")
	lib := fs.String("lib", "", "")
	tokt := fs.String("tok", "", "")
	scratch := fs.String("scratch", "", "")
	outp := fs.String("out", "", "")
	stop := fs.String("stop", "", "")
	known := fs.String("known", "", "")
	only := fs.String("sub", "", "")
	scale := fs.Float64("scale", 1, "")
	deadline := fs.Int("deadline", 600, "")
	fs.Parse(args)
	flag.CommandLine.Parse(nil)

	env, err := newEnv(*fbdl, *lib, *tokt, *scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	env.shard, env.shards, env.seed, env.tier = *shard, *shards, *seed, *tier
	w := &Worker{
		prop: *prop, env: env, stop: *stop, known: loadKnown(*known),
		dead:   time.Now().Add(time.Duration(*deadline) * time.Second),
		hashes: map[uint64]bool{}, sampled: map[string]int{},
	}
	w.out.Labels = map[string]int64{}
	w.out.PerSub = map[string]int64{}
	w.out.Known = map[string]int64{}

	for _, s := range props[*prop].Subs {
		if *only != "" && s.Name != *only {
			continue
		}
		if s.NeedLib && *lib == "" {
			w.out.Notes = append(w.out.Notes, s.Name+": skipped, library helper not available")
			continue
		}
		if s.NeedRace && raceBinary() == "" {
			w.out.Notes = append(w.out.Notes, s.Name+": skipped, race detector not available")
			continue
		}
		n := s.Quick
		if *tier == "thorough" {
			n = s.Thorough
		}
		n = int(math.Ceil(float64(n) * *scale / float64(*shards)))
		sd := hash64(strconv.FormatUint(*seed, 10), *prop, s.Name, strconv.Itoa(*shard)) >> 1
		w.infraIn = 0
		w.runSub(s, n, sd)
	}
	env.Close()
	for h := range w.hashes {
		w.out.Hashes = append(w.out.Hashes, h)
	}
	data, err := json.Marshal(w.out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(*outp, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// ---------------------------------------------------------------------------
// Parent

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	fbdl := fs.String("fbdl", "", "")
	lib := fs.String("lib", "", "")
	tokt := fs.String("tok", "", "")
	scratch := fs.String("scratch", "", "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	only := fs.String("sub", "", "")
	scale := fs.Float64("scale", 1, "")
	shards := fs.Int("shards", 8, "")
	verbose := fs.Bool("v", false, "")
	buildNotes := fs.String("notes", "", "")
	fs.Parse(args)
	start := time.Now()

	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	stop := filepath.Join(*scratch, "stop")
	deadline := 500
	if *tier == "thorough" {
		deadline = 720
	}

	outs := make([]*WorkerOut, *shards)
	errs := make([]error, *shards)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wd := filepath.Join(*scratch, fmt.Sprintf("w%d", i))
			of := filepath.Join(*scratch, fmt.Sprintf("out%d.json", i))
			cmd := exec.Command(self, "worker", "-prop", *prop, "-tier", *tier,
				"-seed", strconv.FormatUint(*seed, 10), "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(*shards),
				"-fbdl", *fbdl, "-lib", *lib, "-tok", *tokt, "-scratch", wd, "-out", of, "-stop", stop,
				"-known", *known, "-sub", *only, "-scale", fmt.Sprint(*scale), "-deadline", strconv.Itoa(deadline))
			cmd.Stderr = os.Stderr
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			if err := cmd.Run(); err != nil {
				errs[i] = fmt.Errorf("worker %d: %v", i, err)
				return
			}
			data, err := os.ReadFile(of)
			if err != nil {
				errs[i] = err
				return
			}
			o := &WorkerOut{}
			if err := json.Unmarshal(data, o); err != nil {
				errs[i] = err
				return
			}
			outs[i] = o
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}

	tot := WorkerOut{Labels: map[string]int64{}, PerSub: map[string]int64{}, Known: map[string]int64{}}
	hashes := map[uint64]bool{}
	for _, o := range outs {
		tot.Evaluations += o.Evaluations
		tot.Skipped += o.Skipped
		tot.Infra += o.Infra
		tot.TimedOut = tot.TimedOut || o.TimedOut
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		for k, v := range o.Labels {
			tot.Labels[k] += v
		}
		for k, v := range o.PerSub {
			tot.PerSub[k] += v
		}
		for k, v := range o.Known {
			tot.Known[k] += v
		}
		tot.Failures = append(tot.Failures, o.Failures...)
		tot.Harness = append(tot.Harness, o.Harness...)
		for _, n := range o.Notes {
			dup := false
			for _, m := range tot.Notes {
				dup = dup || m == n
			}
			if !dup {
				tot.Notes = append(tot.Notes, n)
			}
		}
	}
	seen := map[string]int{}
	for _, o := range outs {
		for _, s := range o.Samples {
			k, _, _ := strings.Cut(s, ":")
			if seen[k] < 2 {
				seen[k]++
				tot.Samples = append(tot.Samples, s)
			}
		}
	}

	// Confirm failures outside of the library.
	violations := 0
	unconfirmed := 0
	sort.SliceStable(tot.Failures, func(i, j int) bool { return len(tot.Failures[i].Case) < len(tot.Failures[j].Case) })
	done := map[string]bool{}
	var lines []string
	for _, f := range tot.Failures {
		if done[f.Sub] {
			continue
		}
		h := hash64(f.Sub, string(f.Case))
		path := filepath.Join(*replays, fmt.Sprintf("%s-%s-%016x.json", *prop, f.Sub, h))
		os.MkdirAll(*replays, 0o755)
		data, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(path, data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness error:", err)
			os.Exit(2)
		}
		confirmed := false
		for try := 0; try < 20 && !confirmed; try++ {
			cmd := exec.Command(self, "replay", "-fbdl", *fbdl, "-lib", *lib, "-tok", *tokt,
				"-scratch", filepath.Join(*scratch, fmt.Sprintf("r%x-%d", h, try)), "-q", path)
			err := cmd.Run()
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
				confirmed = true
			}
		}
		if confirmed {
			done[f.Sub] = true
			violations++
			fmt.Printf("violation of %s found by %s: %s\n", *prop, f.Sub, f.Msg)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
		} else {
			unconfirmed++
			os.Remove(path)
			tot.Notes = append(tot.Notes, fmt.Sprintf("%s: failure did not reproduce in 20 replays: %s", f.Sub, f.Msg))
		}
	}
	for _, what := range slices.Backward(sortedKeys(tot.Known)) {
		lines = append([]string{fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, what)}, lines...)
	}

	if *evid != "" {
		rule := p.Rule
		cov := map[string]any{
			"evaluations":         tot.Evaluations,
			"distinct_nontrivial": len(hashes),
			"rule":                rule,
			"samples":             tot.Samples,
			"out_of_domain":       tot.Skipped,
			"inconclusive":        tot.Infra,
			"per_sub":             tot.PerSub,
			"labels":              tot.Labels,
			"known_findings_seen": tot.Known,
			"notes":               append(tot.Notes, strings.Fields(*buildNotes)...),
			"deadline_hit":        tot.TimedOut,
			"workers":             *shards,
		}
		ev := map[string]any{
			"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
			"coverage": cov, "wall_s": math.Round(time.Since(start).Seconds()*100) / 100, "violations": violations,
			"assumptions": []string{"generated cases only; absence of violations is not a proof"},
		}
		data, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evid), 0o755)
		if err := os.WriteFile(*evid, append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness error:", err)
			os.Exit(2)
		}
	}
	if *verbose {
		ks := []string{}
		for k := range tot.Labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-50s %d\n", k, tot.Labels[k])
		}
		for k, v := range tot.PerSub {
			fmt.Printf("  sub %s: %d\n", k, v)
		}
		for _, n := range tot.Notes {
			fmt.Println("  note:", n)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d out of domain, %d inconclusive, %d violations, %.1fs\n",
		*prop, *tier, tot.Evaluations, len(hashes), tot.Skipped, tot.Infra, violations, time.Since(start).Seconds())
	if violations > 0 {
		os.Exit(1)
	}
	if len(tot.Harness) > 0 {
		fmt.Fprintln(os.Stderr, "harness error:", tot.Harness[0])
		os.Exit(2)
	}
	if unconfirmed > 0 {
		fmt.Fprintln(os.Stderr, "note: unconfirmed failures were not reported:", unconfirmed)
	}
	if tot.Evaluations > 0 && tot.Infra > 3 && tot.Infra*10 > tot.Evaluations {
		fmt.Fprintln(os.Stderr, "harness error: too many inconclusive cases:", strings.Join(tot.Notes, "; "))
		os.Exit(2)
	}
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	fbdl := fs.String("fbdl", "", "")
	lib := fs.String("lib", "", "")
	tokt := fs.String("tok", "", "")
	scratch := fs.String("scratch", "", "")
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	data, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := FailRec{}
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s := findSub(f.Property, f.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown check", f.Property, f.Sub)
		os.Exit(2)
	}
	c := s.New()
	if err := json.Unmarshal(f.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	env, err := newEnv(*fbdl, *lib, *tokt, *scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	env.shards = 1
	w := &Worker{prop: f.Property, env: env}
	r := w.runSafe(s, c)
	env.Close()
	if !*quiet {
		if v, ok := c.(interface{ Describe() string }); ok {
			fmt.Println(v.Describe())
		}
	}
	if r.Fail != "" {
		if !*quiet {
			fmt.Printf("%s/%s: %s\n", f.Property, f.Sub, r.Fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, fs.Arg(0))
		}
		os.Exit(1)
	}
	if r.Infra != "" {
		fmt.Fprintln(os.Stderr, "inconclusive:", r.Infra)
		os.Exit(2)
	}
	if !*quiet {
		fmt.Println("the property holds on this case")
	}
}
