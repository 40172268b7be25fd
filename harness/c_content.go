package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"

	"pgregory.net/rapid"
)

// ContentCase is a description with its expected meaning.
type ContentCase struct {
	Src       Files              `json:"src"`
	Want      *M                 `json:"want"`
	Consts    map[string]*Consts `json:"consts"`
	Timestamp bool               `json:"timestamp,omitempty"`
	Labels    []string           `json:"labels,omitempty"`
	NT        bool               `json:"nt,omitempty"`
	Refusable bool               `json:"refusable,omitempty"` // has an array of a kind the compiler may refuse arrays of
}

func (c *ContentCase) Describe() string { return c.Src.String() }

func genContent(cfg GenCfg) func(t *rapid.T) ContentCase {
	return func(t *rapid.T) ContentCase {
		pr := genProgram(t, cfg)
		c := ContentCase{Want: pr.Bus, Consts: pr.Consts}
		c.Src = pr.Prog.render(Style{Ch: drawChooser(t)})
		c.Timestamp = chance(t, 15, "timestamp")
		c.Labels, c.NT = pr.stats()
		c.Refusable = cfg.AnyArray && refusable(pr.Bus)
		return c
	}
}

// refusable tells if there are irq, mask or non-atomic config arrays with addresses of their own.
func refusable(m *M) bool {
	if m.Kind == "group" {
		return false
	}
	if m.IsArray && (m.Kind == "irq" || m.Kind == "mask" || m.Kind == "config" && !m.Atomic) {
		return true
	}
	for _, k := range m.Kids {
		if refusable(k) {
			return true
		}
	}
	return false
}

// normConsts makes empty containers equal to missing ones.
func normConsts(c *Consts) Consts {
	n := *c
	if len(n.Bools) == 0 {
		n.Bools = nil
	}
	if len(n.BoolLists) == 0 {
		n.BoolLists = nil
	}
	if len(n.Floats) == 0 {
		n.Floats = nil
	}
	if len(n.Ints) == 0 {
		n.Ints = nil
	}
	if len(n.IntLists) == 0 {
		n.IntLists = nil
	}
	if len(n.Strings) == 0 {
		n.Strings = nil
	}
	return n
}

func diffConsts(want, got *Consts) string {
	w, g := normConsts(want), normConsts(got)
	if len(w.Floats) == len(g.Floats) {
		same := true
		for k, f := range w.Floats {
			h, ok := g.Floats[k]
			same = same && ok && (f == h || math.Abs(f-h) <= 1e-12*math.Abs(f))
		}
		if same {
			w.Floats, g.Floats = nil, nil
		}
	}
	if reflect.DeepEqual(w, g) {
		return ""
	}
	a, _ := json.Marshal(w)
	b, _ := json.Marshal(g)
	return fmt.Sprintf("want constants %s, got %s", a, b)
}

func diffPkgConsts(want map[string]*Consts, data []byte) string {
	var got map[string]*struct{ Consts Consts }
	if err := strictUnmarshal(data, &got); err != nil {
		return fmt.Sprintf("constants file is not valid: %v", err)
	}
	for k, w := range want {
		g := got[k]
		if g == nil {
			return fmt.Sprintf("package %s is missing in the constants file", k)
		}
		if d := diffConsts(w, &g.Consts); d != "" {
			return fmt.Sprintf("package %s: %s", k, d)
		}
	}
	for k := range got {
		if want[k] == nil {
			return fmt.Sprintf("unexpected package %s in the constants file", k)
		}
	}
	return ""
}

// compileWithConsts compiles files and reads constants file as well.
func compileWithConsts(env *Env, src Files, args ...string) (Out, []byte) {
	d := env.Dir(src)
	defer os.RemoveAll(d)
	a := append([]string{"-c", "the-consts.json"}, args...)
	o := env.Run(d, append(a, "bus.fbd")...)
	data, _ := os.ReadFile(filepath.Join(d, "the-consts.json"))
	// Packages sharing a name are told apart by their paths.
	return o, bytes.ReplaceAll(data, []byte(d+"/"), []byte("./"))
}

func runContent(env *Env, c *ContentCase) Result {
	args := []string{}
	if c.Timestamp {
		args = append(args, "-add-timestamp")
	}
	o, consts := compileWithConsts(env, c.Src, args...)
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code != 0 && c.Refusable && o.Code == 1 && len(o.Stdout) == 0 && bytes.Contains(o.Stderr, []byte("array")) {
		return Result{Skip: true, Labels: []string{"refused array"}}
	}
	if o.Code != 0 {
		return fail("valid description is not compiled: %s", o.brief())
	}
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return fail("result is not valid: %v", err)
	}
	got := bus.M("bus")
	if d := dropGenerated(got, c.Timestamp); d != "" {
		return fail("%s", d)
	}
	if d := diffM(c.Want, got, ""); d != "" {
		return fail("%s", d)
	}
	if d := diffPkgConsts(c.Consts, consts); d != "" {
		return fail("%s", d)
	}
	return Result{NonTrivial: c.NT, Labels: c.Labels}
}

// plainCfg describes everything inline, with all optional properties likely.
var plainCfg = GenCfg{MaxKids: 8, MaxDepth: 3, Kinds: allKinds, Types: 0, Refs: 0, Exprs: 0, Docs: 45, Values: 70, Consts: 30, MaxPkgs: 0, AnyName: true}

// typedCfg uses types heavily.
var typedCfg = GenCfg{MaxKids: 5, MaxDepth: 3, Kinds: allKinds, Types: 75, Refs: 55, Exprs: 25, Docs: 5, Values: 40, Consts: 15, MaxPkgs: 2, Extra: 4}

func sameJSON(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	var x, y any
	if json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil {
		return diffAny(x, y, "")
	}
	return "results are different"
}

func diffAny(x, y any, path string) string {
	switch a := x.(type) {
	case map[string]any:
		b, ok := y.(map[string]any)
		if !ok {
			break
		}
		for k := range a {
			if _, ok := b[k]; !ok {
				return path + "." + k + " is missing in the second result"
			}
			if d := diffAny(a[k], b[k], path+"."+k); d != "" {
				return d
			}
		}
		for k := range b {
			if _, ok := a[k]; !ok {
				return path + "." + k + " is missing in the first result"
			}
		}
		return ""
	case []any:
		b, ok := y.([]any)
		if !ok {
			break
		}
		if len(a) != len(b) {
			return fmt.Sprintf("%s has %d and %d elements", path, len(a), len(b))
		}
		for i := range a {
			n := fmt.Sprint(i)
			if m, ok := a[i].(map[string]any); ok {
				if s, ok := m["Name"].(string); ok {
					n = s
				}
			}
			if d := diffAny(a[i], b[i], path+"["+n+"]"); d != "" {
				return d
			}
		}
		return ""
	}
	if reflect.DeepEqual(x, y) {
		return ""
	}
	return fmt.Sprintf("%s: %v and %v", path, x, y)
}

func init() {
	register("C06", "random valid descriptions whose meaning is computed by an independent elaborator (lexical scopes, type chains, arguments, packages) and compared with the compiled bus and the constants dump; non-trivial: at least 3 described functionalities",
		sub("plain", 9000, 90000, genContent(plainCfg), runContent),
		sub("full", 9000, 90000, genContent(fullCfg), runContent),
		sub("typed", 7000, 70000, genContent(typedCfg), runContent),
		sub("large", 4000, 40000, genContent(largeCfg), runContent),
		sub("any array", 3000, 30000, genContent(arraysCfg), runContent),
	)
}
