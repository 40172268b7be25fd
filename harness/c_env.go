package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// EnvCase is a description compiled in various environments.
type EnvCase struct {
	Src      Files    `json:"src"`
	Args     []string `json:"args,omitempty"`
	Variants []string `json:"variants"`
	Extra    Files    `json:"extra,omitempty"` // unrelated packages and files
	Invalid  bool     `json:"invalid,omitempty"`
	Labels   []string `json:"labels,omitempty"`
	NT       bool     `json:"nt,omitempty"`
}

func (c *EnvCase) Describe() string {
	return c.Src.String() + "unrelated files:\n" + c.Extra.String() + fmt.Sprintf("args: %v, variants: %v", c.Args, c.Variants)
}

var envVariants = []string{"repeat", "repeat", "other directory", "subdirectory", "absolute path", "unrelated packages", "debug", "one processor", "other environment", "other file name", "package path", "odd package path", "link", "constants"}

// unrelated makes packages and files which have nothing to do with the description.
func unrelated(t *rapid.T, used map[string]bool) Files {
	fs := Files{}
	for i := intRange(1, 3).Draw(t, "nunrel"); i > 0; i-- {
		n := fmt.Sprintf("unrel%d", i)
		dir := []string{"", "lib/", "zzz/", "a/b/"}[intRange(0, 3).Draw(t, "udir")] + "fbd-" + n
		pr := genProgram(t, GenCfg{MaxKids: 3, MaxDepth: 1, Kinds: allKinds, Types: 40, Refs: 30, Consts: 40, Values: 30})
		items := []Item{}
		for _, it := range pr.Prog.mainFile().Items {
			if it.Const != nil || it.Def.IsType {
				items = append(items, it)
			}
		}
		items = append(items, Item{Const: &ConstDef{Name: "Unrelated", Val: eInt(int64(i))}})
		fs[dir+"/u.fbd"] = renderFile(&File{Items: items}, canonStyle)
	}
	if chance(t, 50, "junk") {
		fs["notes.txt"] = "main bus\n  broken ((\n"
		fs["fbd-empty/readme.md"] = "nothing"
		fs["other.fbd"] = "this is not ( a description\n"
	}
	return fs
}

func genEnv(t *rapid.T) EnvCase {
	cfg := fullCfg
	cfg.OwnNames = true
	cfg.MaxKids = 5
	pr := genProgram(t, cfg)
	c := EnvCase{}
	p := pr.Prog
	if chance(t, 12, "invalid") {
		p = p.copy()
		chaosProg(t, p)
		c.Invalid = true
	}
	c.Src = p.render(canonStyle)
	c.Labels, c.NT = pr.stats()
	perm := rapid.Permutation(envVariants).Draw(t, "variants")
	c.Variants = perm[:intRange(2, 5).Draw(t, "nvar")]
	c.Extra = unrelated(t, nil)
	return c
}

func runEnv(env *Env, c *EnvCase) Result {
	base := env.Dir(c.Src)
	defer os.RemoveAll(base)
	run := func(dir string, ev []string, args ...string) (Out, []byte) {
		a := append([]string{"-c", "the-consts.json"}, c.Args...)
		o := env.RunT(dfltTimeout, dir, ev, append(a, args...)...)
		cf := filepath.Join(dir, "the-consts.json")
		data, _ := os.ReadFile(cf)
		os.Remove(cf)
		return o, data
	}
	ref, refConsts := run(base, nil, "bus.fbd")
	if s := ref.infra(); s != "" {
		return Result{Infra: s}
	}
	if ref.Code != 0 && !c.Invalid {
		return Result{Skip: true, Labels: []string{"rejected"}}
	}
	labels := append([]string(nil), c.Labels...)
	for _, v := range c.Variants {
		var o Out
		var consts []byte
		skipConsts := false
		switch v {
		case "repeat":
			o, consts = run(base, nil, "bus.fbd")
		case "other directory":
			d := env.Dir(c.Src)
			o, consts = run(d, nil, "bus.fbd")
			os.RemoveAll(d)
		case "subdirectory":
			d := env.Dir(nil)
			for p, s := range c.Src {
				writeFiles(d, Files{"deep/er/" + p: s})
			}
			o, consts = run(d, nil, "deep/er/bus.fbd")
			os.RemoveAll(d)
		case "absolute path":
			o, consts = run(base, nil, filepath.Join(base, "bus.fbd"))
		case "unrelated packages":
			d := env.Dir(c.Src)
			writeFiles(d, c.Extra)
			os.Symlink("/nonexistent/place", filepath.Join(d, "broken-link"))
			os.MkdirAll(filepath.Join(d, "fbd-nothing"), 0o755)
			o, consts = run(d, nil, "bus.fbd")
			skipConsts = true
			if o.Code == 0 {
				if s := withoutUnrelated(consts, refConsts); s != "" {
					os.RemoveAll(d)
					return fail("constants differ with unrelated packages present: %s", s)
				}
			}
			os.RemoveAll(d)
		case "debug":
			o, consts = run(base, nil, "-debug", "bus.fbd")
		case "one processor":
			o, consts = run(base, []string{"GOMAXPROCS=1", "GOGC=5"}, "bus.fbd")
		case "other environment":
			// Packages of the description are also in places which are not looked at, what makes them ambiguous if they were.
			d := env.Dir(nil)
			decoys := Files{"fbd-broken/a.fbd": "const"}
			for p, s := range c.Src {
				writeFiles(d, Files{"work/" + p: s})
				if p != "bus.fbd" {
					decoys[p] = s
				}
			}
			dec := filepath.Join(d, "decoys")
			for p, s := range decoys {
				for _, pre := range []string{"", "decoys/", "decoys/.fbd/", "decoys/fbd/", "decoys/.config/fbd/", "decoys/.local/share/fbd/", "decoys/lib/fbd/", "decoys/packages/"} {
					writeFiles(d, Files{pre + p: s})
				}
			}
			ev := []string{"LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Tokyo", "PWD=/", "FBD=" + dec}
			for _, n := range []string{"HOME", "FBD_PATH", "FBDLPATH", "FBDL_PATH", "FBDHOME", "FBD_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "GOPATH", "TMPDIR", "OLDPWD", "fbdpath"} {
				ev = append(ev, n+"="+dec)
			}
			o, consts = run(filepath.Join(d, "work"), ev, "bus.fbd")
			os.RemoveAll(d)
		case "other file name":
			d := env.Dir(c.Src)
			must(os.MkdirAll(filepath.Join(d, "sub"), 0o755))
			must(os.Rename(filepath.Join(d, "bus.fbd"), filepath.Join(d, "sub", "x.main.fbd")))
			o, consts = run(d, nil, "sub/x.main.fbd")
			os.RemoveAll(d)
		case "package path":
			// The packages are found through FBDPATH, the main file lies elsewhere.
			d := env.Dir(nil)
			for p, s := range c.Src {
				if p == "bus.fbd" {
					writeFiles(d, Files{"work/" + p: s})
				} else {
					writeFiles(d, Files{"libs/" + p: s})
				}
			}
			must(os.MkdirAll(filepath.Join(d, "libs"), 0o755))
			o, consts = run(filepath.Join(d, "work"), []string{"FBDPATH=" + filepath.Join(d, "libs")}, "bus.fbd")
			os.RemoveAll(d)
		case "odd package path":
			// The path has elements which are not directories, repeat, or hold nothing.
			d := env.Dir(nil)
			for p, s := range c.Src {
				pre := "libs/"
				if p == "bus.fbd" {
					pre = "work/"
				}
				writeFiles(d, Files{pre + p: s})
			}
			must(os.MkdirAll(filepath.Join(d, "libs"), 0o755))
			must(os.MkdirAll(filepath.Join(d, "nothing"), 0o755))
			must(os.Symlink(filepath.Join(d, "libs"), filepath.Join(d, "tolibs")))
			libs := filepath.Join(d, "libs")
			odd := []string{"", filepath.Join(d, "work", "bus.fbd"), "/dev/null", filepath.Join(d, "nowhere"), libs, filepath.Join(d, "tolibs"), "../libs", filepath.Join(d, "nothing"), ".", "bus.fbd", libs + "/"}
			k := len(c.Src["bus.fbd"])
			path := []string{}
			for i := 0; i < 5; i++ {
				path = append(path, odd[k%len(odd)])
				k = k/3 + 7*i + 1
			}
			path = append(path, libs)
			o, consts = run(filepath.Join(d, "work"), []string{"FBDPATH=" + strings.Join(path, ":")}, "bus.fbd")
			os.RemoveAll(d)
		case "link":
			d := env.Dir(nil)
			must(os.Symlink(base, filepath.Join(d, "linked")))
			o, consts = run(d, nil, "linked/bus.fbd")
			os.RemoveAll(d)
		case "constants":
			o = env.Run(base, append(append([]string(nil), c.Args...), "bus.fbd")...)
			skipConsts = true
		default:
			return Result{Skip: true}
		}
		if s := o.infra(); s != "" {
			return Result{Infra: s}
		}
		if (o.Code == 0) != (ref.Code == 0) {
			return fail("%s: exit status is %d, was %d: %s %s", v, o.Code, ref.Code, o.brief(), ref.brief())
		}
		if !bytes.Equal(o.Stdout, ref.Stdout) {
			return fail("%s: the result differs: %s", v, sameJSON(ref.Stdout, o.Stdout))
		}
		if !skipConsts && !bytes.Equal(consts, refConsts) {
			return fail("%s: the constants differ:\n%s\nand\n%s", v, refConsts, consts)
		}
		labels = append(labels, "variant "+v)
	}
	if ref.Code != 0 {
		labels = append(labels, "invalid")
	}
	return Result{NonTrivial: c.NT, Labels: labels}
}

// withoutUnrelated compares constants apart from unrelated packages.
func withoutUnrelated(got, ref []byte) string {
	var g, r map[string]json.RawMessage
	if err := json.Unmarshal(got, &g); err != nil {
		return err.Error()
	}
	if err := json.Unmarshal(ref, &r); err != nil {
		return err.Error()
	}
	for k := range g {
		if strings.HasPrefix(k, "unrel") {
			delete(g, k)
		}
	}
	a, _ := json.Marshal(g)
	b, _ := json.Marshal(r)
	if !bytes.Equal(a, b) {
		return fmt.Sprintf("%s and %s", b, a)
	}
	return ""
}

// ---------------------------------------------------------------------------
// Diagnostics

// DiagCase is a description breaking exactly one rule, compiled in various environments.
type DiagCase struct {
	Bad      BadCase  `json:"bad"`
	Variants []string `json:"variants"`
	Extra    Files    `json:"extra,omitempty"`
}

func (c *DiagCase) Describe() string {
	return c.Bad.Describe() + fmt.Sprintf("\nvariants: %v\nunrelated files:\n%s", c.Variants, c.Extra)
}

var diagVariants = []string{"repeat", "repeat", "PWD set", "PWD wrong", "other directory", "link", "one processor", "unrelated packages", "no constants", "from elsewhere"}

func genDiag(t *rapid.T) DiagCase {
	r := badRules[intRange(0, len(badRules)-1).Draw(t, "rule")]
	c := DiagCase{Bad: genBad(r)(t)}
	perm := rapid.Permutation(diagVariants).Draw(t, "variants")
	c.Variants = perm[:intRange(2, 5).Draw(t, "nvar")]
	c.Extra = unrelated(t, nil)
	return c
}

func runDiag(env *Env, c *DiagCase) Result {
	if c.Bad.Skip {
		return Result{Skip: true}
	}
	base := env.Dir(c.Bad.Src)
	defer os.RemoveAll(base)
	args := append(append([]string{}, c.Bad.Args...), mainOr(c.Bad.Main))
	run := func(dir string, ev []string, pre ...string) Out {
		return env.RunT(dfltTimeout, dir, ev, append(pre, args...)...)
	}
	ref := run(base, nil, "-c", "the-consts.json")
	if s := ref.infra(); s != "" {
		return Result{Infra: s}
	}
	if ref.Code == 0 {
		return Result{Skip: true, Labels: []string{"compiled"}}
	}
	labels := []string{"rule " + c.Bad.Rule}
	for _, v := range c.Variants {
		var o Out
		switch v {
		case "repeat":
			o = run(base, nil, "-c", "the-consts.json")
		case "PWD set":
			o = run(base, []string{"PWD=" + base}, "-c", "the-consts.json")
		case "PWD wrong":
			o = run(base, []string{"PWD=/", "OLDPWD=" + base, "LC_ALL=tr_TR.UTF-8"}, "-c", "the-consts.json")
		case "other directory":
			d := env.Dir(nil)
			d2 := filepath.Join(d, "much", "deeper")
			must(os.MkdirAll(d2, 0o755))
			writeFiles(d2, c.Bad.Src)
			o = run(d2, []string{"PWD=" + d2}, "-c", "the-consts.json")
			os.RemoveAll(d)
		case "link":
			d := env.Dir(nil)
			l := filepath.Join(d, "linked")
			must(os.Symlink(base, l))
			o = run(l, []string{"PWD=" + l}, "-c", "the-consts.json")
			os.RemoveAll(d)
		case "one processor":
			o = run(base, []string{"GOMAXPROCS=1", "GOGC=5"}, "-c", "the-consts.json")
		case "unrelated packages":
			d := env.Dir(c.Bad.Src)
			writeFiles(d, c.Extra)
			o = run(d, nil, "-c", "the-consts.json")
			os.RemoveAll(d)
		case "no constants":
			o = run(base, nil)
		case "from elsewhere":
			// Only that the description is rejected, the paths may differ.
			d := env.Dir(nil)
			for p, s := range c.Bad.Src {
				writeFiles(d, Files{"de/per/" + p: s})
			}
			o = env.Run(d, append(append([]string{}, c.Bad.Args...), "de/per/"+mainOr(c.Bad.Main))...)
			os.RemoveAll(d)
			if s := o.infra(); s != "" {
				return Result{Infra: s}
			}
			if o.Code == 0 {
				return fail("%s: compiled, but was rejected: %s", v, ref.brief())
			}
			labels = append(labels, "variant "+v)
			continue
		default:
			return Result{Skip: true}
		}
		if s := o.infra(); s != "" {
			return Result{Infra: s}
		}
		if o.Code != ref.Code {
			return fail("%s: exit status is %d, was %d: %s %s", v, o.Code, ref.Code, o.brief(), ref.brief())
		}
		if len(o.Stdout) != 0 {
			return fail("%s: rejected but something is printed", v)
		}
		if !bytes.Equal(o.Stderr, ref.Stderr) {
			return fail("%s: the diagnostic is\n%s\nwas\n%s", v, o.Stderr, ref.Stderr)
		}
		labels = append(labels, "variant "+v)
	}
	return Result{NonTrivial: true, Labels: labels}
}

// ---------------------------------------------------------------------------
// Histories

type HistStep struct {
	Prog int    `json:"p"`
	Main string `json:"main,omitempty"` // other name of the main bus
	TS   bool   `json:"ts,omitempty"`
}

type HistCase struct {
	Progs  []Files    `json:"progs"`
	Steps  []HistStep `json:"steps"`
	Labels []string   `json:"labels,omitempty"`
}

func (c *HistCase) Describe() string {
	s := ""
	for i, p := range c.Progs {
		s += fmt.Sprintf("=== description %d\n%s", i, p)
	}
	return s + fmt.Sprintf("steps: %+v", c.Steps)
}

func genHist(t *rapid.T) HistCase {
	c := HistCase{}
	np := intRange(1, 3).Draw(t, "progs")
	for i := 0; i < np; i++ {
		cfg := fullCfg
		cfg.OwnNames = true
		cfg.MaxKids = 4
		cfg.Types = 50
		if chance(t, 40, "layout") {
			cfg = layoutCfg
			cfg.MaxKids = 6
		}
		cfg.MaxPkgs = 1
		pr := genProgram(t, cfg)
		c.Progs = append(c.Progs, pr.Prog.render(canonStyle))
	}
	for n := intRange(2, 7).Draw(t, "steps"); n > 0; n-- {
		s := HistStep{Prog: intRange(0, np-1).Draw(t, "prog"), TS: chance(t, 20, "ts")}
		if chance(t, 12, "nomain") {
			s.Main = "missing"
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// noTimestampValue removes the value of the timestamp from compact JSON.
func noTimestampValue(b []byte) ([]byte, error) {
	var bus map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&bus); err != nil {
		return nil, err
	}
	if ss, ok := bus["Statics"].([]any); ok {
		for _, s := range ss {
			if m, ok := s.(map[string]any); ok && m["Name"] == "TIMESTAMP" {
				m["InitValue"] = "ts"
			}
		}
	}
	return json.Marshal(bus)
}

func runHist(env *Env, c *HistCase) Result {
	if len(c.Steps) == 0 {
		return Result{Skip: true}
	}
	type res struct{ bus, consts []byte }
	dirs := make([]string, len(c.Progs))
	for i, p := range c.Progs {
		dirs[i] = env.Dir(p)
		defer os.RemoveAll(dirs[i])
	}
	ref := map[HistStep]*res{}
	get := func(s HistStep) (*res, string) {
		if r, ok := ref[s]; ok {
			return r, ""
		}
		args := []string{"-c", "the-consts.json"}
		if s.TS {
			args = append(args, "-add-timestamp")
		}
		o := env.Run(dirs[s.Prog], append(args, "bus.fbd")...)
		if i := o.infra(); i != "" {
			return nil, i
		}
		r := &res{}
		if o.Code == 0 {
			data, _ := os.ReadFile(filepath.Join(dirs[s.Prog], "the-consts.json"))
			a := bytes.Buffer{}
			if json.Compact(&a, data) != nil {
				return nil, "constants are not JSON"
			}
			b, err := noTimestampValue(o.Stdout)
			if err != nil {
				return nil, err.Error()
			}
			r.bus, r.consts = b, a.Bytes()
		}
		os.Remove(filepath.Join(dirs[s.Prog], "the-consts.json"))
		ref[s] = r
		return r, ""
	}
	env.NewLib()
	labels := []string{fmt.Sprintf("%d descriptions", len(c.Progs))}
	for i, s := range c.Steps {
		main := "main"
		if s.Main != "" {
			main = s.Main
			labels = append(labels, "failed compilation in history")
		}
		if s.Main == "" {
			r, inf := get(s)
			if inf != "" {
				return Result{Infra: inf}
			}
			if r.bus == nil {
				return Result{Skip: true, Labels: []string{"rejected"}}
			}
		}
		rs := env.Lib(LibReq{Op: "compile", S: "bus.fbd", S2: main, B: s.TS, Dir: dirs[s.Prog]})
		switch {
		case rs.Hang:
			return Result{Infra: "library helper does not answer " + rs.Died}
		case rs.Panic != "":
			return fail("step %d (%+v): panic: %s", i, s, rs.Panic)
		case rs.Died != "":
			if s.Main != "" {
				// An orderly end of the process is an answer, too.
				continue
			}
			return fail("step %d (%+v): compiler ends the process: %s", i, s, rs.Died)
		case !rs.OK:
			if s.Main != "" {
				continue
			}
			return fail("step %d (%+v): compilation fails: %s", i, s, rs.Err)
		}
		if s.Main != "" {
			return fail("step %d (%+v): compiled without the main bus", i, s)
		}
		r, _ := get(s)
		b, err := noTimestampValue(rs.J)
		if err != nil {
			return fail("step %d (%+v): %v", i, s, err)
		}
		if !bytes.Equal(b, r.bus) {
			return fail("step %d (%+v): result in this process differs from the one of a new process: %s", i, s, sameJSON(r.bus, b))
		}
		if !bytes.Equal(rs.J2, r.consts) {
			return fail("step %d (%+v): constants in this process differ from the ones of a new process: %s and %s", i, s, r.consts, rs.J2)
		}
	}
	return Result{NonTrivial: len(c.Steps) > 2, Labels: labels}
}

// ---------------------------------------------------------------------------
// Timestamp

func genTS(t *rapid.T) LayoutCase {
	cfg := layoutCfg
	if chance(t, 40, "full") {
		cfg = fullCfg
		cfg.OwnNames = true
	}
	pr := genProgram(t, cfg)
	ls, _ := pr.stats()
	return LayoutCase{Src: pr.Prog.render(canonStyle), BusWidth: pr.Width, Labels: strings.Join(ls, ",")}
}

// stripTS removes from the decoded bus everything which is allowed to change with the timestamp.
func stripTS(v any, top bool) {
	switch v := v.(type) {
	case map[string]any:
		if top {
			delete(v, "Sizes")
		}
		delete(v, "AddrSpace")
		for _, x := range v {
			stripTS(x, false)
		}
	case []any:
		for _, x := range v {
			stripTS(x, false)
		}
	}
}

func runTS(env *Env, c *LayoutCase) Result {
	d := env.Dir(c.Src)
	defer os.RemoveAll(d)
	a := env.Run(d, "bus.fbd")
	b := env.Run(d, "-add-timestamp", "bus.fbd")
	if s := a.infra() + b.infra(); s != "" {
		return Result{Infra: s}
	}
	if a.Code != 0 && b.Code != 0 {
		return Result{Skip: true, Labels: []string{"rejected"}}
	}
	if a.Code != 0 || b.Code != 0 {
		return fail("exit status %d without timestamp, %d with timestamp: %s %s", a.Code, b.Code, a.brief(), b.brief())
	}
	ja, err := decodeBus(a.Stdout)
	if err != nil {
		return fail("%v", err)
	}
	jb, err := decodeBus(b.Stdout)
	if err != nil {
		return fail("%v", err)
	}
	if ja.static("TIMESTAMP") != nil {
		return fail("timestamp without the option")
	}
	ts := jb.static("TIMESTAMP")
	if ts == nil {
		return fail("there is no timestamp")
	}
	w := min(c.BusWidth, 36)
	if ts.Width != w || ts.IsArray || ts.Count != 1 {
		return fail("timestamp has width %d, want %d, count %d", ts.Width, w, ts.Count)
	}
	end := ja.Sizes.Own
	if ts.Access.StartAddr != end || ts.Access.EndAddr != end || ts.Access.StartBit != 0 || ts.Access.EndBit != w-1 || ts.Access.RegCount != 1 {
		return fail("timestamp is at %+v, bus has %d own registers without it", ts.Access, end)
	}
	if jb.Sizes.Own != end+1 {
		return fail("bus has %d own registers with timestamp, %d without", jb.Sizes.Own, end)
	}
	if jb.Sizes.Cumulated != ja.Sizes.Cumulated+1 {
		return fail("cumulated size is %d with timestamp, %d without", jb.Sizes.Cumulated, ja.Sizes.Cumulated)
	}
	if digits, err := binDigits(ts.InitValue); err != nil || int64(len(strings.TrimLeft(digits, "0"))) > w {
		return fail("timestamp value %s does not fit %d bits", ts.InitValue, w)
	}
	var ga, gb map[string]any
	must(json.Unmarshal(a.Stdout, &ga))
	must(json.Unmarshal(b.Stdout, &gb))
	for i, g := range []map[string]any{ga, gb} {
		ss := []any{}
		for _, s := range g["Statics"].([]any) {
			m := s.(map[string]any)
			if m["Name"] == "ID" {
				// The ID covers the sizes and addresses which may change.
				delete(m, "InitValue")
			}
			if m["Name"] != "TIMESTAMP" || i == 0 {
				ss = append(ss, s)
			}
		}
		g["Statics"] = ss
	}
	stripTS(ga, true)
	stripTS(gb, true)
	if s := diffAny(ga, gb, ""); s != "" {
		return fail("timestamp changes something else: %s", s)
	}
	labels := []string{}
	if c.Labels != "" {
		labels = strings.Split(c.Labels, ",")
	}
	if jb.AddrSpace != ja.AddrSpace {
		labels = append(labels, "address space changed")
	}
	return Result{NonTrivial: len(jb.Statics)+len(jb.Configs)+len(jb.Statuses)+len(jb.Subblocks) > 3, Labels: labels}
}

// RaceCase is a description of many packages, which are parsed at the same time.
type RaceCase struct {
	Src    Files    `json:"src"`
	NT     bool     `json:"nt,omitempty"`
	Labels []string `json:"labels,omitempty"`
}

func (c *RaceCase) Describe() string { return c.Src.String() }

func race(s *Sub) *Sub { s.NeedRace = true; return s }

func genRace(t *rapid.T) RaceCase {
	cfg := fullCfg
	cfg.MaxPkgs = 4
	pr := genProgram(t, cfg)
	p := pr.Prog
	invalid := chance(t, 10, "invalid")
	if invalid {
		p = p.copy()
		chaosProg(t, p)
	}
	c := RaceCase{Src: p.render(Style{Ch: drawChooser(t)})}
	for f, s := range unrelated(t, nil) {
		if strings.HasSuffix(f, "/u.fbd") {
			c.Src[f] = s
		}
	}
	dirs := map[string]bool{}
	for f := range c.Src {
		dirs[filepath.Dir(f)] = true
	}
	c.NT = len(dirs) > 2
	c.Labels = []string{fmt.Sprintf("packages:%d", len(dirs))}
	if invalid {
		c.Labels = append(c.Labels, "maybe invalid")
	}
	return c
}

// runRace runs the compiler built with the race detector.
func runRace(env *Env, c *RaceCase) Result {
	d := env.Dir(c.Src)
	defer os.RemoveAll(d)
	o := env.RunBin(raceBinary(), dfltTimeout, d, []string{"GORACE=atexit_sleep_ms=0 halt_on_error=1 exitcode=66"}, "bus.fbd")
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if bytes.Contains(o.Stderr, []byte("WARNING: DATA RACE")) {
		return fail("packages are compiled with a data race, so the result may depend on the schedule: %s", o.brief())
	}
	if bytes.Contains(o.Stderr, []byte("ThreadSanitizer")) {
		return Result{Infra: "race detector: " + o.brief()}
	}
	return Result{NonTrivial: c.NT, Labels: c.Labels}
}

func init() {
	register("C13", "random valid descriptions (and some invalid ones) compiled again in the same and in other environments (directory, path, links, package path, unrelated packages and files, debug output, processor count, locale, file name), results and constants must be identical byte for byte; random sequences of library calls in one process, with failed ones in between, every result equal to the one of a new process; with and without timestamp; non-trivial: 3 or more functionalities, or more than 2 steps",
		sub("environment", 5000, 50000, genEnv, runEnv),
		sub("diagnostics", 4000, 40000, genDiag, runDiag),
		lib(sub("history", 4000, 40000, genHist, runHist)),
		sub("timestamp", 6000, 60000, genTS, runTS),
		race(sub("races", 1500, 30000, genRace, runRace)),
	)
}
