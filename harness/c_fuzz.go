package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// FuzzCase is any set of files.
type FuzzCase struct {
	Src    map[string][]byte `json:"src"`
	Args   []string          `json:"args,omitempty"`
	Main   string            `json:"main,omitempty"` // path of the main file, if other than bus.fbd
	Labels []string          `json:"labels,omitempty"`
	NT     bool              `json:"nt,omitempty"`
}

func (c *FuzzCase) Describe() string {
	fs := Files{}
	for p, b := range c.Src {
		fs[p] = string(b)
	}
	return fs.String() + "args: " + strings.Join(c.Args, " ")
}

const fuzzTimeout = 15 * time.Second
const maxFuzzRSS = 1500 * 1024 // kB

var badMsg = regexp.MustCompile(`runtime error|goroutine \d|nil pointer|%!|should never happen|unimplemented type`)

// orderly checks that a run ended with a result or with a diagnostic.
func orderly(o Out, src string) string {
	if o.Timeout {
		return fmt.Sprintf("compiler did not end in %v", fuzzTimeout)
	}
	if o.Crashed() {
		return "compiler crashed: " + o.brief()
	}
	if o.MaxRSS > maxFuzzRSS {
		return fmt.Sprintf("compiler used %d MB of memory", o.MaxRSS/1024)
	}
	if o.Code == 0 {
		if _, err := decodeBus(o.Stdout); err != nil {
			return fmt.Sprintf("exit status 0 with invalid result: %v", err)
		}
		return ""
	}
	if len(o.Stdout) != 0 {
		return fmt.Sprintf("exit status %d but result is printed: %.200q", o.Code, o.Stdout)
	}
	msg := strings.TrimSpace(string(o.Stderr))
	if msg == "" {
		return fmt.Sprintf("exit status %d without any message", o.Code)
	}
	if m := badMsg.FindString(msg); m != "" && !strings.Contains(src, m) {
		return "diagnostic is not meant for humans: " + o.brief()
	}
	return ""
}

// padding draws lines without meaning, so that line numbers have more digits.
func padding(t *rapid.T) (string, int) {
	n := []int{9, 99, 999, 9999}[intRange(0, 3).Draw(t, "pad")] + intRange(-3, 20).Draw(t, "more")
	l := []string{"\n", "# x\n", "#\n\n", "# a longer comment, with \"quotes\"\n\n\n"}[intRange(0, 3).Draw(t, "line")]
	return strings.Repeat(l, n), n * strings.Count(l, "\n")
}

// named sometimes gives the main file another path.
func named(gen func(t *rapid.T) FuzzCase) func(t *rapid.T) FuzzCase {
	return func(t *rapid.T) FuzzCase {
		c := gen(t)
		if main, ok := c.Src["bus.fbd"]; ok && chance(t, 6, "padded") {
			pad, _ := padding(t)
			c.Src["bus.fbd"] = append([]byte(pad), main...)
			c.Labels = append(append([]string(nil), c.Labels...), "padded")
		}
		if main, ok := c.Src["bus.fbd"]; ok && chance(t, 12, "named") {
			c.Main = mainName(t)
			c.Src[c.Main] = main
			delete(c.Src, "bus.fbd")
		}
		return c
	}
}

func runFuzz(env *Env, c *FuzzCase) Result {
	if c.Src == nil {
		return Result{Skip: true}
	}
	d := env.Dir(nil)
	defer os.RemoveAll(d)
	all := ""
	for p, b := range c.Src {
		must(os.MkdirAll(filepath.Dir(filepath.Join(d, p)), 0o755))
		must(os.WriteFile(filepath.Join(d, p), b, 0o644))
		all += string(b)
	}
	o := env.RunT(fuzzTimeout, d, nil, append(append([]string(nil), c.Args...), mainOr(c.Main))...)
	if o.Timeout { // once more, in case the machine is busy
		o = env.RunT(3*fuzzTimeout, d, nil, append(append([]string(nil), c.Args...), mainOr(c.Main))...)
	}
	if o.Err != "" {
		return Result{Infra: o.Err}
	}
	if s := orderly(o, all); s != "" {
		return fail("%s", s)
	}
	ls := append([]string(nil), c.Labels...)
	if o.Code != 0 {
		n, err := checkExcerpt(string(o.Stderr), func(path string) (string, bool) {
			t, ok := c.Src[path]
			return string(t), ok
		})
		if err != nil {
			return fail("%v: %s", err, o.brief())
		}
		if n > 0 {
			ls = append(ls, "excerpts checked")
		}
	}
	if o.Code == 0 {
		ls = append(ls, "compiled")
	} else {
		ls = append(ls, "rejected")
	}
	return Result{NonTrivial: c.NT, Labels: ls}
}

var soupWords = []string{
	"main", "bus", "block", "config", "status", "static", "mask", "irq", "proc", "param", "return", "stream", "group", "blackbox", "memory",
	"const", "type", "import", "true", "false", "atomic", "width", "range", "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value",
	"add-enable", "clear", "in-trigger", "out-trigger", "delay", "masters", "reset", "align", "size", "virtual", "byte-write-enable", "read-latency",
	"A", "B", "T", "p.A", "p.T", "x", "_", "a-b", "a.b.c", ".", "..", "0", "1", "8", "32", "64", "-1", "0x1F", "0b101", "0o17", "0x", "0b2", "1.5", "1e3", "1e", "9223372036854775807", "9223372036854775808",
	"10 ns", "1 s", "5 us", "10 hours", `"Explicit"`, `"On Read"`, `"Level"`, `""`, `"abc`, `b"01"`, `x"fF"`, `o"7"`, `b"2"`, `x"`, `b"-uwxz"`, `x""`,
	"+", "-", "*", "/", "%", "**", "<<", ">>", "(", ")", "[", "]", ",", ";", ":", "=", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "&", "|", "#", "# doc", "@", "$", "\t", "\\", "é", "\x00", "\r",
	"log2", "ceil", "bool", "floor", "log10", "log2(8)", "abs(1)", "ID", "TIMESTAMP",
}

func genSoup(t *rapid.T) FuzzCase {
	b := bytes.Buffer{}
	n := intRange(1, 14).Draw(t, "lines")
	indent := 0
	word := func() string { return soupWords[intRange(0, len(soupWords)-1).Draw(t, "w")] }
	kinds := []string{"bus", "block", "config", "status", "static", "mask", "irq", "proc", "param", "return", "stream", "group", "blackbox", "T", "p.T"}
	props := []string{"width", "range", "atomic", "init-value", "read-value", "reset-value", "add-enable", "clear", "delay", "masters", "reset", "align", "size", "virtual", "in-trigger", "out-trigger"}
	expr := func() string {
		s := word()
		for i := intRange(0, 3).Draw(t, "el"); i > 0; i-- {
			s += []string{" ", "", " + ", "-", ", ", ":"}[intRange(0, 5).Draw(t, "es")] + word()
		}
		return s
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			switch intRange(0, 9).Draw(t, "ind") {
			case 0, 1, 2, 3:
				indent++
			case 4:
				indent = 0
			case 5:
				if indent > 0 {
					indent--
				}
			case 6:
				b.WriteString([]string{" ", "   ", "\t", "      "}[intRange(0, 3).Draw(t, "odd")])
			}
			if indent > 4 {
				indent = 4
			}
		}
		b.WriteString(strings.Repeat("  ", indent))
		switch intRange(0, 9).Draw(t, "form") {
		case 0, 1, 2:
			name := fmt.Sprintf("f%d", i)
			if i == 0 || chance(t, 10, "main") {
				name = "main"
			}
			b.WriteString(name + " ")
			if chance(t, 25, "arr") {
				b.WriteString("[" + expr() + "]")
			}
			b.WriteString(kinds[intRange(0, len(kinds)-1).Draw(t, "k")])
			if chance(t, 15, "args") {
				b.WriteString("(" + expr() + ")")
			}
			for chance(t, 35, "inl") {
				b.WriteString("; " + props[intRange(0, len(props)-1).Draw(t, "p")] + " = " + expr())
			}
		case 3, 4:
			b.WriteString(props[intRange(0, len(props)-1).Draw(t, "p")] + " = " + expr())
		case 5:
			b.WriteString("const " + []string{"A", "B", "C"}[intRange(0, 2).Draw(t, "c")] + " = " + expr())
		case 6:
			b.WriteString("type T")
			if chance(t, 40, "par") {
				b.WriteString("(" + []string{"A", "A, B", "A = 1", "A = 1, B", "", "A,"}[intRange(0, 5).Draw(t, "ps")] + ")")
			}
			b.WriteString(" " + kinds[intRange(0, len(kinds)-1).Draw(t, "k")])
		case 7:
			b.WriteString([]string{"import \"x\"", "import p \"x\"", "import", "const", "import p", "  p \"fbd-x\""}[intRange(0, 5).Draw(t, "im")])
		default:
			for j := intRange(1, 7).Draw(t, "words"); j > 0; j-- {
				b.WriteString(word())
				if chance(t, 75, "sp") {
					b.WriteString(" ")
				}
			}
		}
		if chance(t, 95, "nl") {
			b.WriteString("\n")
		}
	}
	c := FuzzCase{Src: map[string][]byte{"bus.fbd": b.Bytes()}, NT: b.Len() > 10}
	if chance(t, 30, "pkg") {
		c.Src["fbd-x/x.fbd"] = []byte("const A = 3\ntype T block\n  s status\n")
	}
	return c
}

func genBytes(t *rapid.T) FuzzCase {
	var b []byte
	switch intRange(0, 3).Draw(t, "k") {
	case 0:
		b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	case 1:
		b = []byte(rapid.StringN(0, 40, 200).Draw(t, "text"))
	case 2:
		const al = "ab xX01\"\"=+-*/()[]#;:,.\n\n  \t<>!&|%é-_ns"
		for i := intRange(0, 50).Draw(t, "n"); i > 0; i-- {
			b = append(b, al[intRange(0, len(al)-1).Draw(t, "c")])
		}
	default:
		b = []byte("main bus\n  c config; width = ")
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")...)
	}
	return FuzzCase{Src: map[string][]byte{"bus.fbd": b}, NT: len(b) > 3}
}

var tokRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_.-]*|[0-9][0-9A-Za-z.]*|"[^"\n]*"|\*\*|<<|>>|[^\sA-Za-z0-9_]`)

// mutateText changes the text at random places.
func mutateText(t *rapid.T, s string) string {
	for n := intRange(1, 4).Draw(t, "nmut"); n > 0; n-- {
		lines := strings.Split(s, "\n")
		li := intRange(0, len(lines)-1).Draw(t, "line")
		switch intRange(0, 13).Draw(t, "mut") {
		case 0: // delete line
			lines = append(lines[:li:li], lines[li+1:]...)
		case 1: // duplicate line
			lines = append(lines[:li+1:li+1], lines[li:]...)
		case 2: // swap
			lj := intRange(0, len(lines)-1).Draw(t, "line2")
			lines[li], lines[lj] = lines[lj], lines[li]
		case 3: // indentation
			if chance(t, 50, "more") {
				lines[li] = []string{"  ", " ", "\t", "    "}[intRange(0, 3).Draw(t, "in")] + lines[li]
			} else {
				lines[li] = strings.TrimPrefix(strings.TrimPrefix(lines[li], " "), " ")
			}
		case 4: // join
			if li+1 < len(lines) {
				lines[li] += lines[li+1]
				lines = append(lines[:li+1:li+1], lines[li+2:]...)
			}
		case 5, 6, 7, 8: // token replacement, deletion, insertion
			locs := tokRe.FindAllStringIndex(lines[li], -1)
			if len(locs) == 0 {
				continue
			}
			l := locs[intRange(0, len(locs)-1).Draw(t, "tok")]
			w := soupWords[intRange(0, len(soupWords)-1).Draw(t, "w")]
			switch intRange(0, 3).Draw(t, "how") {
			case 0:
				w = ""
			case 1:
				w = lines[li][l[0]:l[1]] + " " + w
			case 2:
				m := locs[intRange(0, len(locs)-1).Draw(t, "tok2")]
				w = lines[li][m[0]:m[1]]
			}
			lines[li] = lines[li][:l[0]] + w + lines[li][l[1]:]
		case 9, 10: // character
			if len(lines[li]) == 0 {
				continue
			}
			i := intRange(0, len(lines[li])-1).Draw(t, "ci")
			const cs = " \"=+-()[]#;:,.0Aa_\t!x"
			c := string(cs[intRange(0, len(cs)-1).Draw(t, "c")])
			switch intRange(0, 2).Draw(t, "how") {
			case 0:
				lines[li] = lines[li][:i] + lines[li][i+1:]
			case 1:
				lines[li] = lines[li][:i] + c + lines[li][i:]
			default:
				lines[li] = lines[li][:i] + c + lines[li][i+1:]
			}
		case 11: // truncate
			i := intRange(0, len(s)).Draw(t, "cut")
			s = s[:i]
			continue
		case 12: // split line
			if len(lines[li]) == 0 {
				continue
			}
			i := intRange(0, len(lines[li])).Draw(t, "ci")
			lines[li] = lines[li][:i] + "\n" + lines[li][i:]
		case 13: // move a block of lines
			lj := intRange(li, len(lines)-1).Draw(t, "line2")
			blk := append([]string(nil), lines[li:lj+1]...)
			rest := append(append([]string(nil), lines[:li]...), lines[lj+1:]...)
			k := intRange(0, len(rest)).Draw(t, "to")
			lines = append(append(append([]string(nil), rest[:k]...), blk...), rest[k:]...)
		}
		s = strings.Join(lines, "\n")
	}
	return s
}

var fuzzCfg = GenCfg{MaxKids: 5, MaxDepth: 2, Kinds: allKinds, Types: 40, Refs: 35, Exprs: 30, Docs: 20, Values: 40, Consts: 30, MaxPkgs: 1, Extra: 1}

func genMutated(t *rapid.T) FuzzCase {
	pr := genProgram(t, fuzzCfg)
	fs := pr.Prog.render(Style{Ch: drawChooser(t)})
	c := FuzzCase{Src: map[string][]byte{}, NT: true}
	ps := fs.paths()
	which := "bus.fbd"
	if chance(t, 25, "otherfile") {
		which = ps[intRange(0, len(ps)-1).Draw(t, "file")]
	}
	for _, p := range ps {
		s := fs[p]
		if p == which {
			s = mutateText(t, s)
		}
		c.Src[p] = []byte(s)
	}
	if chance(t, 20, "dbg") {
		c.Args = append(c.Args, "-c")
	}
	return c
}

// chaosVal draws any expression, often an unsuitable one.
func chaosVal(t *rapid.T, names []string) *Expr {
	g := &exprGen{t: t, vals: map[string]Val{}, wrong: 20}
	switch intRange(0, 5).Draw(t, "chaos") {
	case 0:
		vs := []int64{-1, 0, 1, 2, 31, 32, 33, 64, 65, 127, 128, 1000, 65536, 1 << 20, -(1 << 40), 1<<63 - 1}
		return eInt(vs[intRange(0, len(vs)-1).Draw(t, "cv")])
	case 1:
		if len(names) > 0 {
			return eRef(names[intRange(0, len(names)-1).Draw(t, "cn")])
		}
	case 2:
		ss := []string{"", "Edge", "Level", "Explicit", "On Read", "Sync", "Async", "edge", "x"}
		return eStr(ss[intRange(0, len(ss)-1).Draw(t, "cs")])
	case 3:
		ss := []string{`b"1"`, `b"0101"`, `x"ffffffffffffffffff"`, `o"7"`, `b"xz"`, `x"-"`}
		return eBits(ss[intRange(0, len(ss)-1).Draw(t, "cb")])
	}
	return g.gen([]string{"int", "bool", "float", "str", "list", "range", "time", "bits"}[intRange(0, 7).Draw(t, "ck")], 2)
}

var allProps = []string{"width", "range", "atomic", "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value", "add-enable", "clear",
	"in-trigger", "out-trigger", "delay", "masters", "reset", "align", "size", "virtual"}

// chaosProg changes the structure of a valid program at random places.
func chaosProg(t *rapid.T, p *Prog) {
	names := []string{}
	types := []string{"T9", "x.T", "main"}
	for b := range baseTypes {
		types = append(types, b)
	}
	// map order must not matter
	for i := range types {
		for j := i + 1; j < len(types); j++ {
			if types[j] < types[i] {
				types[i], types[j] = types[j], types[i]
			}
		}
	}
	type place struct {
		items *[]Item
		i     int
	}
	collect := func() []place {
		ps := []place{}
		for _, pk := range p.Pkgs {
			for _, f := range pk.Files {
				walkItems(&f.Items, 0, func(items *[]Item, i, depth int) { ps = append(ps, place{items, i}) })
			}
		}
		return ps
	}
	for _, pl := range collect() {
		it := (*pl.items)[pl.i]
		if it.Const != nil {
			names = append(names, it.Const.Name)
		} else if it.Def.IsType {
			types = append(types, it.Def.Name)
			for _, pp := range it.Def.Params {
				names = append(names, pp.Name)
			}
		}
	}
	n := func(k int) int {
		if k < 2 {
			return 0
		}
		return intRange(0, k-1).Draw(t, "n")
	}
	names = append(names, "NN")
	for m := 1 + n(3); m > 0; m-- {
		ps := collect()
		if len(ps) == 0 {
			return
		}
		pl := ps[n(len(ps))]
		it := (*pl.items)[pl.i]
		if it.Const != nil {
			switch n(4) {
			case 0:
				it.Const.Val = chaosVal(t, names)
			case 1:
				it.Const.Name = names[n(len(names))]
			case 2:
				*pl.items = append(*pl.items, it)
			default:
				*pl.items = append((*pl.items)[:pl.i:pl.i], (*pl.items)[pl.i+1:]...)
			}
			continue
		}
		d := it.Def
		switch n(13) {
		case 0:
			d.Type = types[n(len(types))]
		case 1, 2, 3:
			if len(d.Props) > 0 {
				d.Props[n(len(d.Props))].Val = chaosVal(t, names)
			}
		case 4:
			d.Props = append(d.Props, Prop{allProps[n(len(allProps))], chaosVal(t, names)})
		case 5:
			d.Count = chaosVal(t, names)
		case 6:
			d.IsType = !d.IsType
		case 7:
			if len(d.Args) > 0 {
				d.Args = d.Args[:len(d.Args)-1]
			} else {
				d.Args = append(d.Args, Arg{Val: chaosVal(t, names)})
			}
		case 8:
			d.Params = append(d.Params, ParamDef{Name: "NP", Def: chaosVal(t, names)})
		case 9: // copy somewhere else
			o := ps[n(len(ps))]
			if od := (*o.items)[o.i].Def; od != nil {
				c := d.copy()
				if n(2) == 0 {
					c.Name = c.Name + "c"
				}
				od.Items = append(od.Items, Item{Def: c})
			}
		case 10:
			*pl.items = append((*pl.items)[:pl.i:pl.i], (*pl.items)[pl.i+1:]...)
		case 11:
			if len(names) > 0 && n(2) == 0 {
				d.Name = names[n(len(names))]
			} else {
				d.Name = []string{"ID", "TIMESTAMP", "main", "x"}[n(4)]
			}
		case 12:
			d.Items = append(d.Items, Item{Const: &ConstDef{Name: "Z", Val: chaosVal(t, names)}})
		}
	}
}

func genChaos(t *rapid.T) FuzzCase {
	pr := genProgram(t, fuzzCfg)
	p := pr.Prog.copy()
	chaosProg(t, p)
	c := FuzzCase{Src: map[string][]byte{}, NT: true}
	for path, s := range p.render(canonStyle) {
		c.Src[path] = []byte(s)
	}
	if chance(t, 20, "c") {
		c.Args = append(c.Args, "-c")
	}
	if chance(t, 20, "ts") {
		c.Args = append(c.Args, "-add-timestamp")
	}
	return c
}

// ---------------------------------------------------------------------------
// Tokens

type tokServer struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

var toks *tokServer

type vhTok struct {
	Name       string
	S, E, L, C int
}

type vhTokResp struct {
	Err, Panic string
	Toks       []vhTok
}

func (e *Env) parseTokens(src []byte) (vhTokResp, error) {
	if toks == nil {
		cmd := exec.Command(e.tok, "-test.run", "^TestVH$", "-test.timeout", "0")
		cmd.Env = []string{"VH_TOK=1", "PATH=/usr/bin:/bin"}
		in, err := cmd.StdinPipe()
		if err != nil {
			return vhTokResp{}, err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return vhTokResp{}, err
		}
		if err := cmd.Start(); err != nil {
			return vhTokResp{}, err
		}
		toks = &tokServer{cmd, bufio.NewWriter(in), bufio.NewReaderSize(out, 1<<20)}
	}
	data, _ := json.Marshal(src)
	toks.in.Write(append(data, '\n'))
	toks.in.Flush()
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	r := toks.out
	go func() {
		l, err := r.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			toks.cmd.Process.Kill()
			toks.cmd.Wait()
			toks = nil
			return vhTokResp{Panic: "process died"}, nil
		}
		var resp vhTokResp
		err := json.Unmarshal(a.l, &resp)
		return resp, err
	case <-time.After(20 * time.Second):
		toks.cmd.Process.Kill()
		toks.cmd.Wait()
		toks = nil
		return vhTokResp{Panic: "tokenizer did not end in 20 s"}, nil
	}
}

var identRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
var locRe = regexp.MustCompile(`x\.fbd[ :]\+?(\d+):(\d+)`)

func checkTokens(src []byte, r vhTokResp) error {
	lineOf := func(off int) (int, int) {
		l := bytes.Count(src[:off], []byte("\n")) + 1
		return l, off - (bytes.LastIndexByte(src[:off], '\n') + 1) + 1
	}
	end := -1 // end of the last token with text
	for i, t := range r.Toks {
		what := fmt.Sprintf("token %d %s %d-%d (line %d column %d)", i, t.Name, t.S, t.E, t.L, t.C)
		if t.S < 0 || t.S > len(src) {
			return fmt.Errorf("%s starts outside of the source of length %d", what, len(src))
		}
		if l, c := lineOf(t.S); l != t.L || c != t.C {
			return fmt.Errorf("%s is at line %d column %d", what, l, c)
		}
		if t.Name == "indent decrement" && i > 0 && r.Toks[i-1].Name == t.Name && r.Toks[i-1].S == t.S && r.Toks[i-1].E == t.E {
			continue // one line ends several blocks
		}
		if t.S <= end {
			return fmt.Errorf("%s overlaps the previous one which ends at %d", what, end)
		}
		if t.Name == "end of file" {
			if i != len(r.Toks)-1 {
				return fmt.Errorf("%s is not the last one", what)
			}
			if t.S != len(src) {
				return fmt.Errorf("%s but source has %d bytes", what, len(src))
			}
			continue
		}
		if t.Name == "indent decrement" && t.S == t.E {
			continue // without text of its own
		}
		if t.E < t.S || t.E >= len(src) {
			return fmt.Errorf("%s does not lie inside of the source of length %d", what, len(src))
		}
		gap := string(src[end+1 : t.S])
		if rest := strings.Trim(gap, " \n"); rest != "" && !strings.HasPrefix(rest, "#") {
			return fmt.Errorf("%q before %s belongs to no token", gap, what)
		}
		txt := string(src[t.S : t.E+1])
		switch {
		case strings.HasPrefix(t.Name, "'") && strings.HasSuffix(t.Name, "'") && len(t.Name) > 2:
			if txt != strings.Trim(t.Name, "'") {
				return fmt.Errorf("%s has text %q", what, txt)
			}
		case t.Name == "identifier":
			if !identRe.MatchString(txt) {
				return fmt.Errorf("%s has text %q", what, txt)
			}
		case t.Name == "newline":
			if strings.Trim(txt, "\n ") != "" {
				return fmt.Errorf("%s has text %q", what, txt)
			}
		case t.Name == "comment":
			if txt[0] != '#' || strings.Contains(txt, "\n") {
				return fmt.Errorf("%s has text %q", what, txt)
			}
		case t.Name == "string":
			if len(txt) < 2 || txt[0] != '"' || strings.IndexByte(txt[1:], '"') != len(txt)-2 {
				return fmt.Errorf("%s has text %q", what, txt)
			}
		}
		end = t.E
	}
	if len(r.Toks) == 0 || r.Toks[len(r.Toks)-1].Name != "end of file" {
		return fmt.Errorf("token list does not end with the end of file")
	}
	gap := string(src[end+1:])
	if rest := strings.Trim(gap, " \n"); rest != "" && !strings.HasPrefix(rest, "#") {
		return fmt.Errorf("%q at the end belongs to no token", gap)
	}
	return nil
}

func runTokens(env *Env, c *FuzzCase) Result {
	if env.tok == "" {
		return Result{Skip: true, Labels: []string{"no token test"}}
	}
	src := c.Src["bus.fbd"]
	r, err := env.parseTokens(src)
	if err != nil {
		return Result{Infra: err.Error()}
	}
	if r.Panic != "" {
		return fail("tokenizer crashed: %s\nsource: %q", r.Panic, src)
	}
	if r.Err != "" {
		nl := bytes.Count(src, []byte("\n")) + 1
		for _, m := range locRe.FindAllStringSubmatch(r.Err, -1) {
			var l, col int
			fmt.Sscan(m[1], &l)
			fmt.Sscan(m[2], &col)
			if l < 1 || l > nl || col < 1 {
				return fail("tokenizer error is located outside of the source, line %d column %d of %d lines: %s\nsource: %q", l, col, nl, r.Err, src)
			}
			lines := bytes.Split(src, []byte("\n"))
			if col > len(lines[l-1])+1 {
				return fail("tokenizer error is located after the end of the line, line %d column %d: %s\nsource: %q", l, col, r.Err, src)
			}
		}
		return Result{Labels: []string{"error"}}
	}
	if err := checkTokens(src, r); err != nil {
		return fail("%v\nsource: %q", err, src)
	}
	return Result{NonTrivial: len(r.Toks) > 4, Labels: []string{"tokens"}}
}

// genTokenText makes texts which are usually accepted by the tokenizer.
func genTokenText(t *rapid.T) FuzzCase {
	switch intRange(0, 4).Draw(t, "src") {
	case 0:
		pr := genProgram(t, fuzzCfg)
		return FuzzCase{Src: map[string][]byte{"bus.fbd": []byte(pr.Prog.render(Style{Ch: drawChooser(t)})["bus.fbd"])}}
	case 1:
		return genSoup(t)
	case 2:
		return genMutated(t)
	}
	words := []string{"main", "bus", "block", "width", "init-value", "A", "p.A", "x_1", "0", "0x1F", "0b101", "0o17", "1.5", "1e3", "10 ns", "1 s", `"Explicit"`, `""`, "\"a\nb\"", `"#;"`, `b"01"`, `x"fF"`, `o"7-"`,
		"+", "-", "*", "/", "%", "**", "<<", ">>", "(", ")", "[", "]", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "&", "|", ":", "=", "true", "const", "type", "import", "# c", "#", "log2", "TIMESTAMP", "A-B", "A -B", "x\"1\"+2"}
	b := strings.Builder{}
	ind := 0
	for i := intRange(1, 8).Draw(t, "lines"); i > 0; i-- {
		b.WriteString(strings.Repeat("  ", ind))
		for j := intRange(1, 6).Draw(t, "words"); j > 0; j-- {
			b.WriteString(words[intRange(0, len(words)-1).Draw(t, "w")])
			if j > 1 {
				b.WriteString([]string{" ", " ", "  ", ", ", "; ", ""}[intRange(0, 5).Draw(t, "s")])
			}
		}
		b.WriteString([]string{"\n", "\n", "\n\n", " # trailing\n", "\n\n\n"}[intRange(0, 4).Draw(t, "e")])
		switch intRange(0, 3).Draw(t, "ind") {
		case 0:
			ind++
		case 1:
			ind = intRange(0, ind).Draw(t, "ded")
		}
	}
	s := b.String()
	if chance(t, 20, "trim") {
		s = strings.TrimRight(s, "\n")
	}
	return FuzzCase{Src: map[string][]byte{"bus.fbd": []byte(s)}}
}

// genScaled makes descriptions which repeat one construct many times, mostly valid.
func genScaled(t *rapid.T) FuzzCase {
	top := []int{40, 400, 3000}[intRange(0, 2).Draw(t, "top")]
	n := rapid.IntRange(1, top).Draw(t, "n")
	if chance(t, 60, "many") {
		n = top - n + 1
	}
	rep := strings.Repeat
	b := strings.Builder{}
	body := "main bus\n  c config\n    width = "
	kind := sampledFrom([]string{"parens", "lists", "sum", "power", "unary", "mixed", "open", "close", "spaces", "newlines", "comment", "doc", "name", "number", "float", "string", "lines in string",
		"bit string", "blocks", "constants", "constants backwards", "types", "types backwards", "instances", "properties", "semicolons", "args", "nested args", "imports", "qualified", "columns", "calls", "tabs", "subblocks"}).Draw(t, "kind")
	switch kind {
	case "parens":
		b.WriteString(body + rep("(", n) + "7" + rep(")", n) + "\n")
	case "lists":
		b.WriteString("main bus\n  const A = " + rep("[", n) + "7" + rep("]", n) + "\n  c config\n")
	case "sum":
		b.WriteString(body + "1" + rep(" + 1 - 1", n) + "\n")
	case "power":
		b.WriteString(body + "2" + rep("**1", n) + "\n")
	case "unary":
		b.WriteString(body + rep("- ", 2*n) + "8\n")
	case "mixed":
		b.WriteString(body + rep("(1*(2+", n) + "7" + rep("))", n) + "\n")
	case "open":
		b.WriteString(body + rep([]string{"(", "[", "log2(", "-", "1+", "\""}[intRange(0, 5).Draw(t, "o")], n) + "\n")
	case "close":
		b.WriteString(body + "1" + rep([]string{")", "]", "\"", "**"}[intRange(0, 3).Draw(t, "o")], n) + "\n")
	case "spaces":
		b.WriteString("main bus; width" + rep(" ", n) + "=" + rep(" ", n) + "8\n  c config\n")
	case "newlines":
		b.WriteString(rep("\n", n) + "main bus\n" + rep("\n", n) + "  c config" + rep("\n", n))
	case "comment":
		b.WriteString("main bus #" + rep("x", n) + "\n  c config\n")
	case "doc":
		b.WriteString("main bus\n" + rep("  # "+rep("d", n/20)+"\n", n%200+1) + "  c config\n")
	case "name":
		b.WriteString("main bus\n  c" + rep("x", n) + " config\n")
	case "number":
		b.WriteString(body + rep("1", n) + "\n")
	case "float":
		b.WriteString("const A = 1." + rep("3", n) + "e-" + rep("1", n%30+1) + "\n" + body + "1\n")
	case "string":
		b.WriteString("main bus\n  const A = \"" + rep("s", n) + "\"\n  c config\n")
	case "lines in string":
		b.WriteString("main bus\n  const A = \"" + rep("\n", n) + "\"\n  c config\n")
	case "bit string":
		b.WriteString(body + fmt.Sprint(n*4) + "; init-value = x\"" + rep("a", n) + "\"\n")
	case "blocks":
		b.WriteString("main bus\n")
		for i := 1; i <= n%400; i++ {
			b.WriteString(rep("  ", i) + fmt.Sprintf("b%d block\n", i))
		}
		b.WriteString(rep("  ", n%400+1) + "c config\n")
	case "constants", "constants backwards":
		ls := []string{"const C0 = 8\n"}
		for i := 1; i <= n; i++ {
			ls = append(ls, fmt.Sprintf("const C%d = C%d\n", i, i-1))
		}
		if kind != "constants" {
			for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
		b.WriteString(strings.Join(ls, "") + body + fmt.Sprintf("C%d\n", n))
	case "types", "types backwards":
		ls := []string{"type T0 config; width = 8\n"}
		for i := 1; i <= n; i++ {
			ls = append(ls, fmt.Sprintf("type T%d T%d\n", i, i-1))
		}
		if kind != "types" {
			for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
		b.WriteString(strings.Join(ls, "") + fmt.Sprintf("main bus\n  c T%d\n", n))
	case "instances", "subblocks":
		b.WriteString("main bus\n")
		for i := 0; i < n; i++ {
			if kind == "instances" {
				b.WriteString(fmt.Sprintf("  c%d [%d]status; width = %d\n", i, i%5+1, i%40+1))
			} else {
				b.WriteString(fmt.Sprintf("  c%d block\n    s status\n", i))
			}
		}
	case "properties":
		b.WriteString("main bus\n  c config" + rep("; width = 8", n) + "\n")
	case "semicolons":
		b.WriteString("main bus\n  c config" + rep(";", n) + "\n")
	case "args":
		ps, as := []string{}, []string{}
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("p%d = p%d", i, max(i-1, 0)))
			as = append(as, fmt.Sprintf("p%d = %d", i, i%8+1))
		}
		b.WriteString("type T(" + strings.Join(ps, ", ") + ") config; width = p0\nmain bus\n  c T(" + strings.Join(as, ", ") + ")\n")
	case "nested args":
		b.WriteString("type T(a, b = a) config; width = b\nmain bus\n  c T(" + rep("(", n) + "3" + rep(")", n) + ")\n")
	case "imports":
		b.WriteString("import\n" + rep("  a \"fbd-a\"\n", n) + "main bus\n")
	case "qualified":
		b.WriteString(body + "a" + rep(".a", n) + "\n")
	case "columns":
		b.WriteString("main bus\n  c config; range = [" + rep("1:2, ", n) + "3:4]\n")
	case "calls":
		f := []string{"log2(", "ceil(", "floor(", "bool("}[intRange(0, 3).Draw(t, "f")]
		b.WriteString(body + rep(f, n) + "16" + rep(")", n) + "\n")
	case "tabs":
		b.WriteString("main bus\n" + rep("\t", n) + "c config\n")
	}
	return FuzzCase{Src: map[string][]byte{"bus.fbd": []byte(b.String())}, NT: n > 30, Labels: []string{kind}}
}

func init() {
	register("C11", "random bytes, token soups with plausible line structure, mutations of valid generated descriptions on the level of text and of the program tree (wrong types, values, counts, moved and duplicated definitions), one construct repeated up to 3000 times; oracle: no crash, 15 s and 1.5 GB bounds, a result if and only if the exit status is 0, otherwise a message and no output; token positions are checked against the source; non-trivial: source longer than a few bytes, or more than 4 tokens",
		sub("bytes", 8000, 60000, genBytes, runFuzz),
		sub("soup", 12000, 130000, named(genSoup), runFuzz),
		sub("mutated", 14000, 150000, named(genMutated), runFuzz),
		sub("chaos", 12000, 130000, genChaos, runFuzz),
		sub("scaled", 3000, 30000, genScaled, runFuzz),
		sub("tokens", 24000, 250000, genTokenText, runTokens),
	)
}
