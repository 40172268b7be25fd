package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

// exprGen generates expressions, mostly with a defined value.
type exprGen struct {
	t     *rapid.T
	names []string
	vals  map[string]Val
	wrong int // chance of an operand of wrong type
}

func (g *exprGen) n(n int) int {
	if n < 2 {
		return 0
	}
	return intRange(0, n-1).Draw(g.t, "n")
}
func (g *exprGen) pct(p int) bool { return p > 0 && chance(g.t, p, "pct") }

func (g *exprGen) ref(kind string) *Expr {
	c := []string{}
	for _, n := range g.names {
		if g.vals[n].K == kind {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return eRef(c[g.n(len(c))])
}

var edgeInts = []int64{0, 1, 2, 3, 7, 8, 10, 31, 32, 33, 62, 63, 64, 65, 100, 255, 256, 1000, 1024, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
	1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64, 1000000000000000000}

func (g *exprGen) intLit() *Expr {
	switch g.n(6) {
	case 0, 1, 2:
		return eInt(drawInt(g.t, 0, 20, "i"))
	case 3:
		return eInt(drawInt(g.t, 0, 5000, "i"))
	case 4:
		return eInt(edgeInts[g.n(len(edgeInts))])
	}
	return eInt(rapid.Int64Range(0, math.MaxInt64).Draw(g.t, "i"))
}

func (g *exprGen) gen(kind string, depth int) *Expr {
	if g.pct(g.wrong) {
		kind = []string{"int", "bool", "float", "str", "bits", "list", "range", "time"}[g.n(8)]
	}
	if g.pct(15) {
		if r := g.ref(kind); r != nil {
			return r
		}
	}
	if depth > 0 && g.pct(8) && kind != "range" && kind != "time" {
		return eParen(g.gen(kind, depth-1))
	}
	switch kind {
	case "int":
		if depth <= 0 {
			return g.intLit()
		}
		switch g.n(16) {
		case 0, 1:
			return g.intLit()
		case 2, 3:
			return eBin("+", g.gen("int", depth-1), g.gen("int", depth-1))
		case 4, 5:
			return eBin("-", g.gen("int", depth-1), g.gen("int", depth-1))
		case 6, 7:
			return eBin("*", g.gen("int", depth-1), g.gen("int", depth-1))
		case 8:
			return eBin("/", g.gen("int", depth-1), g.gen("int", depth-1))
		case 9:
			return eBin("%", g.gen("int", depth-1), g.gen("int", depth-1))
		case 10:
			return eBin("<<", g.gen("int", depth-1), g.small(depth))
		case 11:
			return eBin(">>", g.gen("int", depth-1), g.small(depth))
		case 12:
			return eBin("**", g.small(depth), g.small(depth))
		case 13:
			return eUn([]string{"-", "+"}[g.n(2)], g.gen("int", depth-1))
		case 14:
			return eCall([]string{"ceil", "floor"}[g.n(2)], g.gen([]string{"int", "float"}[g.n(2)], depth-1))
		default:
			return eCall([]string{"log2", "log10"}[g.n(2)], g.gen("int", depth-1))
		}
	case "bool":
		if depth > 0 {
			switch g.n(4) {
			case 0:
				return eUn("!", g.gen("bool", depth-1))
			case 1:
				return eCall("bool", g.gen("int", depth-1))
			}
		}
		return eBool(g.pct(50))
	case "float":
		if depth > 0 {
			switch g.n(4) {
			case 0:
				return eBin("/", g.gen("int", depth-1), g.gen("int", depth-1))
			case 1:
				return eCall([]string{"log2", "log10"}[g.n(2)], g.gen([]string{"int", "float"}[g.n(2)], depth-1))
			case 2:
				return eBin("**", g.small(depth), eParen(eUn("-", g.small(0))))
			}
		}
		switch g.n(4) {
		case 0:
			return eFloat(fmt.Sprintf("%d.%d", g.n(100), g.n(1000)))
		case 1:
			return eFloat(fmt.Sprintf("%de%d", 1+g.n(9), g.n(19)))
		case 2:
			return eFloat(fmt.Sprintf("%d.%de%d", g.n(10), g.n(10), g.n(12)))
		}
		return eFloat([]string{"0.0", "0.5", "1.0", "8.0", "1024.0", "1e3", "0.125", "9007199254740993.0", "9223372036854775807.0", "9223372036854774784.0", "1e18", "1e19", "0.1"}[g.n(13)])
	case "str":
		b := strings.Builder{}
		for i := g.n(8); i > 0; i-- {
			b.WriteString([]string{"a", "Z", "0", " ", "#", ";", "=", "\\", "'", "ż", "(", "]", "const", "//", "\t", "-", "%d"}[g.n(17)])
		}
		return eStr(b.String())
	case "bits":
		return eBits([]string{`b"1"`, `x"f"`, `o"7"`}[g.n(3)])
	case "time":
		return eTime(int64(g.n(100)), []string{"ns", "us", "ms", "s"}[g.n(4)])
	case "range":
		return eParen(eBin(":", g.gen("int", depth-1), g.gen("int", depth-1)))
	case "list":
		k := []string{"int", "bool"}[g.n(2)]
		l := eList()
		for i := 1 + g.n(4); i > 0; i-- {
			l.Xs = append(l.Xs, g.gen(k, depth-1))
		}
		return l
	}
	panic("kind " + kind)
}

// small generates a small integer, for exponents and shift amounts.
func (g *exprGen) small(depth int) *Expr {
	if depth > 0 && g.pct(15) {
		return g.gen("int", depth-1)
	}
	if g.pct(10) {
		return eInt(drawInt(g.t, 0, 70, "s"))
	}
	return eInt(drawInt(g.t, 0, 12, "s"))
}

// ExprCase holds constant definitions with a value (in Src) and one without (Bad).
type ExprCase struct {
	Pkg   []string `json:"pkg"`  // package level constant lines
	Body  []string `json:"body"` // lines in the body of the bus
	WantP Consts   `json:"want_p"`
	WantB Consts   `json:"want_b"`
	Bad   string   `json:"bad,omitempty"`
	BadIn bool     `json:"bad_in,omitempty"`
	Why   string   `json:"why,omitempty"`
	Ops   []string `json:"ops,omitempty"`
}

func (c *ExprCase) src(bad bool) string {
	b := strings.Builder{}
	pk, body := c.Pkg, c.Body
	if bad && c.BadIn {
		body = append(append([]string(nil), body...), c.Bad)
	} else if bad {
		pk = append(append([]string(nil), pk...), c.Bad)
	}
	for _, l := range pk {
		b.WriteString(l + "\n")
	}
	b.WriteString("main bus\n")
	for _, l := range body {
		b.WriteString("  " + l + "\n")
	}
	return b.String()
}

func (c *ExprCase) Describe() string { return c.src(true) }

func exprOps(e *Expr, f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	exprOps(e.X, f)
	exprOps(e.Y, f)
	for _, x := range e.Xs {
		exprOps(x, f)
	}
}

// fixParens makes left operands which are ranges safe: a range is never an operand.
func genExprCase(t *rapid.T) ExprCase {
	c := ExprCase{}
	g := &exprGen{t: t, vals: map[string]Val{}}
	ch := drawChooser(t)
	n := 1 + g.n(5)
	ops := map[string]bool{}
	for i := 0; i < n; i++ {
		kind := []string{"int", "int", "int", "int", "bool", "float", "str", "list"}[g.n(8)]
		g.wrong = 0
		if g.pct(20) {
			g.wrong = 8
		}
		e := g.gen(kind, 1+g.n(4))
		name := fmt.Sprintf("K%d", i)
		inBody := g.pct(40)
		// Package constants must not refer to constants from the body.
		if !inBody {
			ok := true
			exprOps(e, func(x *Expr) {
				if x.K == "ref" && strings.HasPrefix(x.Txt, "B") {
					ok = false
				}
			})
			inBody = !ok
		}
		if inBody {
			name = fmt.Sprintf("B%d", i)
		}
		v, err := evalExpr(e, func(n string) (Val, error) { return g.vals[n], nil })
		line := "const " + name + [...]string{" = ", "=", "  = "}[ch(3)] + render(e, ch)
		if ch(12) == 1 {
			line += " # comment"
		}
		if _, ok := err.(errImprecise); ok {
			continue
		}
		if err != nil {
			if c.Bad == "" {
				c.Bad, c.BadIn, c.Why = line, inBody, err.Error()
			}
			continue
		}
		if v.K == "list" {
			// Only lists of one type are reported.
			for _, x := range v.L {
				if x.K != v.L[0].K || x.K != "int" && x.K != "bool" {
					v.K = "mixed"
				}
			}
		}
		exprOps(e, func(x *Expr) {
			if x.K == "bin" || x.K == "un" || x.K == "call" || x.K == "list" {
				ops[x.K+" "+x.Txt] = true
			}
		})
		g.names = append(g.names, name)
		g.vals[name] = v
		if inBody {
			c.Body = append(c.Body, line)
			addConst(&c.WantB, name, v)
		} else {
			c.Pkg = append(c.Pkg, line)
			addConst(&c.WantP, name, v)
		}
	}
	// Order of definitions has no meaning.
	if g.pct(30) && len(c.Pkg) > 1 {
		c.Pkg = rapid.Permutation(c.Pkg).Draw(t, "perm")
	}
	if g.pct(30) && len(c.Body) > 1 {
		c.Body = rapid.Permutation(c.Body).Draw(t, "perm")
	}
	c.Ops = sortedKeys(ops)
	return c
}

func runExprCase(env *Env, c *ExprCase) Result {
	o, consts := compileWithConsts(env, Files{"bus.fbd": c.src(false)})
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code != 0 {
		return fail("expressions with defined values are rejected: %s", o.brief())
	}
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return fail("result is not valid: %v", err)
	}
	if d := diffConsts(&c.WantB, &bus.Consts); d != "" {
		return fail("bus: %s", d)
	}
	if d := diffPkgConsts(map[string]*Consts{"main": &c.WantP}, consts); d != "" {
		return fail("%s", d)
	}
	ls := append([]string(nil), c.Ops...)
	if c.Bad != "" {
		ls = append(ls, "error case")
		o, consts := compileWithConsts(env, Files{"bus.fbd": c.src(true)})
		if s := o.infra(); s != "" {
			return Result{Infra: s}
		}
		if o.Code == 0 {
			return fail("expression without a value (%s) is accepted: %s\nconstants: %s", c.Why, c.Bad, consts)
		}
		if o.Crashed() || len(strings.TrimSpace(string(o.Stderr))) == 0 || len(o.Stdout) != 0 {
			return fail("expression without a value (%s) is not rejected orderly: %s: %s", c.Why, c.Bad, o.brief())
		}
	}
	return Result{NonTrivial: len(c.Ops) >= 2, Labels: ls}
}

// TimeCase is a list of delays.
type TimeCase struct {
	Line string   `json:"line"`
	N    []int64  `json:"n"`
	Unit []string `json:"unit"`
	Src  string   `json:"src"`
}

func (c *TimeCase) Describe() string { return c.Src }

func genTimeCase(t *rapid.T) TimeCase {
	c := TimeCase{}
	b := strings.Builder{}
	ch := drawChooser(t)
	pre := strings.Builder{}
	for i := 0; i < 4; i++ {
		v := rapid.OneOf(rapid.Int64Range(0, 2000), sampledFrom([]int64{999, 1000, 1001, 999999, 1000000, 999999999, 1000000000, 1000000001, 59999999999, math.MaxInt64}),
			rapid.Int64Range(0, math.MaxInt64)).Draw(t, "v")
		u := sampledFrom([]string{"ns", "us", "ms", "s"}).Draw(t, "u")
		if u != "ns" && u != "s" && v > math.MaxInt64/1000000 {
			v /= 1000000
		}
		c.N = append(c.N, v)
		c.Unit = append(c.Unit, u)
		txt := fmt.Sprintf("%s %s", renderInt(v, canonical), u)
		switch ch(4) {
		case 1:
			fmt.Fprintf(&pre, "const T%d = %s\n", i, txt)
			txt = fmt.Sprintf("T%d", i)
		case 2:
			txt = "(" + txt + ")"
		}
		kind := []string{"proc", "stream"}[ch(2)]
		fmt.Fprintf(&b, "  p%d %s; delay = %s\n", i, kind, txt)
	}
	c.Src = pre.String() + "main bus\n" + b.String()
	return c
}

func runTimeCase(env *Env, c *TimeCase) Result {
	o := env.Compile(Files{"bus.fbd": c.Src}, "bus.fbd")
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code != 0 {
		return fail("time literals are rejected: %s", o.brief())
	}
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return fail("result is not valid: %v", err)
	}
	got := map[string]*TimeV{}
	for _, p := range bus.Procs {
		got[p.Name] = p.Delay
	}
	for _, p := range bus.Streams {
		got[p.Name] = p.Delay
	}
	for i := range c.N {
		g := got[fmt.Sprintf("p%d", i)]
		if g == nil {
			return fail("delay %d %s is missing", c.N[i], c.Unit[i])
		}
		mul := map[string]int64{"ns": 1, "us": 1000, "ms": 1000000, "s": 1000000000}[c.Unit[i]]
		want := new(big.Int).Mul(bigInt(c.N[i]), bigInt(mul))
		have := new(big.Int).Mul(bigInt(g.S), bigInt(1000000000))
		have.Add(have, bigInt(g.Ns))
		if want.Cmp(have) != 0 || g.Ns < 0 || g.Ns >= 1000000000 {
			return fail("delay %d %s is reported as %d s %d ns", c.N[i], c.Unit[i], g.S, g.Ns)
		}
	}
	return Result{NonTrivial: true}
}

var exprCfg = GenCfg{MaxKids: 5, MaxDepth: 2, Kinds: allKinds, Types: 15, Refs: 30, Exprs: 85, Values: 60, Consts: 35, MaxPkgs: 1, AnyName: true}

func init() {
	register("C08", "random expressions over integers, floats, booleans, strings, lists, times, ranges, all arithmetic and shift operators and functions, references, with random spacing, parentheses and number notation, as constants and as property values, array sizes and arguments; the value is computed by an exact (big number) evaluator, expressions without a value must be rejected; non-trivial: at least two different operators or functions",
		sub("const", 22000, 200000, genExprCase, runExprCase),
		sub("placed", 6000, 60000, genContent(exprCfg), runContent),
		sub("time", 3000, 30000, genTimeCase, runTimeCase),
	)
}
