package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Expr is an expression of the language.
//
// K: int float bool str bits time ref un bin call list paren
type Expr struct {
	K    string
	Txt  string
	V    int64
	X, Y *Expr
	Xs   []*Expr
	Tail bool // list or call written with a comma after the last element
}

// Val is a value of an expression.
type Val struct {
	K string // int float bool str bits list range time
	I int64
	F float64
	B bool
	S string // str, bits literal
	L []Val
	R [2]int64
	T TimeV

	fuzzy bool // float which is not guaranteed to be the closest one
}

// errImprecise is a function of a float whose last bits are not defined by the language.
type errImprecise struct{}

func (errImprecise) Error() string { return "imprecise" }

const exactFloat = 1 << 53

func (v Val) String() string {
	switch v.K {
	case "int":
		return strconv.FormatInt(v.I, 10)
	case "float":
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	case "bool":
		return strconv.FormatBool(v.B)
	case "str":
		return strconv.Quote(v.S)
	case "bits":
		return v.S
	case "range":
		return fmt.Sprintf("%d:%d", v.R[0], v.R[1])
	case "time":
		return fmt.Sprintf("%d s %d ns", v.T.S, v.T.Ns)
	case "list":
		p := []string{}
		for _, e := range v.L {
			p = append(p, e.String())
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	return "?"
}

func vInt(i int64) Val { return Val{K: "int", I: i} }

func eInt(v int64) *Expr {
	if v >= 0 {
		return &Expr{K: "int", V: v}
	}
	if v == math.MinInt64 {
		return eBin("-", eUn("-", eInt(math.MaxInt64)), eInt(1))
	}
	return eUn("-", &Expr{K: "int", V: -v})
}
func eUn(op string, x *Expr) *Expr         { return &Expr{K: "un", Txt: op, X: x} }
func eBin(op string, x, y *Expr) *Expr     { return &Expr{K: "bin", Txt: op, X: x, Y: y} }
func eCall(fn string, args ...*Expr) *Expr { return &Expr{K: "call", Txt: fn, Xs: args} }
func eList(xs ...*Expr) *Expr              { return &Expr{K: "list", Xs: xs} }
func eRef(name string) *Expr               { return &Expr{K: "ref", Txt: name} }
func eStr(s string) *Expr                  { return &Expr{K: "str", Txt: s} }
func eBits(s string) *Expr                 { return &Expr{K: "bits", Txt: s} }
func eBool(b bool) *Expr                   { return &Expr{K: "bool", Txt: strconv.FormatBool(b)} }
func eTime(v int64, unit string) *Expr     { return &Expr{K: "time", V: v, Txt: unit} }
func eFloat(txt string) *Expr              { return &Expr{K: "float", Txt: txt} }
func eParen(x *Expr) *Expr                 { return &Expr{K: "paren", X: x} }

var precs = map[string]int{
	"**": 6, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "+": 4, "-": 4, ":": 0,
}

func bigInt(i int64) *big.Int { return big.NewInt(i) }

func fromBig(b *big.Int) (Val, error) {
	if !b.IsInt64() {
		return Val{}, fmt.Errorf("integer overflow")
	}
	return vInt(b.Int64()), nil
}

type evalErr struct{ msg string }

func (e evalErr) Error() string { return e.msg }

func everr(f string, a ...any) error { return evalErr{fmt.Sprintf(f, a...)} }

// evalExpr is the exact reference evaluator.
func evalExpr(e *Expr, lookup func(string) (Val, error)) (Val, error) {
	switch e.K {
	case "int":
		return vInt(e.V), nil
	case "float":
		f, err := strconv.ParseFloat(e.Txt, 64)
		if err != nil {
			return Val{}, err
		}
		return Val{K: "float", F: f}, nil
	case "bool":
		return Val{K: "bool", B: e.Txt == "true"}, nil
	case "str":
		return Val{K: "str", S: e.Txt}, nil
	case "bits":
		return Val{K: "bits", S: e.Txt}, nil
	case "time":
		mul := map[string]int64{"ns": 1, "us": 1000, "ms": 1000000, "s": 1000000000}[e.Txt]
		n := new(big.Int).Mul(bigInt(e.V), bigInt(mul))
		s, ns := new(big.Int).DivMod(n, bigInt(1000000000), new(big.Int))
		return Val{K: "time", T: TimeV{s.Int64(), ns.Int64()}}, nil
	case "paren":
		return evalExpr(e.X, lookup)
	case "ref":
		return lookup(e.Txt)
	case "list":
		v := Val{K: "list"}
		for _, x := range e.Xs {
			xv, err := evalExpr(x, lookup)
			if err != nil {
				return Val{}, err
			}
			v.L = append(v.L, xv)
		}
		return v, nil
	case "un":
		x, err := evalExpr(e.X, lookup)
		if err != nil {
			return Val{}, err
		}
		switch {
		case e.Txt == "!" && x.K == "bool":
			return Val{K: "bool", B: !x.B}, nil
		case e.Txt == "+" && x.K == "int":
			return x, nil
		case e.Txt == "-" && x.K == "int":
			return fromBig(new(big.Int).Neg(bigInt(x.I)))
		}
		return Val{}, everr("operator %s on %s", e.Txt, x.K)
	case "bin":
		x, err := evalExpr(e.X, lookup)
		if err != nil {
			return Val{}, err
		}
		y, err := evalExpr(e.Y, lookup)
		if err != nil {
			return Val{}, err
		}
		if x.K != "int" || y.K != "int" {
			return Val{}, everr("operator %s on %s and %s", e.Txt, x.K, y.K)
		}
		return evalBin(e.Txt, x.I, y.I)
	case "call":
		args := []Val{}
		for _, a := range e.Xs {
			v, err := evalExpr(a, lookup)
			if err != nil {
				return Val{}, err
			}
			args = append(args, v)
		}
		return evalCall(e.Txt, args)
	}
	panic("unknown expression kind " + e.K)
}

func evalBin(op string, x, y int64) (Val, error) {
	bx, by := bigInt(x), bigInt(y)
	switch op {
	case "+":
		return fromBig(new(big.Int).Add(bx, by))
	case "-":
		return fromBig(new(big.Int).Sub(bx, by))
	case "*":
		return fromBig(new(big.Int).Mul(bx, by))
	case "/":
		if y == 0 {
			return Val{}, everr("division by zero")
		}
		q, r := new(big.Int).QuoRem(bx, by, new(big.Int))
		if r.Sign() == 0 {
			return fromBig(q)
		}
		f, _ := new(big.Rat).SetFrac(bx, by).Float64()
		return Val{K: "float", F: f, fuzzy: max(x, -x, y, -y) > exactFloat || min(x, y) < -exactFloat}, nil
	case "%":
		if y == 0 {
			return Val{}, everr("division by zero")
		}
		return fromBig(new(big.Int).Rem(bx, by))
	case "**":
		if y >= 0 {
			switch x {
			case 0:
				if y == 0 {
					return vInt(1), nil
				}
				return vInt(0), nil
			case 1:
				return vInt(1), nil
			case -1:
				if y%2 == 0 {
					return vInt(1), nil
				}
				return vInt(-1), nil
			}
			if y > 64 {
				return Val{}, everr("integer overflow")
			}
			return fromBig(new(big.Int).Exp(bx, by, nil))
		}
		if x == 0 {
			return Val{}, everr("division by zero")
		}
		if x == 1 || x == -1 {
			// As the division: an integer result is an integer.
			if x == -1 && y%2 != 0 {
				return vInt(-1), nil
			}
			return vInt(1), nil
		}
		if y < -1100 {
			return Val{K: "float", F: 0, fuzzy: true}, nil
		}
		d := new(big.Int).Exp(bx, bigInt(-y), nil)
		f, _ := new(big.Rat).SetFrac(bigInt(1), d).Float64()
		return Val{K: "float", F: f, fuzzy: d.BitLen() > 52}, nil
	case "<<":
		if y < 0 {
			return Val{}, everr("negative shift")
		}
		if x == 0 {
			return vInt(0), nil
		}
		if y > 64 {
			return Val{}, everr("integer overflow")
		}
		return fromBig(new(big.Int).Lsh(bx, uint(y)))
	case ">>":
		if y < 0 {
			return Val{}, everr("negative shift")
		}
		if y > 64 {
			y = 64
		}
		return fromBig(new(big.Int).Rsh(bx, uint(y)))
	case ":":
		return Val{K: "range", R: [2]int64{x, y}}, nil
	}
	panic("unknown operator " + op)
}

func floatToInt(f float64) (Val, error) {
	b, _ := big.NewFloat(f).Int(nil)
	return fromBig(b)
}

func evalCall(fn string, args []Val) (Val, error) {
	ok := map[string]bool{"bool": true, "ceil": true, "floor": true, "log2": true, "log10": true}
	if !ok[fn] {
		return Val{}, everr("unknown function %s", fn)
	}
	if len(args) != 1 {
		return Val{}, everr("function %s with %d arguments", fn, len(args))
	}
	a := args[0]
	if a.fuzzy {
		return Val{}, errImprecise{}
	}
	switch fn {
	case "bool":
		if a.K == "int" {
			return Val{K: "bool", B: a.I != 0}, nil
		}
	case "ceil", "floor":
		if a.K == "int" {
			return a, nil
		}
		if a.K == "float" {
			if fn == "ceil" {
				return floatToInt(math.Ceil(a.F))
			}
			return floatToInt(math.Floor(a.F))
		}
	case "log2", "log10":
		base := 2.0
		lf := math.Log2
		if fn == "log10" {
			base, lf = 10, math.Log10
		}
		if a.K == "int" {
			if a.I <= 0 {
				return Val{}, everr("logarithm of %d", a.I)
			}
			p := int64(1)
			for e := int64(0); ; e++ {
				if p == a.I {
					return vInt(e), nil
				}
				if p > a.I/int64(base) {
					break
				}
				p *= int64(base)
			}
			// The logarithm lies strictly between two consecutive integers.
			f, lo := lf(float64(a.I)), math.Floor(lf(float64(a.I)))
			for lo > 0 && !lessEq(base, lo, a.I) {
				lo--
			}
			for lessEq(base, lo+1, a.I) {
				lo++
			}
			f = math.Min(math.Max(f, math.Nextafter(lo, lo+1)), math.Nextafter(lo+1, lo))
			return Val{K: "float", F: f}, nil
		}
		if a.K == "float" {
			if !(a.F > 0) {
				return Val{}, everr("logarithm of %v", a.F)
			}
			// A logarithm which is an integer number is an integer.
			r := math.Round(lf(a.F))
			if math.Pow(base, r) == a.F {
				return vInt(int64(r)), nil
			}
			return Val{K: "float", F: lf(a.F), fuzzy: true}, nil
		}
	}
	return Val{}, everr("function %s on %s", fn, a.K)
}

// lessEq tells whether base**n <= x.
func lessEq(base, n float64, x int64) bool {
	p := new(big.Int).Exp(bigInt(int64(base)), bigInt(int64(n)), nil)
	return p.Cmp(bigInt(x)) <= 0
}

// ---------------------------------------------------------------------------
// Rendering

// Chooser picks a number in range 0..n-1. Choice 0 is always the canonical one.
type Chooser func(n int) int

func canonical(n int) int { return 0 }

func drawChooser(t *rapid.T) Chooser {
	return func(n int) int {
		if n <= 1 {
			return 0
		}
		return intRange(0, n-1).Draw(t, "style")
	}
}

func renderInt(v int64, ch Chooser) string {
	switch ch(8) {
	case 1:
		return fmt.Sprintf("0x%x", v)
	case 2:
		return fmt.Sprintf("0X%X", v)
	case 3:
		return fmt.Sprintf("0b%b", v)
	case 4:
		return fmt.Sprintf("0B%b", v)
	case 5:
		return fmt.Sprintf("0o%o", v)
	case 6:
		return fmt.Sprintf("0O%o", v)
	}
	return strconv.FormatInt(v, 10)
}

func isPrimary(e *Expr) bool { return e.K != "un" && e.K != "bin" }

func spaces(ch Chooser) string {
	switch ch(4) {
	case 1:
		return ""
	case 2:
		return "  "
	}
	return " "
}

func optSpace(ch Chooser) string {
	if ch(4) == 1 {
		return " "
	}
	return ""
}

func render(e *Expr, ch Chooser) string {
	extra := func(s string) string {
		if ch(16) == 1 {
			return "(" + optSpace(ch) + s + optSpace(ch) + ")"
		}
		return s
	}
	switch e.K {
	case "int":
		return extra(renderInt(e.V, ch))
	case "float":
		t := e.Txt
		if strings.Contains(t, "e") && ch(3) == 1 {
			t = strings.ToUpper(t)
		}
		if ch(12) == 1 {
			t = "0" + t
		}
		if strings.Contains(t, ".") && ch(12) == 1 {
			if i := strings.IndexAny(t, "eE"); i >= 0 {
				t = t[:i] + "0" + t[i:]
			} else {
				t += "0"
			}
		}
		return t
	case "bool":
		return e.Txt
	case "bits":
		return e.Txt
	case "ref":
		return extra(e.Txt)
	case "str":
		return `"` + e.Txt + `"`
	case "time":
		return strconv.FormatInt(e.V, 10) + " " + e.Txt
	case "paren":
		o := optSpace(ch)
		return "(" + o + render(e.X, ch) + o + ")"
	case "list":
		p := []string{}
		for _, x := range e.Xs {
			p = append(p, render(x, ch))
		}
		sep := ", "
		if ch(4) == 1 {
			sep = ","
		}
		o := optSpace(ch)
		return "[" + o + strings.Join(p, sep) + e.tail() + o + "]"
	case "call":
		p := []string{}
		for _, x := range e.Xs {
			p = append(p, render(x, ch))
		}
		sep := ", "
		if ch(4) == 1 {
			sep = ","
		}
		o := optSpace(ch)
		return e.Txt + "(" + o + strings.Join(p, sep) + e.tail() + o + ")"
	case "un":
		x := render(e.X, ch)
		if !isPrimary(e.X) {
			x = "(" + x + ")"
		}
		return e.Txt + optSpace(ch) + x
	case "bin":
		p := precs[e.Txt]
		l, r := render(e.X, ch), render(e.Y, ch)
		if e.X.K == "bin" && precs[e.X.Txt] < p || e.X.K == "un" && p != 4 {
			l = "(" + l + ")"
		}
		if e.Y.K == "bin" && precs[e.Y.Txt] <= p || e.Y.K == "un" {
			r = "(" + r + ")"
		}
		s1, s2 := spaces(ch), spaces(ch)
		return extra2(l+s1+e.Txt+s2+r, e, ch)
	}
	panic("unknown expression kind " + e.K)
}

// extra2 surrounds binary expression with redundant parentheses.
func extra2(s string, e *Expr, ch Chooser) string {
	if e.Txt != ":" && ch(12) == 1 {
		return "(" + s + ")"
	}
	return s
}

// ---------------------------------------------------------------------------
// Value first generation

func drawInt(t *rapid.T, lo, hi int64, label string) int64 {
	return rapid.Int64Range(lo, hi).Draw(t, label)
}

func chance(t *rapid.T, pct int, label string) bool {
	return intRange(0, 99).Draw(t, label) >= 100-pct
}

// intExprLit returns an expression without references which evaluates to v.
func intExprLit(t *rapid.T, v int64, depth int) *Expr {
	if depth <= 0 || v > 1<<40 || v < -(1<<40) {
		return eInt(v)
	}
	switch intRange(0, 13).Draw(t, "form") {
	case 0, 1, 2, 3:
		return eInt(v)
	case 4:
		a := drawInt(t, -20, 100, "a")
		return eBin("+", intExprLit(t, a, depth-1), intExprLit(t, v-a, depth-1))
	case 5:
		a := drawInt(t, -20, 100, "a")
		return eBin("-", intExprLit(t, v+a, depth-1), intExprLit(t, a, depth-1))
	case 6:
		m := drawInt(t, 2, 9, "m")
		return eBin("+", eBin("*", intExprLit(t, v/m, depth-1), eInt(m)), intExprLit(t, v%m, depth-1))
	case 7:
		m := drawInt(t, 1, 9, "m")
		return eBin("/", intExprLit(t, v*m, depth-1), intExprLit(t, m, depth-1))
	case 8:
		k := drawInt(t, 0, 6, "k")
		return eBin(">>", intExprLit(t, v<<k+drawInt(t, 0, 1<<k-1, "low"), depth-1), eInt(k))
	case 9:
		if v > 0 {
			k := int64(0)
			for v>>k&1 == 0 {
				k++
			}
			return eBin("<<", intExprLit(t, v>>k, depth-1), eInt(k))
		}
	case 10:
		if v > 1 && v&(v-1) == 0 {
			k := int64(0)
			for v>>k > 1 {
				k++
			}
			return eBin("**", eInt(2), intExprLit(t, k, depth-1))
		}
		if v >= 0 && v <= 40 {
			return eCall("log2", eBin("**", eInt(2), intExprLit(t, v, depth-1)))
		}
	case 11:
		if v >= 0 {
			m := v + drawInt(t, 1, 10, "m")
			return eBin("%", intExprLit(t, v+m*drawInt(t, 0, 5, "q"), depth-1), intExprLit(t, m, depth-1))
		}
	case 12:
		if v >= 0 {
			return eCall("floor", eFloat(fmt.Sprintf("%d.5", v)))
		}
	case 13:
		if v > 0 {
			return eCall("ceil", eBin("/", eInt(v*3-1), eInt(3)))
		}
	}
	return eParen(intExprLit(t, v, depth-1))
}

func (e *Expr) tail() string {
	if e.Tail && len(e.Xs) > 0 {
		return ","
	}
	return ""
}

// copyExpr copies the expression, f is called for all parts of the copy.
func copyExpr(e *Expr, f func(*Expr)) *Expr {
	if e == nil {
		return nil
	}
	n := *e
	n.X, n.Y = copyExpr(e.X, f), copyExpr(e.Y, f)
	n.Xs = nil
	for _, x := range e.Xs {
		n.Xs = append(n.Xs, copyExpr(x, f))
	}
	f(&n)
	return &n
}
