package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C15: conversions of bit strings by the public library.

type BitsOp struct {
	Op string `json:"op"` // tobin, extend, uint64, widths
	W  int64  `json:"w,omitempty"`
}

type ConvCase struct {
	S   string   `json:"s"`
	Ops []BitsOp `json:"ops"`
}

const metaDigits = "-uUwWxXzZhHlL"

func genConv(t *rapid.T) ConvCase {
	c := ConvCase{}
	base := intRange(0, 2).Draw(t, "base")
	digits := []string{"01", "01234567", "0123456789abcdefABCDEF"}[base]
	n := 0
	switch intRange(0, 5).Draw(t, "len") {
	case 0:
		n = intRange(1, 4).Draw(t, "n")
	case 1, 2:
		n = intRange(1, 23).Draw(t, "n")
	case 3:
		n = []int{64, 63, 65, 21, 22, 16, 17, 15}[intRange(0, 7).Draw(t, "n")]
	default:
		n = intRange(1, 150).Draw(t, "n")
	}
	b := strings.Builder{}
	b.WriteByte("box"[base])
	b.WriteByte('"')
	meta := chance(t, 40, "meta")
	zero := chance(t, 20, "zeros")
	for i := 0; i < n; i++ {
		if meta && chance(t, 20, "m") {
			b.WriteByte(metaDigits[intRange(0, len(metaDigits)-1).Draw(t, "md")])
		} else if zero && i < n*2/3 {
			b.WriteByte('0')
		} else {
			b.WriteByte(digits[intRange(0, len(digits)-1).Draw(t, "d")])
		}
	}
	b.WriteByte('"')
	c.S = b.String()
	w := int64(n) * []int64{1, 3, 4}[base]
	for k := intRange(1, 4).Draw(t, "nops"); k > 0; k-- {
		op := BitsOp{Op: []string{"tobin", "extend", "extend", "uint64", "widths"}[intRange(0, 4).Draw(t, "op")]}
		if op.Op == "extend" {
			switch intRange(0, 6).Draw(t, "ew") {
			case 0:
				op.W = w - 1
			case 1:
				op.W = w
			case 2:
				op.W = w + int64(intRange(1, 4).Draw(t, "d"))
			case 3:
				op.W = w + []int64{1, 3, 4}[base]*int64(intRange(1, 20).Draw(t, "d"))
			default:
				op.W = w + int64(intRange(1, 90).Draw(t, "d"))
			}
			w = max(w, op.W)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// runConv applies the operations one after another, conversions work on the result of the previous ones.
func runConv(env *Env, c *ConvCase) Result {
	s := c.S
	want, err := binDigits(s)
	if err != nil {
		return Result{Skip: true}
	}
	plain := strings.Trim(want, "01") == ""
	for i, op := range c.Ops {
		rq := LibReq{Op: op.Op, S: s}
		if op.Op == "extend" {
			rq.N = []int64{op.W}
		}
		rs := env.Lib(rq)
		if rs.Hang || rs.Died != "" {
			return Result{Infra: "library helper: " + rs.Died}
		}
		at := fmt.Sprintf("operation %d (%s %d) on %s", i, op.Op, op.W, s)
		if op.Op == "extend" && op.W < int64(len(want)) {
			if rs.Panic == "" {
				return fail("%s: extended to lesser width: %s", at, rs.S)
			}
			continue
		}
		switch op.Op {
		case "uint64":
			v, ok := new(big.Int).SetString(want, 2)
			if !plain || !ok || !v.IsUint64() {
				if rs.Panic == "" {
					return fail("%s: converted to %d", at, rs.U)
				}
				continue
			}
			if rs.Panic != "" {
				return fail("%s: panic: %s", at, rs.Panic)
			}
			if rs.U != v.Uint64() {
				return fail("%s: got %d, want %d", at, rs.U, v.Uint64())
			}
			continue
		}
		if rs.Panic != "" || !rs.OK {
			return fail("%s: %s %s", at, rs.Panic, rs.Err)
		}
		switch op.Op {
		case "widths":
			b := func(x bool) int64 {
				if x {
					return 1
				}
				return 0
			}
			w := []int64{int64(len(want)), int64(len(s) - 3), b(s[0] == 'b'), b(s[0] == 'o'), b(s[0] == 'x')}
			if fmt.Sprint(rs.N) != fmt.Sprint(w) {
				return fail("%s: bit width, char width and base are %v, want %v", at, rs.N, w)
			}
			if rs.S != s[2:len(s)-1] {
				return fail("%s: value literal is %s", at, rs.S)
			}
		case "tobin", "extend":
			if op.Op == "extend" {
				want = strings.Repeat("0", int(op.W)-len(want)) + want
			}
			d, err := binDigits(rs.S)
			if err != nil || (op.Op == "tobin" && rs.S[0] != 'b') || !strings.HasPrefix(rs.S[1:], `"`) {
				return fail("%s: result %s is not valid", at, rs.S)
			}
			if d != want {
				return fail("%s: got %s (%s), want %s", at, rs.S, d, want)
			}
			s = rs.S
		}
	}
	return Result{NonTrivial: len(want) > 2, Labels: []string{string(c.S[0]), map[bool]string{true: "plain", false: "meta"}[plain]}}
}

// ---------------------------------------------------------------------------
// C15: values in descriptions.

type WantVal struct {
	Name, Key, Bits string
	Width           int64
}

type ValCase struct {
	Src    Files     `json:"src"`
	Want   []WantVal `json:"want"`
	Bad    string    `json:"bad,omitempty"` // one of the values does not fit
	Labels []string  `json:"labels,omitempty"`
}

func (c *ValCase) Describe() string { return c.Src.String() + c.Bad }

func drawWidth(t *rapid.T) int64 {
	switch intRange(0, 6).Draw(t, "wk") {
	case 0:
		return int64(intRange(1, 8).Draw(t, "w"))
	case 1:
		return int64(intRange(60, 70).Draw(t, "w"))
	case 2:
		return []int64{31, 32, 33, 48, 63, 64, 65, 66, 72, 96, 128, 129}[intRange(0, 11).Draw(t, "w")]
	case 3:
		return int64(intRange(1, 300).Draw(t, "w"))
	default:
		return int64(intRange(1, 64).Draw(t, "w"))
	}
}

// drawBoundary draws an integer which fits w bits, or just does not.
func drawBoundary(t *rapid.T, w int64, good bool) (int64, bool) {
	p := func(k int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
	hi := new(big.Int).Sub(p(w), big.NewInt(1))
	lo := new(big.Int).Neg(p(w - 1))
	v := new(big.Int)
	d := big.NewInt(int64(intRange(0, 2).Draw(t, "delta")))
	neg := chance(t, 45, "neg")
	if good {
		switch intRange(0, 4).Draw(t, "gk") {
		case 0:
			if neg {
				v.Add(lo, d)
			} else {
				v.Sub(hi, d)
			}
		case 1:
			if neg {
				v.SetInt64(-1)
			}
		case 2:
			if neg {
				v.Neg(p(int64(intRange(0, int(w-1)).Draw(t, "k"))))
			} else {
				v = p(int64(intRange(0, int(w-1)).Draw(t, "k")))
			}
		default:
			top := min(w-1, 62)
			x := int64(0)
			for i := int64(0); i < top; i++ {
				x <<= 1
				if bit.Draw(t, "") {
					x |= 1
				}
			}
			if neg {
				x = -x
			}
			v.SetInt64(x)
		}
	} else {
		switch intRange(0, 2).Draw(t, "bk") {
		case 0, 1:
			if neg {
				v.Sub(lo, big.NewInt(1))
				v.Sub(v, d)
			} else {
				v.Add(hi, big.NewInt(1))
				v.Add(v, d)
			}
		default:
			k := int64(intRange(int(min(w, 62)), 62).Draw(t, "k"))
			v = p(k)
			if neg {
				v.Neg(v)
				v.Sub(v, p(w-1))
			}
		}
	}
	if !v.IsInt64() {
		return 0, false
	}
	x := v.Int64()
	fits := v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
	return x, fits == good
}

func drawBitLit(t *rapid.T, w int64, good bool) (string, bool) {
	base := intRange(0, 2).Draw(t, "base")
	k := []int64{1, 3, 4}[base]
	n := w / k
	if good {
		if n == 0 {
			base, k, n = 0, 1, w
		}
		if chance(t, 40, "shorter") {
			n = int64(intRange(1, int(n)).Draw(t, "n"))
		}
	} else {
		n += int64(intRange(1, 2).Draw(t, "more"))
	}
	digits := []string{"01", "01234567", "0123456789abcdefABCDEF"}[base]
	b := []byte{"boxBOX"[base+3*intRange(0, 1).Draw(t, "upper")], '"'}
	allZero := !good && chance(t, 50, "zero")
	for i := int64(0); i < n; i++ {
		switch {
		case allZero:
			b = append(b, '0')
		case chance(t, 10, "meta"):
			b = append(b, "-uUwWxXzZ"[intRange(0, 8).Draw(t, "m")])
		default:
			b = append(b, digits[intRange(0, len(digits)-1).Draw(t, "d")])
		}
	}
	return string(append(b, '"')), true
}

var valKinds = []struct {
	kind  string
	props []string
}{
	{"config", []string{"init-value", "reset-value", "read-value"}},
	{"config", []string{"init-value", "reset-value", "read-value"}},
	{"mask", []string{"init-value", "reset-value", "read-value"}},
	{"static", []string{"init-value", "reset-value", "read-value"}},
	{"status", []string{"read-value"}},
	{"irq", []string{"enable-init-value", "enable-reset-value"}},
}

var propKeys = map[string]string{"init-value": "InitValue", "reset-value": "ResetValue", "read-value": "ReadValue", "enable-init-value": "EnableInitValue", "enable-reset-value": "EnableResetValue"}

func genVals(t *rapid.T) ValCase {
	c := ValCase{}
	n := intRange(1, 8).Draw(t, "n")
	bad := -1
	if chance(t, 45, "bad") {
		bad = intRange(0, n-1).Draw(t, "which")
	}
	labels := map[string]bool{}
	file := &File{Path: "bus.fbd"}
	main := &Def{Name: "main", Type: "bus"}
	if chance(t, 50, "buswidth") {
		main.Props = append(main.Props, Prop{"width", eInt([]int64{8, 16, 64, 7, 33}[intRange(0, 4).Draw(t, "bw")])})
	}
	groups := map[string]*Def{}
	for i := 0; i < n; i++ {
		k := valKinds[intRange(0, len(valKinds)-1).Draw(t, "kind")]
		d := &Def{Name: fmt.Sprintf("%s%d", nameStems[intRange(0, len(nameStems)-1).Draw(t, "stem")], i), Type: k.kind}
		w := drawWidth(t)
		if k.kind == "irq" {
			w = 1
			d.Props = append(d.Props, Prop{"add-enable", eBool(true)})
		}
		var widthX *Expr
		rng := k.kind == "config" && w < 63 && chance(t, 25, "range")
		if rng {
			d.Props = append(d.Props, Prop{"range", eInt(1<<uint(w) - 1)})
		} else if k.kind != "irq" {
			widthX = eInt(w)
		}
		badProp := -1
		if i == bad {
			badProp = intRange(0, len(k.props)-1).Draw(t, "badprop")
		}
		type pv struct {
			name string
			x    *Expr
		}
		vals := []pv{}
		for j, p := range k.props {
			good := j != badProp
			if good && !(k.kind == "static" && j == 0) && chance(t, 40, "unset") {
				continue
			}
			var x *Expr
			var v Val
			if chance(t, 55, "int") {
				i, ok := drawBoundary(t, w, good)
				if !ok {
					if !good || (k.kind == "static" && j == 0) {
						// No integer is too wide for this width.
						if !good {
							b, _ := drawBitLit(t, w, false)
							x, v = eBits(b), Val{K: "bits", S: b}
						} else {
							x, v = eInt(0), vInt(0)
						}
					} else {
						continue
					}
				} else {
					x, v = eInt(i), vInt(i)
					if chance(t, 25, "expr") {
						x = intExprLit(t, i, 1)
					}
				}
			} else {
				b, _ := drawBitLit(t, w, good)
				x, v = eBits(b), Val{K: "bits", S: b}
			}
			vals = append(vals, pv{p, x})
			bits, err := bitsOf(v, w)
			if (err == nil) != good {
				panic(fmt.Sprintf("harness: %v for %d bits: %v", v, w, err))
			}
			if good {
				c.Want = append(c.Want, WantVal{d.Name, propKeys[p], bits, w})
			} else {
				c.Bad = fmt.Sprintf("%s of %s (%d bits) is %s", p, d.Name, w, v)
			}
			labels[v.K] = true
			if v.K == "int" && v.I < 0 {
				labels["negative"] = true
			}
			if w >= 63 {
				labels["63 bits or wider"] = true
			}
		}
		switch place := intRange(0, 5).Draw(t, "place"); place {
		case 0, 1: // directly
			if widthX != nil {
				d.Props = append(d.Props, Prop{"width", widthX})
			}
			for _, v := range vals {
				at := intRange(0, len(d.Props)).Draw(t, "pos")
				d.Props = append(d.Props[:at], append([]Prop{{v.name, v.x}}, d.Props[at:]...)...)
			}
			main.Items = append(main.Items, Item{Def: d})
		case 2: // in a block
			if widthX != nil {
				d.Props = append(d.Props, Prop{"width", widthX})
			}
			for _, v := range vals {
				d.Props = append(d.Props, Prop{v.name, v.x})
			}
			main.Items = append(main.Items, Item{Def: &Def{Name: fmt.Sprintf("b%d", i), Type: "block", Items: []Item{{Def: d}}}})
			labels["in a block"] = true
		case 3: // in a group
			if widthX != nil {
				d.Props = append(d.Props, Prop{"width", widthX})
			}
			for _, v := range vals {
				d.Props = append(d.Props, Prop{v.name, v.x})
			}
			g := "gdata"
			if k.kind == "irq" {
				g = "girq"
			}
			if groups[g] == nil {
				groups[g] = &Def{Name: g, Type: "group"}
				main.Items = append(main.Items, Item{Def: groups[g]})
			}
			groups[g].Items = append(groups[g].Items, Item{Def: d})
			labels["in a group"] = true
		default: // through a type, width and values are parameters, constants or literals
			ty := &Def{IsType: true, Name: fmt.Sprintf("t%d", i), Type: k.kind, Props: d.Props}
			d.Props, d.Type = nil, ty.Name
			ref := func(x *Expr, nm string) *Expr {
				switch intRange(0, 2).Draw(t, "ref") {
				case 0:
					ty.Params = append(ty.Params, ParamDef{Name: "p" + nm})
					d.Args = append(d.Args, Arg{Val: x})
					return eRef("p" + nm)
				case 1:
					n := fmt.Sprintf("C%d%s", i, strings.ReplaceAll(nm, "-", ""))
					file.Items = append(file.Items, Item{Const: &ConstDef{Name: n, Val: x}})
					return eRef(n)
				}
				return x
			}
			if widthX != nil {
				ty.Props = append(ty.Props, Prop{"width", ref(widthX, "w")})
			}
			for j, v := range vals {
				nm := fmt.Sprintf("v%d", j)
				// The values are set in the type or at the instantiation.
				if chance(t, 60, "intype") {
					ty.Props = append(ty.Props, Prop{v.name, ref(v.x, nm)})
				} else {
					d.Props = append(d.Props, Prop{v.name, v.x})
				}
			}
			file.Items = append(file.Items, Item{Def: ty})
			main.Items = append(main.Items, Item{Def: d})
			labels["through a type"] = true
		}
	}
	file.Items = append(file.Items, Item{Def: main})
	c.Src = (&Prog{Pkgs: []*Pkg{{Name: "main", Files: []*File{file}}}}).render(Style{Ch: drawChooser(t)})
	for _, l := range sortedKeys(labels) {
		c.Labels = append(c.Labels, l)
	}
	return c
}

// findNamed collects all objects of the result with names.
func findNamed(v any, out map[string][]map[string]any) {
	switch v := v.(type) {
	case map[string]any:
		if n, ok := v["Name"].(string); ok {
			out[n] = append(out[n], v)
		}
		for _, x := range v {
			findNamed(x, out)
		}
	case []any:
		for _, x := range v {
			findNamed(x, out)
		}
	}
}

func runVals(env *Env, c *ValCase) Result {
	d := env.Dir(c.Src)
	defer os.RemoveAll(d)
	o := env.Run(d, "-c", "consts.json", "bus.fbd")
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if c.Bad != "" {
		if o.Code == 0 {
			return fail("value which does not fit is accepted: %s", c.Bad)
		}
		if o.Crashed() {
			return fail("crash on value which does not fit (%s): %s", c.Bad, o.brief())
		}
		if len(o.Stdout) > 0 {
			return fail("value which does not fit is rejected (%s) but there is a result", c.Bad)
		}
		if _, err := os.Stat(filepath.Join(d, "consts.json")); err == nil {
			return fail("value which does not fit is rejected (%s) but constants are written", c.Bad)
		}
		return Result{NonTrivial: true, Labels: append([]string{"does not fit"}, c.Labels...)}
	}
	if o.Code != 0 {
		return fail("values which fit are rejected: %s", o.brief())
	}
	var g any
	if err := json.Unmarshal(o.Stdout, &g); err != nil {
		return fail("result is not JSON: %v", err)
	}
	named := map[string][]map[string]any{}
	findNamed(g, named)
	set := map[string]bool{}
	for _, w := range c.Want {
		set[w.Name+"."+w.Key] = true
	}
	for _, w := range c.Want {
		es := named[w.Name]
		if len(es) != 1 {
			return fail("%d functionalities with name %s", len(es), w.Name)
		}
		e := es[0]
		if x, ok := e["Width"].(float64); ok && int64(x) != w.Width {
			return fail("%s has width %v, want %d", w.Name, x, w.Width)
		}
		got, _ := e[w.Key].(string)
		if got == "" {
			return fail("%s of %s is not set, want %s", w.Key, w.Name, w.Bits)
		}
		if b := canonBits(got, w.Width); b != w.Bits {
			return fail("%s of %s (%d bits) is %s, denotes %s, want %s", w.Key, w.Name, w.Width, got, b, w.Bits)
		}
		for _, k := range propKeys {
			if s, _ := e[k].(string); s != "" && !set[w.Name+"."+k] {
				return fail("%s of %s is %s but it is not set in the description", k, w.Name, s)
			}
		}
	}
	return Result{NonTrivial: len(c.Want) > 0, Labels: c.Labels}
}

// ---------------------------------------------------------------------------
// C16: ranges.

type RangeCase struct {
	Rngs [][]int64 `json:"r"`
	Ops  int       `json:"n"` // 1: single range, 2: list
}

func drawBound(t *rapid.T) int64 {
	switch intRange(0, 4).Draw(t, "bk") {
	case 0:
		return int64(intRange(0, 20).Draw(t, "b"))
	case 1, 2:
		k := uint(intRange(0, 63).Draw(t, "k"))
		d := int64(intRange(-2, 2).Draw(t, "d"))
		if k == 63 {
			return math.MaxInt64 - int64(intRange(0, 2).Draw(t, "m"))
		}
		return max(0, 1<<k+d)
	case 3:
		l := intRange(1, 63).Draw(t, "bits")
		v := int64(0)
		for i := 0; i < l; i++ {
			v <<= 1
			if i == 0 || bit.Draw(t, "") {
				v |= 1
			}
		}
		return v
	default:
		return int64(intRange(0, 1000).Draw(t, "b"))
	}
}

func drawRange(t *rapid.T) []int64 {
	a, b := drawBound(t), drawBound(t)
	if chance(t, 20, "zero") {
		a = 0
	}
	if chance(t, 15, "equal") {
		a = b
	}
	return []int64{min(a, b), max(a, b)}
}

func genRangeAPI(t *rapid.T) RangeCase {
	c := RangeCase{Ops: intRange(1, 2).Draw(t, "op")}
	n := 1
	if c.Ops == 2 {
		n = intRange(1, 6).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		c.Rngs = append(c.Rngs, drawRange(t))
	}
	return c
}

func bitsNeeded(rs [][]int64) (w int64, top int64) {
	for _, r := range rs {
		top = max(top, r[1])
	}
	for v := top; v > 0; v >>= 1 {
		w++
	}
	// A value which can only be zero takes one bit.
	return max(w, 1), top
}

func runRangeAPI(env *Env, c *RangeCase) Result {
	w, top := bitsNeeded(c.Rngs)
	rq := LibReq{Op: "rangen", Rngs: c.Rngs}
	if c.Ops == 1 {
		rq = LibReq{Op: "range1", N: c.Rngs[0]}
	}
	rs := env.Lib(rq)
	if rs.Hang || rs.Died != "" {
		return Result{Infra: "library helper: " + rs.Died}
	}
	if rs.Panic != "" || !rs.OK || len(rs.N) != 1 {
		return fail("bit width of range %v: %s %s", c.Rngs, rs.Panic, rs.Err)
	}
	if rs.N[0] != w {
		return fail("bit width of range %v is %d, want %d", c.Rngs, rs.N[0], w)
	}
	labels := []string{map[int]string{1: "single", 2: "list"}[c.Ops]}
	if top == 0 {
		labels = append(labels, "only zero")
	}
	return Result{NonTrivial: true, Labels: labels}
}

type WantRange struct {
	Name   string    `json:"name"`
	Single bool      `json:"single,omitempty"`
	Rngs   [][]int64 `json:"r"`
	Count  int64     `json:"count"`
}

type RangesCase struct {
	Src    Files       `json:"src"`
	Want   []WantRange `json:"want"`
	Labels []string    `json:"labels,omitempty"`
}

func (c *RangesCase) Describe() string { return c.Src.String() }

func genRanges(t *rapid.T) RangesCase {
	c := RangesCase{}
	labels := map[string]bool{}
	file := &File{Path: "bus.fbd"}
	main := &Def{Name: "main", Type: "bus"}
	if chance(t, 60, "buswidth") {
		main.Props = append(main.Props, Prop{"width", eInt([]int64{8, 16, 64, 7, 33}[intRange(0, 4).Draw(t, "bw")])})
	}
	var proc, group *Def
	for i, n := 0, intRange(1, 7).Draw(t, "n"); i < n; i++ {
		w := WantRange{Name: fmt.Sprintf("%s%d", nameStems[intRange(0, len(nameStems)-1).Draw(t, "stem")], i), Count: 1}
		d := &Def{Name: w.Name, Type: "config"}
		if chance(t, 40, "param") {
			d.Type = "param"
		}
		atomic := true
		if d.Type == "config" && chance(t, 30, "nonatomic") {
			d.Props = append(d.Props, Prop{"atomic", eBool(false)})
			atomic = false
		}
		for {
			w.Rngs = nil
			form := intRange(0, 2).Draw(t, "form")
			k := 1
			if form == 2 {
				k = intRange(1, 5).Draw(t, "k")
			}
			for j := 0; j < k; j++ {
				r := drawRange(t)
				if form == 0 {
					r[0] = 0
				}
				w.Rngs = append(w.Rngs, r)
			}
			if _, top := bitsNeeded(w.Rngs); top == 0 {
				labels["only zero"] = true
			}
			w.Single = form != 2
			labels[[]string{"bound", "range", "list"}[form]] = true
			break
		}
		ty := (*Def)(nil)
		if chance(t, 50, "type") {
			ty = &Def{IsType: true, Name: fmt.Sprintf("t%d", i), Type: d.Type, Props: d.Props}
			d.Props, d.Type = nil, ty.Name
			labels["through a type"] = true
		}
		num := func(v int64, nm string) *Expr {
			switch intRange(0, 5).Draw(t, "num") {
			case 0:
				n := fmt.Sprintf("C%d%s", i, nm)
				file.Items = append(file.Items, Item{Const: &ConstDef{Name: n, Val: eInt(v)}})
				return eRef(n)
			case 1:
				if ty != nil {
					ty.Params = append(ty.Params, ParamDef{Name: "p" + nm})
					d.Args = append(d.Args, Arg{Val: eInt(v)})
					return eRef("p" + nm)
				}
			case 2:
				return eParen(intExprLit(t, v, 1))
			}
			return eInt(v)
		}
		var x *Expr
		if form := w.Rngs; w.Single && form[0][0] == 0 && chance(t, 60, "bound") {
			x = num(form[0][1], "b")
		} else {
			one := func(r []int64, j int) *Expr {
				return eBin(":", num(r[0], fmt.Sprintf("l%d", j)), num(r[1], fmt.Sprintf("r%d", j)))
			}
			if w.Single {
				x = one(form[0], 0)
			} else {
				x = eList()
				for j, r := range form {
					x.Xs = append(x.Xs, one(r, j))
				}
			}
		}
		if ty != nil {
			ty.Props = append(ty.Props, Prop{"range", x})
			file.Items = append(file.Items, Item{Def: ty})
		} else {
			d.Props = append(d.Props, Prop{"range", x})
		}
		kind := d.Type
		if ty != nil {
			kind = ty.Type
		}
		if atomic && chance(t, 30, "array") {
			w.Count = int64(intRange(1, 9).Draw(t, "count"))
			d.Count = eInt(w.Count)
			labels["array"] = true
		}
		switch {
		case kind == "param":
			if proc == nil || chance(t, 40, "newproc") {
				proc = &Def{Name: fmt.Sprintf("pr%d", i), Type: []string{"proc", "stream"}[intRange(0, 1).Draw(t, "pk")]}
				main.Items = append(main.Items, Item{Def: proc})
			}
			proc.Items = append(proc.Items, Item{Def: d})
		case chance(t, 20, "group"):
			if group == nil {
				group = &Def{Name: "grp", Type: "group"}
				main.Items = append(main.Items, Item{Def: group})
			}
			group.Items = append(group.Items, Item{Def: d})
		case chance(t, 25, "block"):
			main.Items = append(main.Items, Item{Def: &Def{Name: fmt.Sprintf("b%d", i), Type: "block", Items: []Item{{Def: d}}}})
		default:
			main.Items = append(main.Items, Item{Def: d})
		}
		c.Want = append(c.Want, w)
	}
	file.Items = append(file.Items, Item{Def: main})
	c.Src = (&Prog{Pkgs: []*Pkg{{Name: "main", Files: []*File{file}}}}).render(Style{Ch: drawChooser(t)})
	c.Labels = sortedKeys(labels)
	return c
}

func runRanges(env *Env, c *RangesCase) Result {
	o := env.Compile(c.Src, "bus.fbd")
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code != 0 {
		return fail("valid ranges are rejected: %s", o.brief())
	}
	dec := json.NewDecoder(strings.NewReader(string(o.Stdout)))
	dec.UseNumber()
	var g any
	if err := dec.Decode(&g); err != nil {
		return fail("result is not JSON: %v", err)
	}
	named := map[string][]map[string]any{}
	findNamed(g, named)
	for _, w := range c.Want {
		es := named[w.Name]
		if len(es) != 1 {
			return fail("%d functionalities with name %s", len(es), w.Name)
		}
		need, _ := bitsNeeded(w.Rngs)
		if s := fmt.Sprint(es[0]["Width"]); s != fmt.Sprint(need) {
			return fail("%s with range %v has width %s, want %d", w.Name, w.Rngs, s, need)
		}
		raw, err := json.Marshal(es[0]["Range"])
		must(err)
		r := RangeV{}
		if err := r.UnmarshalJSON(raw); err != nil {
			return fail("range of %s: %v", w.Name, err)
		}
		want := RangeV{}
		if w.Single {
			want.Single = &SRange{w.Rngs[0][0], w.Rngs[0][1]}
		} else {
			for _, x := range w.Rngs {
				want.List = append(want.List, SRange{x[0], x[1]})
			}
		}
		if r.String() != want.String() {
			return fail("%s has range %s, want %s", w.Name, r, want)
		}
		// The space in the registers is the one of the width.
		if a, ok := es[0]["Access"].(map[string]any); ok {
			if s := fmt.Sprint(a["ItemWidth"]); s != "0" && s != fmt.Sprint(need) {
				return fail("%s has width %d but item width of the access is %s", w.Name, need, s)
			}
		}
	}
	return Result{NonTrivial: true, Labels: c.Labels}
}

func init() {
	register("C15", "random bit strings of all bases with meta digits and random sequences of conversions by the library, compared with binary expansion; random values of all value properties (integers at the edges of the width, expressions, bit strings of all bases) in all places, exactly one value not fitting in almost half of the descriptions; non-trivial: more than 2 bits, or at least one value set",
		lib(sub("conversions", 60000, 900000, genConv, runConv)),
		sub("values", 14000, 150000, genVals, runVals),
	)
	register("C16", "random ranges with bounds at powers of two up to the largest integer, by the library and as properties of configs and params (single bound, range, list; literals, constants, parameters of types), compared with exact integer arithmetic; non-trivial: the largest value is not 0",
		lib(sub("width", 60000, 900000, genRangeAPI, runRangeAPI)),
		sub("property", 13000, 140000, genRanges, runRanges),
	)
}
