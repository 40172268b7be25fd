package main

import (
	"fmt"
	"math/bits"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// S is a specification of a functionality to be realised as source code.
type S struct {
	Kind    string
	Name    string
	Doc     string
	IsArray bool
	Count   int64
	Props   []PropSpec
	Kids    []*S
}

// PropSpec is a value a property must have.
type PropSpec struct {
	Name string
	K    string // int bool str val bits time range
	I    int64
	B    bool
	Str  string
	Unit string
	Rng  [][2]int64
	Form int // range: 0 - single bound, 1 - left and right bound, 2 - list
}

func (s *S) prop(name string) *PropSpec {
	for i := range s.Props {
		if s.Props[i].Name == name {
			return &s.Props[i]
		}
	}
	return nil
}

func (s *S) set(p PropSpec) { s.Props = append(s.Props, p) }

// GenCfg tunes generation of descriptions.
type GenCfg struct {
	MaxKids   int
	MaxDepth  int
	Kinds     []string // weighted kinds inside of blocks
	Types     int      // chance of putting an element into a chain of types
	Refs      int      // chance of expressing an integer with constants
	Exprs     int      // chance of an integer being an expression
	Docs      int
	Values    int // chance of setting optional values
	Consts    int // chance of additional constants in bodies
	MaxPkgs   int
	OwnNames  bool // packages never share a name
	AnyArray  bool // arrays of all kinds, including those the compiler may refuse for now
	Extra     int  // maximum number of additional instantiations of existing types
	BusWidths []int64
	NoAlign   bool
	BigCounts bool
	AnyName   bool
	NoNeg     bool
	Large     bool // every program is large in at least one respect
}

var layoutKinds = []string{
	"config", "config", "config", "config", "mask", "mask", "static", "static", "status", "status", "status", "status",
	"irq", "irq", "irq", "proc", "proc", "stream", "stream", "block", "block", "blackbox",
}

var allKinds = append([]string{"group", "group"}, layoutKinds...)

var layoutCfg = GenCfg{MaxKids: 9, MaxDepth: 3, Kinds: layoutKinds, Types: 8, Refs: 5, Exprs: 5, Docs: 0, Values: 15, Consts: 3, MaxPkgs: 0, Extra: 1}
var largeCfg = GenCfg{MaxKids: 9, MaxDepth: 3, Kinds: allKinds, Types: 8, Refs: 5, Exprs: 5, Docs: 3, Values: 15, Consts: 3, MaxPkgs: 0, Extra: 1, Large: true, AnyName: true}
var arraysCfg = GenCfg{MaxKids: 2, MaxDepth: 1, Kinds: layoutKinds, Types: 15, Refs: 5, Exprs: 5, Values: 15, AnyArray: true}
var largeLayoutCfg = func() GenCfg { c := largeCfg; c.Kinds = layoutKinds; return c }()
var fullCfg = GenCfg{MaxKids: 6, MaxDepth: 3, Kinds: allKinds, Types: 35, Refs: 35, Exprs: 25, Docs: 25, Values: 40, Consts: 25, MaxPkgs: 2, Extra: 3, AnyName: true}

type gctx struct {
	t     *rapid.T
	cfg   GenCfg
	n     int
	bw    int64
	prog  *Prog
	pkgs  []*rscope // root scopes, one for every file
	all   []*rscope
	names []string // all fresh names

	large map[string]bool // respects in which the program is large
}

var largeRespects = []string{"kids", "kids", "counts", "widths", "elems", "depth", "values", "bus"}

func (g *gctx) logInt(lo, hi int64, label string) int64 {
	l := drawInt(g.t, 0, int64(bits.Len64(uint64(hi))), label+"l")
	return max(lo, min(hi, drawInt(g.t, lo, max(lo, 1<<l), label)))
}

func (g *gctx) chance(pct int, label string) bool {
	if pct <= 0 {
		return false
	}
	return chance(g.t, pct, label)
}

func (g *gctx) intn(n int, label string) int {
	if n <= 1 {
		return 0
	}
	return intRange(0, n-1).Draw(g.t, label)
}

var nameStems = []string{"c", "Foo", "status_reg", "x9_", "A", "cfg", "Very_Long_Functionality_Name", "i", "m_", "S", "b1", "width_", "true_", "ns_", "log2_", "A_Name_Much_Longer_Than_Usual_Names_Of_Functionalities_Which_Could_Be_Found_In_A_Description_", "const_", "type_", "bus_"}

func (g *gctx) fresh(stem string) string {
	g.n++
	if g.cfg.AnyName && g.chance(40, "name") {
		stem = nameStems[g.intn(len(nameStems), "stem")]
	}
	name := fmt.Sprintf("%s%d", stem, g.n)
	if len(g.names) > 0 && g.chance(8, "case") {
		// Some earlier name, mostly the last one, in other case.
		n := len(g.names) - 1
		if g.chance(40, "earlier") {
			n = g.intn(len(g.names), "which")
		}
		if s := otherCase(g.names[n], g.intn(4, "letter")); s != "" && !slices.Contains(g.names, s) {
			name = s
		}
	}
	g.names = append(g.names, name)
	return name
}

// otherCase is the name with case of its i-th letter, or of all letters, changed, it is empty if there is no such name.
func otherCase(s string, i int) string {
	b := []byte(s)
	for k, c := range b {
		if c|0x20 < 'a' || c|0x20 > 'z' {
			continue
		}
		if i == 0 || i == 3 {
			b[k] ^= 0x20
		}
		if i == 0 {
			break
		}
		if i < 3 {
			i--
		}
	}
	if s == string(b) {
		return ""
	}
	return string(b)
}

var docWords = []string{"Reset of the unit.", "x", "#", "const A = 1", "type", "one\ntwo", "a; b = c", "line one\nline two\n  indented third", "\"quoted\"", "ends with backslash \\", "a\n\nb"}

func (g *gctx) docText() string {
	if !g.chance(g.cfg.Docs, "doc") {
		return ""
	}
	return docWords[g.intn(len(docWords), "docw")]
}

func (g *gctx) busWidth() int64 {
	if len(g.cfg.BusWidths) > 0 {
		return g.cfg.BusWidths[g.intn(len(g.cfg.BusWidths), "bw")]
	}
	if g.large["bus"] {
		return g.logInt(1, 1100, "bw")
	}
	switch g.intn(10, "bwk") {
	case 0, 1, 2, 3:
		return 32
	case 4:
		return 8
	case 5:
		return 16
	case 6:
		return 64
	case 7:
		return drawInt(g.t, 1, 12, "bw")
	default:
		return drawInt(g.t, 1, 80, "bw")
	}
}

func (g *gctx) width() int64 {
	bw := g.bw
	if g.large["widths"] && g.chance(40, "large") {
		return g.logInt(1, 4000, "w")
	}
	switch g.intn(12, "wk") {
	case 0, 1:
		return drawInt(g.t, 1, 4, "w")
	case 2, 3, 4:
		return drawInt(g.t, 1, bw, "w")
	case 5:
		return bw
	case 6:
		return drawInt(g.t, 1, bw/2+1, "w")
	case 7:
		return bw + 1
	case 8:
		return bw * drawInt(g.t, 1, 3, "k")
	case 9:
		return bw*drawInt(g.t, 1, 3, "k") + drawInt(g.t, 1, bw, "w")
	case 10:
		return drawInt(g.t, 1, 4*bw, "w")
	default:
		w := bw / drawInt(g.t, 1, 6, "d")
		if w < 1 {
			w = 1
		}
		return w
	}
}

func (g *gctx) count(w int64) int64 {
	if g.large["counts"] && g.chance(50, "large") {
		return g.logInt(1, min(20000, 1<<17/max(w, 1)), "count")
	}
	switch g.intn(6, "ck") {
	case 0:
		return 1
	case 1, 2:
		return drawInt(g.t, 1, 5, "count")
	case 3:
		// Around full registers.
		n := int64(1)
		if w > 0 && w <= g.bw {
			n = g.bw / w
		}
		return max(1, n*drawInt(g.t, 1, 4, "regs")+drawInt(g.t, -1, 1, "d"))
	case 4:
		if g.cfg.BigCounts {
			return drawInt(g.t, 1, 300, "count")
		}
		return drawInt(g.t, 1, 40, "count")
	default:
		return drawInt(g.t, 2, 12, "count")
	}
}

// genValue draws a value which fits given width.
func (g *gctx) genValue(name string, w int64) PropSpec {
	switch g.intn(5, "valk") {
	case 0, 1:
		top := w
		if top > 40 {
			top = 40
		}
		v := drawInt(g.t, 0, 1<<top-1, "value")
		return PropSpec{Name: name, K: "val", I: v}
	case 2:
		if g.cfg.NoNeg {
			return PropSpec{Name: name, K: "val", I: 1}
		}
		top := w - 1
		if top > 40 {
			top = 40
		}
		return PropSpec{Name: name, K: "val", I: drawInt(g.t, -(1 << top), 0, "value")}
	default:
		return PropSpec{Name: name, K: "bits", Str: g.bitStr(w)}
	}
}

// bitStr draws a bit string literal not wider than w.
func (g *gctx) bitStr(w int64) string {
	const meta = "-uUwWxXzZ"
	draw := func(digits string, n int64) string {
		b := strings.Builder{}
		k := drawInt(g.t, 1, n, "len")
		if g.chance(40, "full") {
			k = n
		}
		if k > 40 {
			k = 40
		}
		for i := int64(0); i < k; i++ {
			if g.chance(8, "meta") {
				b.WriteByte(meta[g.intn(len(meta), "mc")])
			} else {
				b.WriteByte(digits[g.intn(len(digits), "dc")])
			}
		}
		return b.String()
	}
	switch g.intn(3, "base") {
	case 1:
		if w >= 4 {
			return `x"` + draw("0123456789abcdefABCDEF", w/4) + `"`
		}
	case 2:
		if w >= 3 {
			return `o"` + draw("01234567", w/3) + `"`
		}
	}
	return `b"` + draw("01", w) + `"`
}

// genRange draws a range and returns it with its width.
func (g *gctx) genRange() (PropSpec, int64) {
	p := PropSpec{Name: "range", K: "range", Form: g.intn(3, "rform")}
	bound := func() int64 {
		if g.chance(40, "pow") {
			k := drawInt(g.t, 0, 40, "rk")
			return 1<<k + drawInt(g.t, -1, 1, "rd")
		}
		if g.chance(10, "rsmall") {
			return drawInt(g.t, 0, 3, "rb")
		}
		return drawInt(g.t, 1, 5000, "rb")
	}
	n := 1
	if p.Form == 2 {
		n = 1 + g.intn(4, "rn")
	}
	top := int64(0)
	for i := 0; i < n; i++ {
		r := bound()
		l := int64(0)
		if p.Form != 0 {
			l = drawInt(g.t, 0, r, "rl")
			if g.chance(20, "leq") {
				l = r
			}
		}
		p.Rng = append(p.Rng, [2]int64{l, r})
		top = max(top, r)
	}
	w := int64(0)
	for top>>w > 0 {
		w++
	}
	return p, max(w, 1)
}

// genWidth sets width or range property and returns the effective width.
func (g *gctx) genWidth(s *S, ranges bool) int64 {
	if g.chance(12, "dfltw") {
		return g.bw
	}
	if ranges && g.chance(20, "range") {
		p, w := g.genRange()
		s.set(p)
		return w
	}
	w := g.width()
	s.set(PropSpec{Name: "width", K: "int", I: w})
	return w
}

func (g *gctx) genArray(s *S, w int64, pct int) {
	s.Count = 1
	if g.chance(pct, "array") {
		s.IsArray = true
		s.Count = g.count(w)
	}
}

func (g *gctx) genVals(s *S, w int64, names ...string) {
	for _, n := range names {
		if g.chance(g.cfg.Values, "setval") {
			s.set(g.genValue(n, w))
		}
	}
}

func (g *gctx) genElem(kind string, depth int, outer string) *S {
	s := &S{Kind: kind, Count: 1, Doc: g.docText()}
	switch kind {
	case "config":
		s.Name = g.fresh("cfg")
		w := g.genWidth(s, true)
		g.genArray(s, w, 35)
		at := true
		if g.chance(40, "at") {
			at = s.IsArray && outer != "group" && !g.cfg.AnyArray || g.chance(40, "atv")
			s.set(PropSpec{Name: "atomic", K: "bool", B: at})
		}
		g.genVals(s, w, "init-value", "read-value", "reset-value")
	case "mask":
		s.Name = g.fresh("msk")
		w := g.genWidth(s, false)
		if outer == "group" || g.cfg.AnyArray {
			g.genArray(s, w, 25)
		}
		if g.chance(30, "at") {
			s.set(PropSpec{Name: "atomic", K: "bool", B: g.chance(50, "atv")})
		}
		g.genVals(s, w, "init-value", "read-value", "reset-value")
	case "static":
		s.Name = g.fresh("stc")
		w := g.genWidth(s, false)
		g.genArray(s, w, 35)
		s.set(g.genValue("init-value", w))
		g.genVals(s, w, "read-value", "reset-value")
	case "status":
		s.Name = g.fresh("st")
		w := g.genWidth(s, false)
		g.genArray(s, w, 40)
		if g.chance(40, "at") {
			s.set(PropSpec{Name: "atomic", K: "bool", B: g.chance(40, "atv")})
		}
		g.genVals(s, w, "read-value")
	case "irq":
		s.Name = g.fresh("irq")
		if outer == "group" || g.cfg.AnyArray {
			g.genArray(s, 1, 20)
		}
		if g.chance(45, "ae") {
			ae := g.chance(80, "aev")
			s.set(PropSpec{Name: "add-enable", K: "bool", B: ae})
			if ae {
				for _, n := range []string{"enable-init-value", "enable-reset-value"} {
					if g.chance(g.cfg.Values, "ev") {
						s.set(g.genValue(n, 1))
					}
				}
			}
		}
		if g.chance(50, "clr") {
			s.set(PropSpec{Name: "clear", K: "str", Str: []string{"Explicit", "On Read"}[g.intn(2, "clrv")]})
		}
		if g.chance(30, "it") {
			s.set(PropSpec{Name: "in-trigger", K: "str", Str: []string{"Edge", "Level"}[g.intn(2, "itv")]})
		}
		if outer != "group" && g.chance(30, "ot") {
			s.set(PropSpec{Name: "out-trigger", K: "str", Str: []string{"Edge", "Level"}[g.intn(2, "otv")]})
		}
	case "param":
		s.Name = g.fresh("p")
		w := g.genWidth(s, true)
		g.genArray(s, w, 25)
	case "return":
		s.Name = g.fresh("r")
		w := g.genWidth(s, false)
		g.genArray(s, w, 25)
	case "proc", "stream":
		s.Name = g.fresh(kind)
		if g.cfg.AnyArray {
			g.genArray(s, 1, 25)
		}
		if g.chance(35, "delay") {
			s.set(PropSpec{Name: "delay", K: "time", I: drawInt(g.t, 0, 5000, "dl"), Unit: []string{"ns", "us", "ms", "s"}[g.intn(4, "unit")]})
		}
		np, nr := 0, 0
		switch g.intn(5, "shape") {
		case 0:
			np = 1 + g.intn(4, "np")
		case 1:
			nr = 1 + g.intn(4, "nr")
		case 2:
		default:
			np, nr = 1+g.intn(4, "np"), 1+g.intn(3, "nr")
		}
		if g.large["elems"] && g.chance(60, "large") {
			np, nr = g.intn(30, "np"), g.intn(30, "nr")
		}
		if kind == "stream" && np > 0 && nr > 0 {
			if g.chance(50, "up") {
				np = 0
			} else {
				nr = 0
			}
		}
		for i := 0; i < np; i++ {
			s.Kids = append(s.Kids, g.genElem("param", depth, kind))
		}
		for i := 0; i < nr; i++ {
			s.Kids = append(s.Kids, g.genElem("return", depth, kind))
		}
	case "blackbox":
		s.Name = g.fresh("bb")
		g.genArray(s, 1, 20)
		s.set(PropSpec{Name: "size", K: "int", I: drawInt(g.t, 1, 300, "size")})
		if g.large["values"] {
			s.Props[len(s.Props)-1].I = g.logInt(1, 1<<30, "size")
		}
	case "group":
		s.Name = g.fresh("grp")
		g.genArray(s, 1, 20)
		kinds := [][]string{{"config", "mask", "static", "status"}, {"irq"}, {"param"}, {"return"}}[g.intn(5, "gk")%4]
		if len(kinds) > 1 && g.chance(30, "virt") {
			s.set(PropSpec{Name: "virtual", K: "bool", B: g.chance(70, "virtv")})
		}
		gn := 1 + g.intn(3, "gn")
		if g.large["elems"] && g.chance(60, "large") {
			gn = 1 + g.intn(30, "gn")
		}
		for i := gn; i > 0; i-- {
			s.Kids = append(s.Kids, g.genElem(kinds[g.intn(len(kinds), "gkk")], depth, "group"))
		}
		if kinds[0] == "irq" && g.chance(40, "got") {
			ot := []string{"Edge", "Level"}[g.intn(2, "gotv")]
			for _, k := range s.Kids {
				k.set(PropSpec{Name: "out-trigger", K: "str", Str: ot})
			}
		}
	case "block", "bus":
		s.Name = g.fresh("blk")
		if kind == "bus" {
			s.Name = "main"
			if g.bw != 32 || g.chance(15, "w32") {
				s.set(PropSpec{Name: "width", K: "int", I: g.bw})
			}
		} else {
			g.genArray(s, 1, 25)
		}
		if !g.cfg.NoAlign && g.chance(8, "align") {
			s.set(PropSpec{Name: "align", K: "int", I: 1 << g.intn(7, "alignv")})
			if g.large["values"] {
				s.Props[len(s.Props)-1].I = 1 << g.intn(30, "alignv")
			}
		}
		if g.chance(15, "masters") {
			s.set(PropSpec{Name: "masters", K: "int", I: drawInt(g.t, 1, 4, "mastersv")})
			if g.large["values"] {
				s.Props[len(s.Props)-1].I = g.logInt(1, 1<<40, "mastersv")
			}
		}
		if g.chance(15, "reset") {
			s.set(PropSpec{Name: "reset", K: "str", Str: []string{"Sync", "Async"}[g.intn(2, "rstv")]})
		}
		n := g.intn(g.cfg.MaxKids+1, "kids")
		if kind == "block" && n > 4 && g.chance(60, "small") {
			n = 1 + n%4
		}
		maxDepth := g.cfg.MaxDepth
		if g.large["depth"] {
			maxDepth = 9
			if depth < 8 && (kind == "bus" || g.chance(80, "deeper")) {
				s.Kids = append(s.Kids, g.genElem("block", depth+1, kind))
				n = min(n, 2)
			}
		}
		if g.large["kids"] && (kind == "bus" || g.chance(15, "large")) {
			n = int(g.logInt(10, 130, "kids"))
		}
		kinds := g.cfg.Kinds
		if n > 9 && g.chance(40, "onekind") {
			kinds = []string{kinds[g.intn(len(kinds), "kind")], kinds[g.intn(len(kinds), "kind")]}
		}
		for i := 0; i < n; i++ {
			k := kinds[g.intn(len(kinds), "kind")]
			if k == "block" && (depth >= maxDepth || n > 9 && depth > 0) {
				k = "config"
			}
			s.Kids = append(s.Kids, g.genElem(k, depth+1, kind))
		}
	default:
		panic("unknown kind " + kind)
	}
	return s
}

// ---------------------------------------------------------------------------
// Realisation

type knownConst struct {
	name string
	v    Val
}

// rscope is a lexical scope of the program being generated.
type rscope struct {
	parent *rscope
	def    *Def // nil for a file
	kind   string
	known  []knownConst
	params []knownConst
	file   *File
	pkg    *rpkg
}

type rpkg struct {
	pkg   *Pkg
	known []knownConst
	files []*rscope
	path  string // import path
}

type rctx struct {
	*gctx
	rp []*rpkg
}

func (s *rscope) root() *rscope {
	for s.parent != nil {
		s = s.parent
	}
	return s
}

func (r *rctx) addItem(sc *rscope, it Item) {
	front := r.chance(40, "front")
	var items *[]Item
	if sc.def != nil {
		items = &sc.def.Items
	} else {
		items = &sc.file.Items
	}
	if front {
		*items = append([]Item{it}, *items...)
	} else {
		*items = append(*items, it)
	}
}

// importName makes package pk visible in the file and returns its name.
func (r *rctx) importName(file *File, pk *rpkg) string {
	for _, im := range file.Imports {
		if im.Path == pk.path {
			if im.Alias != "" {
				return im.Alias
			}
			n, _, _ := strings.Cut(im.Path, "/")
			return strings.TrimPrefix(n, "fbd-")
		}
	}
	im := Import{Path: pk.path}
	if strings.Contains(pk.path, "/") || r.chance(40, "alias") {
		im.Alias = r.fresh("al")
		file.Imports = append(file.Imports, im)
		return im.Alias
	}
	file.Imports = append(file.Imports, im)
	return strings.TrimPrefix(pk.path, "fbd-")
}

type visible struct {
	ref string
	v   Val
}

// visibleConsts returns constants and parameters which might be used in the scope.
func (r *rctx) visibleConsts(sc *rscope, kind string) []visible {
	vs := []visible{}
	for s := sc; s != nil; s = s.parent {
		for _, k := range s.params {
			if k.v.K == kind {
				vs = append(vs, visible{k.name, k.v})
			}
		}
		for _, k := range s.known {
			if k.v.K == kind {
				vs = append(vs, visible{k.name, k.v})
			}
		}
	}
	for _, k := range sc.root().pkg.known {
		if k.v.K == kind {
			vs = append(vs, visible{k.name, k.v})
		}
	}
	return vs
}

// newConst defines a new constant visible in the scope and returns a reference to it.
func (r *rctx) newConst(sc *rscope, v Val, depth int) *Expr {
	// Choose scope.
	cands := []*rscope{}
	for s := sc; s != nil; s = s.parent {
		if s.def == nil {
			cands = append(cands, s)
			continue
		}
		if s.kind == "block" || s.kind == "bus" || s.kind == "group" || s.kind != "" && r.chance(30, "oddscope") {
			cands = append(cands, s)
		}
	}
	name := r.fresh("C")
	root := sc.root()
	if len(r.rp) > 1 && r.chance(25, "otherpkg") {
		pk := r.rp[r.intn(len(r.rp), "pkg")]
		if pk != root.pkg && pk.pkg.Dir != "" {
			tgt := pk.files[r.intn(len(pk.files), "file")]
			x := r.valExpr(tgt, v, depth-1)
			r.addItem(tgt, Item{Const: &ConstDef{Name: name, Val: x}})
			pk.known = append(pk.known, knownConst{name, v})
			return eRef(r.importName(root.file, pk) + "." + name)
		}
	}
	tgt := cands[r.intn(len(cands), "cscope")]
	if tgt.def == nil {
		// Any file of the package.
		tgt = tgt.pkg.files[r.intn(len(tgt.pkg.files), "file")]
	}
	x := r.valExpr(tgt, v, depth-1)
	doc := ""
	if r.chance(r.cfg.Docs/3, "cdoc") {
		doc = "Constant."
	}
	r.addItem(tgt, Item{Const: &ConstDef{Name: name, Val: x, Doc: doc}})
	if tgt.def == nil {
		tgt.pkg.known = append(tgt.pkg.known, knownConst{name, v})
	} else {
		tgt.known = append(tgt.known, knownConst{name, v})
	}
	return eRef(name)
}

func (r *rctx) valExpr(sc *rscope, v Val, depth int) *Expr {
	if v.K != "int" && depth > 0 && r.chance(r.cfg.Refs, "refval") {
		for _, k := range r.visibleConsts(sc, v.K) {
			if k.v.String() == v.String() {
				return eRef(k.ref)
			}
		}
		if r.chance(50, "newval") {
			return r.newConst(sc, v, depth-1)
		}
	}
	switch v.K {
	case "int":
		return r.intExpr(sc, v.I, depth)
	case "bool":
		switch {
		case depth > 0 && r.chance(r.cfg.Exprs/2, "boolf"):
			i := int64(0)
			if v.B {
				i = 1 + int64(r.intn(5, "booli"))
			}
			return eCall("bool", r.intExpr(sc, i, depth-1))
		case depth > 0 && r.chance(r.cfg.Exprs/2, "booln"):
			return eUn("!", eParen(r.valExpr(sc, Val{K: "bool", B: !v.B}, depth-1)))
		}
		return eBool(v.B)
	case "str":
		return eStr(v.S)
	case "bits":
		return eBits(v.S)
	case "range":
		return eBin(":", r.intExpr(sc, v.R[0], depth-1), r.intExpr(sc, v.R[1], depth-1))
	case "list":
		l := eList()
		for _, x := range v.L {
			l.Xs = append(l.Xs, r.valExpr(sc, x, depth-1))
		}
		return l
	case "float":
		return eFloat(v.S)
	}
	panic("no expression for " + v.K)
}

func (r *rctx) intExpr(sc *rscope, v int64, depth int) *Expr {
	if depth > 0 && r.chance(r.cfg.Refs, "ref") {
		vs := r.visibleConsts(sc, "int")
		exact := []visible{}
		near := []visible{}
		for _, k := range vs {
			if k.v.I == v {
				exact = append(exact, k)
			} else if k.v.I > -(1<<41) && k.v.I < 1<<41 && v > -(1<<41) && v < 1<<41 {
				near = append(near, k)
			}
		}
		switch {
		case len(exact) > 0 && r.chance(75, "exact"):
			return eRef(exact[r.intn(len(exact), "which")].ref)
		case len(near) > 0 && r.chance(60, "near"):
			k := near[r.intn(len(near), "which")]
			ref := eRef(k.ref)
			d := v - k.v.I
			switch {
			case k.v.I > 0 && v%k.v.I == 0 && r.chance(50, "mul"):
				return eBin("*", r.intExpr(sc, v/k.v.I, depth-1), ref)
			case d > 0:
				return eBin("+", ref, r.intExpr(sc, d, depth-1))
			default:
				return eBin("-", ref, r.intExpr(sc, -d, depth-1))
			}
		default:
			return r.newConst(sc, vInt(v), depth-1)
		}
	}
	if depth > 0 && r.chance(r.cfg.Exprs, "expr") {
		return intExprLit(r.t, v, 2)
	}
	return eInt(v)
}

func (r *rctx) propExpr(sc *rscope, p PropSpec) *Expr {
	switch p.K {
	case "int", "val":
		return r.intExpr(sc, p.I, 3)
	case "bits":
		return r.valExpr(sc, Val{K: "bits", S: p.Str}, 2)
	case "bool":
		return r.valExpr(sc, Val{K: "bool", B: p.B}, 2)
	case "str":
		return r.valExpr(sc, Val{K: "str", S: p.Str}, 2)
	case "time":
		e := eTime(p.I, p.Unit)
		if r.chance(r.cfg.Refs/2, "timeref") {
			// Time constants are not a part of the result.
			name := r.fresh("T")
			root := sc.root()
			r.addItem(root, Item{Const: &ConstDef{Name: name, Val: e}})
			return eRef(name)
		}
		return e
	case "range":
		switch p.Form {
		case 0:
			return r.intExpr(sc, p.Rng[0][1], 3)
		case 1:
			return r.valExpr(sc, Val{K: "range", R: p.Rng[0]}, 2)
		default:
			v := Val{K: "list"}
			for _, x := range p.Rng {
				v.L = append(v.L, Val{K: "range", R: x})
			}
			return r.valExpr(sc, v, 2)
		}
	}
	panic("unknown property kind " + p.K)
}

// realize writes s as an instantiation in scope sc. The returned item must be appended by the caller.
func (r *rctx) realize(s *S, sc *rscope) *Def {
	nl := 1
	if r.chance(r.cfg.Types, "typed") {
		nl = 2 + r.intn(3, "layers")
		if nl == 4 && r.chance(50, "fewer") {
			nl = 2
		}
	}
	layers := make([]*Def, nl)    // 0 is derived directly from the base type
	scopes := make([]*rscope, nl) // scope of the layer body
	defIn := make([]*rscope, nl)  // scope in which the layer is defined

	// Values worth being parameters.
	vals := []Val{}
	for _, p := range s.Props {
		switch p.K {
		case "int", "val":
			vals = append(vals, vInt(p.I))
		case "bool":
			vals = append(vals, Val{K: "bool", B: p.B})
		case "str":
			vals = append(vals, Val{K: "str", S: p.Str})
		case "bits":
			vals = append(vals, Val{K: "bits", S: p.Str})
		}
	}
	if s.IsArray {
		vals = append(vals, vInt(s.Count))
	}
	for _, k := range s.Kids {
		for _, p := range k.Props {
			switch p.K {
			case "int":
				vals = append(vals, vInt(p.I))
			case "bool":
				vals = append(vals, Val{K: "bool", B: p.B})
			}
		}
		if k.IsArray {
			vals = append(vals, vInt(k.Count))
		}
	}

	for i := nl - 1; i >= 0; i-- {
		d := &Def{}
		layers[i] = d
		if i == nl-1 {
			d.Name, d.Doc = s.Name, s.Doc
			defIn[i] = sc
		} else {
			d.IsType = true
			d.Name = r.fresh("T")
			if r.chance(r.cfg.Docs/2, "tdoc") {
				d.Doc = "Type documentation."
			}
			// Choose where the type is defined and how it is named by the derived one.
			user := defIn[i+1]
			root := user.root()
			if len(r.rp) > 1 && r.chance(30, "tpkg") {
				pk := r.rp[1+r.intn(len(r.rp)-1, "pkg")]
				defIn[i] = pk.files[r.intn(len(pk.files), "file")]
				if pk == root.pkg {
					layers[i+1].Type = d.Name
				} else {
					layers[i+1].Type = r.importName(root.file, pk) + "." + d.Name
				}
			} else {
				cands := []*rscope{}
				for x := user; x != nil; x = x.parent {
					if x.def == nil || x.kind == "block" || x.kind == "bus" || x.kind == "group" || x.kind == "proc" || x.kind == "stream" {
						cands = append(cands, x)
					}
				}
				x := cands[r.intn(len(cands), "tscope")]
				if x.def == nil {
					x = x.pkg.files[r.intn(len(x.pkg.files), "file")]
				}
				defIn[i] = x
				layers[i+1].Type = d.Name
			}
		}
		scopes[i] = &rscope{parent: defIn[i], def: d, kind: s.Kind}
		if d.IsType {
			np := r.intn(4, "params")
			for j := 0; j < np; j++ {
				v := vInt(drawInt(r.t, 0, 40, "pv"))
				if len(vals) > 0 && r.chance(80, "pint") {
					v = vals[r.intn(len(vals), "pi")]
				}
				name := r.fresh("p")
				scopes[i].params = append(scopes[i].params, knownConst{name, v})
				p := ParamDef{Name: name}
				if j > 0 && d.Params[j-1].Def != nil || r.chance(35, "pdef") {
					dv := v
					if r.chance(30, "pdv") {
						switch v.K {
						case "int":
							dv.I++
						case "bool":
							dv.B = !dv.B
						case "bits":
							dv.S = `b"1"`
						default:
							dv.S += "x"
						}
					}
					p.Def = r.valExpr(defIn[i], dv, 1)
					p.dflt = dv
				}
				d.Params = append(d.Params, p)
			}
		}
	}
	layers[0].Type = s.Kind

	// argScope is a scope in which arguments and array size of given layer are written.
	argScope := func(i int) *rscope {
		return &rscope{parent: defIn[i], params: scopes[i].params, def: layers[i]}
	}

	if s.IsArray {
		i := r.intn(nl, "clayer")
		layers[i].Count = r.intExpr(argScope(i), s.Count, 2)
	}

	// Arguments.
	for i := nl - 1; i > 0; i-- {
		ps := layers[i-1].Params
		vals := scopes[i-1].params
		positional := r.intn(len(ps)+1, "positional")
		named := []Arg{}
		for j, p := range ps {
			v := vals[j].v
			dfltOK := p.Def != nil && p.dflt.String() == v.String()
			if dfltOK && j >= positional && r.chance(60, "omit") {
				continue
			}
			x := r.valExpr(argScope(i), v, 2)
			if j < positional {
				layers[i].Args = append(layers[i].Args, Arg{Val: x, Kind: v.K})
			} else {
				named = append(named, Arg{Name: p.Name, Val: x, Kind: v.K})
			}
		}
		if len(named) > 1 && r.chance(50, "shuffle") {
			named = rapid.Permutation(named).Draw(r.t, "named")
		}
		layers[i].Args = append(layers[i].Args, named...)
	}

	// Properties.
	props := s.Props
	if len(props) > 1 && r.chance(50, "pshuffle") {
		props = rapid.Permutation(props).Draw(r.t, "props")
	}
	for _, p := range props {
		i := r.intn(nl, "player")
		layers[i].Props = append(layers[i].Props, Prop{Name: p.Name, Val: r.propExpr(scopes[i], p)})
	}

	// Inner functionalities, consecutive parts belong to consecutive layers.
	cur := 0
	for j, k := range s.Kids {
		for cur < nl-1 && r.chance(100*(j+1)/(2*len(s.Kids)+1), "next") {
			cur++
		}
		kd := r.realize(k, scopes[cur])
		layers[cur].Items = append(layers[cur].Items, Item{Def: kd})
	}

	// Additional constants.
	if s.Kind == "block" || s.Kind == "bus" || s.Kind == "group" {
		for i := range layers {
			for r.chance(r.cfg.Consts, "const") {
				r.extraConst(scopes[i])
			}
		}
	}

	for i := 0; i < nl-1; i++ {
		r.addItem(defIn[i], Item{Def: layers[i]})
	}
	return layers[nl-1]
}

func (r *rctx) drawVal(depth int) Val {
	switch r.intn(9, "vk") {
	case 0, 1:
		return vInt(drawInt(r.t, -100, 1000, "ci"))
	case 2:
		return Val{K: "bool", B: r.chance(50, "cb")}
	case 3:
		f := []string{"1.5", "0.25", "2e3", "3.0", "1e10", "0.1"}[r.intn(6, "cf")]
		v, _ := evalExpr(eFloat(f), nil)
		v.S = f
		return v
	case 4:
		return Val{K: "str", S: []string{"", "abc", "with space", "#no comment", "a;b", "x = 1"}[r.intn(6, "cs")]}
	case 5:
		v := Val{K: "list"}
		for i := 1 + r.intn(4, "cl"); i > 0; i-- {
			v.L = append(v.L, vInt(drawInt(r.t, -5, 300, "cli")))
		}
		return v
	case 6:
		v := Val{K: "list"}
		for i := 1 + r.intn(4, "cl"); i > 0; i-- {
			v.L = append(v.L, Val{K: "bool", B: r.chance(50, "clb")})
		}
		return v
	case 7:
		return Val{K: "bits", S: r.bitStr(12)}
	default:
		return Val{K: "range", R: [2]int64{drawInt(r.t, -5, 5, "rl"), drawInt(r.t, -5, 50, "rr")}}
	}
}

func (r *rctx) extraConst(sc *rscope) {
	v := r.drawVal(2)
	name := r.fresh("K")
	x := r.valExpr(sc, v, 2)
	doc := ""
	if r.chance(r.cfg.Docs/3, "cdoc") {
		doc = "Constant."
	}
	r.addItem(sc, Item{Const: &ConstDef{Name: name, Val: x, Doc: doc}})
	if sc.def == nil {
		sc.pkg.known = append(sc.pkg.known, knownConst{name, v})
	} else {
		sc.known = append(sc.known, knownConst{name, v})
	}
}

// Program is a generated description with its meaning.
type Program struct {
	Spec   *S
	Prog   *Prog
	Bus    *M
	Consts map[string]*Consts
	Width  int64
	Extra  int
}

// genProgram generates a valid description.
func genProgram(t *rapid.T, cfg GenCfg) *Program {
	g := &gctx{t: t, cfg: cfg}
	if cfg.Large || g.chance(4, "islarge") {
		g.large = map[string]bool{}
		for i := 1 + g.intn(2, "nlarge"); i > 0; i-- {
			g.large[largeRespects[g.intn(len(largeRespects), "respect")]] = true
		}
	}
	g.bw = g.busWidth()
	spec := g.genElem("bus", 0, "")
	return g.realizeBus(spec)
}

func (g *gctx) realizeBus(spec *S) *Program {
	r := &rctx{gctx: g}
	p := &Prog{}
	g.prog = p
	npk := 0
	if g.cfg.MaxPkgs > 0 {
		npk = g.intn(g.cfg.MaxPkgs+1, "npkg")
	}
	shared := !g.cfg.OwnNames && npk > 1 && g.chance(20, "shared")
	for i := 0; i <= npk; i++ {
		pk := &Pkg{Name: "main"}
		rp := &rpkg{pkg: pk}
		nf := 1
		if i > 0 {
			pk.Name = fmt.Sprintf("pk%d", i)
			pk.Dir = []string{"", "lib/", "deps/x/"}[g.intn(3, "dir")] + "fbd-" + pk.Name
			nf = 1 + g.intn(3, "files")
			if shared {
				// The same name, what makes the path the only difference.
				pk.Name = "pk"
				pk.Dir = fmt.Sprintf("%sd%d/fbd-pk", []string{"", "lib/"}[g.intn(2, "dir")], i)
				rp.path = pk.Dir
				if g.chance(50, "ipath") {
					rp.path = strings.TrimPrefix(rp.path, "lib/")
				}
			} else {
				rp.path = []string{"fbd-" + pk.Name, pk.Name, pk.Dir}[g.intn(3, "ipath")]
			}
		}
		for j := 0; j < nf; j++ {
			f := &File{Path: "bus.fbd"}
			if i > 0 {
				f.Path = fmt.Sprintf("%s/f%d.fbd", pk.Dir, j)
			}
			pk.Files = append(pk.Files, f)
			rp.files = append(rp.files, &rscope{file: f, pkg: rp})
		}
		p.Pkgs = append(p.Pkgs, pk)
		r.rp = append(r.rp, rp)
	}
	for _, rp := range r.rp {
		for g.chance(g.cfg.Consts, "pconst") {
			r.extraConst(rp.files[g.intn(len(rp.files), "file")])
		}
	}
	main := r.realize(spec, r.rp[0].files[0])
	r.addItem(r.rp[0].files[0], Item{Def: main})

	res := &Program{Spec: spec, Prog: p, Width: g.bw}
	bus, consts, err := newElabAny(p, g.cfg.AnyArray).Run("main")
	if err != nil {
		panic(fmt.Sprintf("harness: generated description is invalid: %v\n%s", err, p.render(canonStyle)))
	}
	res.Bus, res.Consts = bus, consts

	if g.cfg.Extra > 0 {
		for i := g.intn(g.cfg.Extra+1, "extra"); i > 0; i-- {
			res.addExtra(r)
		}
	}
	return res
}

// addExtra adds one more instantiation of an already instantiated type, possibly with other arguments.
func (pr *Program) addExtra(r *rctx) {
	np := pr.Prog.copy()
	type cand struct {
		items *[]Item
		i     int
	}
	cands := []cand{}
	for _, pk := range np.Pkgs {
		for _, f := range pk.Files {
			walkItems(&f.Items, 0, func(items *[]Item, i, depth int) {
				d := (*items)[i].Def
				if d != nil && !d.IsType && depth > 0 && !baseTypes[d.Type] {
					cands = append(cands, cand{items, i})
				}
			})
		}
	}
	if len(cands) == 0 {
		return
	}
	c := cands[r.intn(len(cands), "cand")]
	orig := (*c.items)[c.i].Def
	try := func(perturb bool) bool {
		n := orig.copy()
		n.Name = r.fresh("again")
		// Own types and inner functionalities of the copy are the same, names are in another body.
		if perturb {
			for j := range n.Args {
				if n.Args[j].Kind == "bool" {
					if r.chance(50, "pertb") {
						n.Args[j].Val = eBool(r.chance(50, "pb"))
					}
					continue
				}
				if n.Args[j].Kind != "int" {
					continue
				}
				switch r.intn(4, "pert") {
				case 0:
					n.Args[j].Val = eBin("+", n.Args[j].Val, eInt(1))
				case 1:
					n.Args[j].Val = eBin("-", n.Args[j].Val, eInt(1))
				case 2:
					n.Args[j].Val = eInt(drawInt(r.t, 1, 20, "pv"))
				}
				if n.Args[j].Val.K == "bin" && n.Args[j].Val.X.K == "bin" && precs[n.Args[j].Val.X.Txt] == 0 {
					return false
				}
			}
		}
		save := append([]Item(nil), *c.items...)
		pos := c.i + 1
		if r.chance(40, "before") {
			pos = c.i
		}
		out := append([]Item(nil), (*c.items)[:pos]...)
		out = append(out, Item{Def: n})
		out = append(out, (*c.items)[pos:]...)
		*c.items = out
		bus, consts, err := newElabAny(np, r.cfg.AnyArray).Run("main")
		if err != nil || bus.absurd() {
			*c.items = save
			return false
		}
		pr.Prog, pr.Bus, pr.Consts = np, bus, consts
		pr.Extra++
		return true
	}
	if len(orig.Args) > 0 && try(true) {
		return
	}
	try(false)
}

// absurd reports widths and counts of which no bus is ever built.
func (m *M) absurd() bool {
	if m.Width > 1<<16 || m.Count > 1<<40 {
		return true
	}
	for _, k := range m.Kids {
		if k.absurd() {
			return true
		}
	}
	return false
}

// stats returns labels describing the program.
func (pr *Program) stats() (labels []string, nontrivial bool) {
	types, consts, elems, blocks := 0, 0, 0, 0
	for _, pk := range pr.Prog.Pkgs {
		for _, f := range pk.Files {
			walkItems(&f.Items, 0, func(items *[]Item, i, depth int) {
				if c := (*items)[i].Const; c != nil {
					consts++
				} else if (*items)[i].Def.IsType {
					types++
				}
			})
		}
	}
	var walk func(m *M)
	walk = func(m *M) {
		elems++
		if m.Kind == "block" {
			blocks++
		}
		for _, k := range m.Kids {
			walk(k)
		}
	}
	walk(pr.Bus)
	add := func(c bool, l string) {
		if c {
			labels = append(labels, l)
		}
	}
	add(types > 0, "types")
	add(consts > 0, "consts")
	add(blocks > 0, "subblocks")
	add(len(pr.Prog.Pkgs) > 1, "packages")
	add(pr.Extra > 0, "reinstantiated")
	add(elems >= 5, "5+ functionalities")
	return labels, elems >= 3
}

func cmdDump(args []string) {
	n := 3
	cfg := fullCfg
	if len(args) > 0 && args[0] == "layout" {
		cfg = layoutCfg
	}
	for i := 0; i < n; i++ {
		g := rapid.Custom(func(t *rapid.T) string {
			return genProgram(t, cfg).Prog.render(Style{Ch: drawChooser(t)}).String()
		})
		fmt.Println("=============", g.Example(i+100))
	}
}
