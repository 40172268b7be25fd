package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// BadCase is a description which breaks one rule at a known place.
type BadCase struct {
	Src    Files            `json:"src"`
	Rule   string           `json:"rule"`
	Lines  map[string][]int `json:"lines"` // lines of offending constructs in every file
	Args   []string         `json:"args,omitempty"`
	Main   string           `json:"main,omitempty"` // path of the main file, if other than bus.fbd
	Skip   bool             `json:"skip,omitempty"`
	Labels []string         `json:"labels,omitempty"`
}

func (c *BadCase) Describe() string {
	return c.Src.String() + fmt.Sprintf("rule: %s, offending lines: %v, args: %v", c.Rule, c.Lines, c.Args)
}

type propKey struct {
	d *Def
	i int
}

type importKey struct {
	f *File
	i int
}

// bsite is a place of a definition in the program.
type bsite struct {
	items  *[]Item
	i      int
	def    *Def
	up     []*Def // enclosing definitions, outermost first
	file   *File
	pkg    *Pkg
	env    *env // environment the definition is placed in
	own    *env
	chain  []*Def // from the one derived from the base type to the definition itself
	kind   string
	depth  int
	inMain bool
}

type bad struct {
	t        *rapid.T
	p        *Prog
	n        int
	keys     []any
	static   bool // breaks the rule no matter whether the place is used
	args     []string
	post     func(fs Files, lines map[string][]int) bool
	lastType *Def
}

func (b *bad) k(n int) int {
	if n < 2 {
		return 0
	}
	return intRange(0, n-1).Draw(b.t, "k")
}
func (b *bad) pct(p int) bool         { return chance(b.t, p, "p") }
func (b *bad) str(s ...string) string { return s[b.k(len(s))] }
func (b *bad) fresh(stem string) string {
	b.n++
	return fmt.Sprintf("%sQ%d", stem, b.n)
}
func (b *bad) key(ks ...any) { b.keys = append(b.keys, ks...) }

func (b *bad) sites() []bsite {
	el := newElab(b.p)
	out := []bsite{}
	var walk func(items *[]Item, up []*Def, f *File, pk *Pkg, e *env)
	walk = func(items *[]Item, up []*Def, f *File, pk *Pkg, e *env) {
		for i := range *items {
			d := (*items)[i].Def
			if d == nil {
				continue
			}
			own := el.newEnv(e, d, d.Items)
			s := bsite{items: items, i: i, def: d, up: append([]*Def(nil), up...), file: f, pkg: pk, env: e, own: own, depth: len(up), inMain: pk == b.p.Pkgs[0]}
			s.chain = []*Def{d}
			x, xe := d, e
			for n := 0; !baseTypes[x.Type]; n++ {
				nd, ne, err := xe.lookupType(x.Type)
				if err != nil || n > 20 {
					break
				}
				s.chain = append([]*Def{nd}, s.chain...)
				x, xe = nd, ne
			}
			if baseTypes[x.Type] {
				s.kind = x.Type
			}
			out = append(out, s)
			walk(&d.Items, append(up, d), f, pk, own)
		}
	}
	for _, pk := range b.p.Pkgs {
		for _, f := range pk.Files {
			walk(&f.Items, nil, f, pk, el.fileEnv[f])
		}
	}
	return out
}

// pick chooses a site accepted by the filter.
func (b *bad) pick(filter func(s *bsite) bool) *bsite {
	c := []bsite{}
	for _, s := range b.sites() {
		if filter(&s) {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return &c[b.k(len(c))]
}

func (b *bad) body(kinds string) *bsite {
	return b.pick(func(s *bsite) bool { return s.kind != "" && strings.Contains(" "+kinds+" ", " "+s.kind+" ") })
}

func (b *bad) put(items *[]Item, it Item) {
	pos := b.k(len(*items) + 1)
	out := append([]Item(nil), (*items)[:pos]...)
	out = append(out, it)
	*items = append(out, (*items)[pos:]...)
}

// bystanders adds valid definitions next to the defect.
func (b *bad) bystanders() {
	if !b.pct(35) {
		return
	}
	for n := 1 + b.k(3); n > 0; n-- {
		pk := b.p.Pkgs[b.k(len(b.p.Pkgs))]
		f := pk.Files[b.k(len(pk.Files))]
		switch kind := b.str("bus", "bus", "type", "const"); {
		case kind == "bus" && pk == b.p.Pkgs[0]:
			b.put(&f.Items, Item{Def: b.busDef(b.fresh("side"))})
		case kind == "const":
			b.put(&f.Items, Item{Const: &ConstDef{Name: b.fresh("C"), Val: eInt(int64(n))}})
		default:
			d := b.elem(b.str("config", "mask", "static", "status", "irq", "proc", "stream", "block", "group"))
			d.IsType, d.Name = true, b.fresh("T")
			b.put(&f.Items, Item{Def: d})
		}
	}
}

// spread puts many valid definitions between those which break the rule.
func (b *bad) spread() {
	if !b.pct(10) {
		return
	}
	at := func(items *[]Item, kinds ...string) {
		kind, n := b.str(kinds...), 16+b.k(50)
		pos := b.k(len(*items) + 1)
		out := append([]Item(nil), (*items)[:pos]...)
		for i := 0; i < n; i++ {
			switch kind {
			case "const":
				out = append(out, Item{Const: &ConstDef{Name: b.fresh("K"), Val: eInt(int64(i))}})
			case "type":
				out = append(out, Item{Def: &Def{Name: b.fresh("K"), IsType: true, Type: "config"}})
			default:
				out = append(out, Item{Def: &Def{Name: b.fresh("k"), Type: "status"}})
			}
		}
		*items = append(out, (*items)[pos:]...)
	}
	keyed := map[any]bool{}
	for _, k := range b.keys {
		switch k.(type) {
		case *Def, *ConstDef:
			keyed[k] = true
		}
	}
	for _, s := range b.sites() {
		if s.kind != "bus" && s.kind != "block" {
			continue
		}
		for _, it := range s.def.Items {
			if it.Def != nil && keyed[it.Def] || it.Const != nil && keyed[it.Const] {
				at(&s.def.Items, "const", "type", "status")
				break
			}
		}
	}
	for _, pk := range b.p.Pkgs {
		for _, f := range pk.Files {
			at(&f.Items, "const", "type")
		}
	}
}

func (b *bad) busDef(name string) *Def {
	d := &Def{Name: name, Type: "bus"}
	for i := b.k(3); i > 0; i-- {
		d.Items = append(d.Items, Item{Def: b.elem(b.str("config", "mask", "static", "status", "irq", "proc", "stream", "block", "group"))})
	}
	return d
}

// elem makes a minimal valid functionality of given kind.
func (b *bad) elem(kind string) *Def {
	d := &Def{Name: b.fresh("q"), Type: kind}
	switch kind {
	case "static":
		d.Props = append(d.Props, Prop{"init-value", eInt(0)})
	case "blackbox":
		d.Props = append(d.Props, Prop{"size", eInt(4)})
	case "group":
		d.Items = append(d.Items, Item{Def: b.elem(b.str("config", "status", "irq", "mask"))})
	case "proc":
		if b.pct(60) {
			d.Items = append(d.Items, Item{Def: b.elem("param")})
		}
		if b.pct(60) {
			d.Items = append(d.Items, Item{Def: b.elem("return")})
		}
	case "stream":
		d.Items = append(d.Items, Item{Def: b.elem(b.str("param", "return"))})
	case "block":
		if b.pct(50) {
			d.Items = append(d.Items, Item{Def: b.elem("config")})
		}
	}
	return d
}

func (b *bad) containerFor(kind string) string {
	switch kind {
	case "param", "return":
		return b.str("proc", "stream")
	}
	return "block bus"
}

// placed is a new functionality put into the program, possibly with a chain of types.
type placed struct {
	layers []*Def
	site   *bsite // the body it is in
}

func (p *placed) inst() *Def { return p.layers[len(p.layers)-1] }
func (p *placed) any(b *bad) *Def {
	return p.layers[b.k(len(p.layers))]
}

// keysOf returns keys of all layers.
func (b *bad) layerKeys(p *placed) {
	for _, l := range p.layers {
		b.key(l)
	}
}

// typeScope puts a type definition in a place visible from body s and returns the name it has there.
func (b *bad) typeScope(s *bsite, d *Def) string {
	switch k := b.k(4); {
	case k == 0 && len(b.p.Pkgs) > 1:
		pk := b.p.Pkgs[1+b.k(len(b.p.Pkgs)-1)]
		f := pk.Files[b.k(len(pk.Files))]
		b.put(&f.Items, Item{Def: d})
		if pk == s.pkg {
			return d.Name
		}
		return b.importName(s.file, pk) + "." + d.Name
	case k == 1 && len(s.up) > 0:
		u := s.up[b.k(len(s.up))]
		b.put(&u.Items, Item{Def: d})
		return d.Name
	case k == 2:
		b.put(&s.def.Items, Item{Def: d})
		return d.Name
	}
	f := s.pkg.Files[b.k(len(s.pkg.Files))]
	b.put(&f.Items, Item{Def: d})
	return d.Name
}

func (b *bad) importName(f *File, pk *Pkg) string {
	for _, im := range f.Imports {
		if strings.HasSuffix(pk.Dir, im.Path) {
			if im.Alias != "" {
				return im.Alias
			}
			n, _, _ := strings.Cut(im.Path, "/")
			return strings.TrimPrefix(n, "fbd-")
		}
	}
	al := b.fresh("al")
	f.Imports = append(f.Imports, Import{Alias: al, Path: pk.Dir})
	return al
}

// place puts d into some body as a chain of n layers (0 - random number).
func (b *bad) place(d *Def, n int) *placed {
	s := b.body(b.containerFor(d.Type))
	if s == nil {
		return nil
	}
	return b.placeIn(s, d, n)
}

func (b *bad) placeIn(s *bsite, d *Def, n int) *placed {
	if n == 0 {
		n = 1 + b.k(3)
		if n > 1 && b.pct(40) {
			n = 1
		}
	}
	p := &placed{site: s}
	ls := make([]*Def, n)
	ls[n-1] = &Def{Name: d.Name}
	for i := 0; i < n-1; i++ {
		ls[i] = &Def{IsType: true, Name: b.fresh("T")}
	}
	ls[0].Type = d.Type
	// All the content belongs to the first layer.
	ls[0].Props, ls[0].Items = d.Props, d.Items
	b.put(&s.def.Items, Item{Def: ls[n-1]})
	user := *s
	for i := n - 1; i > 0; i-- {
		// Derived types are all visible from the body, simple and sufficient.
		if b.pct(70) || i < n-1 {
			// Type derived from a type: put it to file level of the same package, so that it sees the next one.
			b.put(&user.file.Items, Item{Def: ls[i-1]})
			ls[i].Type = ls[i-1].Name
		} else if i == 1 {
			ls[i].Type = b.typeScope(&user, ls[i-1])
		} else {
			b.put(&user.file.Items, Item{Def: ls[i-1]})
			ls[i].Type = ls[i-1].Name
		}
	}
	p.layers = ls
	return p
}

// addProp sets property in given definition at a random position.
func (b *bad) addProp(d *Def, name string, v *Expr) propKey {
	pos := b.k(len(d.Props) + 1)
	ps := append([]Prop(nil), d.Props[:pos]...)
	ps = append(ps, Prop{name, v})
	d.Props = append(ps, d.Props[pos:]...)
	return propKey{d, pos}
}

// via expresses the value v directly or through a constant visible everywhere in the package.
func (b *bad) via(s *bsite, x *Expr) *Expr {
	if !b.pct(30) {
		return x
	}
	name := b.fresh("C")
	c := &ConstDef{Name: name, Val: x}
	f := s.pkg.Files[b.k(len(s.pkg.Files))]
	if b.pct(50) {
		f = s.file
	}
	b.put(&f.Items, Item{Const: c})
	b.key(c)
	return eRef(name)
}

// okProp draws a valid value of the property for an element of at least 1 bit width.
func (b *bad) okProp(name string) *Expr {
	switch name {
	case "width", "size", "masters":
		return eInt(int64(1 + b.k(8)))
	case "range":
		return []*Expr{eInt(7), eBin(":", eInt(1), eInt(9)), eList(eBin(":", eInt(1), eInt(9)))}[b.k(3)]
	case "align":
		return eInt(1 << b.k(5))
	case "atomic", "virtual", "add-enable":
		return eBool(b.pct(50))
	case "clear":
		return eStr(b.str("Explicit", "On Read"))
	case "in-trigger", "out-trigger":
		return eStr(b.str("Edge", "Level"))
	case "reset":
		return eStr(b.str("Sync", "Async"))
	case "delay":
		return eTime(int64(1+b.k(9)), b.str("ns", "us", "ms", "s"))
	case "init-value", "read-value", "reset-value", "enable-init-value", "enable-reset-value":
		return []*Expr{eInt(0), eInt(1), eBits(`b"1"`), eBits(`b"0"`)}[b.k(4)]
	}
	panic("okProp " + name)
}

var propNames = []string{"add-enable", "align", "atomic", "clear", "delay", "enable-init-value", "enable-reset-value", "in-trigger", "init-value",
	"masters", "out-trigger", "range", "read-value", "reset", "reset-value", "size", "virtual", "width"}

func propsOf(kind string) []string { return strings.Fields(validProps[kind]) }

var elemKinds = []string{"config", "mask", "static", "status", "irq", "proc", "stream", "block", "blackbox", "group", "param", "return"}

// validElem places a valid functionality with property name settable.
func (b *bad) withProp(filter func(p string) bool) (kind, prop string) {
	type kp struct{ k, p string }
	c := []kp{}
	for _, k := range elemKinds {
		for _, p := range propsOf(k) {
			if filter(p) {
				c = append(c, kp{k, p})
			}
		}
	}
	x := c[b.k(len(c))]
	return x.k, x.p
}

func (d *Def) dropProp(name string) {
	for i := range d.Props {
		if d.Props[i].Name == name {
			d.Props = append(d.Props[:i:i], d.Props[i+1:]...)
			return
		}
	}
}

// prepare makes the setting of prop legal as far as other rules are concerned.
func (b *bad) prepare(d *Def, prop string) {
	d.dropProp(prop)
	if strings.HasPrefix(prop, "enable-") {
		d.Props = append(d.Props, Prop{"add-enable", eBool(true)})
	}
	if prop == "virtual" {
		d.Items = []Item{{Def: b.elem("config")}}
	}
}

type badRule struct {
	name string
	f    func(b *bad) bool
}

// wrongTyped draws a value of a type which is not any of the listed ones.
func (b *bad) wrongTyped(ok ...string) *Expr {
	type tv struct {
		k string
		x *Expr
	}
	all := []tv{
		{"int", eInt(4)}, {"bool", eBool(b.pct(50))}, {"str", eStr(b.str("Edge", "Sync", "", "8", "Explicit"))}, {"float", eFloat(b.str("1.0", "8.0", "0.5"))},
		{"bits", eBits(`b"1"`)}, {"time", eTime(1, "ns")}, {"range", eBin(":", eInt(1), eInt(2))}, {"list", eList(eInt(1))},
	}
	c := []*Expr{}
	for _, x := range all {
		good := false
		for _, o := range ok {
			good = good || o == x.k
		}
		if !good {
			c = append(c, x.x)
		}
	}
	return c[b.k(len(c))]
}

// anyValue draws a value of any type.
func (b *bad) anyValue() *Expr {
	switch b.k(4) {
	case 0:
		return b.wrongTyped()
	case 1:
		xs := []*Expr{}
		x := b.wrongTyped()
		for n := b.k(4); n > 0; n-- {
			xs = append(xs, x)
			if b.pct(25) {
				x = b.wrongTyped()
			}
		}
		return eList(xs...)
	}
	return eInt(int64(b.k(9)))
}

func typesOfProp(p string) []string {
	switch p {
	case "width", "size", "masters", "align":
		return []string{"int"}
	case "range":
		return []string{"int", "range", "list"}
	case "atomic", "virtual", "add-enable":
		return []string{"bool"}
	case "clear", "in-trigger", "out-trigger", "reset":
		return []string{"str"}
	case "delay":
		return []string{"time"}
	}
	return []string{"int", "bits"}
}

func undefinedName(b *bad, s *bsite) *Expr {
	names := []string{"Undefined", "nope", "x.Y", "undefined_1"}
	if len(s.file.Imports) > 0 {
		im := s.file.Imports[b.k(len(s.file.Imports))]
		n := im.Alias
		if n == "" {
			n, _, _ = strings.Cut(im.Path, "/")
			n = strings.TrimPrefix(n, "fbd-")
		}
		names = append(names, n+".Undefined")
	}
	x := eRef(names[b.k(len(names))])
	switch b.k(5) {
	case 0:
		return eBin("+", eInt(1), x)
	case 1:
		return eBin("*", eParen(x), eInt(2))
	case 2:
		return eCall("ceil", eBin("/", x, eInt(2)))
	}
	return x
}

func undefinedExpr(b *bad) *Expr {
	return []*Expr{
		eBin("/", eInt(4), eInt(0)),
		eBin("%", eInt(4), eInt(0)),
		eBin("<<", eInt(1), eBin("-", eInt(1), eInt(2))),
		eBin(">>", eInt(8), eUn("-", eInt(1))),
		eCall("log2", eInt(0)),
		eCall("log10", eUn("-", eInt(1))),
		eBin("*", eInt(1<<62), eInt(2)),
		eBin("+", eInt(1<<62), eParen(eBin("*", eInt(1<<61), eInt(2)))),
		eBin("+", eInt(1), eStr("a")),
		eBin("-", eBool(true), eInt(1)),
		eCall("ceil", eStr("a")),
		eCall("bool", eStr("a")),
		eCall("nofunc", eInt(1)),
		eCall("log2", eInt(8), eInt(2)),
	}[b.k(14)]
}

// others sets other properties anywhere in the chain.
func (b *bad) others(p *placed, kind string, but ...string) {
	skip := map[string]bool{}
	for _, x := range but {
		skip[x] = true
	}
	for _, q := range propsOf(kind) {
		if skip[q] || strings.HasPrefix(q, "enable-") || q == "virtual" || skip["range"] && q == "width" || skip["width"] && q == "range" || !b.pct(30) {
			continue
		}
		has := false
		for _, l := range p.layers {
			for _, x := range l.Props {
				has = has || x.Name == q || x.Name == "width" && q == "range" || x.Name == "range" && q == "width"
			}
		}
		if !has {
			b.addProp(p.layers[b.k(len(p.layers))], q, b.okProp(q))
		}
	}
}

var keywords = []string{"const", "type", "import", "true", "false", "config", "bus", "block", "status", "irq", "param", "group", "init-value", "add-enable"}

var badRules = []badRule{
	{"property set twice in a body", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return len(s.def.Props) > 0 })
		if s == nil {
			return false
		}
		i := b.k(len(s.def.Props))
		p := s.def.Props[i]
		if b.pct(50) {
			p.Val = b.okProp(p.Name)
		}
		k := b.addProp(s.def, p.Name, p.Val)
		b.key(k)
		for j := range s.def.Props {
			if s.def.Props[j].Name == p.Name {
				b.key(propKey{s.def, j})
			}
		}
		b.static = true
		return true
	}},
	{"property set twice in a type chain", func(b *bad) bool {
		kind, prop := b.withProp(func(string) bool { return true })
		d := b.elem(kind)
		b.prepare(d, prop)
		p := b.place(d, 2+b.k(2))
		if p == nil {
			return false
		}
		i := b.k(len(p.layers) - 1)
		j := i + 1 + b.k(len(p.layers)-1-i)
		v := b.okProp(prop)
		w := v
		if b.pct(50) {
			w = b.okProp(prop)
		}
		vi, vj := p.layers[i], p.layers[j]
		b.addProp(vi, prop, v)
		b.addProp(vj, prop, w)
		b.others(p, kind, prop)
		for _, l := range []*Def{vi, vj} {
			for k := range l.Props {
				if l.Props[k].Name == prop {
					b.key(propKey{l, k})
				}
			}
		}
		return true
	}},
	{"property of the main bus set twice in its type chain", func(b *bad) bool {
		f := b.p.Pkgs[0].Files[0]
		s := b.pick(func(s *bsite) bool { return s.kind == "bus" && s.file == f && s.def.Name == "main" && !s.def.IsType })
		if s == nil {
			return false
		}
		ls := s.chain
		if len(ls) == 1 || b.pct(30) {
			// One more layer below the main bus.
			d := &Def{IsType: true, Name: b.fresh("T"), Type: s.def.Type, Args: s.def.Args}
			s.def.Type, s.def.Args = d.Name, nil
			b.put(&f.Items, Item{Def: d})
			ls = append(append([]*Def(nil), ls[:len(ls)-1]...), d, s.def)
		}
		prop := b.str("width", "align", "masters", "reset")
		set := func(d *Def) int {
			for i := range d.Props {
				if d.Props[i].Name == prop {
					return i
				}
			}
			return -1
		}
		have := []int{}
		for i, l := range ls {
			if set(l) >= 0 {
				have = append(have, i)
			}
		}
		for len(have) < 2 {
			i := b.k(len(ls))
			if len(have) == 1 && have[0] == i {
				continue
			}
			v := b.okProp(prop)
			if prop == "width" {
				v = eInt(32)
			}
			b.addProp(ls[i], prop, v)
			have = append(have, i)
		}
		for _, i := range have {
			b.key(propKey{ls[i], set(ls[i])})
		}
		return true
	}},
	{"width and range in a body", func(b *bad) bool {
		kind := b.str("config", "param")
		p := b.place(b.elem(kind), 0)
		if p == nil {
			return false
		}
		d := p.layers[0]
		if b.pct(30) {
			d = p.any(b)
		}
		v, w := "width", "range"
		if b.pct(50) {
			v, w = w, v
		}
		d.Props = append(d.Props, Prop{v, b.okProp(v)}, Prop{w, b.okProp(w)})
		b.key(propKey{d, len(d.Props) - 2}, propKey{d, len(d.Props) - 1})
		b.static = true
		return true
	}},
	{"width and range in a type chain", func(b *bad) bool {
		p := b.place(b.elem(b.str("config", "param")), 2+b.k(2))
		if p == nil {
			return false
		}
		i := b.k(len(p.layers) - 1)
		j := i + 1 + b.k(len(p.layers)-1-i)
		v, w := "width", "range"
		if b.pct(50) {
			v, w = w, v
		}
		b.key(b.addProp(p.layers[i], v, b.okProp(v)), b.addProp(p.layers[j], w, b.okProp(w)))
		return true
	}},
	{"constant defined twice", func(b *bad) bool {
		items, _ := b.anyBody()
		name := b.fresh("C")
		c1, c2 := &ConstDef{Name: name, Val: b.anyValue()}, &ConstDef{Name: name, Val: b.anyValue()}
		b.put(items, Item{Const: c1})
		b.put(items, Item{Const: c2})
		b.key(c1, c2)
		b.static = true
		return true
	}},
	{"type defined twice", func(b *bad) bool {
		items, _ := b.anyBody()
		name := b.fresh("T")
		d1, d2 := b.elem(b.str(elemKinds...)), b.elem(b.str(elemKinds...))
		d1.Name, d2.Name = name, name
		d1.IsType, d2.IsType = true, true
		b.put(items, Item{Def: d1})
		b.put(items, Item{Def: d2})
		b.key(d1, d2)
		b.static = true
		return true
	}},
	{"functionality instantiated twice", func(b *bad) bool {
		s := b.body("block bus group proc stream")
		if s == nil {
			return false
		}
		kinds := strings.Fields(validInner[s.kind])
		k := kinds[b.k(len(kinds))]
		d1, d2 := b.elem(k), b.elem(k)
		if s.kind == "block" || s.kind == "bus" || s.kind == "proc" {
			d2 = b.elem(kinds[b.k(len(kinds))])
		}
		d2.Name = d1.Name
		b.put(&s.def.Items, Item{Def: d1})
		b.put(&s.def.Items, Item{Def: d2})
		b.key(d1, d2)
		b.static = true
		return true
	}},
	{"bus instantiated twice", func(b *bad) bool {
		f := b.p.Pkgs[0].Files[0]
		d1, d2 := b.busDef(b.fresh("side")), b.busDef("")
		if b.pct(40) {
			i := -1
			for j, it := range f.Items {
				if it.Def != nil && it.Def.Name == "main" && !it.Def.IsType {
					i = j
				}
			}
			if i < 0 {
				return false
			}
			d1 = f.Items[i].Def
		} else {
			b.put(&f.Items, Item{Def: d1})
		}
		d2.Name = d1.Name
		b.put(&f.Items, Item{Def: d2})
		b.key(d1, d2)
		b.static = true
		return true
	}},
	{"same name in two files of a package", func(b *bad) bool {
		var pk *Pkg
		for _, x := range b.p.Pkgs {
			if len(x.Files) > 1 {
				pk = x
			}
		}
		if pk == nil {
			if len(b.p.Pkgs) < 2 {
				return false
			}
			pk = b.p.Pkgs[1]
			pk.Files = append(pk.Files, &File{Path: pk.Dir + "/zz.fbd"})
		}
		i := b.k(len(pk.Files) - 1)
		j := i + 1 + b.k(len(pk.Files)-1-i)
		switch b.k(3) {
		case 2:
			d1, d2 := b.busDef(b.fresh("side")), b.busDef("")
			d2.Name = d1.Name
			b.put(&pk.Files[i].Items, Item{Def: d1})
			b.put(&pk.Files[j].Items, Item{Def: d2})
			b.key(d1, d2)
		case 0:
			name := b.fresh("C")
			c1, c2 := &ConstDef{Name: name, Val: b.anyValue()}, &ConstDef{Name: name, Val: b.anyValue()}
			b.put(&pk.Files[i].Items, Item{Const: c1})
			b.put(&pk.Files[j].Items, Item{Const: c2})
			b.key(c1, c2)
		default:
			d1, d2 := b.elem("config"), b.elem(b.str(elemKinds...))
			d1.Name = b.fresh("T")
			d2.Name = d1.Name
			d1.IsType, d2.IsType = true, true
			b.put(&pk.Files[i].Items, Item{Def: d1})
			b.put(&pk.Files[j].Items, Item{Def: d2})
			b.key(d1, d2)
		}
		b.static = true
		return true
	}},
	{"functionality name used twice in a type chain", func(b *bad) bool {
		kind := b.str("block", "group", "proc", "stream")
		d := b.elem(kind)
		p := b.place(d, 2+b.k(2))
		if p == nil {
			return false
		}
		k := map[string]string{"block": "config", "group": "config", "proc": "param", "stream": "param"}[kind]
		if kind != "block" {
			p.layers[0].Items = nil
		}
		d1, d2 := b.elem(k), b.elem(k)
		switch kind {
		case "block":
			ks := []string{"status", "config", "irq", "proc", "block", "static", "blackbox", "mask", "stream", "group"}
			d1, d2 = b.elem(b.str(ks...)), b.elem(b.str(ks...))
		case "proc":
			d1, d2 = b.elem(b.str("param", "return")), b.elem(b.str("param", "return"))
		case "stream":
			k = b.str("param", "return")
			d1, d2 = b.elem(k), b.elem(k)
		case "group":
			ks := []string{"config", "status", "mask", "static", "irq"}
			if b.pct(50) {
				ks = []string{b.str(ks...)}
			}
			k1, k2 := b.str(ks...), b.str(ks...)
			d1, d2 = b.elem(k1), b.elem(k2)
			if k1 != "irq" && k2 != "irq" && b.pct(50) {
				l := b.k(len(p.layers))
				p.layers[l].Props = append(p.layers[l].Props, Prop{Name: "virtual", Val: eBool(true)})
			}
		}
		d2.Name = d1.Name
		i := b.k(len(p.layers) - 1)
		j := i + 1 + b.k(len(p.layers)-1-i)
		b.put(&p.layers[i].Items, Item{Def: d1})
		b.put(&p.layers[j].Items, Item{Def: d2})
		b.key(d1, d2, p.inst())
		return true
	}},
	{"constant defined twice in a type chain", func(b *bad) bool {
		p := b.place(b.elem(b.str("block", "group")), 2+b.k(2))
		if p == nil {
			return false
		}
		name := b.fresh("C")
		c1, c2 := &ConstDef{Name: name, Val: b.anyValue()}, &ConstDef{Name: name, Val: b.anyValue()}
		i := b.k(len(p.layers) - 1)
		j := i + 1 + b.k(len(p.layers)-1-i)
		b.put(&p.layers[i].Items, Item{Const: c1})
		b.put(&p.layers[j].Items, Item{Const: c2})
		b.key(c1, c2)
		return true
	}},
	{"unknown property", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return true })
		b.key(b.addProp(s.def, b.str("foo", "Width", "widths", "init", "init-values", "read_value", "x", "enable"), eInt(1)))
		b.static = true
		return true
	}},
	{"property of another functionality", func(b *bad) bool {
		kind := b.str(elemKinds...)
		p := b.place(b.elem(kind), 0)
		if p == nil {
			return false
		}
		for {
			name := propNames[b.k(len(propNames))]
			if strings.Contains(validProps[kind], " "+name+" ") {
				if b.pct(100) { // a draw, so that the loop ends while shrinking
					name = map[bool]string{true: "delay", false: "size"}[!strings.Contains(validProps[kind], " delay ")]
				}
			}
			b.key(b.addProp(p.any(b), name, b.okProp(name)))
			return true
		}
	}},
	{"property of another functionality, in place", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return s.kind != "" })
		if s == nil {
			return false
		}
		c := []string{}
		for _, n := range propNames {
			if !strings.Contains(validProps[s.kind], " "+n+" ") {
				c = append(c, n)
			}
		}
		n := c[b.k(len(c))]
		b.key(b.addProp(s.def, n, b.okProp(n)))
		return true
	}},
	{"parameter declared twice", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return s.def.IsType })
		if s == nil {
			return false
		}
		if len(s.def.Params) == 0 {
			s.def.Params = []ParamDef{{Name: b.fresh("p"), Def: eInt(1)}}
		}
		s.def.Params = append(s.def.Params, ParamDef{Name: s.def.Params[b.k(len(s.def.Params))].Name, Def: eInt(1)})
		b.key(s.def)
		b.static = true
		return true
	}},
	{"parameter without default value after one with default value", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return s.def.IsType })
		if s == nil {
			return false
		}
		s.def.Params = append(s.def.Params, ParamDef{Name: b.fresh("p"), Def: eInt(1)}, ParamDef{Name: b.fresh("p")})
		b.key(s.def)
		b.static = true
		return true
	}},
	{"argument given twice", func(b *bad) bool {
		d, _ := b.paramType(2)
		if d == nil {
			return false
		}
		n := b.lastType.Params[b.k(2)].Name
		d.Args = []Arg{{Name: n, Val: eInt(1)}, {Name: n, Val: eInt(2)}}
		if b.pct(30) {
			d.Args = []Arg{{Val: eInt(1)}, {Name: b.lastType.Params[0].Name, Val: eInt(2)}}
		}
		b.key(d)
		return true
	}},
	{"positional argument after a named one", func(b *bad) bool {
		d, _ := b.paramType(2)
		if d == nil {
			return false
		}
		d.Args = []Arg{{Name: b.lastType.Params[b.k(2)].Name, Val: eInt(1)}, {Val: eInt(2)}}
		b.key(d)
		b.static = true
		return true
	}},
	{"unknown argument", func(b *bad) bool {
		d, _ := b.paramType(1 + b.k(3))
		if d == nil {
			return false
		}
		a := Arg{Name: b.str("Unknown", "width", "p"), Val: eInt(1)}
		if a.Name == "width" {
			a.Name = b.fresh("u")
		}
		d.Args[len(d.Args)-1] = a
		b.key(d)
		return true
	}},
	{"too many arguments", func(b *bad) bool {
		d, _ := b.paramType(b.k(3))
		if d == nil {
			return false
		}
		for i := b.k(2); i >= 0; i-- {
			d.Args = append(d.Args, Arg{Val: eInt(1)})
		}
		b.key(d)
		return true
	}},
	{"missing argument", func(b *bad) bool {
		d, _ := b.paramType(1 + b.k(3))
		if d == nil {
			return false
		}
		i := b.k(len(d.Args))
		for j := range d.Args {
			d.Args[j].Name = b.lastType.Params[j].Name
		}
		d.Args = append(d.Args[:i:i], d.Args[i+1:]...)
		b.key(d)
		return true
	}},
	{"arguments of a base type", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return baseTypes[s.def.Type] })
		s.def.Args = []Arg{{Val: eInt(1)}}
		if b.pct(40) {
			s.def.Args[0].Name = "width"
			if b.pct(50) {
				s.def.Args[0].Name = "W"
			}
		}
		b.key(s.def)
		b.static = true
		return true
	}},
	{"unknown name in a property", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return len(s.def.Props) > 0 })
		if s == nil {
			return false
		}
		i := b.k(len(s.def.Props))
		s.def.Props[i].Val = undefinedName(b, s)
		b.key(propKey{s.def, i})
		return true
	}},
	{"unknown name in a constant", func(b *bad) bool {
		c, s := b.newConst()
		c.Val = undefinedName(b, s)
		b.key(c)
		return true
	}},
	{"unknown name in an array size", func(b *bad) bool {
		p := b.place(b.elem(b.str("config", "status", "static", "block", "blackbox", "group", "param", "return")), 0)
		if p == nil {
			return false
		}
		d := p.any(b)
		d.Count = undefinedName(b, p.site)
		b.key(d)
		return true
	}},
	{"unknown name in an argument", func(b *bad) bool {
		d, p := b.paramType(1 + b.k(2))
		if d == nil {
			return false
		}
		d.Args[b.k(len(d.Args))].Val = undefinedName(b, p.site)
		b.key(d)
		return true
	}},
	{"unknown name in a default value", func(b *bad) bool {
		d, p := b.paramType(1 + b.k(2))
		if d == nil {
			return false
		}
		ps := b.lastType.Params
		ps[len(ps)-1].Def = eRef(b.str("Undefined", "x.Undefined"))
		d.Args = d.Args[:len(ps)-1]
		b.key(d, b.lastType)
		_ = p
		return true
	}},
	{"name of a definition in another body", func(b *bad) bool {
		s := b.body("block bus group")
		o := b.place(b.elem("block"), 1)
		if s == nil || o == nil {
			return false
		}
		name := b.fresh("C")
		o.inst().Items = append(o.inst().Items, Item{Const: &ConstDef{Name: name, Val: eInt(1)}})
		c := &ConstDef{Name: b.fresh("C"), Val: eRef(name)}
		b.put(&s.def.Items, Item{Const: c})
		b.key(c)
		return true
	}},
	{"unknown type", func(b *bad) bool {
		s := b.body("block bus group proc stream")
		if s == nil {
			return false
		}
		names := []string{"Undefined", "nope", "x.T", "Config", "int"}
		if len(s.file.Imports) > 0 && s.file.Imports[0].Alias != "" {
			names = append(names, s.file.Imports[0].Alias+".Undefined")
		}
		d := &Def{Name: b.fresh("q"), Type: b.str(names...)}
		if b.pct(20) {
			d.Props = append(d.Props, Prop{"width", eInt(1)})
		}
		b.key(d)
		if b.pct(30) {
			t := *d
			t.IsType = true
			t.Name = b.fresh("T")
			b.keys = nil
			b.key(&t)
			d = &Def{Name: d.Name, Type: t.Name}
			b.key(d)
			b.put(&s.def.Items, Item{Def: &t})
		}
		b.put(&s.def.Items, Item{Def: d})
		return true
	}},
	{"constant or functionality used as a type", func(b *bad) bool {
		s := b.body("block bus")
		if s == nil {
			return false
		}
		name := b.fresh("n")
		if b.pct(50) {
			c := &ConstDef{Name: name, Val: eInt(1)}
			b.put(&s.def.Items, Item{Const: c})
			b.key(c)
		} else {
			e := b.elem("config")
			e.Name = name
			b.put(&s.def.Items, Item{Def: e})
		}
		d := &Def{Name: b.fresh("q"), Type: name}
		b.put(&s.def.Items, Item{Def: d})
		b.key(d)
		return true
	}},
	{"functionality used as a constant", func(b *bad) bool {
		s := b.body("block bus")
		if s == nil {
			return false
		}
		e := b.elem(b.str("config", "status", "block"))
		b.put(&s.def.Items, Item{Def: e})
		d := b.elem("status")
		b.put(&s.def.Items, Item{Def: d})
		b.key(b.addProp(d, "width", eRef(e.Name)))
		return true
	}},
	{"array size set twice", func(b *bad) bool {
		p := b.place(b.elem(b.str("config", "status", "static", "block", "blackbox", "group", "param", "return")), 2+b.k(2))
		if p == nil {
			return false
		}
		i := b.k(len(p.layers) - 1)
		j := i + 1 + b.k(len(p.layers)-1-i)
		p.layers[i].Count = eInt(int64(1 + b.k(4)))
		p.layers[j].Count = eInt(int64(1 + b.k(4)))
		b.key(p.layers[i], p.layers[j], p.inst())
		return true
	}},
	{"array size of wrong type or value", func(b *bad) bool {
		p := b.place(b.elem(b.str("config", "status", "static", "block", "blackbox", "group", "param", "return")), 0)
		if p == nil {
			return false
		}
		d := p.any(b)
		x := b.wrongTyped("int")
		if b.pct(35) {
			x = eUn("-", eInt(int64(1+b.k(40))))
		}
		b.key(d, p.inst())
		d.Count = b.via(p.site, x)
		return true
	}},
	{"property value of wrong type", func(b *bad) bool {
		kind, prop := b.withProp(func(string) bool { return true })
		d := b.elem(kind)
		b.prepare(d, prop)
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		b.others(p, kind, prop)
		l := p.any(b)
		pc := &placed{layers: p.layers, site: p.site}
		// Constants visible from the layer only.
		b.key(b.addProp(l, prop, b.viaFor(pc, l, b.wrongTyped(typesOfProp(prop)...))))
		return true
	}},
	{"property value of wrong type, in place", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return len(s.def.Props) > 0 })
		if s == nil {
			return false
		}
		i := b.k(len(s.def.Props))
		s.def.Props[i].Val = b.wrongTyped(typesOfProp(s.def.Props[i].Name)...)
		b.key(propKey{s.def, i})
		return true
	}},
	{"forbidden property value", func(b *bad) bool {
		kind, prop := b.withProp(func(p string) bool { return len(badValues[p]) > 0 })
		d := b.elem(kind)
		b.prepare(d, prop)
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		b.others(p, kind, prop)
		l := p.any(b)
		b.key(b.addProp(l, prop, b.viaFor(p, l, b.badValue(prop))))
		return true
	}},
	{"forbidden bus property value", func(b *bad) bool {
		s := b.body("bus")
		if s == nil || len(s.chain) > 1 {
			return false
		}
		prop := b.str("width", "align", "masters", "reset")
		s.def.dropProp(prop)
		x := b.badValue(prop)
		if b.pct(40) {
			x = b.wrongTyped(typesOfProp(prop)...)
		} else if prop == "width" && b.pct(40) {
			x = eInt(0)
		}
		b.key(b.addProp(s.def, prop, b.via(s, x)))
		return true
	}},
	{"value wider than width", func(b *bad) bool {
		kind, prop := b.withProp(func(p string) bool { return strings.HasSuffix(p, "-value") })
		d := b.elem(kind)
		b.prepare(d, prop)
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		b.others(p, kind, prop, "width", "range")
		l := p.any(b)
		w := int64(1)
		var wk any
		if kind != "irq" {
			w = int64(1 + b.k(20))
			if b.pct(30) {
				w = int64(1 + b.k(140))
			}
			o := p.any(b)
			if kind == "config" && b.pct(30) && w < 40 {
				wk = b.addProp(o, "range", eInt(1<<w-1))
			} else {
				wk = b.addProp(o, "width", eInt(w))
			}
		}
		var x *Expr
		switch b.k(4) {
		case 0:
			if w < 62 {
				x = eInt(1 << w)
			}
		case 1:
			if w < 62 {
				x = eUn("-", eInt(1<<(w-1)+1+int64(b.k(2)*b.k(1000))))
			}
		case 2:
			if w < 50 {
				x = eInt(int64(1+b.k(30))<<w + int64(b.k(1000)))
			}
		}
		if x == nil {
			s := strings.Repeat(b.str("0", "1", "x", "-"), int(w)+b.k(2)*b.k(1+b.k(70)))
			x = eBits(`b"` + b.str("0", "1") + s + `"`)
			if b.pct(30) {
				x = eBits(`x"` + strings.Repeat(b.str("f", "0", "X"), int(w/4+1)+b.k(2)*b.k(20)) + `"`)
			}
		}
		k := b.addProp(l, prop, b.viaFor(p, l, x))
		b.key(k)
		if wk != nil {
			pk := wk.(propKey)
			if pk.d == l && k.i <= pk.i {
				pk.i++
			}
			b.key(pk)
		}
		b.layerKeys(p)
		return true
	}},
	{"invalid range", func(b *bad) bool {
		kind := b.str("config", "param")
		p := b.place(b.elem(kind), 0)
		if p == nil {
			return false
		}
		bound := func() int64 { return int64(b.k(10)) << []int{0, 0, 0, 1, 4, 7, 8, 16, 31, 32, 50}[b.k(11)] }
		rng := func() *Expr {
			l := bound()
			return eBin(":", eInt(l), eInt(l+bound()))
		}
		var x *Expr
		switch b.k(8) {
		case 0, 1, 2, 3:
			r := bound()
			x = eBin(":", eInt(r+1+[]int64{0, bound()}[b.k(2)]), eInt(r))
		case 4:
			x = eBin(":", eUn("-", eInt(1+bound())), eInt(bound()))
		case 5:
			r := 1 + bound()
			x = eBin(":", eUn("-", eInt(r+bound())), eUn("-", eInt(r)))
		case 6:
			x = eUn("-", eInt(1+bound()))
		default:
			x = eList(eInt(3), eInt(4))
		}
		if x.Txt == ":" && b.pct(60) || x.Txt != ":" && b.pct(15) {
			xs := []*Expr{}
			for n := b.k(8); n > 0; n-- {
				xs = append(xs, rng())
			}
			if x.Txt != ":" {
				x = eInt(3)
				xs = append(xs, rng())
			}
			i := b.k(len(xs) + 1)
			xs = append(xs[:i], append([]*Expr{x}, xs[i:]...)...)
			x = eList(xs...)
		}
		l := p.any(b)
		b.key(b.addProp(l, "range", b.viaFor(p, l, x)))
		return true
	}},
	{"forbidden nesting", func(b *bad) bool {
		outer := b.str(append([]string{"block", "group", "proc", "stream", "group", "proc", "stream"}, elemKinds...)...)
		c := []string{}
		for k := range baseTypes {
			if !strings.Contains(validInner[outer], " "+k+" ") {
				c = append(c, k)
			}
		}
		sort.Strings(c)
		k := c[b.k(len(c))]
		p := b.place(b.elem(outer), 0)
		if p == nil {
			return false
		}
		d := b.elem(k)
		l := p.any(b)
		b.key(d)
		if b.pct(40) {
			q := &bsite{def: l, file: p.site.file, pkg: p.site.pkg}
			for _, f := range b.p.Pkgs {
				for _, ff := range f.Files {
					walkItems(&ff.Items, 0, func(items *[]Item, i, depth int) {
						if (*items)[i].Def == l {
							q.file, q.pkg = ff, f
						}
					})
				}
			}
			b.placeIn(q, d, 2)
			for _, it := range l.Items {
				if it.Def != nil && it.Def.Name == d.Name {
					b.key(it.Def)
				}
			}
			return true
		}
		b.put(&l.Items, Item{Def: d})
		return true
	}},
	{"forbidden nesting, in place", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return s.kind != "" && s.kind != "block" })
		if s == nil {
			return false
		}
		c := []string{}
		for k := range baseTypes {
			if !strings.Contains(validInner[s.kind], " "+k+" ") {
				c = append(c, k)
			}
		}
		sort.Strings(c)
		d := b.elem(c[b.k(len(c))])
		b.put(&s.def.Items, Item{Def: d})
		b.key(d)
		return true
	}},
	{"missing mandatory property", func(b *bad) bool {
		kind := b.str("static", "blackbox")
		d := b.elem(kind)
		d.Props = nil
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		if kind == "static" && b.pct(50) {
			n := b.str("width", "reset-value", "read-value")
			b.addProp(p.any(b), n, b.okProp(n))
		}
		b.layerKeys(p)
		return true
	}},
	{"missing mandatory property, in place", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool {
			for _, p := range s.def.Props {
				if s.kind == "static" && p.Name == "init-value" || p.Name == "size" {
					return true
				}
			}
			return false
		})
		if s == nil {
			return false
		}
		if s.kind == "static" {
			s.def.dropProp("init-value")
		} else {
			s.def.dropProp("size")
		}
		for _, x := range b.sites() {
			for _, c := range x.chain {
				if c == s.def {
					b.key(x.def)
				}
			}
		}
		return true
	}},
	{"empty group", func(b *bad) bool {
		d := b.elem("group")
		d.Items = nil
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		if b.pct(40) {
			b.put(&p.any(b).Items, Item{Const: &ConstDef{Name: b.fresh("C"), Val: eInt(1)}})
		}
		b.layerKeys(p)
		return true
	}},
	{"mixed group", func(b *bad) bool {
		d := b.elem("group")
		d.Items = nil
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		// Irqs, params, returns and registers of the remaining kinds do not mix.
		cs := [][]string{{"config", "mask", "static", "status"}, {"irq"}, {"param"}, {"return"}}
		x := b.k(4)
		y := (x + 1 + b.k(3)) % 4
		ks := [2]string{b.str(cs[x]...), b.str(cs[y]...)}
		for i := 1 + b.k(3); i > 0; i-- {
			e := b.elem(ks[0])
			b.put(&p.any(b).Items, Item{Def: e})
			b.key(e)
		}
		e := b.elem(ks[1])
		b.put(&p.any(b).Items, Item{Def: e})
		b.key(e)
		b.layerKeys(p)
		return true
	}},
	{"virtual group of irqs, params or returns", func(b *bad) bool {
		kind := b.str("irq", "param", "return")
		s := b.body("block bus")
		if kind != "irq" {
			s = b.body("proc")
		}
		if s == nil {
			return false
		}
		d := b.elem("group")
		d.Items = nil
		p := b.placeIn(s, d, 0)
		for i := 1 + b.k(3); i > 0; i-- {
			e := b.elem(kind)
			b.put(&p.any(b).Items, Item{Def: e})
			b.key(e)
		}
		b.key(b.addProp(p.any(b), "virtual", eBool(true)))
		b.layerKeys(p)
		return true
	}},
	{"mismatched out-trigger in irq group", func(b *bad) bool {
		d := b.elem("group")
		d.Items = nil
		p := b.place(d, 0)
		if p == nil {
			return false
		}
		n := 2 + b.k(3)
		odd := b.k(n)
		for i := 0; i < n; i++ {
			e := b.elem("irq")
			if i == odd {
				e.Props = append(e.Props, Prop{"out-trigger", eStr("Edge")})
			} else if b.pct(40) {
				e.Props = append(e.Props, Prop{"out-trigger", eStr("Level")})
			}
			if b.pct(30) {
				e.Props = append(e.Props, Prop{"in-trigger", eStr("Edge")})
			}
			b.put(&p.any(b).Items, Item{Def: e})
			b.key(e)
			for j := range e.Props {
				b.key(propKey{e, j})
			}
		}
		b.layerKeys(p)
		return true
	}},
	{"mixed stream", func(b *bad) bool {
		p := b.place(&Def{Name: b.fresh("q"), Type: "stream"}, 0)
		if p == nil {
			return false
		}
		a, c := "param", "return"
		if b.pct(50) {
			a, c = c, a
		}
		for i := 1 + b.k(3); i > 0; i-- {
			e := b.elem(a)
			b.put(&p.any(b).Items, Item{Def: e})
			b.key(e)
		}
		e := b.elem(c)
		b.put(&p.any(b).Items, Item{Def: e})
		b.key(e)
		b.layerKeys(p)
		return true
	}},
	{"enable value without enable", func(b *bad) bool {
		p := b.place(b.elem("irq"), 0)
		if p == nil {
			return false
		}
		n := b.str("enable-init-value", "enable-reset-value")
		b.key(b.addProp(p.any(b), n, eInt(int64(b.k(2)))))
		if b.pct(30) {
			l := p.any(b)
			k := b.addProp(l, "add-enable", eBool(false))
			pk := b.keys[0].(propKey)
			if pk.d == l && k.i <= pk.i {
				pk.i++
				b.keys[0] = pk
			}
		}
		b.layerKeys(p)
		return true
	}},
	{"constant depends on itself", func(b *bad) bool {
		items, _ := b.fileOrBody()
		n := 1 + b.k(3)
		cs := []*ConstDef{}
		for i := 0; i < n; i++ {
			cs = append(cs, &ConstDef{Name: b.fresh("C")})
		}
		for i, c := range cs {
			x := eRef(cs[(i+1)%n].Name)
			switch b.k(3) {
			case 0:
				c.Val = x
			case 1:
				c.Val = eBin("+", x, eInt(1))
			default:
				c.Val = eList(eInt(1), x)
			}
			b.put(items, Item{Const: c})
			b.key(c)
		}
		return true
	}},
	{"type derived from itself", func(b *bad) bool {
		s := b.body("block bus")
		if s == nil {
			return false
		}
		n := 1 + b.k(3)
		items := &s.file.Items
		if b.pct(40) {
			items = &s.def.Items
		}
		ts := []*Def{}
		for i := 0; i < n; i++ {
			ts = append(ts, &Def{IsType: true, Name: b.fresh("T")})
		}
		for i, d := range ts {
			d.Type = ts[(i+1)%n].Name
			b.put(items, Item{Def: d})
			b.key(d)
		}
		d := &Def{Name: b.fresh("q"), Type: ts[b.k(n)].Name}
		b.put(&s.def.Items, Item{Def: d})
		b.key(d)
		return true
	}},
	{"type instantiated in itself", func(b *bad) bool {
		p := b.place(b.elem("block"), 2+b.k(2))
		if p == nil {
			return false
		}
		i := b.k(len(p.layers) - 1)
		j := b.k(len(p.layers))
		if i > j {
			i, j = j, i
		}
		d := &Def{Name: b.fresh("q"), Type: p.layers[i].Name}
		if !p.layers[i].IsType {
			return false
		}
		// The layer may be in another package than the user.
		if j+1 < len(p.layers) || b.pct(100) {
			j = i
		}
		if b.pct(40) {
			m := b.elem("block")
			m.Items = append(m.Items, Item{Def: d})
			b.key(m)
			b.put(&p.layers[j].Items, Item{Def: m})
		} else {
			b.put(&p.layers[j].Items, Item{Def: d})
		}
		b.key(d)
		return true
	}},
	{"expression without value", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return len(s.def.Props) > 0 })
		if s == nil || b.pct(30) {
			c, _ := b.newConst()
			c.Val = undefinedExpr(b)
			b.key(c)
			return true
		}
		i := b.k(len(s.def.Props))
		s.def.Props[i].Val = undefinedExpr(b)
		b.key(propKey{s.def, i})
		return true
	}},
	{"functionality at package level", func(b *bad) bool {
		kind := b.str("config", "mask", "static", "status", "irq", "proc", "stream", "block", "blackbox", "group", "param", "return")
		d := b.elem(kind)
		f := b.p.mainFile()
		if b.pct(50) {
			t := *d
			t.IsType, t.Name = true, b.fresh("T")
			b.put(&f.Items, Item{Def: &t})
			d = &Def{Name: d.Name, Type: t.Name}
		}
		b.put(&f.Items, Item{Def: d})
		b.key(d)
		b.static = true
		return true
	}},
	{"functionality at level of imported package", func(b *bad) bool {
		if len(b.p.Pkgs) < 2 {
			return false
		}
		pk := b.p.Pkgs[1+b.k(len(b.p.Pkgs)-1)]
		f := pk.Files[b.k(len(pk.Files))]
		d := b.elem(b.str("config", "block", "bus", "irq", "proc"))
		if b.pct(50) {
			t := *d
			t.IsType, t.Name = true, b.fresh("T")
			b.put(&f.Items, Item{Def: &t})
			d = &Def{Name: d.Name, Type: t.Name}
		}
		b.put(&f.Items, Item{Def: d})
		b.key(d)
		b.static = true
		return true
	}},
	{"bus inside of a block", func(b *bad) bool {
		d := b.elem("block")
		d.Type = "bus"
		s := b.body("block bus")
		if s == nil {
			return false
		}
		p := b.placeIn(s, d, 0)
		b.layerKeys(p)
		return true
	}},
	{"main of wrong type", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return s.depth == 0 && !s.def.IsType && s.def.Name == "main" })
		if len(s.chain) > 1 {
			return false
		}
		s.def.Type = b.str("block", "group", "config", "proc")
		if s.def.Type != "block" && b.pct(60) {
			s.def.Items, s.def.Props = nil, nil
		}
		if s.def.Type != "block" {
			for i := range s.def.Props {
				b.key(propKey{s.def, i})
			}
			for _, it := range s.def.Items {
				if it.Def != nil {
					b.key(it.Def)
				}
			}
		} else {
			for i := range s.def.Props {
				if s.def.Props[i].Name == "width" {
					b.key(propKey{s.def, i})
				}
			}
		}
		b.key(s.def)
		b.static = true
		return true
	}},
	{"missing main", func(b *bad) bool {
		switch b.k(3) {
		case 0:
			b.args = []string{"-main", b.str("nomain", "Main", "main2")}
			b.static = true
			return true
		}
		s := b.pick(func(s *bsite) bool { return s.depth == 0 && !s.def.IsType && s.def.Name == "main" })
		s.def.Name = "Main"
		b.key(s.def)
		b.static = true
		return true
	}},
	{"reserved name", func(b *bad) bool {
		kind := b.str("config", "mask", "static", "status", "irq", "proc", "stream", "block", "blackbox", "group")
		d := b.elem(kind)
		d.Name = "ID"
		if b.pct(30) {
			d.Name = "TIMESTAMP"
			b.args = []string{"-add-timestamp"}
		}
		s := b.body("bus")
		if s == nil {
			return false
		}
		p := b.placeIn(s, d, 0)
		b.layerKeys(p)
		b.static = true
		return true
	}},
	{"keyword used as a name", func(b *bad) bool {
		k := b.str(keywords...)
		switch b.k(4) {
		case 0:
			c, _ := b.newConst()
			c.Name = k
			// Keywords are accepted as names of grouped constants.
			c.Single = true
			c.Val = eInt(1)
			b.key(c)
		case 1:
			s := b.body("block bus")
			if s == nil {
				return false
			}
			d := b.elem("config")
			d.IsType, d.Name = true, k
			b.put(&s.def.Items, Item{Def: d})
			b.key(d)
		case 2:
			s := b.body("block bus")
			if s == nil {
				return false
			}
			d := b.elem("block")
			d.Name = k
			if k != "false" {
				// Functionality keywords are allowed, others change the meaning of the line.
				d.Name = "true"
			}
			b.put(&s.def.Items, Item{Def: d})
			b.key(d)
		default:
			s := b.pick(func(s *bsite) bool { return s.def.IsType })
			if s == nil {
				return false
			}
			s.def.Params = append([]ParamDef{{Name: k}}, s.def.Params...)
			b.key(s.def)
		}
		b.static = true
		return true
	}},
	{"import without a package", func(b *bad) bool {
		f := b.anyFile()
		f.Imports = append(f.Imports, Import{Alias: b.str("", b.fresh("al")), Path: b.str("nopackage", "fbd-none", "some/path", "lib")})
		b.key(importKey{f, len(f.Imports) - 1})
		b.static = true
		return true
	}},
	{"ambiguous import", func(b *bad) bool {
		f := b.anyFile()
		n := b.fresh("amb")
		for _, d := range []string{"a/fbd-" + n, "b/fbd-" + n} {
			b.p.Pkgs = append(b.p.Pkgs, &Pkg{Name: n, Dir: d, Files: []*File{{Path: d + "/x.fbd", Items: []Item{{Const: &ConstDef{Name: "A", Val: eInt(1)}}}}}})
		}
		f.Imports = append(f.Imports, Import{Path: b.str(n, "fbd-"+n)})
		b.key(importKey{f, len(f.Imports) - 1})
		b.static = true
		return true
	}},
	{"import name used twice", func(b *bad) bool {
		if len(b.p.Pkgs) < 2 {
			return false
		}
		f := b.anyFile()
		pk := b.p.Pkgs[1+b.k(len(b.p.Pkgs)-1)]
		if pk.Dir == filepath.Dir(f.Path) {
			f = b.p.mainFile()
		}
		al := b.fresh("al")
		f.Imports = append(f.Imports, Import{Alias: al, Path: pk.Dir}, Import{Alias: al, Path: b.p.Pkgs[1].Dir})
		b.key(importKey{f, len(f.Imports) - 1}, importKey{f, len(f.Imports) - 2})
		b.static = true
		return true
	}},
	{"empty parentheses", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return len(s.def.Args) == 0 })
		s.def.Type += b.str("()", "( )")
		if s.def.IsType && len(s.def.Params) == 0 && b.pct(50) {
			s.def.Type = strings.TrimRight(s.def.Type, "( )")
			s.def.Name += "()"
		}
		b.key(s.def)
		b.static = true
		return true
	}},
	{"malformed expression", func(b *bad) bool {
		raw := eRef(b.str("1 +", "+ * 2", "(1", "1)", "[1, 2", "1 2", "1 + + ", "", ")", "log2(", "log2(,1)", "[,]", "[1 2]", "1 ** ", "b\"2\"", "x\"g\"", "o\"8\"", "0x", "0b12", "1.2.3", "a.b.c", "1 == ", "@", "$", "1 ns s", "1 : : 2", "a..b", "5 hours", "09x", "1a"))
		s := b.pick(func(s *bsite) bool { return len(s.def.Props) > 0 })
		if s == nil || b.pct(30) {
			c, _ := b.newConst()
			c.Val = raw
			b.key(c)
		} else {
			i := b.k(len(s.def.Props))
			s.def.Props[i].Val = raw
			b.key(propKey{s.def, i})
		}
		b.static = true
		return true
	}},
	{"wrong indentation", func(b *bad) bool {
		s := b.pick(func(s *bsite) bool { return true })
		b.key(s.def)
		how := b.k(4)
		b.static = true
		b.post = func(fs Files, lines map[string][]int) bool {
			for p, ls := range lines {
				src := strings.Split(fs[p], "\n")
				i := ls[0] - 1
				if i == 0 {
					return false // indentation of the first line is not checked
				}
				switch how {
				case 0:
					src[i] = " " + src[i]
				case 1:
					src[i] = "\t" + src[i]
				default:
					j := i - 1
					for j >= 0 && strings.TrimSpace(src[j]) == "" {
						j--
					}
					if j < 0 || strings.HasPrefix(strings.TrimSpace(src[j]), "#") {
						return false
					}
					ind := len(src[j]) - len(strings.TrimLeft(src[j], " "))
					src[i] = strings.Repeat(" ", ind+2*how) + strings.TrimLeft(src[i], " ")
				}
				fs[p] = strings.Join(src, "\n")
			}
			return true
		}
		return true
	}},
}

var badValues = map[string][]*Expr{
	"width":       {eUn("-", eInt(1)), eUn("-", eInt(8))},
	"size":        {eUn("-", eInt(1))},
	"masters":     {eInt(0), eUn("-", eInt(1))},
	"align":       {eInt(0), eInt(3), eInt(6), eInt(100), eUn("-", eInt(4)), eInt(65), eInt(127)},
	"clear":       {eStr("explicit"), eStr("On read"), eStr(""), eStr("OnRead"), eStr("Edge")},
	"in-trigger":  {eStr("edge"), eStr(""), eStr("Rising"), eStr("Explicit")},
	"out-trigger": {eStr("edge"), eStr(""), eStr("Rising"), eStr("level")},
	"reset":       {eStr("sync"), eStr(""), eStr("Asynchronous"), eStr("Level")},
}

// badValue is a value of right type the property can't have.
func (b *bad) badValue(prop string) *Expr {
	vs := badValues[prop]
	x := vs[b.k(len(vs))]
	if b.pct(40) {
		return x
	}
	if x.K == "str" {
		good := map[string][]string{
			"clear": {"Explicit", "On Read"}, "reset": {"Sync", "Async"}, "in-trigger": {"Edge", "Level"}, "out-trigger": {"Edge", "Level"},
		}[prop]
		g := b.str(good...)
		i := b.k(len(g))
		switch b.k(7) {
		case 0:
			g = strings.ToLower(g)
		case 1:
			g = strings.ToUpper(g)
		case 2:
			g += b.str(" ", "s", "d", ".")
		case 3:
			g = b.str(" ", "A", "_") + g
		case 4:
			g = g[:i] + g[i+1:]
		case 5:
			g = g[:i] + g[:i+1] + g[i+1:]
		default:
			g = b.str("Sync", "Async", "Edge", "Level", "Explicit", "On Read", "None", "true", "0")
		}
		for _, s := range good {
			if g == s {
				return x
			}
		}
		return eStr(g)
	}
	mag := int64(1+b.k(100)) << []int{0, 0, 1, 4, 8, 16, 31, 32, 40, 50}[b.k(10)]
	if prop == "align" && mag&(mag-1) != 0 && b.pct(60) {
		return eInt(mag)
	}
	return eUn("-", eInt(mag))
}

// anyBody chooses a file or a body of any definition.
func (b *bad) anyBody() (*[]Item, *File) {
	if b.pct(40) {
		f := b.anyFile()
		return &f.Items, f
	}
	s := b.pick(func(s *bsite) bool { return true })
	return &s.def.Items, s.file
}

// fileOrBody chooses a place where every constant is evaluated.
func (b *bad) fileOrBody() (*[]Item, *bsite) {
	s := b.body("block bus group")
	if s == nil || b.pct(40) {
		f := b.anyFile()
		var pk *Pkg
		for _, p := range b.p.Pkgs {
			for _, x := range p.Files {
				if x == f {
					pk = p
				}
			}
		}
		return &f.Items, &bsite{file: f, pkg: pk}
	}
	return &s.def.Items, s
}

func (b *bad) newConst() (*ConstDef, *bsite) {
	items, s := b.fileOrBody()
	c := &ConstDef{Name: b.fresh("C"), Val: eInt(1)}
	b.put(items, Item{Const: c})
	return c, s
}

func (b *bad) anyFile() *File {
	pk := b.p.Pkgs[b.k(len(b.p.Pkgs))]
	return pk.Files[b.k(len(pk.Files))]
}

// viaFor is via for a value used in given layer.
func (b *bad) viaFor(p *placed, l *Def, x *Expr) *Expr {
	if !b.pct(25) {
		return x
	}
	c := &ConstDef{Name: b.fresh("C"), Val: x}
	b.key(c)
	for _, pk := range b.p.Pkgs {
		for _, f := range pk.Files {
			found := false
			walkItems(&f.Items, 0, func(items *[]Item, i, depth int) { found = found || (*items)[i].Def == l })
			if found {
				b.put(&f.Items, Item{Const: c})
				return eRef(c.Name)
			}
		}
	}
	panic("layer not found")
}

// paramType places a functionality of a type with n parameters, all without default value.
func (b *bad) paramType(n int) (*Def, *placed) {
	p := b.place(b.elem(b.str("config", "status", "block", "proc", "irq", "mask")), 2)
	if p == nil {
		return nil, nil
	}
	t, d := p.layers[0], p.layers[1]
	for i := 0; i < n; i++ {
		t.Params = append(t.Params, ParamDef{Name: b.fresh("p")})
		d.Args = append(d.Args, Arg{Val: eInt(int64(1 + b.k(4)))})
	}
	b.lastType = t
	return d, p
}

var badCfg = GenCfg{MaxKids: 4, MaxDepth: 2, Kinds: allKinds, Types: 30, Refs: 25, Exprs: 15, Docs: 15, Values: 30, Consts: 20, MaxPkgs: 1, Extra: 1}

func genBad(rule badRule) func(t *rapid.T) BadCase {
	return func(t *rapid.T) BadCase {
		pr := genProgram(t, badCfg)
		b := &bad{t: t, p: pr.Prog.copy()}
		c := BadCase{Rule: rule.name}
		if !rule.f(b) {
			c.Skip = true
			return c
		}
		if !b.static {
			valid, big := false, false
			func() {
				defer func() {
					if recover() != nil {
						big = true
					}
				}()
				_, _, err := newElab(b.p).Run("main")
				valid = err == nil
			}()
			if valid || big {
				c.Skip = true
				return c
			}
		}
		want := map[any]bool{}
		for _, k := range b.keys {
			switch k := k.(type) {
			case propKey:
				want[&k.d.Props[k.i]] = true
			case importKey:
				want[&k.f.Imports[k.i]] = true
			default:
				want[k] = true
			}
		}
		if len(b.args) == 0 && b.pct(15) {
			// The same with the main bus of other name.
			for _, f := range b.p.Pkgs[0].Files {
				for _, it := range f.Items {
					if it.Def != nil && !it.Def.IsType && it.Def.Name == "main" {
						it.Def.Name = "top_bus"
					}
				}
			}
			b.args = []string{"-main", "top_bus"}
		}
		b.bystanders()
		b.spread()
		ch := drawChooser(t)
		c.Src, c.Lines = Files{}, map[string][]int{}
		for _, pk := range b.p.Pkgs {
			for _, f := range pk.Files {
				c.Src[f.Path] = renderFile(f, Style{Ch: ch, Mark: func(key any, line int) {
					if want[key] {
						c.Lines[f.Path] = append(c.Lines[f.Path], line)
					}
				}})
			}
		}
		if b.post != nil {
			c.Skip = !b.post(c.Src, c.Lines)
		}
		for _, p := range c.Src.paths() {
			if c.Skip || !strings.HasSuffix(p, ".fbd") || len(c.Lines[p]) == 0 {
				continue
			}
			if chance(t, 6, "padded") {
				pad, n := padding(t)
				c.Src[p] = pad + c.Src[p]
				for i := range c.Lines[p] {
					c.Lines[p][i] += n
				}
			}
		}
		c.Args = b.args
		if chance(t, 25, "named") {
			c.Main = mainName(t)
			c.Src[c.Main], c.Lines[c.Main] = c.Src["bus.fbd"], c.Lines["bus.fbd"]
			delete(c.Src, "bus.fbd")
			delete(c.Lines, "bus.fbd")
		}
		return c
	}
}

// mainName draws a path of the main file other than the usual one.
func mainName(t *rapid.T) string {
	return []string{
		"debug.fbd", "debug-bus.fbd", "debugging/bus.fbd", "error.fbd", "sub/dir/bus.fbd", "Top_2.fbd", "main.fbd", "a.b.fbd",
	}[intRange(0, 7).Draw(t, "mainName")]
}

func mainOr(s string) string {
	if s == "" {
		return "bus.fbd"
	}
	return s
}

var diagLoc = regexp.MustCompile(`([^\s:]*\.fbd)(?::| \+)(\d+):(\d+)|(?:^|\s)(\d+):(\d+):|line (\d+) column (\d+)`)

func runBad(env *Env, c *BadCase) Result {
	if c.Skip {
		return Result{Skip: true}
	}
	d := env.Dir(c.Src)
	defer os.RemoveAll(d)
	o := env.Run(d, append(append([]string{"-c", "the-consts.json"}, c.Args...), mainOr(c.Main))...)
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code == 0 {
		return fail("description breaking the rule (%s) is compiled", c.Rule)
	}
	if o.Crashed() {
		return fail("compiler crashed on description breaking the rule (%s): %s", c.Rule, o.brief())
	}
	if len(o.Stdout) != 0 {
		return fail("rejected description (%s) but something is written to the standard output", c.Rule)
	}
	if _, err := os.Stat(filepath.Join(d, "the-consts.json")); err == nil {
		return fail("rejected description (%s) but constants are written", c.Rule)
	}
	msg := strings.TrimSpace(string(o.Stderr))
	if msg == "" {
		return fail("rejected (%s) without any message", c.Rule)
	}
	labels := []string{}
	nloc := 0
	for _, m := range diagLoc.FindAllStringSubmatch(msg, -1) {
		path, ls := m[1], m[2]
		if ls == "" {
			ls = m[4]
		}
		if ls == "" {
			ls = m[6]
		}
		line, err := strconv.Atoi(ls)
		if err != nil {
			continue
		}
		nloc++
		ok := false
		for p, lines := range c.Lines {
			if path != "" && p != path && !strings.HasSuffix(path, "/"+p) {
				continue
			}
			for _, l := range lines {
				ok = ok || l == line
			}
		}
		if !ok {
			return fail("diagnostic of broken rule (%s) names %s line %d, offending constructs are at %v: %s", c.Rule, path, line, c.Lines, o.brief())
		}
	}
	n, err := checkExcerpt(msg+"\n", func(path string) (string, bool) {
		t, ok := c.Src[path]
		return t, ok
	})
	if err != nil {
		return fail("%v (rule %s): %s", err, c.Rule, o.brief())
	}
	if n > 0 {
		labels = append(labels, "excerpts checked")
	}
	if nloc > 0 {
		labels = append(labels, "located")
	} else {
		labels = append(labels, "without location")
	}
	return Result{NonTrivial: true, Labels: labels}
}

func init() {
	subs := []*Sub{}
	for _, r := range badRules {
		n := 500
		switch r.name {
		case "property set twice in a type chain":
			// Every property of every kind of functionality has its own code.
			n = 2500
		case "property value of wrong type", "forbidden property value", "value wider than width", "forbidden nesting":
			n = 1500
		}
		subs = append(subs, sub(strings.ReplaceAll(strings.ReplaceAll(r.name, ",", ""), " ", "-"), n, 12*n, genBad(r), runBad))
	}
	register("C12", "valid generated descriptions in which exactly one rule is broken at a known place (directly, through constants, or spread over a chain of types), the place confirmed by the reference elaborator; one sub-check for every rule; oracle: failure status, no output, no constants file, no crash, every location in the diagnostic names an offending line; non-trivial: every case whose place is used",
		subs...)
}
