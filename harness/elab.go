package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Reference elaborator: the meaning of a source program, written independently of the
// compiler, with lexical environments instead of mutable types.

var baseTypes = map[string]bool{
	"blackbox": true, "block": true, "bus": true, "config": true, "group": true, "irq": true, "mask": true,
	"param": true, "proc": true, "return": true, "static": true, "status": true, "stream": true,
}

var validInner = map[string]string{
	"block":  " blackbox block config group irq mask proc static status stream ",
	"bus":    " blackbox block config group irq mask proc static status stream ",
	"group":  " config irq mask param return static status ",
	"proc":   " param return ",
	"stream": " param return ",
}

var validProps = map[string]string{
	"blackbox": " size ",
	"block":    " align masters reset ",
	"bus":      " align masters reset width ",
	"config":   " atomic init-value range read-value reset-value width ",
	"group":    " virtual ",
	"irq":      " add-enable clear enable-init-value enable-reset-value in-trigger out-trigger ",
	"mask":     " atomic init-value read-value reset-value width ",
	"param":    " range width ",
	"proc":     " delay ",
	"return":   " width ",
	"static":   " init-value read-value reset-value width ",
	"status":   " atomic read-value width ",
	"stream":   " delay ",
}

type reject struct{ msg string }

func (r reject) Error() string { return r.msg }

func rej(f string, a ...any) error { return reject{fmt.Sprintf(f, a...)} }

type env struct {
	el     *elab
	parent *env
	def    *Def
	consts map[string]*ConstDef
	types  map[string]*Def
	params map[string]Val
	lazy   map[string]*Expr // parameters with default values, evaluated in this environment
	busy   map[string]bool
	file   *File
	pkg    *Pkg
}

type elab struct {
	anyArray bool // also arrays the compiler may refuse for now
	prog     *Prog
	fileEnv  map[*File]*env
	applied  map[*Def]bool
	busWidth int64
	steps    int
}

// newElabAny accepts arrays of all kinds.
func newElabAny(p *Prog, any bool) *elab {
	el := newElab(p)
	el.anyArray = any
	return el
}

func newElab(p *Prog) *elab {
	el := &elab{prog: p, fileEnv: map[*File]*env{}, applied: map[*Def]bool{}}
	for _, pk := range p.Pkgs {
		for _, f := range pk.Files {
			el.fileEnv[f] = el.newEnv(nil, nil, f.Items)
			el.fileEnv[f].file = f
			el.fileEnv[f].pkg = pk
		}
	}
	return el
}

func (el *elab) newEnv(parent *env, d *Def, items []Item) *env {
	e := &env{el: el, parent: parent, def: d, consts: map[string]*ConstDef{}, types: map[string]*Def{}, busy: map[string]bool{}}
	for _, it := range items {
		if it.Const != nil {
			e.consts[it.Const.Name] = it.Const
		} else if it.Def.IsType {
			e.types[it.Def.Name] = it.Def
		}
	}
	return e
}

func (e *env) eval(x *Expr) (Val, error) {
	e.el.steps++
	if e.el.steps > 200000 {
		panic("elaborator: too many steps")
	}
	return evalExpr(x, e.lookup)
}

func (e *env) evalConst(name string, x *Expr) (Val, error) {
	if e.busy[name] {
		return Val{}, rej("%s depends on itself", name)
	}
	e.busy[name] = true
	defer delete(e.busy, name)
	return e.eval(x)
}

// importedPkg returns the package imported under given name by the file.
func (e *env) importedPkg(name string) (*Pkg, error) {
	for _, im := range e.file.Imports {
		n := im.Alias
		if n == "" {
			n, _, _ = strings.Cut(im.Path, "/")
			n = strings.TrimPrefix(n, "fbd-")
		}
		if n != name {
			continue
		}
		var found *Pkg
		for _, pk := range e.el.prog.Pkgs[1:] {
			if strings.HasSuffix(pk.Dir, im.Path) {
				if found != nil {
					return nil, rej("ambiguous import %q", im.Path)
				}
				found = pk
			}
		}
		if found == nil {
			return nil, rej("no package for %q", im.Path)
		}
		return found, nil
	}
	return nil, rej("package %s is not imported", name)
}

func (e *env) lookup(name string) (Val, error) {
	pkgName, sym, qual := strings.Cut(name, ".")
	for s := e; s != nil; s = s.parent {
		if s.file != nil {
			pk := s.pkg
			if qual {
				var err error
				pk, err = s.importedPkg(pkgName)
				if err != nil {
					return Val{}, err
				}
			} else {
				sym = name
			}
			for _, f := range pk.Files {
				fe := s.el.fileEnv[f]
				if c, ok := fe.consts[sym]; ok {
					return fe.evalConst(sym, c.Val)
				}
			}
			return Val{}, rej("unknown constant %s", name)
		}
		if qual {
			continue
		}
		if c, ok := s.consts[name]; ok {
			return s.evalConst(name, c.Val)
		}
		if v, ok := s.params[name]; ok {
			return v, nil
		}
		if x, ok := s.lazy[name]; ok {
			return s.evalConst(name, x)
		}
	}
	panic("environment without file")
}

// lookupType finds type definition and the environment in which it is defined.
func (e *env) lookupType(name string) (*Def, *env, error) {
	pkgName, sym, qual := strings.Cut(name, ".")
	for s := e; s != nil; s = s.parent {
		if s.file != nil {
			pk := s.pkg
			if qual {
				var err error
				pk, err = s.importedPkg(pkgName)
				if err != nil {
					return nil, nil, err
				}
			} else {
				sym = name
			}
			for _, f := range pk.Files {
				fe := s.el.fileEnv[f]
				if d, ok := fe.types[sym]; ok {
					return d, fe, nil
				}
			}
			return nil, nil, rej("unknown type %s", name)
		}
		if qual {
			continue
		}
		if d, ok := s.types[name]; ok {
			return d, s, nil
		}
	}
	panic("environment without file")
}

type layer struct {
	d   *Def
	env *env
}

// resolve resolves the type chain of d defined in environment defEnv.
func (el *elab) resolve(d *Def, defEnv *env, own *env, stack []*Def) ([]layer, error) {
	for _, s := range stack {
		if s == d {
			return nil, rej("type %s derived from itself", d.Name)
		}
	}
	if own == nil {
		own = el.newEnv(defEnv, d, d.Items)
	}
	if baseTypes[d.Type] {
		if len(d.Args) > 0 {
			return nil, rej("base type with arguments")
		}
		return []layer{{d, own}}, nil
	}
	t, tEnv, err := defEnv.lookupType(d.Type)
	if err != nil {
		return nil, err
	}
	tOwn := el.newEnv(tEnv, t, t.Items)
	tOwn.params = map[string]Val{}
	tOwn.lazy = map[string]*Expr{}
	if len(d.Args) > len(t.Params) {
		return nil, rej("too many arguments")
	}
	for i, p := range t.Params {
		if i > 0 && p.Def == nil && t.Params[i-1].Def != nil {
			return nil, rej("parameter %s without default value after one with default value", p.Name)
		}
	}
	given := map[string]bool{}
	for i, a := range d.Args {
		name := a.Name
		if name == "" {
			name = t.Params[i].Name
		}
		ok := false
		for _, p := range t.Params {
			ok = ok || p.Name == name
		}
		if !ok {
			return nil, rej("unknown argument %s", name)
		}
		if given[name] {
			return nil, rej("argument %s given twice", name)
		}
		given[name] = true
		v, err := own.eval(a.Val)
		if err != nil {
			return nil, err
		}
		tOwn.params[name] = v
	}
	for _, p := range t.Params {
		if given[p.Name] {
			continue
		}
		if p.Def == nil {
			return nil, rej("missing argument %s", p.Name)
		}
		tOwn.lazy[p.Name] = p.Def
	}
	for name := range tOwn.lazy {
		if _, err := tOwn.lookup(name); err != nil {
			return nil, err
		}
	}
	ls, err := el.resolve(t, tEnv, tOwn, append(stack, d))
	if err != nil {
		return nil, err
	}
	return append(ls, layer{d, own}), nil
}

func bitsOfInt(v int64, width int64) (string, error) {
	b := big.NewInt(v)
	w := uint(width)
	if v >= 0 {
		if int64(b.BitLen()) > width {
			return "", rej("value %d does not fit %d bits", v, width)
		}
	} else {
		lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), w-1))
		if width < 1 || b.Cmp(lo) < 0 {
			return "", rej("value %d does not fit %d bits", v, width)
		}
		b.Add(b, new(big.Int).Lsh(big.NewInt(1), w))
	}
	s := b.Text(2)
	if v == 0 {
		s = ""
	}
	return strings.Repeat("0", int(width)-len(s)) + s, nil
}

func bitsOf(v Val, width int64) (string, error) {
	switch v.K {
	case "int":
		return bitsOfInt(v.I, width)
	case "bits":
		d, err := binDigits(v.S)
		if err != nil {
			return "", err
		}
		if int64(len(d)) > width {
			return "", rej("bit string wider than width")
		}
		return strings.Repeat("0", int(width)-len(d)) + d, nil
	}
	return "", rej("value of type %s", v.K)
}

func addConst(c *Consts, name string, v Val) {
	switch v.K {
	case "bool":
		if c.Bools == nil {
			c.Bools = map[string]bool{}
		}
		c.Bools[name] = v.B
	case "float":
		if c.Floats == nil {
			c.Floats = map[string]float64{}
		}
		c.Floats[name] = v.F
	case "int":
		if c.Ints == nil {
			c.Ints = map[string]int64{}
		}
		c.Ints[name] = v.I
	case "str":
		if c.Strings == nil {
			c.Strings = map[string]string{}
		}
		c.Strings[name] = v.S
	case "list":
		if len(v.L) == 0 {
			return
		}
		k := v.L[0].K
		for _, e := range v.L {
			if e.K != k {
				return
			}
		}
		switch k {
		case "bool":
			l := []bool{}
			for _, e := range v.L {
				l = append(l, e.B)
			}
			if c.BoolLists == nil {
				c.BoolLists = map[string][]bool{}
			}
			c.BoolLists[name] = l
		case "int":
			l := []int64{}
			for _, e := range v.L {
				l = append(l, e.I)
			}
			if c.IntLists == nil {
				c.IntLists = map[string][]int64{}
			}
			c.IntLists[name] = l
		}
	}
}

// ownWidth returns the width of the bus described by given layers.
func (el *elab) ownWidth(ls []layer) (int64, error) {
	w := int64(32)
	for _, l := range ls {
		for _, p := range l.d.Props {
			if p.Name == "width" {
				v, err := l.env.eval(p.Val)
				if err != nil {
					return 0, err
				}
				if v.K != "int" || v.I < 1 {
					return 0, rej("invalid bus width")
				}
				w = v.I
			}
		}
	}
	return w, nil
}

// Run elaborates the main bus of given name.
func (el *elab) Run(mainName string) (*M, map[string]*Consts, error) {
	mf := el.prog.mainFile()
	var main *Def
	for _, it := range mf.Items {
		if it.Def != nil && !it.Def.IsType && it.Def.Name == mainName {
			main = it.Def
		}
	}
	if main == nil {
		return nil, nil, rej("no bus %s", mainName)
	}
	fe := el.fileEnv[mf]
	ls, err := el.resolve(main, fe, nil, nil)
	if err != nil {
		return nil, nil, err
	}
	if ls[0].d.Type != "bus" {
		return nil, nil, rej("main is not a bus")
	}
	mainWidth, err := el.ownWidth(ls)
	if err != nil {
		return nil, nil, err
	}
	var bus *M
	for _, it := range mf.Items {
		if it.Def == nil || it.Def.IsType {
			continue
		}
		if it.Def != main && baseTypes[it.Def.Type] {
			if it.Def.Type != "bus" {
				return nil, nil, rej("%s at package level", it.Def.Type)
			}
			continue
		}
		el.busWidth = mainWidth
		if it.Def != main {
			ls, err := el.resolve(it.Def, fe, nil, nil)
			if err != nil {
				return nil, nil, err
			}
			if ls[0].d.Type == "bus" {
				if el.busWidth, err = el.ownWidth(ls); err != nil {
					return nil, nil, err
				}
			}
		}
		m, err := el.inst(it.Def, fe, "")
		el.busWidth = mainWidth
		if err != nil {
			return nil, nil, err
		}
		if it.Def == main {
			bus = m
		}
	}
	for _, k := range bus.Kids {
		if k.Name == "ID" {
			return nil, nil, rej("reserved name ID")
		}
	}
	pkgs := map[string]*Consts{}
	for i, pk := range el.prog.Pkgs {
		c := &Consts{}
		for _, f := range pk.Files {
			e := el.fileEnv[f]
			for _, it := range f.Items {
				if it.Const == nil {
					continue
				}
				v, err := e.evalConst(it.Const.Name, it.Const.Val)
				if err != nil {
					return nil, nil, err
				}
				addConst(c, it.Const.Name, v)
			}
		}
		name := pk.Name
		for j, o := range el.prog.Pkgs[1:] {
			if i > 0 && j+1 != i && o.Name == pk.Name {
				name = "./" + pk.Dir
			}
		}
		if i == 0 {
			name = "main"
		}
		pkgs[name] = c
	}
	return bus, pkgs, nil
}

func (el *elab) inst(d *Def, defEnv *env, outer string) (*M, error) {
	ls, err := el.resolve(d, defEnv, nil, nil)
	if err != nil {
		return nil, err
	}
	kind := ls[0].d.Type
	if outer == "" && kind != "bus" {
		return nil, rej("%s at package level", kind)
	}
	if outer != "" && !strings.Contains(validInner[outer], " "+kind+" ") {
		return nil, rej("%s in %s", kind, outer)
	}
	for _, l := range ls {
		if el.applied[l.d] {
			return nil, rej("recursive instantiation of %s", l.d.Name)
		}
	}
	m := &M{Kind: kind, Name: d.Name, Doc: d.Doc, Count: 1}
	for _, l := range ls {
		if l.d.Count == nil {
			continue
		}
		if m.IsArray {
			return nil, rej("array size set twice")
		}
		m.IsArray = true
		v, err := l.env.eval(l.d.Count)
		if err != nil {
			return nil, err
		}
		if v.K != "int" || v.I < 0 {
			return nil, rej("invalid array size")
		}
		if v.I == 0 {
			return nil, rej("unsupported: empty array")
		}
		m.Count = v.I
	}
	props := map[string]Val{}
	consts := map[string]bool{}
	var cc Consts
	kidNames := map[string]bool{}
	for _, l := range ls {
		for _, p := range l.d.Props {
			if !strings.Contains(validProps[kind], " "+p.Name+" ") {
				return nil, rej("property %s of %s", p.Name, kind)
			}
			if _, ok := props[p.Name]; ok {
				return nil, rej("property %s set twice", p.Name)
			}
			v, err := l.env.eval(p.Val)
			if err != nil {
				return nil, err
			}
			props[p.Name] = v
			_, w := props["width"]
			_, r := props["range"]
			if w && r {
				return nil, rej("width and range")
			}
		}
		el.applied[l.d] = true
		for _, it := range l.d.Items {
			if it.Const != nil {
				if kind != "block" && kind != "bus" && kind != "group" {
					continue
				}
				if consts[it.Const.Name] {
					return nil, rej("constant %s defined twice", it.Const.Name)
				}
				consts[it.Const.Name] = true
				v, err := l.env.evalConst(it.Const.Name, it.Const.Val)
				if err != nil {
					return nil, err
				}
				addConst(&cc, it.Const.Name, v)
				continue
			}
			if it.Def.IsType {
				continue
			}
			k, err := el.inst(it.Def, l.env, kind)
			if err != nil {
				return nil, err
			}
			if kidNames[k.Name] {
				return nil, rej("name %s used twice", k.Name)
			}
			kidNames[k.Name] = true
			m.Kids = append(m.Kids, k)
		}
		delete(el.applied, l.d)
	}
	m.Consts = constsPtr(cc)
	m.Raw = props
	if err := el.applyProps(m, props, outer); err != nil {
		return nil, err
	}
	return m, nil
}

func (el *elab) applyProps(m *M, props map[string]Val, outer string) error {
	intProp := func(name string, min int64, dflt int64) (int64, error) {
		v, ok := props[name]
		if !ok {
			return dflt, nil
		}
		if v.K != "int" || v.I < min {
			return 0, rej("%s = %s", name, v)
		}
		return v.I, nil
	}
	boolProp := func(name string, dflt bool) (bool, error) {
		v, ok := props[name]
		if !ok {
			return dflt, nil
		}
		if v.K != "bool" {
			return false, rej("%s = %s", name, v)
		}
		return v.B, nil
	}
	strProp := func(name string, dflt string, allowed ...string) (string, error) {
		v, ok := props[name]
		if !ok {
			return dflt, nil
		}
		if v.K == "str" {
			for _, a := range allowed {
				if a == v.S {
					return a, nil
				}
			}
		}
		return "", rej("%s = %s", name, v)
	}
	valProp := func(name string, width int64) (string, error) {
		v, ok := props[name]
		if !ok {
			return "", nil
		}
		return bitsOf(v, width)
	}
	var err error
	get := func(e error) {
		if err == nil && e != nil {
			err = e
		}
	}
	var e error
	width := func() {
		m.Width, e = intProp("width", 1, el.busWidth)
		get(e)
		if v, ok := props["range"]; ok {
			r := RangeV{}
			max := int64(0)
			add := func(v Val) (SRange, bool) {
				if v.K != "range" || v.R[0] < 0 || v.R[1] < 0 || v.R[0] > v.R[1] {
					get(rej("range = %s", v))
					return SRange{}, false
				}
				if v.R[1] > max {
					max = v.R[1]
				}
				return SRange{v.R[0], v.R[1]}, true
			}
			switch v.K {
			case "int":
				if v.I < 0 {
					get(rej("negative range"))
				}
				r.Single = &SRange{0, v.I}
				max = v.I
			case "range":
				s, _ := add(v)
				r.Single = &s
			case "list":
				if len(v.L) == 0 {
					get(rej("empty range"))
				}
				r.List = []SRange{}
				for _, x := range v.L {
					s, _ := add(x)
					r.List = append(r.List, s)
				}
			default:
				get(rej("range = %s", v))
			}
			m.Range = &r
			// A value which can only be zero takes one bit.
			m.Width = int64(bits.Len64(uint64(max) | 1))
		}
	}
	values := func() {
		if err != nil {
			return
		}
		if m.Width > 1<<20 {
			for _, p := range []string{"init-value", "read-value", "reset-value"} {
				if _, ok := props[p]; ok {
					get(rej("unsupported: value of %d bits", m.Width))
					return
				}
			}
		}
		m.Init, e = valProp("init-value", m.Width)
		get(e)
		m.Read, e = valProp("read-value", m.Width)
		get(e)
		m.Reset, e = valProp("reset-value", m.Width)
		get(e)
	}
	switch m.Kind {
	case "bus", "block":
		m.Align, e = intProp("align", 1, 0)
		get(e)
		if m.Align&(m.Align-1) != 0 {
			get(rej("align %d", m.Align))
		}
		m.Masters, e = intProp("masters", 1, 1)
		get(e)
		m.Rst, e = strProp("reset", "", "Sync", "Async")
		get(e)
		m.Width, e = intProp("width", 1, 32)
		get(e)
	case "config", "mask":
		width()
		m.Atomic, e = boolProp("atomic", true)
		get(e)
		values()
		if m.Kind == "mask" && m.IsArray && outer != "group" && !el.anyArray {
			get(rej("unsupported: mask array"))
		}
		if m.Kind == "config" && m.IsArray && !m.Atomic && outer != "group" && !el.anyArray {
			get(rej("unsupported: non-atomic config array"))
		}
	case "static":
		width()
		values()
		if _, ok := props["init-value"]; !ok {
			get(rej("static without init-value"))
		}
	case "status":
		width()
		m.Atomic, e = boolProp("atomic", true)
		get(e)
		values()
	case "param", "return":
		width()
	case "irq":
		m.AddEnable, e = boolProp("add-enable", false)
		get(e)
		m.Clear, e = strProp("clear", "Explicit", "Explicit", "On Read")
		get(e)
		m.InTrigger, e = strProp("in-trigger", "Level", "Edge", "Level")
		get(e)
		m.OutTrigger, e = strProp("out-trigger", "Level", "Edge", "Level")
		get(e)
		m.Init, e = valProp("enable-init-value", 1)
		get(e)
		m.Reset, e = valProp("enable-reset-value", 1)
		get(e)
		_, a := props["enable-init-value"]
		_, b := props["enable-reset-value"]
		if (a || b) && !m.AddEnable {
			get(rej("enable value without enable"))
		}
		if m.IsArray && outer != "group" && !el.anyArray {
			get(rej("unsupported: irq array"))
		}
	case "proc", "stream":
		if v, ok := props["delay"]; ok {
			if v.K != "time" {
				get(rej("delay = %s", v))
			} else {
				m.Delay = &TimeV{v.T.S, v.T.Ns}
			}
		}
		if m.Kind == "stream" {
			for _, k := range m.Kids {
				if k.Kind != m.Kids[0].Kind {
					get(rej("mixed stream"))
				}
			}
		}
	case "blackbox":
		m.Size, e = intProp("size", 1, 0)
		get(e)
		if m.Size == 0 {
			get(rej("blackbox without size"))
		}
	case "group":
		m.Virtual, e = boolProp("virtual", false)
		get(e)
		if len(m.Kids) == 0 {
			get(rej("empty group"))
		} else {
			first := m.Kids[0]
			cls := func(k *M) string {
				switch k.Kind {
				case "irq", "param", "return":
					return k.Kind
				}
				return "data"
			}
			for _, k := range m.Kids {
				if cls(k) != cls(first) {
					get(rej("mixed group"))
				}
				if k.Kind == "irq" && first.Kind == "irq" && k.OutTrigger != first.OutTrigger {
					get(rej("irq group triggers"))
				}
			}
			if m.Virtual && cls(first) != "data" {
				get(rej("virtual group"))
			}
		}
	}
	return err
}
