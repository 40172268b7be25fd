package main

import (
	"fmt"
	"strings"
)

// Source program. All structures describe one description before it is rendered as text.

type Prop struct {
	Name string
	Val  *Expr
}

type ConstDef struct {
	Name string
	Val  *Expr
	Doc  string
	// Single constants are never written in a group.
	Single bool
}

type ParamDef struct {
	Name string
	Def  *Expr
	dflt Val // value of Def, informative
}

type Arg struct {
	Name string
	Val  *Expr
	Kind string // kind of the value, informative
}

type Item struct {
	Const *ConstDef
	Def   *Def
}

func (it Item) name() string {
	if it.Const != nil {
		return it.Const.Name
	}
	return it.Def.Name
}

// Def is a type definition or an instantiation.
type Def struct {
	IsType bool
	Name   string
	Doc    string
	Params []ParamDef
	Count  *Expr
	Type   string // name of a base type or (qualified) name of a type
	Args   []Arg
	Props  []Prop
	Items  []Item
}

type Import struct{ Alias, Path string }

type File struct {
	Path    string // path relative to the working directory
	Imports []Import
	Items   []Item
}

type Pkg struct {
	Name  string
	Dir   string // "" for main
	Files []*File
}

type Prog struct {
	Pkgs []*Pkg // Pkgs[0] is the main package
}

func (p *Prog) mainFile() *File { return p.Pkgs[0].Files[0] }

// ---------------------------------------------------------------------------
// Deep copy

func copyItems(items []Item) []Item {
	out := make([]Item, 0, len(items))
	for _, it := range items {
		if it.Const != nil {
			c := *it.Const
			out = append(out, Item{Const: &c})
		} else {
			out = append(out, Item{Def: it.Def.copy()})
		}
	}
	return out
}

func (d *Def) copy() *Def {
	n := *d
	n.Params = append([]ParamDef(nil), d.Params...)
	n.Args = append([]Arg(nil), d.Args...)
	n.Props = append([]Prop(nil), d.Props...)
	n.Items = copyItems(d.Items)
	return &n
}

func (p *Prog) copy() *Prog {
	n := &Prog{}
	for _, pk := range p.Pkgs {
		np := &Pkg{Name: pk.Name, Dir: pk.Dir}
		for _, f := range pk.Files {
			np.Files = append(np.Files, &File{Path: f.Path, Imports: append([]Import(nil), f.Imports...), Items: copyItems(f.Items)})
		}
		n.Pkgs = append(n.Pkgs, np)
	}
	return n
}

// walkDefs calls f for every definition, body is the list it belongs to.
func walkItems(items *[]Item, depth int, f func(items *[]Item, i, depth int)) {
	for i := 0; i < len(*items); i++ {
		f(items, i, depth)
		if d := (*items)[i].Def; d != nil {
			walkItems(&d.Items, depth+1, f)
		}
	}
}

// ---------------------------------------------------------------------------
// Renderer

// Style controls how a program is written.
type Style struct {
	Ch Chooser
	// Mark, if set, is called with the 1-based line on which given item (or property) starts.
	Mark func(key any, line int)
	CRLF bool
}

type renderer struct {
	st    Style
	lines []string
}

var canonStyle = Style{Ch: canonical}

func (r *renderer) emit(indent int, s string) int {
	line := strings.Repeat("  ", indent) + s
	if r.st.Ch(24) == 1 {
		line += [...]string{" # ", " #", "# ", "#", "  # "}[r.st.Ch(5)] + [...]string{"note", "x = 1; y", "const A = 3", "\"q", "a config"}[r.st.Ch(5)]
	}
	r.lines = append(r.lines, line)
	return len(r.lines)
}

func (r *renderer) blank(indent int) {
	switch r.st.Ch(14) {
	case 1:
		r.lines = append(r.lines, "")
	case 2:
		r.lines = append(r.lines, "", "")
	case 3:
		r.detached(indent)
	}
}

// detached adds comments, that are not documentation, as an empty line follows.
func (r *renderer) detached(indent int) {
	for n := 1 + r.st.Ch(2); n > 0; n-- {
		if r.st.Ch(2) == 1 {
			r.lines = append(r.lines, "")
		}
		r.comment(indent)
		r.lines = append(r.lines, "")
		if r.st.Ch(4) == 1 {
			r.lines = append(r.lines, "")
		}
	}
}

var comments = []string{"# A comment.", "#", "# x config", "#Comment", "#  const A = 1", "# type t block; \"", "##", "# width = 3; # x"}

// comment adds a few lines of a comment.
func (r *renderer) comment(indent int) {
	for n := 1 + r.st.Ch(3); n > 0; n-- {
		r.lines = append(r.lines, strings.Repeat("  ", indent)+comments[r.st.Ch(len(comments))])
	}
}

func (r *renderer) mark(key any, line int) {
	if r.st.Mark != nil {
		r.st.Mark(key, line)
	}
}

func (r *renderer) doc(indent int, doc string) {
	if doc == "" {
		return
	}
	for _, l := range strings.Split(doc, "\n") {
		if l == "" {
			r.lines = append(r.lines, strings.Repeat("  ", indent)+"#")
		} else {
			r.lines = append(r.lines, strings.Repeat("  ", indent)+"# "+l)
		}
	}
}

func (r *renderer) eq() string {
	switch r.st.Ch(6) {
	case 1:
		return "="
	case 2:
		return "  =  "
	}
	return " = "
}

func (r *renderer) items(items []Item, indent int) {
	for i := 0; i < len(items); i++ {
		it := items[i]
		r.blank(indent)
		if it.Const != nil {
			// Group consecutive constants.
			n := 1
			for i+n < len(items) && items[i+n].Const != nil && !items[i+n].Const.Single {
				n++
			}
			if !it.Const.Single && r.st.Ch(3) == 1 {
				k := 1 + r.st.Ch(n)
				r.emit(indent, "const")
				for j := 0; j < k; j++ {
					c := items[i+j].Const
					switch r.st.Ch(16) {
					case 1:
						r.lines = append(r.lines, "")
					case 2:
						r.detached(indent + 1)
					}
					r.doc(indent+1, c.Doc)
					l := r.emit(indent+1, c.Name+r.eq()+render(c.Val, r.st.Ch))
					r.mark(c, l)
				}
				i += k - 1
				continue
			}
			r.doc(indent, it.Const.Doc)
			l := r.emit(indent, "const "+it.Const.Name+r.eq()+render(it.Const.Val, r.st.Ch))
			r.mark(it.Const, l)
			continue
		}
		r.def(it.Def, indent)
	}
}

func (r *renderer) header(d *Def) string {
	b := strings.Builder{}
	if d.IsType {
		b.WriteString("type ")
	}
	b.WriteString(d.Name)
	if len(d.Params) > 0 {
		ps := []string{}
		for _, p := range d.Params {
			s := p.Name
			if p.Def != nil {
				s += r.eq() + render(p.Def, r.st.Ch)
			}
			ps = append(ps, s)
		}
		b.WriteString("(" + strings.Join(ps, r.comma()) + ")")
	}
	b.WriteString(" ")
	if r.st.Ch(10) == 1 {
		b.WriteString(" ")
	}
	if d.Count != nil {
		b.WriteString("[" + render(d.Count, r.st.Ch) + "]")
		if r.st.Ch(4) == 1 {
			b.WriteString(" ")
		}
	}
	b.WriteString(d.Type)
	if len(d.Args) > 0 {
		as := []string{}
		for _, a := range d.Args {
			s := ""
			if a.Name != "" {
				s = a.Name + r.eq()
			}
			as = append(as, s+render(a.Val, r.st.Ch))
		}
		b.WriteString("(" + strings.Join(as, r.comma()) + ")")
	}
	return b.String()
}

func (r *renderer) comma() string {
	switch r.st.Ch(5) {
	case 1:
		return ","
	case 2:
		return " , "
	}
	return ", "
}

func (r *renderer) semi() string {
	switch r.st.Ch(5) {
	case 1:
		return ";"
	case 2:
		return " ; "
	}
	return "; "
}

func (r *renderer) prop(p Prop) string {
	return p.Name + r.eq() + render(p.Val, r.st.Ch)
}

func (r *renderer) def(d *Def, indent int) {
	r.doc(indent, d.Doc)
	h := r.header(d)
	inline := len(d.Items) == 0 && len(d.Props) > 0 && r.st.Ch(2) == 1
	if inline {
		for _, p := range d.Props {
			h += r.semi() + r.prop(p)
		}
		l := r.emit(indent, h)
		r.mark(d, l)
		for i := range d.Props {
			r.mark(&d.Props[i], l)
		}
		return
	}
	l := r.emit(indent, h)
	r.mark(d, l)
	// Properties may be placed before, after or between items.
	pos := make([]int, len(d.Props))
	last := 0
	for i := range d.Props {
		if len(d.Items) > 0 && r.st.Ch(6) == 1 {
			last = last + r.st.Ch(len(d.Items)+1-last)
		}
		pos[i] = last
	}
	pi := 0
	emitProps := func(at int) {
		for pi < len(d.Props) && pos[pi] <= at {
			s := r.prop(d.Props[pi])
			first := pi
			pi++
			for pi < len(d.Props) && pos[pi] <= at && r.st.Ch(4) == 1 {
				s += r.semi() + r.prop(d.Props[pi])
				pi++
			}
			r.blank(indent + 1)
			if r.st.Ch(16) == 1 {
				r.comment(indent + 1)
			}
			l := r.emit(indent+1, s)
			for j := first; j < pi; j++ {
				r.mark(&d.Props[j], l)
			}
		}
	}
	emitProps(0)
	for i := 0; i < len(d.Items); {
		// Items up to the next property.
		j := len(d.Items)
		if pi < len(d.Props) && pos[pi] < j {
			j = pos[pi]
		}
		if j <= i {
			j = i + 1
		}
		r.items(d.Items[i:j], indent+1)
		i = j
		emitProps(i)
	}
	emitProps(len(d.Items) + 1)
	if len(d.Items)+len(d.Props) > 0 && r.st.Ch(24) == 1 {
		// A comment after everything.
		r.blank(indent + 1)
		r.comment(indent + 1)
	}
}

func renderFile(f *File, st Style) string {
	r := &renderer{st: st}
	if st.Ch(10) == 1 {
		r.detached(0)
	}
	if len(f.Imports) > 0 {
		imp := func(i Import) string {
			if i.Alias != "" {
				return i.Alias + " \"" + i.Path + "\""
			}
			return "\"" + i.Path + "\""
		}
		if len(f.Imports) > 1 && st.Ch(3) == 1 {
			r.emit(0, "import")
			for i := range f.Imports {
				if st.Ch(10) == 1 {
					r.lines = append(r.lines, "")
				}
				r.mark(&f.Imports[i], r.emit(1, imp(f.Imports[i])))
			}
		} else {
			for i := range f.Imports {
				r.blank(0)
				r.mark(&f.Imports[i], r.emit(0, "import "+imp(f.Imports[i])))
			}
		}
		r.blank(0)
	}
	r.items(f.Items, 0)
	if st.Ch(16) == 1 {
		r.blank(0)
		r.comment(0)
	}
	s := strings.Join(r.lines, "\n")
	if st.Ch(8) != 1 {
		s += "\n"
	}
	return s
}

func (p *Prog) render(st Style) Files {
	fs := Files{}
	for _, pk := range p.Pkgs {
		for _, f := range pk.Files {
			if _, ok := fs[f.Path]; ok {
				panic(fmt.Sprintf("two files with path %s", f.Path))
			}
			fs[f.Path] = renderFile(f, st)
		}
	}
	return fs
}
