package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// Programs with few names defined again and again in nested bodies, files and packages.

var constPool = []string{"A", "A_b", "C"}
var typePool = []string{"T", "T_t", "V"}

type nscope struct {
	parent *nscope
	consts map[string]int // name to sequence number
	types  map[string]*ntype
	params map[string]int
	pkg    *npkg
	file   *nfile // for file scopes only
}

type ntype struct {
	seq    int
	def    *Def
	kind   string
	params []string
}

type npkg struct {
	pkg    *Pkg
	consts map[string]int
	types  map[string]*ntype
	files  []*nscope
}

type nfile struct {
	file    *File
	imports map[string]*npkg
}

type ngen struct {
	t    *rapid.T
	seq  int
	n    int
	pkgs []*npkg
	wild int
	todo []func()
	defs int
}

func (g *ngen) k(n int) int {
	if n < 2 {
		return 0
	}
	return intRange(0, n-1).Draw(g.t, "k")
}
func (g *ngen) pct(p int) bool { return p > 0 && chance(g.t, p, "pct") }
func (g *ngen) next() int      { g.seq++; return g.seq }
func (g *ngen) fresh() string  { g.n++; return fmt.Sprintf("x%d", g.n) }

func (s *nscope) root() *nscope {
	for s.parent != nil {
		s = s.parent
	}
	return s
}

// constRefs lists references resolvable in the scope, with sequence number of the definition they denote.
func (s *nscope) constRefs() map[string]int {
	m := map[string]int{}
	for x := s; x != nil; x = x.parent {
		if x.file != nil {
			for n, q := range x.pkg.consts {
				if _, ok := m[n]; !ok {
					m[n] = q
				}
			}
			for al, p := range x.file.imports {
				for n, q := range p.consts {
					m[al+"."+n] = q
				}
			}
			break
		}
		for n, q := range x.consts {
			if _, ok := m[n]; !ok {
				m[n] = q
			}
		}
		for n, q := range x.params {
			if _, ok := m[n]; !ok {
				m[n] = q
			}
		}
	}
	return m
}

func (s *nscope) typeRefs() map[string]*ntype {
	m := map[string]*ntype{}
	for x := s; x != nil; x = x.parent {
		if x.file != nil {
			for n, q := range x.pkg.types {
				if _, ok := m[n]; !ok {
					m[n] = q
				}
			}
			for al, p := range x.file.imports {
				for n, q := range p.types {
					m[al+"."+n] = q
				}
			}
			break
		}
		for n, q := range x.types {
			if _, ok := m[n]; !ok {
				m[n] = q
			}
		}
	}
	return m
}

// expr writes an expression in scope s. Only definitions older than seq are used.
func (g *ngen) expr(s *nscope, seq int) *Expr {
	lit := func() *Expr { return eInt(int64(1 + g.k(25))) }
	if g.pct(g.wild) {
		n := constPool[g.k(3)]
		if g.pct(30) {
			n = []string{"p", "q"}[g.k(2)] + "." + n
		}
		return eRef(n)
	}
	if g.pct(15) {
		return lit()
	}
	refs := s.constRefs()
	ok := []string{}
	for _, n := range sortedKeys(refs) {
		if refs[n] < seq {
			ok = append(ok, n)
		}
	}
	if len(ok) == 0 {
		return lit()
	}
	r := eRef(ok[g.k(len(ok))])
	switch g.k(5) {
	case 0:
		return eBin("+", r, lit())
	case 1:
		return eBin("+", r, eRef(ok[g.k(len(ok))]))
	}
	return r
}

const never = 1 << 30

// pickType picks a type definition for a user with given sequence number.
func (g *ngen) pickType(s *nscope, seq int, kinds string) (string, *ntype) {
	refs := s.typeRefs()
	ok := []string{}
	for _, n := range sortedKeys(refs) {
		if refs[n].seq < seq && strings.Contains(kinds, refs[n].kind) || g.wild > 0 && g.pct(5) {
			ok = append(ok, n)
		}
	}
	if len(ok) == 0 {
		return "", nil
	}
	n := ok[g.k(len(ok))]
	return n, refs[n]
}

// header fills arguments of an instantiation or type derived from nt. Written in scope hs.
func (g *ngen) args(d *Def, nt *ntype, hs *nscope, seq int) {
	for _, p := range nt.params {
		if g.pct(g.wild) {
			continue
		}
		a := Arg{Val: g.expr(hs, seq)}
		if len(d.Args) > 0 && d.Args[len(d.Args)-1].Name != "" || g.pct(40) {
			a.Name = p
		}
		d.Args = append(d.Args, a)
	}
}

// newType makes a skeleton of a type.
func (g *ngen) newType(name string) *ntype {
	nt := &ntype{def: &Def{IsType: true, Name: name}}
	nt.kind = []string{"config", "block", "block", "status"}[g.k(4)]
	for i := g.k(3); i > 0; i-- {
		pn := append(append([]string(nil), constPool...), "N")[g.k(4)]
		dup := false
		for _, p := range nt.params {
			dup = dup || p == pn
		}
		if !dup {
			nt.params = append(nt.params, pn)
			nt.def.Params = append(nt.def.Params, ParamDef{Name: pn})
		}
	}
	nt.seq = g.next()
	g.defs++
	return nt
}

// fillType writes the body of a type defined in scope s.
func (g *ngen) fillType(nt *ntype, s *nscope, depth int) {
	own := &nscope{parent: s, consts: map[string]int{}, types: map[string]*ntype{}, params: map[string]int{}}
	for _, p := range nt.params {
		own.params[p] = nt.seq
	}
	d := nt.def
	d.Type = nt.kind
	if g.pct(30) {
		hs := &nscope{parent: s, params: own.params}
		if n, anc := g.pickType(s, nt.seq, nt.kind); anc != nil && anc.kind == nt.kind {
			d.Type = n
			g.args(d, anc, hs, nt.seq+1)
			if nt.kind != "block" {
				return
			}
			g.body(d, own, depth, nt.params)
			return
		}
	}
	if nt.kind == "block" {
		g.body(d, own, depth, nt.params)
		return
	}
	g.leaf(d, own, nt.params)
}

func (g *ngen) leaf(d *Def, own *nscope, not []string) {
	if g.pct(25) {
		g.localConsts(d, own, 1, not)
	}
	d.Props = append(d.Props, Prop{"width", g.expr(own, never)})
}

func (g *ngen) localConsts(d *Def, own *nscope, max int, not []string) {
	type pend struct {
		c   *ConstDef
		seq int
	}
	ps := []pend{}
	for i := g.k(max + 1); i > 0; i-- {
		n := constPool[g.k(3)]
		skip := own.consts[n] != 0
		for _, x := range not {
			skip = skip || x == n
		}
		if skip {
			continue
		}
		c := &ConstDef{Name: n}
		own.consts[n] = g.next()
		ps = append(ps, pend{c, own.consts[n]})
		d.Items = append(d.Items, Item{Const: c})
		g.defs++
	}
	for _, p := range ps {
		p.c.Val = g.expr(own, p.seq)
	}
}

// body writes the body of a block.
func (g *ngen) body(d *Def, own *nscope, depth int, not []string) {
	g.localConsts(d, own, 2, not)
	nts := []*ntype{}
	if depth > 0 {
		for i := g.k(3); i > 0; i-- {
			n := typePool[g.k(3)]
			if own.types[n] != nil {
				continue
			}
			nt := g.newType(n)
			own.types[n] = nt
			nts = append(nts, nt)
			d.Items = append(d.Items, Item{Def: nt.def})
		}
		for _, nt := range nts {
			g.fillType(nt, own, depth-1)
		}
	}
	for i := 1 + g.k(3); i > 0; i-- {
		x := &Def{Name: g.fresh()}
		xo := &nscope{parent: own, consts: map[string]int{}, types: map[string]*ntype{}}
		switch {
		case g.pct(55):
			if n, nt := g.pickType(own, g.seq+1, "config block status"); nt != nil && (depth > 0 || nt.kind != "block") {
				x.Type = n
				g.args(x, nt, own, never)
				if g.pct(25) && nt.kind != "status" {
					x.Count = g.expr(own, never)
				}
				break
			}
			fallthrough
		case depth > 0 && g.pct(40):
			if depth > 0 {
				x.Type = "block"
				g.body(x, xo, depth-1, nil)
				break
			}
			fallthrough
		default:
			x.Type = []string{"config", "status"}[g.k(2)]
			g.leaf(x, xo, nil)
			if g.pct(20) && x.Type == "config" {
				x.Count = g.expr(own, never)
			}
		}
		if g.pct(30) {
			d.Items = append([]Item{{Def: x}}, d.Items...)
		} else {
			d.Items = append(d.Items, Item{Def: x})
		}
	}
}

var pkgNames = []string{"alpha", "beta", "gamma", "delta"}

// importName are names that an import path gives to a package.
var importName = regexp.MustCompile(`^[a-z]\w*$`)

var pkgPlaces = []string{"work/", "work/", "work/lib/", "work/a/b/c/", "ext1/", "ext2/deep/er/", "work/.hidden/", "work/src/fbd-pkgs/"}

// ScopeCase is a program whose names need resolution.
type ScopeCase struct {
	Src    Files    `json:"src"`
	Links  []string `json:"links,omitempty"` // "from>to" symbolic links
	Path   []string `json:"path,omitempty"`  // FBDPATH, relative to the root
	Want   *M       `json:"want,omitempty"`
	Reject string   `json:"reject,omitempty"`
	Latent bool     `json:"latent,omitempty"` // definitions which are not used may be invalid
	Labels []string `json:"labels,omitempty"`
	NT     bool     `json:"nt,omitempty"`
}

func (c *ScopeCase) Describe() string {
	return c.Src.String() + fmt.Sprintf("FBDPATH %v links %v\n", c.Path, c.Links)
}

func genScopeProg(t *rapid.T, wild int, samePkgImports bool) (*Prog, *ngen, []string) {
	g := &ngen{t: t, wild: wild}
	p := &Prog{}
	labels := []string{}
	np := g.k(4)
	for i := 0; i <= np; i++ {
		np := &npkg{pkg: &Pkg{Name: "main"}, consts: map[string]int{}, types: map[string]*ntype{}}
		nf := 1
		if i > 0 {
			nf = 1 + g.k(3)
			name := pkgNames[i-1]
			if i > 1 && g.pct(8) {
				name = pkgNames[0]
				labels = append(labels, "same package name twice")
			}
			np.pkg.Name = name
			np.pkg.Dir = pkgPlaces[g.k(len(pkgPlaces))] + "fbd-" + name
			if i > 1 && g.pct(30) {
				// A package below the directory of other package.
				np.pkg.Dir = g.pkgs[1+g.k(i-1)].pkg.Dir + []string{"/", "/lib/", "/zsub/deep/", "/.hid/", "/fbd-none/"}[g.k(5)] + "fbd-" + name
				labels = append(labels, "package in package")
			}
			for _, o := range g.pkgs {
				if o.pkg.Dir == np.pkg.Dir {
					np.pkg.Dir = "work/other" + fmt.Sprint(i) + "/fbd-" + name
				}
			}
		}
		for j := 0; j < nf; j++ {
			f := &File{Path: "work/bus.fbd"}
			if i > 0 {
				f.Path = np.pkg.Dir + "/" + []string{"a", "zz", "f-1"}[j] + ".fbd"
			}
			np.pkg.Files = append(np.pkg.Files, f)
			np.files = append(np.files, &nscope{pkg: np, file: &nfile{file: f, imports: map[string]*npkg{}}})
		}
		g.pkgs = append(g.pkgs, np)
		p.Pkgs = append(p.Pkgs, np.pkg)
	}
	// Imports.
	for pi, pk := range g.pkgs {
		var shared []Import
		var sharedMap map[string]*npkg
		for fi, fs := range pk.files {
			if samePkgImports && fi > 0 {
				fs.file.file.Imports = append([]Import(nil), shared...)
				fs.file.imports = sharedMap
				continue
			}
			for _, o := range rapid.Permutation(g.pkgs[1:]).Draw(t, "order") {
				if o == pk || !g.pct(60) {
					continue
				}
				_ = pi
				im := Import{Path: o.pkg.Dir[strings.Index(o.pkg.Dir, "/")+1:]}
				switch g.k(3) {
				case 0:
					im.Path = "fbd-" + o.pkg.Name
				case 1:
					im.Path = o.pkg.Name
				}
				name := strings.TrimPrefix(strings.Split(im.Path, "/")[0], "fbd-")
				if !importName.MatchString(name) || g.pct(60) {
					im.Alias = []string{"p", "q"}[g.k(2)]
					name = im.Alias
				}
				if g.pct(3) && g.wild > 0 {
					im.Path = "nowhere/" + im.Path
				}
				if _, ok := fs.file.imports[name]; ok {
					continue
				}
				fs.file.imports[name] = o
				fs.file.file.Imports = append(fs.file.file.Imports, im)
			}
			shared, sharedMap = fs.file.file.Imports, fs.file.imports
		}
	}
	// Package level definitions.
	type pc struct {
		c   *ConstDef
		seq int
		s   *nscope
	}
	type pt struct {
		nt *ntype
		s  *nscope
	}
	var pcs []pc
	var pts []pt
	for _, pk := range g.pkgs {
		for _, n := range rapid.Permutation(constPool).Draw(t, "corder") {
			if g.pct(65) {
				s := pk.files[g.k(len(pk.files))]
				c := &ConstDef{Name: n}
				pk.consts[n] = g.next()
				pcs = append(pcs, pc{c, pk.consts[n], s})
				s.file.file.Items = append(s.file.file.Items, Item{Const: c})
				g.defs++
			}
		}
	}
	for _, pk := range g.pkgs {
		for _, n := range rapid.Permutation(typePool).Draw(t, "torder") {
			if g.pct(45) {
				s := pk.files[g.k(len(pk.files))]
				nt := g.newType(n)
				pk.types[n] = nt
				pts = append(pts, pt{nt, s})
				s.file.file.Items = append(s.file.file.Items, Item{Def: nt.def})
			}
		}
	}
	for _, x := range pcs {
		x.c.Val = g.expr(x.s, x.seq)
	}
	for _, x := range pts {
		g.fillType(x.nt, x.s, 1)
	}
	main := &Def{Name: "main", Type: "bus"}
	ms := g.pkgs[0].files[0]
	g.body(main, &nscope{parent: ms, consts: map[string]int{}, types: map[string]*ntype{}}, 2, nil)
	mf := p.mainFile()
	pos := g.k(len(mf.Items) + 1)
	mf.Items = append(mf.Items[:pos:pos], append([]Item{{Def: main}}, mf.Items[pos:]...)...)
	return p, g, labels
}

func elabSafe(p *Prog) (m *M, c map[string]*Consts, err error, tooBig bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.Contains(s, "too many steps") {
				tooBig = true
				return
			}
			panic(r)
		}
	}()
	m, c, err = newElab(p).Run("main")
	return
}

func mSize(m *M) int64 {
	n := int64(1)
	for _, k := range m.Kids {
		n += mSize(k)
	}
	return n
}

func genScope(wild int) func(t *rapid.T) ScopeCase {
	return func(t *rapid.T) ScopeCase {
		p, g, labels := genScopeProg(t, wild, false)
		c := ScopeCase{Src: p.render(canonStyle), Labels: labels}
		m, _, err, big := elabSafe(p)
		if big || m != nil && mSize(m) > 3000 {
			return ScopeCase{Reject: "discard"}
		}
		if err == nil && sizesTooBig(m) {
			return ScopeCase{Reject: "discard"}
		}
		// All imports of all files are resolved, even if nothing is used.
		for f, e := range newElab(p).fileEnv {
			for _, im := range f.Imports {
				n := im.Alias
				if n == "" {
					n = strings.TrimPrefix(strings.Split(im.Path, "/")[0], "fbd-")
				}
				if _, e2 := e.importedPkg(n); e2 != nil {
					err = e2
				}
			}
		}
		if err != nil {
			c.Reject = err.Error()
		} else {
			c.Want = m
		}
		for _, pk := range p.Pkgs[1:] {
			d, _, _ := strings.Cut(pk.Dir, "/")
			if d != "work" {
				dup := false
				for _, x := range c.Path {
					dup = dup || x == d
				}
				if !dup {
					c.Path = append(c.Path, d)
				}
			}
		}
		// Some directories are found through a symbolic link instead.
		path := []string{}
		for _, d := range c.Path {
			if !g.pct(25) {
				path = append(path, d)
				continue
			}
			from := []string{"work/ln-" + d, "work/links/ln-" + d, "work/links/deep/er/ln-" + d}[g.k(3)]
			c.Src[filepath.Join(filepath.Dir(from), "readme.txt")] = ""
			to := strings.Repeat("../", strings.Count(from, "/")) + d
			if g.pct(30) {
				to = "/" + d // taken from the root of the case
			}
			c.Links = append(c.Links, from+">"+to)
			c.Labels = append(c.Labels, "packages behind a link")
		}
		c.Path = path
		if len(c.Path) > 0 {
			c.Labels = append(c.Labels, "FBDPATH")
		}
		// Things which must not have any influence.
		if g.pct(15) {
			c.Path = append(c.Path, "missing")
		}
		if g.pct(15) {
			c.Path = append(c.Path, "work")
		}
		if g.pct(15) {
			c.Src["work/notes/readme.fbd"] = "this is not in a package directory"
			c.Src["work/fbd-empty/readme.txt"] = "const A ="
		}
		if g.pct(15) {
			c.Links = append(c.Links, "work/loop>.", "work/broken>nowhere")
		}
		if len(p.Pkgs) > 1 {
			c.Labels = append(c.Labels, "packages")
			if g.pct(20) {
				c.Links = append(c.Links, "work/zlink>"+filepath.Join("..", filepath.Dir(p.Pkgs[1].Dir)))
				c.Labels = append(c.Labels, "symbolic links")
			}
		}
		c.NT = g.defs >= 4
		c.Latent = wild > 0
		return c
	}
}

// sizesTooBig tells whether the description is beyond sensible sizes.
func sizesTooBig(m *M) bool {
	if m.Count > 2000 || m.Width > 4000 {
		return true
	}
	for _, k := range m.Kids {
		if sizesTooBig(k) {
			return true
		}
	}
	return false
}

func runScope(env *Env, c *ScopeCase) Result {
	if c.Reject == "discard" {
		return Result{Skip: true}
	}
	root := env.Dir(c.Src)
	defer os.RemoveAll(root)
	for _, l := range c.Links {
		from, to, _ := strings.Cut(l, ">")
		if strings.HasPrefix(to, "/") {
			to = root + to
		}
		must(os.Symlink(to, filepath.Join(root, from)))
	}
	ev := []string{}
	if len(c.Path) > 0 {
		ps := []string{}
		for i, p := range c.Path {
			if i%2 == 0 {
				ps = append(ps, filepath.Join(root, p))
			} else {
				ps = append(ps, filepath.Join("..", p))
			}
		}
		ev = append(ev, "FBDPATH="+strings.Join(ps, ":"))
	}
	o := env.RunT(dfltTimeout, filepath.Join(root, "work"), ev, "bus.fbd")
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	ls := c.Labels
	if c.Reject != "" {
		if strings.HasPrefix(c.Reject, "unsupported") {
			return Result{Skip: true}
		}
		if o.Code == 0 {
			return fail("description is accepted but should be rejected: %s", c.Reject)
		}
		if o.Crashed() || len(o.Stdout) != 0 || len(strings.TrimSpace(string(o.Stderr))) == 0 {
			return fail("description is not rejected orderly (%s): %s", c.Reject, o.brief())
		}
		return Result{NonTrivial: c.NT, Labels: append(ls, "rejected")}
	}
	if o.Code != 0 && c.Latent && !o.Crashed() && len(o.Stdout) == 0 {
		return Result{Skip: true, Labels: append(ls, "rejected for unused definition")}
	}
	if o.Code != 0 {
		return fail("valid description is not compiled: %s", o.brief())
	}
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return fail("result is not valid: %v", err)
	}
	got := bus.M("bus")
	if d := dropGenerated(got, false); d != "" {
		return fail("%s", d)
	}
	if d := diffM(c.Want, got, ""); d != "" {
		return fail("%s", d)
	}
	return Result{NonTrivial: c.NT, Labels: append(ls, "accepted")}
}

// ScopePair is a program and the same program with definitions in other order and other files.
type ScopePair struct {
	A    Files    `json:"a"`
	B    Files    `json:"b"`
	Path []string `json:"path"`
	NT   bool     `json:"nt"`
}

func (c *ScopePair) Describe() string { return c.A.String() + "=== and ===\n" + c.B.String() }

// reorder moves constants and types anywhere, the order of instantiations is kept.
func reorder(t *rapid.T, items []Item) []Item {
	inst, other := []Item{}, []Item{}
	for _, it := range items {
		if it.Def != nil {
			it.Def.Items = reorder(t, it.Def.Items)
		}
		if it.Def != nil && !it.Def.IsType {
			inst = append(inst, it)
		} else {
			other = append(other, it)
		}
	}
	if len(other) > 1 {
		other = rapid.Permutation(other).Draw(t, "perm")
	}
	out := inst
	for _, it := range other {
		i := intRange(0, len(out)).Draw(t, "pos")
		out = append(out[:i:i], append([]Item{it}, out[i:]...)...)
	}
	return out
}

func genScopePair(t *rapid.T) ScopePair {
	p, g, _ := genScopeProg(t, 0, true)
	m, _, err, big := elabSafe(p)
	if big || err != nil || mSize(m) > 3000 || sizesTooBig(m) {
		return ScopePair{}
	}
	c := ScopePair{A: p.render(canonStyle), NT: g.defs >= 3}
	q := p.copy()
	for i, pk := range q.Pkgs {
		all := []Item{}
		for _, f := range pk.Files {
			all = append(all, f.Items...)
		}
		all = reorder(t, all)
		imports := pk.Files[0].Imports
		if i == 0 {
			pk.Files[0].Items = all
			continue
		}
		pk.Files = nil
		for _, n := range []string{"one", "b2", "a"}[:1+g.k(3)] {
			pk.Files = append(pk.Files, &File{Path: pk.Dir + "/" + n + ".fbd", Imports: append([]Import(nil), imports...)})
		}
		for _, it := range all {
			f := pk.Files[g.k(len(pk.Files))]
			f.Items = append(f.Items, it)
		}
	}
	c.B = q.render(canonStyle)
	for _, pk := range p.Pkgs[1:] {
		if !strings.HasPrefix(pk.Dir, "work/") {
			d, _, _ := strings.Cut(pk.Dir, "/")
			c.Path = append(c.Path, "../"+d)
		}
	}
	return c
}

func runScopePair(env *Env, c *ScopePair) Result {
	if c.A == nil {
		return Result{Skip: true}
	}
	run := func(fs Files) Out {
		root := env.Dir(fs)
		defer os.RemoveAll(root)
		ev := []string{}
		if len(c.Path) > 0 {
			ev = append(ev, "FBDPATH="+strings.Join(c.Path, ":"))
		}
		return env.RunT(dfltTimeout, filepath.Join(root, "work"), ev, "bus.fbd")
	}
	return comparePair(run(c.A), run(c.B), c.NT, nil)
}

func init() {
	register("C09", "random programs with three constant names and three type names defined again and again in nested bodies, type parameters, several files and packages (below the working directory, nested, hidden, in FBDPATH, with symbolic links and look-alikes), every value observed through widths, array sizes and constants, predicted by an elaborator with lexical environments; non-trivial: at least 4 definitions of pool names",
		sub("scopes", 12000, 120000, genScope(0), runScope),
		sub("wild", 8000, 80000, genScope(12), runScope),
		sub("split", 6000, 60000, genScopePair, runScopePair),
	)
}
