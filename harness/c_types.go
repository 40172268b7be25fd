package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// literal writes a value as a literal expression.
func literal(v Val) *Expr {
	switch v.K {
	case "int":
		return eInt(v.I)
	case "bool":
		return eBool(v.B)
	case "str":
		return eStr(v.S)
	case "bits":
		return eBits(v.S)
	case "float":
		s := strconv.FormatFloat(v.F, 'f', -1, 64)
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		if neg {
			return eUn("-", eFloat(s))
		}
		return eFloat(s)
	case "time":
		if v.T.Ns == 0 {
			return eTime(v.T.S, "s")
		}
		n := new(big.Int).Mul(big.NewInt(v.T.S), big.NewInt(1e9))
		n.Add(n, big.NewInt(v.T.Ns))
		return eTime(n.Int64(), "ns")
	case "range":
		return eBin(":", eInt(v.R[0]), eInt(v.R[1]))
	case "list":
		l := eList()
		for _, x := range v.L {
			l.Xs = append(l.Xs, literal(x))
		}
		return l
	}
	panic("no literal for " + v.K)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func constItems(c *Consts) []Item {
	items := []Item{}
	if c == nil {
		return nil
	}
	add := func(n string, v Val) { items = append(items, Item{Const: &ConstDef{Name: n, Val: literal(v)}}) }
	for _, k := range sortedKeys(c.Bools) {
		add(k, Val{K: "bool", B: c.Bools[k]})
	}
	for _, k := range sortedKeys(c.BoolLists) {
		v := Val{K: "list"}
		for _, b := range c.BoolLists[k] {
			v.L = append(v.L, Val{K: "bool", B: b})
		}
		add(k, v)
	}
	for _, k := range sortedKeys(c.Floats) {
		add(k, Val{K: "float", F: c.Floats[k]})
	}
	for _, k := range sortedKeys(c.Ints) {
		add(k, vInt(c.Ints[k]))
	}
	for _, k := range sortedKeys(c.IntLists) {
		v := Val{K: "list"}
		for _, b := range c.IntLists[k] {
			v.L = append(v.L, vInt(b))
		}
		add(k, v)
	}
	for _, k := range sortedKeys(c.Strings) {
		add(k, Val{K: "str", S: c.Strings[k]})
	}
	return items
}

// flatten writes an elaborated functionality without types and expressions.
func flatten(m *M) *Def {
	d := &Def{Name: m.Name, Doc: m.Doc, Type: m.Kind}
	if m.IsArray {
		d.Count = eInt(m.Count)
	}
	for _, k := range sortedKeys(m.Raw) {
		d.Props = append(d.Props, Prop{Name: k, Val: literal(m.Raw[k])})
	}
	d.Items = constItems(m.Consts)
	for _, k := range m.Kids {
		d.Items = append(d.Items, Item{Def: flatten(k)})
	}
	return d
}

func flatProg(m *M) *Prog {
	return &Prog{Pkgs: []*Pkg{{Name: "main", Files: []*File{{Path: "bus.fbd", Items: []Item{{Def: flatten(m)}}}}}}}
}

// PairCase is a pair of descriptions of the same bus.
type PairCase struct {
	A      Files    `json:"a"`
	B      Files    `json:"b"`
	Labels []string `json:"labels,omitempty"`
	NT     bool     `json:"nt,omitempty"`
}

func (c *PairCase) Describe() string { return c.A.String() + "=== and ===\n" + c.B.String() }

func genFlat(cfg GenCfg) func(t *rapid.T) PairCase {
	return func(t *rapid.T) PairCase {
		pr := genProgram(t, cfg)
		c := PairCase{A: pr.Prog.render(canonStyle), B: flatProg(pr.Bus).render(canonStyle)}
		c.Labels, _ = pr.stats()
		for _, l := range c.Labels {
			if l == "types" {
				c.NT = true
			}
		}
		return c
	}
}

// runPair compiles both descriptions, they must be both accepted and yield the same.
func runPair(env *Env, c *PairCase) Result {
	return comparePair(env.Compile(c.A, "bus.fbd"), env.Compile(c.B, "bus.fbd"), c.NT, c.Labels)
}

func comparePair(a, b Out, nt bool, labels []string) Result {
	if s := a.infra() + b.infra(); s != "" {
		return Result{Infra: s}
	}
	if a.Code != 0 && b.Code != 0 {
		return Result{Skip: true, Labels: []string{"both rejected"}}
	}
	if a.Code != 0 {
		return fail("only the second description compiles, the first: %s", a.brief())
	}
	if b.Code != 0 {
		return fail("only the first description compiles, the second: %s", b.brief())
	}
	if d := sameJSON(a.Stdout, b.Stdout); d != "" {
		return fail("%s", d)
	}
	return Result{NonTrivial: nt, Labels: labels}
}

var reinstCfg = GenCfg{MaxKids: 3, MaxDepth: 2, Kinds: allKinds, Types: 85, Refs: 70, Exprs: 10, Docs: 5, Values: 30, Consts: 10, MaxPkgs: 1, Extra: 8}

func init() {
	register("C07", "random descriptions with chains of parametrised types (positional, named, default arguments, several packages, repeated instantiation with other arguments), compared with the expansion computed by an independent elaborator; non-trivial: at least one type definition",
		sub("flat", 11000, 100000, genFlat(typedCfg), runPair),
		sub("full", 5000, 60000, genFlat(fullCfg), runPair),
		sub("reinst", 9000, 90000, genFlat(reinstCfg), runPair),
	)
}
