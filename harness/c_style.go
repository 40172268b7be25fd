package main

import (
	"bytes"
	"strings"

	"pgregory.net/rapid"
)

var styleCfg = GenCfg{MaxKids: 6, MaxDepth: 3, Kinds: allKinds, Types: 25, Refs: 30, Exprs: 35, Docs: 30, Values: 45, Consts: 45, MaxPkgs: 1, AnyName: true, Extra: 1}

func permuteProps(t *rapid.T, items []Item) {
	for _, it := range items {
		if it.Def == nil {
			continue
		}
		if len(it.Def.Props) > 1 {
			it.Def.Props = rapid.Permutation(it.Def.Props).Draw(t, "props")
		}
		permuteProps(t, it.Def.Items)
	}
}

func genStyle(reord bool) func(t *rapid.T) PairCase {
	return func(t *rapid.T) PairCase {
		pr := genProgram(t, styleCfg)
		c := PairCase{A: pr.Prog.render(canonStyle), NT: true}
		q := pr.Prog.copy()
		if reord {
			for _, pk := range q.Pkgs {
				for _, f := range pk.Files {
					permuteProps(t, f.Items)
					f.Items = reorder(t, f.Items)
				}
			}
		}
		c.B = q.render(Style{Ch: drawChooser(t)})
		c.Labels, _ = pr.stats()
		c.NT = !bytes.Equal([]byte(c.A["bus.fbd"]), []byte(c.B["bus.fbd"]))
		return c
	}
}

// interleave mixes functionalities of different kinds, the order within one kind is kept.
func interleave(t *rapid.T, items []Item) []Item {
	consts := []Item{}
	byKind := map[string][]Item{}
	n := 0
	for _, it := range items {
		if it.Const != nil {
			consts = append(consts, it)
			continue
		}
		it.Def.Items = interleave(t, it.Def.Items)
		byKind[it.Def.Type] = append(byKind[it.Def.Type], it)
		n++
	}
	out := consts
	for ; n > 0; n-- {
		ks := sortedKeys(byKind)
		k := ks[0]
		if len(ks) > 1 {
			k = ks[intRange(0, len(ks)-1).Draw(t, "kind")]
		}
		out = append(out, byKind[k][0])
		byKind[k] = byKind[k][1:]
		if len(byKind[k]) == 0 {
			delete(byKind, k)
		}
	}
	return out
}

var kindsCfg = GenCfg{MaxKids: 10, MaxDepth: 2, Kinds: allKinds, Values: 20, Consts: 20, Docs: 10}

func genKinds(t *rapid.T) PairCase {
	pr := genProgram(t, kindsCfg)
	p := flatProg(pr.Bus)
	q := p.copy()
	mf := q.mainFile()
	mf.Items = interleave(t, mf.Items)
	c := PairCase{A: p.render(canonStyle), B: q.render(canonStyle)}
	c.NT = c.A["bus.fbd"] != c.B["bus.fbd"]
	return c
}

// runKinds compares results apart from the ID.
func runKinds(env *Env, c *PairCase) Result {
	a := env.Compile(c.A, "bus.fbd")
	b := env.Compile(c.B, "bus.fbd")
	for _, o := range []*Out{&a, &b} {
		if o.Code != 0 || o.infra() != "" {
			continue
		}
		bus, err := decodeBus(o.Stdout)
		if err != nil {
			return fail("result is not valid: %v", err)
		}
		if id := bus.static("ID"); id != nil && id.InitValue != "" {
			o.Stdout = bytes.Replace(o.Stdout, []byte(strings.ReplaceAll(id.InitValue, `"`, `\"`)), []byte("the id"), 1)
		}
	}
	return comparePair(a, b, c.NT, c.Labels)
}

// genTail writes a comma after the last element of lists or of arguments of calls.
func genTail(t *rapid.T) PairCase {
	cfg := styleCfg
	cfg.Exprs, cfg.Consts, cfg.Values = 60, 75, 60
	pr := genProgram(t, cfg)
	c := PairCase{A: pr.Prog.render(canonStyle)}
	q := pr.Prog.copy()
	p := []int{30, 60, 100}[intRange(0, 2).Draw(t, "p")]
	lists, calls := 0, 0
	cp := func(e *Expr) *Expr {
		return copyExpr(e, func(x *Expr) {
			if (x.K == "list" || x.K == "call") && len(x.Xs) > 0 && chance(t, p, "tail") {
				x.Tail = true
				if x.K == "list" {
					lists++
				} else {
					calls++
				}
			}
		})
	}
	var walk func(items []Item)
	walk = func(items []Item) {
		for i := range items {
			if cd := items[i].Const; cd != nil {
				n := *cd
				n.Val = cp(cd.Val)
				items[i].Const = &n
			}
			if d := items[i].Def; d != nil {
				d.Count = cp(d.Count)
				for j := range d.Props {
					d.Props[j].Val = cp(d.Props[j].Val)
				}
				d.Args = append([]Arg(nil), d.Args...)
				for j := range d.Args {
					d.Args[j].Val = cp(d.Args[j].Val)
				}
				walk(d.Items)
			}
		}
	}
	for _, pk := range q.Pkgs {
		for _, f := range pk.Files {
			walk(f.Items)
		}
	}
	c.B = q.render(canonStyle)
	c.NT = lists+calls > 0
	if lists > 0 {
		c.Labels = append(c.Labels, "lists")
	}
	if calls > 0 {
		c.Labels = append(c.Labels, "calls")
	}
	return c
}

// runTail compares results, if the comma is accepted at all.
func runTail(env *Env, c *PairCase) Result {
	if !c.NT {
		return Result{Skip: true}
	}
	a, b := env.Compile(c.A, "bus.fbd"), env.Compile(c.B, "bus.fbd")
	if a.Code == 0 && b.Code != 0 && b.infra() == "" && !b.Crashed() && len(b.Stdout) == 0 {
		return Result{Skip: true, Labels: []string{"rejected"}}
	}
	return comparePair(a, b, c.NT, c.Labels)
}

func init() {
	register("C10", "random valid descriptions rendered in two ways (blank lines, trailing comments, inline or body properties, grouped constants, number notation, spacing, redundant parentheses, order of properties, constants and types), results must be identical byte for byte; interleaving functionalities of different kinds must keep everything but the ID; non-trivial: the two texts of the main file differ",
		sub("style", 9000, 90000, genStyle(false), runPair),
		sub("order", 8000, 80000, genStyle(true), runPair),
		sub("kinds", 6000, 60000, genKinds, runKinds),
		sub("tail", 2500, 40000, genTail, runTail),
	)
}
