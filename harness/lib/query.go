package main

import (
	"fmt"
	"strconv"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

// answers are results of all query methods of one functionality, as strings.
type answers map[string]string

func b2s(b bool) string { return strconv.FormatBool(b) }

func ask(f func() int64) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = "panic"
		}
	}()
	return strconv.FormatInt(f(), 10)
}

func rng(r types.SingleRange) string { return fmt.Sprintf("%d:%d", r.Start, r.End) }

// queries calls all query methods of everything in the bus.
func queries(bus *fn.Block) map[string]answers {
	out := map[string]answers{}
	put := func(path string, f fn.Functionality) (string, answers) {
		a := answers{"name": f.GetName(), "type": f.Type()}
		path = fmt.Sprintf("%s/%s %s", path, f.Type(), f.GetName())
		if out[path] != nil {
			a["duplicate"] = "true"
		}
		out[path] = a
		return path, a
	}
	acc := func(a answers, x types.Access) { a["range"] = rng(x.AddrRange()) }
	params := func(path string, ps []*fn.Param) {
		for _, p := range ps {
			_, a := put(path, p)
			acc(a, p.Access)
		}
	}
	returns := func(path string, ps []*fn.Return) {
		for _, p := range ps {
			_, a := put(path, p)
			acc(a, p.Access)
		}
	}
	configs := func(path string, fs []*fn.Config) {
		for _, f := range fs {
			_, a := put(path, f)
			acc(a, f.Access)
		}
	}
	irqs := func(path string, fs []*fn.Irq) {
		for _, f := range fs {
			_, a := put(path, f)
			acc(a, f.Access)
			a["enable range"] = rng(f.EnableAccess.AddrRange())
		}
	}
	masks := func(path string, fs []*fn.Mask) {
		for _, f := range fs {
			_, a := put(path, f)
			acc(a, f.Access)
		}
	}
	statics := func(path string, fs []*fn.Static) {
		for _, f := range fs {
			_, a := put(path, f)
			acc(a, f.Access)
		}
	}
	statuses := func(path string, fs []*fn.Status) {
		for _, f := range fs {
			_, a := put(path, f)
			acc(a, f.Access)
		}
	}
	var block func(path string, b *fn.Block)
	block = func(path string, b *fn.Block) {
		path, a := put(path, b)
		a["start"] = ask(b.StartAddr)
		a["empty"] = b2s(b.Consts.Empty())
		for _, f := range b.Blackboxes {
			put(path, f)
		}
		configs(path, b.Configs)
		irqs(path, b.Irqs)
		masks(path, b.Masks)
		statics(path, b.Statics)
		statuses(path, b.Statuses)
		for _, g := range b.Groups {
			path, a := put(path, g)
			a["read-only"] = b2s(g.IsReadOnly())
			a["empty"] = b2s(g.Consts.Empty())
			configs(path, g.Configs)
			irqs(path, g.Irqs)
			masks(path, g.Masks)
			params(path, g.Params)
			returns(path, g.Returns)
			statics(path, g.Statics)
			statuses(path, g.Statuses)
		}
		for _, p := range b.Procs {
			path, a := put(path, p)
			a["is empty"], a["is param"], a["is return"] = b2s(p.IsEmpty()), b2s(p.IsParam()), b2s(p.IsReturn())
			a["params size"], a["returns size"] = ask(p.ParamsBufSize), ask(p.ReturnsBufSize)
			a["params start"], a["returns start"] = ask(p.ParamsStartAddr), ask(p.ReturnsStartAddr)
			if p.Delay != nil {
				a["zero delay"] = b2s(p.Delay.IsZero())
			}
			params(path, p.Params)
			returns(path, p.Returns)
		}
		for _, s := range b.Streams {
			path, a := put(path, s)
			a["down"], a["up"] = b2s(s.IsDownstream()), b2s(s.IsUpstream())
			a["start"] = ask(s.StartAddr)
			if s.Delay != nil {
				a["zero delay"] = b2s(s.Delay.IsZero())
			}
			params(path, s.Params)
			returns(path, s.Returns)
		}
		for _, s := range b.Subblocks {
			block(path, s)
		}
	}
	block("", bus)
	return out
}
