package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C18: query methods of the compiled bus, as used by generators of code.

type answers map[string]string

func (c *Consts) none() bool {
	return len(c.Bools)+len(c.BoolLists)+len(c.Floats)+len(c.Ints)+len(c.IntLists)+len(c.Strings) == 0
}

// extent gives the first and the last register used by accesses, found from their bits.
func extent(as []Access, bw int64) (lo, hi int64, err error) {
	lo, hi = -1, -1
	for _, a := range as {
		sp, err := spans(a, bw)
		if err != nil {
			return 0, 0, err
		}
		for _, s := range sp {
			if lo < 0 || s.Reg < lo {
				lo = s.Reg
			}
			hi = max(hi, s.Reg)
		}
	}
	return lo, hi, nil
}

// expectQueries computes answers from the structure alone.
func expectQueries(bus *JBlock, bw int64) (map[string]answers, error) {
	out := map[string]answers{}
	var bad error
	put := func(path, kind string, f Func, acc *Access) (string, answers) {
		a := answers{"name": f.Name, "type": kind}
		if acc != nil {
			a["range"] = fmt.Sprintf("%d:%d", acc.StartAddr, acc.EndAddr)
			if acc.Type != "" {
				lo, hi, err := extent([]Access{*acc}, bw)
				if err != nil {
					bad = err
				}
				a["range"] = fmt.Sprintf("%d:%d", lo, hi)
			}
		}
		path = path + "/" + kind + " " + f.Name
		if out[path] != nil {
			a["duplicate"] = "true"
		}
		out[path] = a
		return path, a
	}
	yes := func(b bool) string { return fmt.Sprint(b) }
	params := func(path string, ps []*JParam) (as []Access) {
		for _, p := range ps {
			put(path, "param", p.Func, &p.Access)
			as = append(as, p.Access)
		}
		return as
	}
	returns := func(path string, ps []*JReturn) (as []Access) {
		for _, p := range ps {
			put(path, "return", p.Func, &p.Access)
			as = append(as, p.Access)
		}
		return as
	}
	irq := func(path string, f *JIrq) {
		_, a := put(path, "irq", f.Func, &f.Access)
		lo, hi := f.EnableAccess.StartAddr, f.EnableAccess.EndAddr
		if f.EnableAccess.Type != "" {
			var err error
			if lo, hi, err = extent([]Access{f.EnableAccess}, bw); err != nil {
				bad = err
			}
		}
		a["enable range"] = fmt.Sprintf("%d:%d", lo, hi)
	}
	simple := func(path string, cs []*JConfig, ms []*JMask, ss []*JStatic, ts []*JStatus, is []*JIrq) {
		for _, f := range cs {
			put(path, "config", f.Func, &f.Access)
		}
		for _, f := range ms {
			put(path, "mask", f.Func, &f.Access)
		}
		for _, f := range ss {
			put(path, "static", f.Func, &f.Access)
		}
		for _, f := range ts {
			put(path, "status", f.Func, &f.Access)
		}
		for _, f := range is {
			irq(path, f)
		}
	}
	buf := func(as []Access) (size, start string) {
		if len(as) == 0 {
			return "0", "panic"
		}
		lo, hi, err := extent(as, bw)
		if err != nil {
			bad = err
		}
		return fmt.Sprint(hi - lo + 1), fmt.Sprint(lo)
	}
	var block func(path string, b *JBlock)
	block = func(path string, b *JBlock) {
		path, a := put(path, "block", b.Func, nil)
		a["start"] = fmt.Sprint(b.AddrSpace.Start)
		a["empty"] = yes(b.Consts.none())
		for _, f := range b.Blackboxes {
			put(path, "blackbox", f.Func, nil)
		}
		simple(path, b.Configs, b.Masks, b.Statics, b.Statuses, b.Irqs)
		for _, g := range b.Groups {
			path, a := put(path, "group", g.Func, nil)
			a["empty"] = yes(g.Consts.none())
			writable := len(g.Configs)+len(g.Masks)+len(g.Params) > 0
			for _, i := range g.Irqs {
				writable = writable || i.AddEnable || i.Clear == "Explicit"
			}
			a["read-only"] = yes(!writable)
			simple(path, g.Configs, g.Masks, g.Statics, g.Statuses, g.Irqs)
			params(path, g.Params)
			returns(path, g.Returns)
		}
		for _, p := range b.Procs {
			path, a := put(path, "proc", p.Func, nil)
			np, nr := len(p.Params), len(p.Returns)
			a["is empty"], a["is param"], a["is return"] = yes(np+nr == 0), yes(np > 0 && nr == 0), yes(np == 0 && nr > 0)
			a["params size"], a["params start"] = buf(params(path, p.Params))
			a["returns size"], a["returns start"] = buf(returns(path, p.Returns))
			if p.Delay != nil {
				a["zero delay"] = yes(*p.Delay == TimeV{})
			}
		}
		for _, s := range b.Streams {
			path, a := put(path, "stream", s.Func, nil)
			up := len(s.Params) == 0 && len(s.Returns) > 0
			a["up"], a["down"] = yes(up), yes(!up)
			as := append(params(path, s.Params), returns(path, s.Returns)...)
			if _, a["start"] = buf(as); len(as) == 0 {
				a["start"] = fmt.Sprint(s.StbAddr)
			}
			if s.Delay != nil {
				a["zero delay"] = yes(*s.Delay == TimeV{})
			}
		}
		for _, s := range b.Subblocks {
			block(path, s)
		}
	}
	block("", bus)
	return out, bad
}

func diffAnswers(want, got map[string]answers) string {
	keys := []string{}
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if want[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, g := want[k], got[k]
		if w == nil || g == nil {
			return fmt.Sprintf("%s: want %v, got %v", k, w, g)
		}
		qs := []string{}
		for q := range w {
			qs = append(qs, q)
		}
		for q := range g {
			if _, ok := w[q]; !ok {
				qs = append(qs, q)
			}
		}
		sort.Strings(qs)
		for _, q := range qs {
			if w[q] != g[q] {
				return fmt.Sprintf("%s: %s: library says %q, structure says %q", k, q, g[q], w[q])
			}
		}
	}
	return ""
}

func libAnswers(rs LibResp) (map[string]answers, *Result) {
	if rs.Hang {
		return nil, &Result{Infra: "library helper does not answer " + rs.Died}
	}
	if rs.Died != "" || rs.Panic != "" || !rs.OK {
		r := fail("%s%s%s", rs.Died, rs.Panic, rs.Err)
		return nil, &r
	}
	got := map[string]answers{}
	if err := json.Unmarshal(rs.J2, &got); err != nil {
		return nil, &Result{Infra: err.Error()}
	}
	return got, nil
}

func runQuery(env *Env, c *ContentCase) Result {
	d := env.Dir(c.Src)
	defer os.RemoveAll(d)
	// The tool tells whether the description is compiled at all: the library ends the process on some errors.
	o := env.Run(d, "bus.fbd")
	if s := o.infra(); s != "" {
		return Result{Infra: s}
	}
	if o.Code != 0 {
		return Result{Skip: true, Labels: []string{"rejected"}}
	}
	rs := env.Lib(LibReq{Op: "query", S: "bus.fbd", S2: "main", B: c.Timestamp, Dir: d})
	got, r := libAnswers(rs)
	if r != nil {
		return *r
	}
	bus, err := decodeBus(rs.J)
	if err != nil {
		return fail("result is not valid: %v", err)
	}
	want, err := expectQueries(bus, bus.Width)
	if err != nil {
		// Access which cannot be decoded is a matter of C02.
		return Result{Skip: true, Labels: []string{"undecodable access"}}
	}
	for k := range got {
		if n, ok := strings.CutPrefix(k, "package "); ok {
			w := c.Consts[n]
			if w == nil {
				return Result{Skip: true, Labels: []string{"unexpected package"}}
			}
			want[k] = answers{"empty": fmt.Sprint(w.none())}
		}
	}
	if s := diffAnswers(want, got); s != "" {
		return fail("%s", s)
	}
	return Result{NonTrivial: c.NT, Labels: c.Labels}
}

// SynthCase is a made up result of compilation, as a program using the library can construct it.
type SynthCase struct {
	Bus *JBlock `json:"bus"`
	BW  int64   `json:"bw"`
}

func genSynth(t *rapid.T) SynthCase {
	c := SynthCase{BW: []int64{1, 8, 16, 32, 64}[intRange(0, 4).Draw(t, "bw")]}
	n := 0
	fun := func() Func {
		n++
		f := Func{Name: fmt.Sprintf("f%d", n), Count: 1}
		if chance(t, 30, "array") {
			f.IsArray, f.Count = true, int64(intRange(1, 5).Draw(t, "count"))
		}
		return f
	}
	few := func(label string, p int) int {
		if !chance(t, p, label) {
			return 0
		}
		return intRange(1, 3).Draw(t, label)
	}
	consts := func() Consts {
		k := Consts{}
		for i := few("consts", 60); i > 0; i-- {
			switch intRange(0, 5).Draw(t, "container") {
			case 0:
				k.Bools = map[string]bool{"A": chance(t, 50, "v")}
			case 1:
				k.BoolLists = map[string][]bool{"B": nil}
			case 2:
				k.Floats = map[string]float64{"C": 0}
			case 3:
				k.Ints = map[string]int64{"D": int64(intRange(0, 1).Draw(t, "v"))}
			case 4:
				k.IntLists = map[string][]int64{"E": {}}
			case 5:
				k.Strings = map[string]string{"F": ""}
			}
		}
		if chance(t, 20, "empty map") {
			k.Ints = map[string]int64{}
		}
		return k
	}
	// Position of the frame which is being built.
	var pos int64
	acc := func(count int64, array bool) Access {
		w := rapid.Int64Range(1, 3*c.BW).Draw(t, "width")
		a := Access{Type: "SingleNRegs", ItemWidth: w, ItemCount: 1, StartAddr: pos / c.BW, StartBit: pos % c.BW, RegWidth: c.BW}
		total := w
		if array {
			total = w * count
			a.Type, a.ItemCount = "ArrayNRegs", count
		} else if a.StartBit+w <= c.BW {
			a.Type = "SingleOneReg"
		}
		a.EndAddr = (pos + total - 1) / c.BW
		a.EndBit = (pos + total - 1) % c.BW
		a.RegCount = a.EndAddr - a.StartAddr + 1
		pos += total
		return a
	}
	delay := func() *TimeV {
		if !chance(t, 60, "delay") {
			return nil
		}
		return &TimeV{S: int64(few("s", 40)), Ns: int64(few("ns", 40))}
	}
	params := func(p int) (ps []*JParam) {
		for i := few("params", p); i > 0; i-- {
			f := fun()
			ps = append(ps, &JParam{Func: f, Access: acc(f.Count, f.IsArray)})
		}
		return ps
	}
	returns := func(p int) (ps []*JReturn) {
		for i := few("returns", p); i > 0; i-- {
			f := fun()
			ps = append(ps, &JReturn{Func: f, Access: acc(f.Count, f.IsArray)})
		}
		return ps
	}
	addr := func() {
		pos = c.BW*int64(intRange(0, 30).Draw(t, "addr")) + int64(intRange(0, int(c.BW)-1).Draw(t, "bit"))
	}
	var block func(depth int) *JBlock
	block = func(depth int) *JBlock {
		b := &JBlock{Func: fun(), Consts: consts(), Width: c.BW}
		b.AddrSpace.Start = rapid.Int64Range(0, 1<<40).Draw(t, "start")
		b.AddrSpace.End = b.AddrSpace.Start + rapid.Int64Range(0, 100).Draw(t, "len")
		for i := few("groups", 80); i > 0; i-- {
			g := &JGroup{Func: fun(), Consts: consts(), Virtual: chance(t, 50, "virtual")}
			addr()
			one := func(label string, p int) int { return few(label, p) }
			for i := one("configs", 12); i > 0; i-- {
				f := fun()
				g.Configs = append(g.Configs, &JConfig{Func: f, Access: acc(f.Count, f.IsArray)})
			}
			for i := one("masks", 12); i > 0; i-- {
				f := fun()
				g.Masks = append(g.Masks, &JMask{Func: f, Access: acc(f.Count, f.IsArray)})
			}
			for i := one("statics", 30); i > 0; i-- {
				f := fun()
				g.Statics = append(g.Statics, &JStatic{Func: f, Access: acc(f.Count, f.IsArray)})
			}
			for i := one("statuses", 30); i > 0; i-- {
				f := fun()
				g.Statuses = append(g.Statuses, &JStatus{Func: f, Access: acc(f.Count, f.IsArray)})
			}
			for i := one("irqs", 60); i > 0; i-- {
				q := &JIrq{Func: fun(), Clear: "On Read", AddEnable: chance(t, 25, "enable")}
				if chance(t, 25, "explicit") {
					q.Clear = "Explicit"
				}
				q.Access = acc(1, false)
				if q.AddEnable {
					q.EnableAccess = acc(1, false)
				}
				g.Irqs = append(g.Irqs, q)
			}
			g.Params = params(12)
			g.Returns = returns(30)
			b.Groups = append(b.Groups, g)
		}
		for i := few("procs", 70); i > 0; i-- {
			addr()
			b.Procs = append(b.Procs, &JProc{Func: fun(), Delay: delay(), Params: params(60), Returns: returns(60)})
		}
		for i := few("streams", 60); i > 0; i-- {
			addr()
			s := &JStream{Func: fun(), Delay: delay(), StbAddr: int64(intRange(0, 50).Draw(t, "stb"))}
			switch intRange(0, 2).Draw(t, "direction") {
			case 0:
				s.Params = params(100)
			case 1:
				s.Returns = returns(100)
			}
			b.Streams = append(b.Streams, s)
		}
		if depth > 0 {
			for i := few("subblocks", 50); i > 0; i-- {
				b.Subblocks = append(b.Subblocks, block(depth-1))
			}
		}
		return b
	}
	c.Bus = block(1)
	return c
}

func runSynth(env *Env, c *SynthCase) Result {
	data, err := json.Marshal(c.Bus)
	must(err)
	rs := env.Lib(LibReq{Op: "queryj", S: string(data)})
	if !rs.OK && rs.Err != "" {
		// The library changed its structures.
		return Result{Infra: rs.Err}
	}
	got, r := libAnswers(rs)
	if r != nil {
		return *r
	}
	want, err := expectQueries(c.Bus, c.BW)
	if err != nil {
		return Result{Infra: err.Error()}
	}
	if s := diffAnswers(want, got); s != "" {
		return fail("%s", s)
	}
	n := len(c.Bus.Groups) + len(c.Bus.Procs) + len(c.Bus.Streams)
	return Result{NonTrivial: n > 1, Labels: []string{fmt.Sprintf("%d groups", len(c.Bus.Groups)), fmt.Sprintf("%d procs", len(c.Bus.Procs)), fmt.Sprintf("%d streams", len(c.Bus.Streams))}}
}

// PlainQuery is a call of a method of a plain value.
type PlainQuery struct {
	Op string  `json:"op"`
	N  []int64 `json:"n"`
}

func genPlain(t *rapid.T) PlainQuery {
	some := func(l string) int64 {
		if chance(t, 40, l) {
			return 0
		}
		return rapid.Int64Range(-1<<40, 1<<40).Draw(t, l)
	}
	if chance(t, 40, "time") {
		return PlainQuery{"iszero", []int64{some("s"), some("ns")}}
	}
	s := rapid.Int64Range(0, 1<<40).Draw(t, "start")
	return PlainQuery{"shift", []int64{s, s + some("len")&0xffff, some("offset")}}
}

func runPlain(env *Env, c *PlainQuery) Result {
	rs := env.Lib(LibReq{Op: c.Op, N: c.N})
	if rs.Hang {
		return Result{Infra: "library helper does not answer " + rs.Died}
	}
	if !rs.OK {
		return fail("%s %v: %s%s%s", c.Op, c.N, rs.Died, rs.Panic, rs.Err)
	}
	want := []int64{0}
	if c.Op == "iszero" {
		if c.N[0] == 0 && c.N[1] == 0 {
			want[0] = 1
		}
	} else {
		want = []int64{c.N[0] + c.N[2], c.N[1] + c.N[2], c.N[0], c.N[1]}
	}
	if fmt.Sprint(rs.N) != fmt.Sprint(want) {
		return fail("%s %v: library gives %v, want %v", c.Op, c.N, rs.N, want)
	}
	return Result{NonTrivial: c.N[len(c.N)-1] != 0, Labels: []string{c.Op}}
}

func init() {
	register("C18", "random valid descriptions compiled by the library, and random structures made up in the same types; all query methods of all functionalities are called and compared with answers computed from the data alone (registers of params and returns found by decoding their bits); non-trivial: at least 3 described functionalities, or at least two groups, procs or streams",
		lib(sub("compiled", 5000, 50000, genContent(fullCfg), runQuery)),
		lib(sub("frames", 5000, 50000, genContent(layoutVariant(frameKinds, 8, 1, nil)), runQuery)),
		lib(sub("made-up", 15000, 150000, genSynth, runSynth)),
		lib(sub("values", 10000, 100000, genPlain, runPlain)),
	)
}
