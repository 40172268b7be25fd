package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// IDPair is a bus and the same bus with one edit of its interface.
type IDPair struct {
	A Files `json:"a"`
	B Files `json:"b"`
}

// IDCase is one kind of edit at one place of a bus. The variants differ only in names and in the extent of the
// edit, as the ID is a checksum and single collisions are legal.
type IDCase struct {
	Edit  string   `json:"edit"`
	Vars  []IDPair `json:"vars,omitempty"`
	Width int64    `json:"width"`
	Deep  bool     `json:"deep,omitempty"`
}

func (c *IDCase) Describe() string {
	s := "edit: " + c.Edit + "\n"
	for i, v := range c.Vars {
		if i == 2 {
			break
		}
		s += v.A.String() + "=== and ===\n" + v.B.String()
	}
	return s
}

func (m *M) dup() *M {
	n := *m
	n.Raw = map[string]Val{}
	for k, v := range m.Raw {
		n.Raw[k] = v
	}
	if m.Consts != nil {
		b, err := json.Marshal(m.Consts)
		must(err)
		c := Consts{}
		must(json.Unmarshal(b, &c))
		n.Consts = &c
	}
	n.Kids = nil
	for _, k := range m.Kids {
		n.Kids = append(n.Kids, k.dup())
	}
	return &n
}

func suffixConsts(c *Consts, s string) *Consts {
	if c == nil {
		return nil
	}
	n := &Consts{}
	for k, v := range c.Bools {
		addConst(n, k+s, Val{K: "bool", B: v})
	}
	for k, v := range c.Floats {
		addConst(n, k+s, Val{K: "float", F: v})
	}
	for k, v := range c.Ints {
		addConst(n, k+s, vInt(v))
	}
	for k, v := range c.Strings {
		addConst(n, k+s, Val{K: "str", S: v})
	}
	for k, v := range c.BoolLists {
		l := Val{K: "list"}
		for _, b := range v {
			l.L = append(l.L, Val{K: "bool", B: b})
		}
		addConst(n, k+s, l)
	}
	for k, v := range c.IntLists {
		l := Val{K: "list"}
		for _, b := range v {
			l.L = append(l.L, vInt(b))
		}
		addConst(n, k+s, l)
	}
	return n
}

// suffix appends s to all names inside of the bus.
func (m *M) suffix(s string) {
	m.Consts = suffixConsts(m.Consts, s)
	for _, k := range m.Kids {
		k.Name += s
		k.suffix(s)
	}
}

// editor collects the possible edits of one bus.
type editor struct {
	bw   int64
	list []editSpec
}

type editSpec struct {
	name string
	path []int // path to the edited functionality
	// f makes the edit, k tells the variants apart.
	f func(m *M, k int64)
	// g prepares both sides, before f.
	g func(m *M, k int64)
}

func at(m *M, path []int) *M {
	for _, i := range path {
		m = m.Kids[i]
	}
	return m
}

func otherBits(old string, w, k int64) Val {
	b := []byte(strings.Repeat("0", int(w)))
	r := uint64(k)*0x9E3779B97F4A7C15 + 12345
	for i := range b {
		r ^= r << 13
		r ^= r >> 7
		r ^= r << 17
		if r&1 == 1 {
			b[i] = '1'
		}
	}
	if string(b) == old {
		b[len(b)-1] ^= 1
	}
	return Val{K: "bits", S: `b"` + string(b) + `"`}
}

func (e *editor) add(path []int, name string, f func(m *M, k int64)) {
	e.list = append(e.list, editSpec{name, append([]int(nil), path...), f, nil})
}

// sameDigits are bit strings with the same digits in different bases.
func sameDigits(x, y string, k int64) (a, b string) {
	d := fmt.Sprintf("%o", 0o1357+k*0o1111)
	if x == "b" || y == "b" {
		d = []string{"110", "101", "1010", "1100", "1001", "1110"}[k%6]
	}
	return x + `"` + d + `"`, y + `"` + d + `"`
}

func (e *editor) collect(m *M, path []int, outer string) {
	nm := func(s string) string {
		if len(path) > 1 {
			return "inner " + m.Kind + " " + s
		}
		return m.Kind + " " + s
	}
	if len(path) > 0 {
		e.add(path, nm("name"), func(m *M, k int64) { m.Name = "Renamed" + strings.Repeat("x", int(k%3)) + m.Name })
		// Arrays of arrays of irqs and masks are not supported outside of groups.
		if m.IsArray {
			e.add(path, nm("count"), func(m *M, k int64) { m.Count += 1 + k })
			e.add(path, nm("far count"), func(m *M, k int64) { m.Count += 256 * (1 + k) })
			if m.Kind != "mask" && m.Kind != "irq" && m.Kind != "group" {
				e.add(path, nm("huge count"), func(m *M, k int64) { m.Count += 1 << uint(32+k) })
			}
			if m.Count == 1 {
				e.add(path, nm("single"), func(m *M, k int64) { m.IsArray = false })
			}
		} else {
			e.add(path, nm("array"), func(m *M, k int64) { m.IsArray, m.Count = true, 1 })
			e.add(path, nm("array count"), func(m *M, k int64) { m.IsArray, m.Count = true, 2+k })
		}
		e.add(path, nm("removed"), nil)
	}
	set := func(prop string, v func(m *M, k int64) Val) {
		e.add(path, nm(prop), func(m *M, k int64) { m.Raw[prop] = v(m, k) })
	}
	flip := func(prop string, get func(m *M) bool) {
		set(prop, func(m *M, k int64) Val { return Val{K: "bool", B: !get(m)} })
	}
	width := func() {
		set("width", func(m *M, k int64) Val { delete(m.Raw, "range"); return vInt(m.Width + 1 + k) })
		e.add(path, nm("far width"), func(m *M, k int64) { delete(m.Raw, "range"); m.Raw["width"] = vInt(m.Width + 256*(1+k)) })
		if m.Kind != "mask" {
			e.add(path, nm("huge width"), func(m *M, k int64) { delete(m.Raw, "range"); m.Raw["width"] = vInt(m.Width + 1<<uint(32+k)) })
		}
	}
	far := func(prop string, get func(m *M) int64) {
		e.add(path, nm("far "+prop), func(m *M, k int64) { m.Raw[prop] = vInt(get(m) + 1<<uint(8+k*6)) })
	}
	// Above 32 bits.
	huge := func(prop string, get func(m *M) int64) {
		e.add(path, nm("huge "+prop), func(m *M, k int64) { m.Raw[prop] = vInt(get(m) + 1<<uint(32+k*3)) })
	}
	base := func() {
		for _, bs := range []string{"ox", "bx", "bo"} {
			x, y := bs[:1], bs[1:]
			e.list = append(e.list, editSpec{nm("base of init-value " + bs), append([]int(nil), path...),
				func(m *M, k int64) { _, v := sameDigits(x, y, k); m.Raw["init-value"] = Val{K: "bits", S: v} },
				func(m *M, k int64) {
					v, _ := sameDigits(x, y, k)
					delete(m.Raw, "range")
					m.Raw["width"], m.Raw["init-value"] = vInt(16+k), Val{K: "bits", S: v}
					delete(m.Raw, "reset-value")
					delete(m.Raw, "read-value")
				}})
		}
	}
	switch m.Kind {
	case "bus", "block":
		set("masters", func(m *M, k int64) Val { return vInt(m.Masters + 1 + k) })
		far("masters", func(m *M) int64 { return m.Masters })
		huge("masters", func(m *M) int64 { return m.Masters })
		set("align", func(m *M, k int64) Val { return vInt(1 << uint(5+k)) })
		if m.Kind == "bus" {
			set("width", func(m *M, k int64) Val { return vInt(e.bw + 1 + k) })
		}
	case "config", "mask":
		width()
		set("init-value", func(m *M, k int64) Val { return otherBits(m.Init, m.Width, k) })
		base()
		flip("atomic", func(m *M) bool { return m.Atomic })
	case "static":
		width()
		set("init-value", func(m *M, k int64) Val { return otherBits(m.Init, m.Width, k) })
		base()
	case "status":
		width()
		flip("atomic", func(m *M) bool { return m.Atomic })
	case "param", "return":
		width()
	case "blackbox":
		set("size", func(m *M, k int64) Val { return vInt(m.Size + 1 + k*3) })
		far("size", func(m *M) int64 { return m.Size })
		huge("size", func(m *M) int64 { return m.Size })
	case "proc":
		// A procedure with a delay has an exit address, even without returns, and a call address, even without params.
		for _, keep := range []string{"", "param", "return"} {
			e.list = append(e.list, editSpec{nm("delay with inner " + keep), append([]int(nil), path...), func(m *M, k int64) {
				m.Raw["delay"] = Val{K: "time", T: TimeV{k, 7}}
			}, func(m *M, k int64) {
				delete(m.Raw, "delay")
				kids := m.Kids
				m.Kids = nil
				for _, x := range kids {
					if x.Kind == keep {
						m.Kids = append(m.Kids, x)
					}
				}
			}})
		}
	case "group":
		flip("virtual", func(m *M) bool { return m.Virtual })
	case "irq":
		flip("add-enable", func(m *M) bool { return m.AddEnable })
		other := func(prop, a, b string, get func(m *M) string) {
			set(prop, func(m *M, k int64) Val {
				if get(m) == a {
					return Val{K: "str", S: b}
				}
				return Val{K: "str", S: a}
			})
		}
		other("clear", "Explicit", "On Read", func(m *M) string { return m.Clear })
		other("in-trigger", "Edge", "Level", func(m *M) string { return m.InTrigger })
		other("out-trigger", "Edge", "Level", func(m *M) string { return m.OutTrigger })
		if m.AddEnable {
			one := func(prop string, get func(m *M) string) {
				set(prop, func(m *M, k int64) Val {
					if get(m) == "1" {
						return vInt(0)
					}
					return vInt(1)
				})
			}
			one("enable-init-value", func(m *M) string { return m.Init })
			one("enable-reset-value", func(m *M) string { return m.Reset })
			// The same value, set at another moment.
			moved := func(from, to string) {
				put := func(prop string) func(m *M, k int64) {
					return func(m *M, k int64) {
						delete(m.Raw, from)
						delete(m.Raw, to)
						m.Raw[prop] = vInt(k % 2)
					}
				}
				e.list = append(e.list, editSpec{nm(from + " moved"), append([]int(nil), path...), put(to), put(from)})
			}
			moved("enable-init-value", "enable-reset-value")
			moved("enable-reset-value", "enable-init-value")
		}
	}
	if m.Kind == "bus" || m.Kind == "block" || m.Kind == "group" {
		e.consts(m, path, nm)
	}
	if n := len(m.Kids); n > 1 {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if m.Kids[i].Kind == m.Kids[j].Kind {
					i, j := i, j
					e.add(path, nm("swapped inner "+m.Kids[i].Kind), func(m *M, k int64) { m.Kids[i].Name, m.Kids[j].Name = m.Kids[j].Name, m.Kids[i].Name })
				}
			}
		}
	}
	for i, k := range m.Kids {
		e.collect(k, append(append([]int(nil), path...), i), m.Kind)
	}
}

func (e *editor) consts(m *M, path []int, nm func(string) string) {
	c := m.Consts
	if c == nil {
		c = &Consts{}
	}
	addc := func(n string, f func(c *Consts, k int64)) {
		e.add(path, nm(n), func(m *M, k int64) {
			if m.Consts == nil {
				m.Consts = &Consts{}
			}
			f(m.Consts, k)
		})
	}
	vals := map[string]func(k int64) Val{
		"bool":      func(k int64) Val { return Val{K: "bool", B: k%2 == 0} },
		"int":       func(k int64) Val { return vInt(k * 17) },
		"float":     func(k int64) Val { return Val{K: "float", F: float64(k) + 0.5} },
		"string":    func(k int64) Val { return Val{K: "str", S: fmt.Sprintf("s%d", k)} },
		"int list":  func(k int64) Val { return Val{K: "list", L: []Val{vInt(k), vInt(7)}} },
		"bool list": func(k int64) Val { return Val{K: "list", L: []Val{{K: "bool", B: k%2 == 0}, {K: "bool"}}} },
	}
	for _, ty := range sortedKeys(vals) {
		f := vals[ty]
		addc("new "+ty+" constant", func(c *Consts, k int64) { addConst(c, "AddedConst", f(k)) })
	}
	edits := func(ty string, keys []string, remove func(c *Consts, as string)) {
		if len(keys) == 0 {
			return
		}
		addc("removed "+ty+" constant", func(c *Consts, k int64) { remove(c, "") })
		addc("renamed "+ty+" constant", func(c *Consts, k int64) { remove(c, fmt.Sprintf("NewName%d", k)) })
	}
	edits("bool", sortedKeys(c.Bools), func(c *Consts, as string) { moveKey(c.Bools, as) })
	edits("int", sortedKeys(c.Ints), func(c *Consts, as string) { moveKey(c.Ints, as) })
	edits("float", sortedKeys(c.Floats), func(c *Consts, as string) { moveKey(c.Floats, as) })
	edits("string", sortedKeys(c.Strings), func(c *Consts, as string) { moveKey(c.Strings, as) })
	edits("int list", sortedKeys(c.IntLists), func(c *Consts, as string) { moveKey(c.IntLists, as) })
	edits("bool list", sortedKeys(c.BoolLists), func(c *Consts, as string) { moveKey(c.BoolLists, as) })
	val := func(ty string, n int, f func(c *Consts, k int64)) {
		if n > 0 {
			addc("value of "+ty+" constant", f)
		}
	}
	val("bool", len(c.Bools), func(c *Consts, k int64) { n := lastKey(c.Bools, k); c.Bools[n] = !c.Bools[n] })
	val("int", len(c.Ints), func(c *Consts, k int64) { n := lastKey(c.Ints, k); c.Ints[n] += 1 + k*1000003 })
	far := func(ty string, n int, f func(c *Consts, k int64)) {
		if n > 0 {
			addc("far value of "+ty+" constant", f)
		}
	}
	far("int", len(c.Ints), func(c *Consts, k int64) { n := lastKey(c.Ints, k); c.Ints[n] ^= 1 << uint(32+k*3) })
	far("sign of int", len(c.Ints), func(c *Consts, k int64) { n := lastKey(c.Ints, k); c.Ints[n] = -c.Ints[n] })
	far("float", len(c.Floats), func(c *Consts, k int64) { n := lastKey(c.Floats, k); c.Floats[n] = -c.Floats[n] })
	far("float by a bit", len(c.Floats), func(c *Consts, k int64) {
		n := lastKey(c.Floats, k)
		c.Floats[n] = math.Nextafter(c.Floats[n], 1e300)
	})
	far("int list", len(c.IntLists), func(c *Consts, k int64) {
		n := lastKey(c.IntLists, k)
		l := c.IntLists[n]
		l[int(k)%len(l)] ^= 1 << uint(32+k*3)
	})
	far("order of int list", len(c.IntLists), func(c *Consts, k int64) {
		n := lastKey(c.IntLists, k)
		l := c.IntLists[n]
		l[0], l[len(l)-1] = l[len(l)-1], l[0]
	})
	val("float", len(c.Floats), func(c *Consts, k int64) { n := lastKey(c.Floats, k); c.Floats[n] += float64(1 + k) })
	val("string", len(c.Strings), func(c *Consts, k int64) {
		n := lastKey(c.Strings, k)
		c.Strings[n] += strings.Repeat("y", int(1+k))
	})
	val("int list", len(c.IntLists), func(c *Consts, k int64) {
		n := lastKey(c.IntLists, k)
		l := c.IntLists[n]
		l[int(k)%len(l)] += 1 + k
	})
	val("bool list", len(c.BoolLists), func(c *Consts, k int64) {
		n := lastKey(c.BoolLists, k)
		l := c.BoolLists[n]
		l[int(k)%len(l)] = !l[int(k)%len(l)]
	})
	// Values of different types, some of them written with the same bytes.
	typed := func(name string, x, y func(k int64) Val) {
		set := func(f func(k int64) Val) func(m *M, k int64) {
			return func(m *M, k int64) {
				if m.Consts == nil {
					m.Consts = &Consts{}
				}
				removeConst(m.Consts, "TypedConst")
				addConst(m.Consts, "TypedConst", f(k))
			}
		}
		e.list = append(e.list, editSpec{nm("type of constant " + name), append([]int(nil), path...), set(y), set(x)})
	}
	bit := func(k int64) Val { return Val{K: "bool", B: k%2 == 0} }
	one := func(f func(k int64) Val) func(k int64) Val {
		return func(k int64) Val { return Val{K: "list", L: []Val{f(k)}} }
	}
	num := func(k int64) Val { return vInt(k*70001 + 3) }
	txt := func(k int64) Val { return Val{K: "str", S: fmt.Sprintf("%08d", k*1234567)} }
	half := func(k int64) Val { return Val{K: "float", F: float64(k) + 0.5} }
	typed("int to int list", num, one(num))
	typed("bool to bool list", bit, one(bit))
	typed("bool to int", bit, func(k int64) Val { return vInt(1 - k%2) })
	typed("bool list to int list", one(bit), one(func(k int64) Val { return vInt(1 - k%2) }))
	typed("int to string", num, func(k int64) Val { return Val{K: "str", S: fmt.Sprint(num(k).I)} })
	typed("string to int", txt, func(k int64) Val { return vInt(int64(binary.LittleEndian.Uint64([]byte(txt(k).S)))) })
	typed("float to int", half, func(k int64) Val { return vInt(int64(math.Float64bits(half(k).F))) })
	typed("bool list to int", func(k int64) Val {
		l := Val{K: "list"}
		for i := 0; i < 8; i++ {
			l.L = append(l.L, Val{K: "bool", B: k>>i&1 == 1})
		}
		return l
	}, func(k int64) Val {
		n := int64(0)
		for i := 0; i < 8; i++ {
			n |= k >> i & 1 << (8 * i)
		}
		return vInt(n)
	})
	val("length of int list", len(c.IntLists), func(c *Consts, k int64) { n := lastKey(c.IntLists, k); c.IntLists[n] = append(c.IntLists[n], k+1) })
	val("length of bool list", len(c.BoolLists), func(c *Consts, k int64) {
		n := lastKey(c.BoolLists, k)
		c.BoolLists[n] = append(c.BoolLists[n], true)
	})
}

func removeConst(c *Consts, n string) {
	delete(c.Bools, n)
	delete(c.BoolLists, n)
	delete(c.Floats, n)
	delete(c.Ints, n)
	delete(c.IntLists, n)
	delete(c.Strings, n)
}

func lastKey[V any](m map[string]V, k int64) string {
	ks := sortedKeys(m)
	return ks[int(k)%len(ks)]
}

// moveKey renames the first key, or removes it.
func moveKey[V any](m map[string]V, as string) {
	k := sortedKeys(m)[0]
	v := m[k]
	delete(m, k)
	if as != "" {
		m[as] = v
	}
}

var idCfg = GenCfg{MaxKids: 7, MaxDepth: 3, Kinds: allKinds, Values: 60, Consts: 60, Docs: 10}

func genID(widths []int64, nvar int) func(t *rapid.T) IDCase {
	return func(t *rapid.T) IDCase {
		cfg := idCfg
		cfg.BusWidths = widths
		if chance(t, 30, "small") {
			cfg.MaxKids = 3
		}
		pr := genProgram(t, cfg)
		e := &editor{bw: pr.Width}
		e.collect(pr.Bus, nil, "")
		names := map[string][]editSpec{}
		for _, s := range e.list {
			names[s.name] = append(names[s.name], s)
		}
		n := sampledFrom(sortedKeys(names)).Draw(t, "edit")
		s := sampledFrom(names[n]).Draw(t, "place")
		c := IDCase{Edit: n, Width: pr.Width, Deep: len(s.path) > 1}
		for k := 0; k < nvar; k++ {
			a := pr.Bus.dup()
			if k > 0 {
				a.suffix(fmt.Sprintf("%c%d", 'a'+k*5%26, k*k*37))
			}
			if nvar > 4 && k >= 3 {
				// Changes of few bits of a checksum are not independent of each other, if only names differ.
				a.Raw["width"] = vInt([]int64{31, 23, 29, 27, 25}[k-3])
			}
			if s.g != nil {
				s.g(at(a, s.path), int64(k))
			}
			b := a.dup()
			if s.f == nil {
				par := at(b, s.path[:len(s.path)-1])
				i := s.path[len(s.path)-1]
				par.Kids = append(append([]*M(nil), par.Kids[:i]...), par.Kids[i+1:]...)
			} else {
				s.f(at(b, s.path), int64(k))
			}
			p := IDPair{A: flatProg(a).render(canonStyle), B: flatProg(b).render(canonStyle)}
			if _, _, err := newElab(flatProg(b)).Run("main"); err != nil {
				continue
			}
			c.Vars = append(c.Vars, p)
		}
		if len(c.Vars) < nvar {
			c.Vars = nil
		}
		return c
	}
}

// interfaceOf keeps what the ID stands for.
func interfaceOf(v any) any {
	switch v := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, x := range v {
			switch k {
			case "Range", "ReadValue", "ResetValue", "Delay", "Align", "Reset", "EnableAccess", "ClearAddr", "Doc":
				continue
			}
			o[k] = interfaceOf(x)
		}
		if v["Name"] == "ID" {
			delete(o, "InitValue")
		}
		return o
	case []any:
		o := []any{}
		for _, x := range v {
			o = append(o, interfaceOf(x))
		}
		return o
	}
	return v
}

func idOf(o Out) (*JBlock, string, error) {
	bus, err := decodeBus(o.Stdout)
	if err != nil {
		return nil, "", err
	}
	id := bus.static("ID")
	if id == nil {
		return nil, "", fmt.Errorf("there is no ID")
	}
	d, err := binDigits(id.InitValue)
	if err != nil {
		return nil, "", err
	}
	d = strings.TrimLeft(d, "0")
	if w := min(bus.Width, 32); id.Width != w || int64(len(d)) > w || strings.Trim(d, "01") != "" {
		return nil, "", fmt.Errorf("ID %s has width %d, bus width is %d", id.InitValue, id.Width, bus.Width)
	}
	return bus, d, nil
}

func runID(env *Env, c *IDCase) Result {
	if len(c.Vars) == 0 {
		return Result{Skip: true, Labels: []string{"edit is not valid"}}
	}
	labels := []string{c.Edit}
	for i, v := range c.Vars {
		a, b := env.Compile(v.A, "bus.fbd"), env.Compile(v.B, "bus.fbd")
		if s := a.infra() + b.infra(); s != "" {
			return Result{Infra: s}
		}
		if a.Code != 0 || b.Code != 0 {
			return Result{Skip: true, Labels: []string{"rejected"}}
		}
		_, ia, err := idOf(a)
		if err != nil {
			return fail("%v", err)
		}
		_, ib, err := idOf(b)
		if err != nil {
			return fail("%v", err)
		}
		if ia != ib {
			if i > 0 {
				labels = append(labels, "collision")
			}
			return Result{NonTrivial: true, Labels: labels}
		}
		var ga, gb any
		must(json.Unmarshal(a.Stdout, &ga))
		must(json.Unmarshal(b.Stdout, &gb))
		if diffAny(interfaceOf(ga), interfaceOf(gb), "") == "" {
			return Result{Skip: true, Labels: []string{"edit without effect"}}
		}
	}
	return fail("edit of the interface (%s) does not change the ID, tried %d variants", c.Edit, len(c.Vars))
}

// ---------------------------------------------------------------------------
// Functionalities of different kinds with the same names and registers.

var kindPairs = [][2]string{
	{"config", "mask"}, {"config", "static"}, {"config", "status"}, {"config", "irq"}, {"mask", "static"}, {"mask", "status"},
	{"mask", "irq"}, {"static", "status"}, {"static", "irq"}, {"status", "irq"}, {"param", "return"}, {"proc", "stream"},
	{"block", "blackbox"}, {"block", "group"}, {"proc", "block"}, {"proc", "group"},
}

func genKindPair(t *rapid.T) IDCase {
	p := sampledFrom(kindPairs).Draw(t, "kinds")
	in := "bus"
	switch {
	case p[0] == "param":
		in = sampledFrom([]string{"proc", "stream"}).Draw(t, "in")
	case p[0] != "proc" && p[0] != "block" && chance(t, 30, "inner"):
		in = sampledFrom([]string{"block", "group"}).Draw(t, "in")
	}
	c := IDCase{Edit: fmt.Sprintf("%s instead of %s in %s", p[1], p[0], in), Width: 32}
	w := sampledFrom([]int64{1, 3, 7, 8, 16, 31, 32}).Draw(t, "width")
	at := intRange(0, 1).Draw(t, "atomic") == 1
	array := p[1] != "irq" && p[0] != "proc" && p[0] != "block" && w > 1 && at && chance(t, 20, "array")
	for k := int64(0); k < 4; k++ {
		side := func(kind string) *M {
			m := &M{Kind: kind, Name: fmt.Sprintf("name%d%s", k*k*7919, strings.Repeat("z", int(k))), Raw: map[string]Val{}, IsArray: array, Count: 1}
			if array {
				m.Count = 2 + k
			}
			w := w
			if p[1] == "irq" {
				w = 1
			}
			switch kind {
			case "static":
				m.Raw["init-value"] = vInt(0)
				m.Raw["width"] = vInt(w)
			case "config", "mask", "status":
				m.Raw["atomic"] = Val{K: "bool", B: at}
				m.Raw["width"] = vInt(w)
			case "param", "return":
				m.Raw["width"] = vInt(w)
			case "blackbox":
				m.Raw["size"] = vInt(1)
			case "proc", "stream":
				m.Kids = []*M{{Kind: "param", Name: "p", Count: 1, Raw: map[string]Val{"width": vInt(w)}}}
			case "block":
				m.Kids = []*M{{Kind: "config", Name: "p", Count: 1, Raw: map[string]Val{"width": vInt(w)}}}
			case "group":
				m.Raw["virtual"] = Val{K: "bool", B: true}
				m.Kids = []*M{{Kind: "config", Name: "p", Count: 1, Raw: map[string]Val{"width": vInt(w)}}}
			}
			bus := &M{Kind: "bus", Name: "main", Count: 1, Raw: map[string]Val{}}
			if in == "bus" {
				bus.Kids = []*M{m}
			} else {
				o := &M{Kind: in, Name: fmt.Sprintf("outer%d", k*31), Count: 1, Raw: map[string]Val{}, Kids: []*M{m}}
				if in == "group" {
					o.Raw["virtual"] = Val{K: "bool", B: true}
				}
				bus.Kids = []*M{o}
			}
			return bus
		}
		c.Vars = append(c.Vars, IDPair{A: flatProg(side(p[0])).render(canonStyle), B: flatProg(side(p[1])).render(canonStyle)})
	}
	return c
}

// ---------------------------------------------------------------------------
// Every bit of the ID carries information.

type BitsCase struct {
	Srcs  []Files `json:"srcs"`
	Width int64   `json:"width"`
}

func (c *BitsCase) Describe() string { return c.Srcs[0].String() }

func genBits(t *rapid.T) BitsCase {
	cfg := idCfg
	cfg.MaxKids = 4
	cfg.BusWidths = []int64{1, 2, 3, 5, 7, 8, 12, 15, 16, 17, 24, 30, 31, 32, 33, 34, 36, 48, 63, 64, 65, 128}
	pr := genProgram(t, cfg)
	c := BitsCase{Width: pr.Width}
	for k := 0; k < 70; k++ {
		m := pr.Bus.dup()
		// The checksum of a bus is made of the ones of its functionalities. Enough of them are needed to
		// make all of its digits change.
		for i := 0; i < 2*k; i++ {
			m.Kids = append(m.Kids, &M{Kind: "status", Name: fmt.Sprintf("salt%d_%d", k*k*7919, i), Raw: map[string]Val{"width": vInt(1)}})
		}
		c.Srcs = append(c.Srcs, flatProg(m).render(canonStyle))
	}
	return c
}

func runBits(env *Env, c *BitsCase) Result {
	w := int(min(c.Width, 32))
	seen := make([][2]bool, w)
	for _, s := range c.Srcs {
		o := env.Compile(s, "bus.fbd")
		if s := o.infra(); s != "" {
			return Result{Infra: s}
		}
		if o.Code != 0 {
			return Result{Skip: true}
		}
		_, id, err := idOf(o)
		if err != nil {
			return fail("%v", err)
		}
		for i := range seen {
			d := byte('0')
			if i < len(id) {
				d = id[len(id)-1-i]
			}
			seen[i][d-'0'] = true
		}
	}
	for i, s := range seen {
		if !s[0] || !s[1] {
			return fail("bit %d of the ID is the same for %d buses of width %d with different numbers of statuses", i, len(c.Srcs), c.Width)
		}
	}
	return Result{NonTrivial: true, Labels: []string{fmt.Sprintf("width %d", c.Width)}}
}

// ---------------------------------------------------------------------------
// Equal interfaces have equal IDs.

func runIDPair(env *Env, c *PairCase) Result {
	a, b := env.Compile(c.A, "bus.fbd"), env.Compile(c.B, "bus.fbd")
	if s := a.infra() + b.infra(); s != "" {
		return Result{Infra: s}
	}
	if a.Code != 0 || b.Code != 0 {
		return Result{Skip: true, Labels: []string{"rejected"}}
	}
	_, ia, err := idOf(a)
	if err != nil {
		return fail("%v", err)
	}
	_, ib, err := idOf(b)
	if err != nil {
		return fail("%v", err)
	}
	if ia != ib {
		return fail("the same interface has ID %s and %s", ia, ib)
	}
	return Result{NonTrivial: c.NT, Labels: c.Labels}
}

func genSpelled(t *rapid.T) PairCase {
	cfg := fullCfg
	cfg.Types = 60
	pr := genProgram(t, cfg)
	q := flatProg(pr.Bus)
	for _, pk := range q.Pkgs {
		for _, f := range pk.Files {
			permuteProps(t, f.Items)
		}
	}
	c := PairCase{A: pr.Prog.render(canonStyle), B: q.render(Style{Ch: drawChooser(t)})}
	c.Labels, _ = pr.stats()
	c.NT = c.A["bus.fbd"] != c.B["bus.fbd"]
	return c
}

// ---------------------------------------------------------------------------
// The ID does not depend on the value of the timestamp.

type StampCase struct {
	Srcs []Files `json:"srcs"`
}

func (c *StampCase) Describe() string { return c.Srcs[0].String() }

func genStamp(t *rapid.T) StampCase {
	c := StampCase{}
	for i := 0; i < 12; i++ {
		cfg := layoutCfg
		cfg.MaxKids = 5
		if i == 0 {
			cfg.BusWidths = []int64{32}
		}
		c.Srcs = append(c.Srcs, genProgram(t, cfg).Prog.render(canonStyle))
	}
	return c
}

func runStamp(env *Env, c *StampCase) Result {
	type res struct{ id, ts string }
	pass := func() ([]res, string, string) {
		rs := []res{}
		for _, s := range c.Srcs {
			o := env.Compile(s, "bus.fbd", "-add-timestamp")
			if s := o.infra(); s != "" {
				return nil, s, ""
			}
			if o.Code != 0 {
				rs = append(rs, res{})
				continue
			}
			bus, id, err := idOf(o)
			if err != nil {
				return nil, "", err.Error()
			}
			ts := bus.static("TIMESTAMP")
			if ts == nil {
				return nil, "", "there is no timestamp"
			}
			rs = append(rs, res{id, ts.InitValue})
		}
		return rs, "", ""
	}
	a, inf, f := pass()
	if inf != "" {
		return Result{Infra: inf}
	}
	if f != "" {
		return fail("%s", f)
	}
	time.Sleep(1100 * time.Millisecond)
	b, inf, f := pass()
	if inf != "" {
		return Result{Infra: inf}
	}
	if f != "" {
		return fail("%s", f)
	}
	n := 0
	for i := range a {
		if a[i].id != b[i].id {
			return fail("description %d: ID is %s at timestamp %s and %s at timestamp %s", i, a[i].id, a[i].ts, b[i].id, b[i].ts)
		}
		if a[i].ts != b[i].ts {
			n++
		}
	}
	return Result{NonTrivial: n > 0, Labels: []string{fmt.Sprintf("%d timestamps differ", n)}}
}

func init() {
	register("C14", "a random bus and the same bus with one edit of its interface (name, array, count, width, initial value, atomicity, irq property, masters, size, added, changed, renamed or removed constant, removed or swapped functionality) at a random depth, or the same bus with a functionality of another kind, ID must differ in at least one of 4 (8) variants with other names and other extents of the edit (and, for an ID of few bits, other bus widths); every bit of the ID takes both values over 70 buses; the same interface written in two ways, and with timestamps of different seconds, has one ID; non-trivial: edit is effective",
		sub("edit", 7000, 90000, genID([]int64{32, 32, 32, 33, 40, 48, 64, 64, 96, 128}, 4), runID),
		sub("edit-narrow", 1500, 25000, genID([]int64{16, 17, 20, 24, 28, 30, 31}, 8), runID),
		sub("kinds", 400, 4000, genKindPair, runID),
		sub("bits", 24, 300, genBits, runBits),
		sub("spelled", 2500, 40000, genSpelled, runIDPair),
		sub("stamp", 24, 240, genStamp, runStamp),
	)
}
