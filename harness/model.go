package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Structures of the compiler output. They are written down here independently of the
// repository types, as a user of the JSON output would do it.

type Func struct {
	Name    string
	Doc     string
	IsArray bool
	Count   int64
}

type Access struct {
	Type          string
	RegCount      int64
	RegWidth      int64
	ItemCount     int64
	ItemWidth     int64
	StartAddr     int64
	EndAddr       int64
	StartBit      int64
	EndBit        int64
	StartRegWidth int64
	EndRegWidth   int64
}

type SRange struct{ Start, End int64 }

// RangeV is a range property: null, object or array.
type RangeV struct {
	Single *SRange
	List   []SRange
}

func (r *RangeV) UnmarshalJSON(b []byte) error {
	b = bytes.TrimSpace(b)
	*r = RangeV{}
	if string(b) == "null" {
		return nil
	}
	if len(b) > 0 && b[0] == '[' {
		r.List = []SRange{}
		return strictUnmarshal(b, &r.List)
	}
	r.Single = &SRange{}
	return strictUnmarshal(b, r.Single)
}

func (r RangeV) MarshalJSON() ([]byte, error) {
	if r.Single != nil {
		return json.Marshal(r.Single)
	}
	if r.List != nil {
		return json.Marshal(r.List)
	}
	return []byte("null"), nil
}

func (r RangeV) String() string {
	b, _ := json.Marshal(r)
	return string(b)
}

type Sizes struct{ Own, Cumulated, Aligned int64 }

type Consts struct {
	Bools     map[string]bool
	BoolLists map[string][]bool
	Floats    map[string]float64
	Ints      map[string]int64
	IntLists  map[string][]int64
	Strings   map[string]string
}

type TimeV struct{ S, Ns int64 }

type JBlackbox struct {
	Func
	Size      int64
	Sizes     Sizes
	AddrSpace SRange
}

type JConfig struct {
	Func
	Atomic                           bool
	InitValue, ReadValue, ResetValue string
	Range                            RangeV
	Width                            int64
	Access                           Access
}

type JMask struct {
	Func
	Atomic                           bool
	InitValue, ReadValue, ResetValue string
	Width                            int64
	Access                           Access
}

type JStatic struct {
	Func
	InitValue, ReadValue, ResetValue string
	Width                            int64
	Access                           Access
}

type JStatus struct {
	Func
	Atomic    bool
	ReadValue string
	Width     int64
	Access    Access
}

type JIrq struct {
	Func
	AddEnable                         bool
	Clear                             string
	EnableInitValue, EnableResetValue string
	InTrigger, OutTrigger             string
	Access, EnableAccess              Access
	ClearAddr                         *int64
}

type JParam struct {
	Func
	Range  RangeV
	Width  int64
	Access Access
}

type JReturn struct {
	Func
	Width  int64
	Access Access
}

type JProc struct {
	Func
	Delay              *TimeV
	Params             []*JParam
	Returns            []*JReturn
	CallAddr, ExitAddr *int64
}

type JStream struct {
	Func
	Delay   *TimeV
	Params  []*JParam
	Returns []*JReturn
	StbAddr int64
}

type JGroup struct {
	Func
	Virtual  bool
	Consts   Consts
	Configs  []*JConfig
	Irqs     []*JIrq
	Masks    []*JMask
	Params   []*JParam
	Returns  []*JReturn
	Statics  []*JStatic
	Statuses []*JStatus
}

type JBlock struct {
	Func
	Align, Masters int64
	Reset          string
	Width          int64
	Sizes          Sizes
	AddrSpace      SRange
	Consts         Consts
	Blackboxes     []*JBlackbox
	Configs        []*JConfig
	Groups         []*JGroup
	Irqs           []*JIrq
	Masks          []*JMask
	Procs          []*JProc
	Statics        []*JStatic
	Statuses       []*JStatus
	Streams        []*JStream
	Subblocks      []*JBlock
}

func strictUnmarshal(b []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(v); err != nil {
		return err
	}
	rest := b[d.InputOffset():]
	if len(bytes.TrimSpace(rest)) != 0 {
		return fmt.Errorf("trailing data after the result: %.60q", rest)
	}
	return nil
}

func decodeBus(b []byte) (*JBlock, error) {
	var blk *JBlock
	if err := strictUnmarshal(b, &blk); err != nil {
		return nil, err
	}
	if blk == nil {
		return nil, fmt.Errorf("result is null")
	}
	return blk, nil
}

func (b *JBlock) static(name string) *JStatic {
	for _, s := range b.Statics {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// Expected model

// M is an expected (or flattened actual) functionality.
type M struct {
	Kind    string `json:"k"`
	Name    string `json:"n"`
	Doc     string `json:"d,omitempty"`
	IsArray bool   `json:"a,omitempty"`
	Count   int64  `json:"c,omitempty"`

	Width   int64   `json:"w,omitempty"`
	Atomic  bool    `json:"at,omitempty"`
	Init    string  `json:"iv,omitempty"` // canonical binary digits padded to width, "" if not set
	Read    string  `json:"rv,omitempty"`
	Reset   string  `json:"sv,omitempty"`
	Range   *RangeV `json:"r,omitempty"`
	Align   int64   `json:"al,omitempty"`
	Masters int64   `json:"m,omitempty"`
	Rst     string  `json:"rs,omitempty"`

	AddEnable  bool   `json:"ae,omitempty"`
	Clear      string `json:"cl,omitempty"`
	InTrigger  string `json:"it,omitempty"`
	OutTrigger string `json:"ot,omitempty"`

	Delay   *TimeV `json:"dl,omitempty"`
	Size    int64  `json:"sz,omitempty"`
	Virtual bool   `json:"v,omitempty"`

	Consts *Consts `json:"co,omitempty"`

	Raw  map[string]Val `json:"-"` // property values as evaluated
	Kids []*M           `json:"ks,omitempty"`
}

func (m *M) clone() *M {
	n := *m
	n.Kids = nil
	for _, k := range m.Kids {
		n.Kids = append(n.Kids, k.clone())
	}
	return &n
}

func (m *M) isBlock() bool { return m.Kind == "block" || m.Kind == "bus" }

// binDigits expands bit string literal to its binary digits.
func binDigits(bs string) (string, error) {
	if len(bs) < 3 || bs[1] != '"' || bs[len(bs)-1] != '"' {
		return "", fmt.Errorf("malformed bit string %q", bs)
	}
	n := map[byte]int{'b': 1, 'B': 1, 'o': 3, 'O': 3, 'x': 4, 'X': 4}[bs[0]]
	if n == 0 {
		return "", fmt.Errorf("malformed bit string %q", bs)
	}
	b := strings.Builder{}
	for i := 2; i < len(bs)-1; i++ {
		c := bs[i]
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case n == 4 && c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case n == 4 && c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		case strings.IndexByte("-uUwWxXzZhHlL", c) >= 0:
			for j := 0; j < n; j++ {
				b.WriteByte(c)
			}
			continue
		default:
			return "", fmt.Errorf("malformed bit string %q", bs)
		}
		if d >= 1<<n {
			return "", fmt.Errorf("malformed bit string %q", bs)
		}
		for j := n - 1; j >= 0; j-- {
			b.WriteByte('0' + byte(d>>j&1))
		}
	}
	return b.String(), nil
}

// canonBits canonicalises bit string as binary digits extended with zeros to width.
// A bit string wider than the width is returned as it is with a mark.
func canonBits(bs string, width int64) string {
	if bs == "" {
		return ""
	}
	d, err := binDigits(bs)
	if err != nil {
		return err.Error()
	}
	if int64(len(d)) > width {
		return fmt.Sprintf("%s (wider than %d)", d, width)
	}
	return strings.Repeat("0", int(width)-len(d)) + d
}

func rangePtr(r RangeV) *RangeV {
	if r.Single == nil && r.List == nil {
		return nil
	}
	return &r
}

func constsPtr(c Consts) *Consts {
	if len(c.Bools) == 0 && len(c.BoolLists) == 0 && len(c.Floats) == 0 && len(c.Ints) == 0 && len(c.IntLists) == 0 && len(c.Strings) == 0 {
		return nil
	}
	return &c
}

func setFunc(m *M, f Func) *M {
	m.Name, m.Doc, m.IsArray, m.Count = f.Name, f.Doc, f.IsArray, f.Count
	return m
}

func (c *JConfig) M() *M {
	return setFunc(&M{Kind: "config", Width: c.Width, Atomic: c.Atomic, Init: canonBits(c.InitValue, c.Width),
		Read: canonBits(c.ReadValue, c.Width), Reset: canonBits(c.ResetValue, c.Width), Range: rangePtr(c.Range)}, c.Func)
}
func (c *JMask) M() *M {
	return setFunc(&M{Kind: "mask", Width: c.Width, Atomic: c.Atomic, Init: canonBits(c.InitValue, c.Width),
		Read: canonBits(c.ReadValue, c.Width), Reset: canonBits(c.ResetValue, c.Width)}, c.Func)
}
func (c *JStatic) M() *M {
	return setFunc(&M{Kind: "static", Width: c.Width, Init: canonBits(c.InitValue, c.Width),
		Read: canonBits(c.ReadValue, c.Width), Reset: canonBits(c.ResetValue, c.Width)}, c.Func)
}
func (c *JStatus) M() *M {
	return setFunc(&M{Kind: "status", Width: c.Width, Atomic: c.Atomic, Read: canonBits(c.ReadValue, c.Width)}, c.Func)
}
func (c *JIrq) M() *M {
	return setFunc(&M{Kind: "irq", AddEnable: c.AddEnable, Clear: c.Clear, Init: canonBits(c.EnableInitValue, 1),
		Reset: canonBits(c.EnableResetValue, 1), InTrigger: c.InTrigger, OutTrigger: c.OutTrigger}, c.Func)
}
func (c *JParam) M() *M {
	return setFunc(&M{Kind: "param", Width: c.Width, Range: rangePtr(c.Range)}, c.Func)
}
func (c *JReturn) M() *M { return setFunc(&M{Kind: "return", Width: c.Width}, c.Func) }
func (c *JProc) M() *M {
	m := setFunc(&M{Kind: "proc", Delay: c.Delay}, c.Func)
	for _, p := range c.Params {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Returns {
		m.Kids = append(m.Kids, p.M())
	}
	return m
}
func (c *JStream) M() *M {
	m := setFunc(&M{Kind: "stream", Delay: c.Delay}, c.Func)
	for _, p := range c.Params {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Returns {
		m.Kids = append(m.Kids, p.M())
	}
	return m
}
func (c *JBlackbox) M() *M { return setFunc(&M{Kind: "blackbox", Size: c.Size}, c.Func) }
func (c *JGroup) M() *M {
	m := setFunc(&M{Kind: "group", Virtual: c.Virtual, Consts: constsPtr(c.Consts)}, c.Func)
	for _, p := range c.Configs {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Irqs {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Masks {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Params {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Returns {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Statics {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Statuses {
		m.Kids = append(m.Kids, p.M())
	}
	return m
}
func (c *JBlock) M(kind string) *M {
	m := setFunc(&M{Kind: kind, Width: c.Width, Align: c.Align, Masters: c.Masters, Rst: c.Reset, Consts: constsPtr(c.Consts)}, c.Func)
	for _, p := range c.Blackboxes {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Configs {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Groups {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Irqs {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Masks {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Procs {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Statics {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Statuses {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Streams {
		m.Kids = append(m.Kids, p.M())
	}
	for _, p := range c.Subblocks {
		m.Kids = append(m.Kids, p.M("block"))
	}
	return m
}

// orderedInside tells whether order of inner functionalities is meaningful.
func orderedInside(kind string) bool { return kind == "proc" || kind == "stream" }

// diffM compares models, want against got, and returns the first difference.
func diffM(want, got *M, path string) string {
	p := path + "/" + want.Name
	a, b := *want, *got
	a.Kids, b.Kids = nil, nil
	if b.Consts != nil && a.Consts == nil || b.Consts == nil && a.Consts != nil {
		wj, _ := json.Marshal(a.Consts)
		gj, _ := json.Marshal(b.Consts)
		return fmt.Sprintf("%s: constants differ, want %s, got %s", p, wj, gj)
	}
	wj, _ := json.Marshal(a)
	gj, _ := json.Marshal(b)
	if !bytes.Equal(wj, gj) {
		return fmt.Sprintf("%s: want %s, got %s", p, wj, gj)
	}
	if orderedInside(want.Kind) {
		if len(want.Kids) != len(got.Kids) {
			return fmt.Sprintf("%s: want %d inner functionalities, got %d", p, len(want.Kids), len(got.Kids))
		}
		for i := range want.Kids {
			if d := diffM(want.Kids[i], got.Kids[i], p); d != "" {
				return d
			}
		}
		return ""
	}
	key := func(m *M) string { return m.Kind + " " + m.Name }
	wk, gk := map[string]*M{}, map[string]*M{}
	for _, k := range want.Kids {
		if wk[key(k)] != nil {
			panic("duplicate in expected model: " + key(k))
		}
		wk[key(k)] = k
	}
	for _, k := range got.Kids {
		if gk[key(k)] != nil {
			return fmt.Sprintf("%s: %s emitted twice", p, key(k))
		}
		gk[key(k)] = k
	}
	names := []string{}
	for k := range wk {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if gk[k] == nil {
			return fmt.Sprintf("%s: %s is missing in the result", p, k)
		}
		if d := diffM(wk[k], gk[k], p); d != "" {
			return d
		}
	}
	for _, k := range got.Kids {
		if wk[key(k)] == nil {
			return fmt.Sprintf("%s: unexpected %s in the result", p, key(k))
		}
	}
	return ""
}

// dropGenerated removes ID and TIMESTAMP from the main bus.
func dropGenerated(bus *M, timestamp bool) string {
	kids := []*M{}
	id, ts := 0, 0
	for _, k := range bus.Kids {
		if k.Kind == "static" && k.Name == "ID" {
			id++
			continue
		}
		if k.Kind == "static" && k.Name == "TIMESTAMP" {
			ts++
			continue
		}
		kids = append(kids, k)
	}
	bus.Kids = kids
	if id != 1 {
		return fmt.Sprintf("bus has %d ID statics", id)
	}
	want := 0
	if timestamp {
		want = 1
	}
	if ts != want {
		return fmt.Sprintf("bus has %d TIMESTAMP statics, want %d", ts, want)
	}
	return ""
}
