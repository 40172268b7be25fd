package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// LayoutCase is a description compiled to check the layout of its registers.
type LayoutCase struct {
	Src       Files  `json:"src"`
	BusWidth  int64  `json:"bus_width"`
	Timestamp bool   `json:"timestamp,omitempty"`
	Labels    string `json:"labels,omitempty"`
	Fits      bool   `json:"fits,omitempty"` // the bus must not be refused
}

func (c *LayoutCase) Describe() string { return c.Src.String() }

func genLayout(cfg GenCfg) func(t *rapid.T) LayoutCase {
	return func(t *rapid.T) LayoutCase {
		pr := genProgram(t, cfg)
		c := LayoutCase{Src: pr.Prog.render(canonStyle), BusWidth: pr.Width}
		c.Timestamp = chance(t, 20, "timestamp")
		ls, _ := pr.stats()
		kinds := map[string]int{}
		var walk func(m *M)
		walk = func(m *M) {
			kinds[m.Kind]++
			if m.IsArray {
				kinds["array"]++
			}
			for _, k := range m.Kids {
				walk(k)
			}
		}
		walk(pr.Bus)
		for _, k := range []string{"array", "proc", "stream", "irq", "mask", "block"} {
			if kinds[k] > 0 {
				ls = append(ls, k)
			}
		}
		c.Labels = strings.Join(ls, ",")
		return c
	}
}

// layoutOracle makes an oracle from a check of the compiled bus.
// Rejected descriptions are not a matter of layout properties, C06 covers them.
func layoutOracle(check func(bus *JBlock, bw int64) error, nontrivial func(b *JBlock) bool) func(env *Env, c *LayoutCase) Result {
	return func(env *Env, c *LayoutCase) Result {
		args := []string{}
		if c.Timestamp {
			args = append(args, "-add-timestamp")
		}
		o := env.Compile(c.Src, "bus.fbd", args...)
		if s := o.infra(); s != "" {
			return Result{Infra: s}
		}
		if o.Code != 0 {
			if c.Fits {
				return fail("bus which is not too large is refused: %s", o.brief())
			}
			return Result{Skip: true, Labels: []string{"rejected"}}
		}
		bus, err := decodeBus(o.Stdout)
		if err != nil {
			return fail("result is not valid: %v", err)
		}
		if bus.Width != c.BusWidth {
			return fail("bus width is %d, declared %d", bus.Width, c.BusWidth)
		}
		if err := check(bus, c.BusWidth); err != nil {
			return fail("%v", err)
		}
		ls := []string{}
		if c.Labels != "" {
			ls = strings.Split(c.Labels, ",")
		}
		for _, a := range accesses(bus) {
			ls = append(ls, "access "+a.A.Type)
			break
		}
		return Result{NonTrivial: nontrivial(bus), Labels: ls}
	}
}

func countAcc(b *JBlock) int {
	n := 0
	walkBlocks(b, "", func(b *JBlock, _ string, _ bool) error {
		n += len(accesses(b))
		return nil
	})
	return n
}

// wide and narrow variants of the layout generator.
func layoutVariant(kinds []string, kids int, depth int, bws []int64) GenCfg {
	c := layoutCfg
	c.Kinds = kinds
	c.MaxKids = kids
	c.MaxDepth = depth
	c.BusWidths = bws
	return c
}

var gapKinds = []string{"config", "config", "static", "static", "status", "status", "status", "status", "irq", "irq", "mask"}
var frameKinds = []string{"proc", "proc", "proc", "stream", "stream", "config", "status", "irq"}
var blockKinds = []string{"block", "block", "block", "block", "config", "status", "irq", "proc", "blackbox"}

// DirectAccess is a call of the access constructors of the library.
type DirectAccess struct {
	Kind                        string
	BW, Addr, Bit, Width, Count int64
}

func genDirect(t *rapid.T) DirectAccess {
	c := DirectAccess{}
	c.BW = rapid.OneOf(sampledFrom([]int64{1, 8, 16, 32, 64}), rapid.Int64Range(1, 70)).Draw(t, "bw")
	c.Addr = rapid.Int64Range(0, 100).Draw(t, "addr")
	kinds := []string{"Single", "SingleOneReg", "SingleNRegs", "ArrayOneReg", "ArrayOneInReg", "ArrayNRegs", "ArrayNInReg", "ArrayNInRegMInEndReg", "ArrayOneInNRegs"}
	c.Kind = sampledFrom(kinds).Draw(t, "kind")
	c.Bit = rapid.Int64Range(0, c.BW-1).Draw(t, "bit")
	c.Count = 1
	room := c.BW - c.Bit
	switch c.Kind {
	case "Single":
		c.Width = rapid.Int64Range(1, 5*c.BW).Draw(t, "w")
	case "SingleOneReg":
		c.Width = rapid.Int64Range(1, room).Draw(t, "w")
	case "SingleNRegs":
		c.Width = room + rapid.Int64Range(1, 4*c.BW).Draw(t, "w")
	case "ArrayOneReg":
		c.Width = rapid.Int64Range(1, room).Draw(t, "w")
		c.Count = rapid.Int64Range(1, room/c.Width).Draw(t, "n")
	case "ArrayOneInReg":
		c.Width = rapid.Int64Range(1, room).Draw(t, "w")
		c.Count = rapid.Int64Range(1, 50).Draw(t, "n")
	case "ArrayNRegs":
		c.Width = rapid.Int64Range(1, 3*c.BW).Draw(t, "w")
		c.Count = rapid.Int64Range(1, 50).Draw(t, "n")
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		c.Bit = 0
		c.Width = rapid.Int64Range(1, c.BW).Draw(t, "w")
		k := c.BW / c.Width
		c.Count = k * rapid.Int64Range(1, 10).Draw(t, "n")
		if c.Kind == "ArrayNInRegMInEndReg" {
			if k < 2 {
				c.Kind = "ArrayNInReg"
			} else {
				// The array must not fit into one register, ArrayOneReg is the kind for it.
				c.Count += rapid.Int64Range(1, k-1).Draw(t, "m")
			}
		}
	case "ArrayOneInNRegs":
		c.Bit = 0
		c.Width = c.BW + rapid.Int64Range(1, 3*c.BW).Draw(t, "w")
		c.Count = rapid.Int64Range(1, 20).Draw(t, "n")
	}
	return c
}

func runDirect(env *Env, c *DirectAccess) Result {
	r := env.Lib(LibReq{Op: "access", S: c.Kind, N: []int64{c.BW, c.Addr, c.Bit, c.Width, c.Count}})
	if r.Hang {
		return Result{Infra: "library helper: " + r.Died}
	}
	if r.Panic != "" || r.Died != "" || r.Err != "" {
		return fail("%+v: %s%s%s", *c, r.Panic, r.Died, r.Err)
	}
	a := Access{}
	if err := strictUnmarshal(r.J, &a); err != nil {
		return fail("%v", err)
	}
	if c.Kind != "Single" && a.Type != c.Kind {
		return fail("%+v: access of type %s", *c, a.Type)
	}
	if a.StartAddr != c.Addr || a.StartBit != c.Bit {
		return fail("%+v: access starts at register %d bit %d", *c, a.StartAddr, a.StartBit)
	}
	if err := checkAccess(a, c.BW, c.Count, c.Width, !strings.HasPrefix(c.Kind, "Single")); err != nil {
		return fail("%+v: %v (%+v)", *c, err, a)
	}
	return Result{NonTrivial: a.RegCount > 1 || c.Count > 1, Labels: []string{a.Type, fmt.Sprint("multireg ", a.RegCount > 1)}}
}

func lib(s *Sub) *Sub { s.NeedLib = true; return s }

func init() {
	many := func(b *JBlock) bool { return countAcc(b) >= 4 }
	reg := func(id, rule string, check func(*JBlock, int64) error, nt func(*JBlock) bool, extra ...*Sub) {
		o := layoutOracle(check, nt)
		subs := []*Sub{
			sub("general", 16000, 120000, genLayout(layoutCfg), o),
			sub("gaps", 12000, 120000, genLayout(layoutVariant(gapKinds, 14, 1, nil)), o),
			sub("frames", 8000, 70000, genLayout(layoutVariant(frameKinds, 8, 1, nil)), o),
			sub("narrow", 6000, 50000, genLayout(layoutVariant(layoutKinds, 10, 1, []int64{1, 2, 3, 4, 5, 7, 8})), o),
			sub("blocks", 6000, 50000, genLayout(layoutVariant(blockKinds, 6, 4, []int64{8, 32})), o),
			sub("large", 4000, 40000, genLayout(largeLayoutCfg), o),
		}
		register(id, rule, append(subs, extra...)...)
	}
	huge := func(check func(*JBlock, int64) error) *Sub {
		return sub("huge", 4000, 40000, genHuge, layoutOracle(check, func(*JBlock) bool { return true }))
	}
	rule := "random valid descriptions (functionality kinds, widths around the bus width, arrays, optional types and constants, nested blocks) compiled with the command line tool; "
	reg("C01", rule+"non-trivial: at least 4 accesses decoded to bits in the compiled bus", checkC01, many, huge(checkHugeC01))
	reg("C02", rule+"plus direct calls of the access constructors; non-trivial: at least 4 accesses checked, or a direct access with several items or registers", checkC02, many,
		huge(checkHugeC02),
		sub("any array", 3000, 30000, genLayout(arraysCfg), layoutOracle(checkC02, func(b *JBlock) bool { return countAcc(b) > 0 })),
		lib(sub("direct", 60000, 600000, genDirect, runDirect)))
	reg("C03", rule+"non-trivial: the bus has at least one subblock", checkC03, func(b *JBlock) bool { return len(b.Subblocks) > 0 }, huge(checkHugeC03))
	reg("C04", rule+"non-trivial: at least 4 accesses in the compiled bus", checkC04, many)
	reg("C05", rule+"non-trivial: the bus has a procedure or stream", checkC05, func(b *JBlock) bool {
		n := 0
		walkBlocks(b, "", func(b *JBlock, _ string, _ bool) error {
			n += len(b.Procs) + len(b.Streams)
			return nil
		})
		return n > 0
	}, huge(checkHugeC05))
}
