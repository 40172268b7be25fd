package main

import "fmt"

// Span is a run of bits in one register.
type Span struct {
	Reg      int64
	Lo, Hi   int64
	Item     int64
	ItemBase int64 // index of the lowest bit within the item
}

// spans decodes an access descriptor following the documented layout of its kind.
func spans(a Access, bw int64) ([]Span, error) {
	out := []Span{}
	w, n := a.ItemWidth, a.ItemCount
	if w < 1 || n < 1 {
		return nil, fmt.Errorf("access with %d items of width %d", n, w)
	}
	if n*w > 1<<22 {
		return nil, fmt.Errorf("access too large for the oracle")
	}
	if a.StartBit < 0 || a.StartBit >= bw || a.StartAddr < 0 {
		return nil, fmt.Errorf("access starts at bit %d of register %d", a.StartBit, a.StartAddr)
	}
	// run places width bits continuously starting from given position.
	run := func(item, reg, bit, width, base int64) (int64, int64) {
		for width > 0 {
			k := min(width, bw-bit)
			out = append(out, Span{Reg: reg, Lo: bit, Hi: bit + k - 1, Item: item, ItemBase: base})
			base += k
			width -= k
			bit += k
			if bit == bw {
				bit = 0
				reg++
			}
		}
		return reg, bit
	}
	one := func() error {
		if n != 1 {
			return fmt.Errorf("%s access with %d items", a.Type, n)
		}
		return nil
	}
	switch a.Type {
	case "SingleOneReg":
		if err := one(); err != nil {
			return nil, err
		}
		if a.StartBit+w > bw {
			return nil, fmt.Errorf("SingleOneReg: bits %d..%d leave register", a.StartBit, a.StartBit+w-1)
		}
		run(0, a.StartAddr, a.StartBit, w, 0)
	case "SingleNRegs":
		if err := one(); err != nil {
			return nil, err
		}
		if a.StartBit+w <= bw {
			return nil, fmt.Errorf("SingleNRegs used for single register")
		}
		run(0, a.StartAddr, a.StartBit, w, 0)
	case "ArrayOneReg":
		if a.StartBit+w*n > bw {
			return nil, fmt.Errorf("ArrayOneReg: bits leave register")
		}
		for i := int64(0); i < n; i++ {
			run(i, a.StartAddr, a.StartBit+i*w, w, 0)
		}
	case "ArrayOneInReg":
		if a.StartBit+w > bw {
			return nil, fmt.Errorf("ArrayOneInReg: bits leave register")
		}
		for i := int64(0); i < n; i++ {
			run(i, a.StartAddr+i, a.StartBit, w, 0)
		}
	case "ArrayNRegs":
		reg, bit := a.StartAddr, a.StartBit
		for i := int64(0); i < n; i++ {
			reg, bit = run(i, reg, bit, w, 0)
		}
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		k := bw / w
		if k < 1 || a.StartBit != 0 {
			return nil, fmt.Errorf("%s with width %d at bit %d", a.Type, w, a.StartBit)
		}
		if a.Type == "ArrayNInReg" && n%k != 0 {
			return nil, fmt.Errorf("ArrayNInReg: %d items do not fill registers with %d items", n, k)
		}
		if a.Type == "ArrayNInRegMInEndReg" && n%k == 0 {
			return nil, fmt.Errorf("ArrayNInRegMInEndReg: %d items fill registers with %d items", n, k)
		}
		for i := int64(0); i < n; i++ {
			run(i, a.StartAddr+i/k, i%k*w, w, 0)
		}
	case "ArrayOneInNRegs":
		if w <= bw || a.StartBit != 0 {
			return nil, fmt.Errorf("ArrayOneInNRegs with width %d at bit %d", w, a.StartBit)
		}
		k := (w + bw - 1) / bw
		for i := int64(0); i < n; i++ {
			run(i, a.StartAddr+i*k, 0, w, 0)
		}
	default:
		return nil, fmt.Errorf("unknown access type %q", a.Type)
	}
	return out, nil
}

// checkAccess checks that all fields of the access agree with its placement.
func checkAccess(a Access, bw, count, width int64, isArray bool) error {
	if a.ItemCount != count {
		return fmt.Errorf("ItemCount %d, declared count %d", a.ItemCount, count)
	}
	if a.ItemWidth != width {
		return fmt.Errorf("ItemWidth %d, declared width %d", a.ItemWidth, width)
	}
	if a.RegWidth != bw {
		return fmt.Errorf("RegWidth %d, bus width %d", a.RegWidth, bw)
	}
	if isArray != (len(a.Type) > 5 && a.Type[:5] == "Array") {
		return fmt.Errorf("access type %s, array %v", a.Type, isArray)
	}
	sp, err := spans(a, bw)
	if err != nil {
		return err
	}
	first, last := sp[0].Reg, sp[len(sp)-1].Reg
	regs := map[int64]bool{}
	var fw, lw, lend int64
	bits := int64(0)
	for _, s := range sp {
		regs[s.Reg] = true
		bits += s.Hi - s.Lo + 1
		if s.Reg == first {
			fw += s.Hi - s.Lo + 1
		}
		if s.Reg == last {
			lw += s.Hi - s.Lo + 1
			lend = max(lend, s.Hi)
		}
	}
	if bits != count*width {
		return fmt.Errorf("%d bits located, want %d", bits, count*width)
	}
	if a.StartAddr != first || a.EndAddr != last {
		return fmt.Errorf("StartAddr %d EndAddr %d, registers %d..%d", a.StartAddr, a.EndAddr, first, last)
	}
	if a.RegCount != int64(len(regs)) {
		return fmt.Errorf("RegCount %d, bits are in %d registers", a.RegCount, len(regs))
	}
	if a.StartBit != sp[0].Lo {
		return fmt.Errorf("StartBit %d, first bit %d", a.StartBit, sp[0].Lo)
	}
	if a.EndBit != lend {
		return fmt.Errorf("EndBit %d, last bit in the last register %d", a.EndBit, lend)
	}
	if a.StartRegWidth != fw {
		return fmt.Errorf("StartRegWidth %d, %d bits are in the first register", a.StartRegWidth, fw)
	}
	if a.EndRegWidth != lw {
		return fmt.Errorf("EndRegWidth %d, %d bits are in the last register", a.EndRegWidth, lw)
	}
	return nil
}

// Acc is one access within a block.
type Acc struct {
	Owner string // name of the functionality within the block
	Kind  string // kind of the owner
	What  string // description
	A     Access
	Count int64
	Width int64
	Array bool
	Frame bool // part of proc or stream
	Irq   *JIrq
	En    bool // irq enable
	Atom  bool
}

// accesses lists all accesses of the block.
func accesses(b *JBlock) []Acc {
	out := []Acc{}
	add := func(f Func, kind string, width int64, a Access, atomic bool) {
		out = append(out, Acc{Owner: f.Name, Kind: kind, What: kind + " " + f.Name, A: a, Count: f.Count, Width: width, Array: f.IsArray, Atom: atomic})
	}
	for _, c := range b.Configs {
		add(c.Func, "config", c.Width, c.Access, c.Atomic)
	}
	for _, c := range b.Masks {
		add(c.Func, "mask", c.Width, c.Access, c.Atomic)
	}
	for _, c := range b.Statics {
		add(c.Func, "static", c.Width, c.Access, false)
	}
	for _, c := range b.Statuses {
		add(c.Func, "status", c.Width, c.Access, c.Atomic)
	}
	for _, c := range b.Irqs {
		add(c.Func, "irq", 1, c.Access, false)
		out[len(out)-1].Irq = c
		if c.AddEnable {
			add(c.Func, "irq", 1, c.EnableAccess, false)
			out[len(out)-1].Irq = c
			out[len(out)-1].En = true
			out[len(out)-1].What += " enable"
		}
	}
	frame := func(owner Func, kind string, ps []*JParam, rs []*JReturn) {
		for _, p := range ps {
			out = append(out, Acc{Owner: owner.Name, Kind: kind, What: kind + " " + owner.Name + " param " + p.Name, A: p.Access, Count: p.Count, Width: p.Width, Array: p.IsArray, Frame: true})
		}
		for _, p := range rs {
			out = append(out, Acc{Owner: owner.Name, Kind: kind, What: kind + " " + owner.Name + " return " + p.Name, A: p.Access, Count: p.Count, Width: p.Width, Array: p.IsArray, Frame: true})
		}
	}
	for _, p := range b.Procs {
		frame(p.Func, "proc", p.Params, p.Returns)
	}
	for _, p := range b.Streams {
		frame(p.Func, "stream", p.Params, p.Returns)
	}
	return out
}

// walkBlocks calls f for every block.
func walkBlocks(b *JBlock, path string, f func(b *JBlock, path string, main bool) error) error {
	return walkBlocks0(b, path+b.Name, true, f)
}

func walkBlocks0(b *JBlock, path string, main bool, f func(b *JBlock, path string, main bool) error) error {
	if err := f(b, path, main); err != nil {
		return err
	}
	for _, s := range b.Subblocks {
		if err := walkBlocks0(s, path+"/"+s.Name, false, f); err != nil {
			return err
		}
	}
	return nil
}

// trig is an address with a meaning: call, exit, strobe or clear.
type trig struct {
	owner, kind, what string
	addr              int64
}

func triggers(b *JBlock) []trig {
	out := []trig{}
	for _, p := range b.Procs {
		if p.CallAddr != nil {
			out = append(out, trig{p.Name, "proc", "call address of proc " + p.Name, *p.CallAddr})
		}
		if p.ExitAddr != nil {
			out = append(out, trig{p.Name, "proc", "exit address of proc " + p.Name, *p.ExitAddr})
		}
	}
	for _, s := range b.Streams {
		out = append(out, trig{s.Name, "stream", "strobe address of stream " + s.Name, s.StbAddr})
	}
	for _, i := range b.Irqs {
		if i.ClearAddr != nil {
			out = append(out, trig{i.Name, "irq", "clear address of irq " + i.Name, *i.ClearAddr})
		}
	}
	return out
}

// checkC01 checks that bits are not shared and do not leave the block.
func checkC01(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		type owner struct {
			what string
			item int64
		}
		used := map[[2]int64]owner{}
		frames := map[int64]string{} // register -> owner proc or stream
		for _, a := range accesses(b) {
			sp, err := spans(a.A, bw)
			if err != nil {
				return fmt.Errorf("%s: %s: %v", path, a.What, err)
			}
			for _, s := range sp {
				if s.Reg < 0 || s.Reg >= b.Sizes.Own {
					return fmt.Errorf("%s: %s uses register %d, block own size is %d", path, a.What, s.Reg, b.Sizes.Own)
				}
				if main && s.Reg == 0 && a.What != "static ID" {
					return fmt.Errorf("%s: %s uses register 0 reserved for the ID", path, a.What)
				}
				if main && a.What == "static ID" && s.Reg != 0 {
					return fmt.Errorf("%s: ID is in register %d", path, s.Reg)
				}
				for bit := s.Lo; bit <= s.Hi; bit++ {
					if bit < 0 || bit >= bw {
						return fmt.Errorf("%s: %s uses bit %d of register %d", path, a.What, bit, s.Reg)
					}
					k := [2]int64{s.Reg, bit}
					if o, ok := used[k]; ok {
						return fmt.Errorf("%s: bit %d of register %d belongs to %s item %d and %s item %d", path, bit, s.Reg, o.what, o.item, a.What, s.Item)
					}
					used[k] = owner{a.What, s.Item}
				}
				if a.Frame {
					frames[s.Reg] = a.Kind + " " + a.Owner
				}
			}
		}
		for _, t := range triggers(b) {
			if t.addr < 0 || t.addr >= b.Sizes.Own {
				return fmt.Errorf("%s: %s is %d, block own size is %d", path, t.what, t.addr, b.Sizes.Own)
			}
			if main && t.addr == 0 {
				return fmt.Errorf("%s: %s is 0, register 0 is reserved for the ID", path, t.what)
			}
			if o, ok := frames[t.addr]; ok && o != t.kind+" "+t.owner {
				return fmt.Errorf("%s: %s falls on register %d used by %s", path, t.what, t.addr, o)
			}
		}
		return nil
	})
}

func checkC02(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		for _, a := range accesses(b) {
			if err := checkAccess(a.A, bw, a.Count, a.Width, a.Array); err != nil {
				return fmt.Errorf("%s: %s: %v (%+v)", path, a.What, err, a.A)
			}
		}
		return nil
	})
}

func pow2up(n int64) int64 {
	p := int64(1)
	for p < n {
		p *= 2
	}
	return p
}

func hasAlign(b *JBlock) bool {
	if b.Align != 0 {
		return true
	}
	for _, s := range b.Subblocks {
		if hasAlign(s) {
			return true
		}
	}
	return false
}

// usedRegs returns number of registers from 0 to the last used one.
func usedRegs(b *JBlock, bw int64, main bool) (int64, error) {
	last := int64(-1)
	if main {
		last = 0
	}
	for _, a := range accesses(b) {
		rs, err := rects(a.A, bw)
		if err != nil {
			return 0, err
		}
		for _, r := range rs {
			last = max(last, r.r1)
		}
	}
	for _, t := range triggers(b) {
		last = max(last, t.addr)
	}
	return last + 1, nil
}

func checkC03(bus *JBlock, bw int64) error {
	align := hasAlign(bus)
	if bus.AddrSpace.Start != 0 {
		return fmt.Errorf("main bus starts at address %d", bus.AddrSpace.Start)
	}
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		n, err := usedRegs(b, bw, main)
		if err != nil {
			return fmt.Errorf("%s: %v", path, err)
		}
		s := b.Sizes
		if s.Own < n {
			return fmt.Errorf("%s: own size %d, registers up to %d are used", path, s.Own, n-1)
		}
		cum, sub := s.Own, int64(0)
		for _, sb := range b.Subblocks {
			cum += sb.Count * sb.Sizes.Cumulated
			sub += sb.Count * sb.Sizes.Aligned
		}
		if s.Cumulated != cum {
			return fmt.Errorf("%s: cumulated size %d, want %d", path, s.Cumulated, cum)
		}
		if s.Aligned < s.Own+sub {
			return fmt.Errorf("%s: aligned size %d, own %d, subblocks %d", path, s.Aligned, s.Own, sub)
		}
		al := b.Align
		if al == 0 {
			al = bus.Align
		}
		if al == 0 {
			// A block without any register takes no addresses.
			if pow2up(s.Aligned) != s.Aligned && !(s.Aligned == 0 && n == 0 && s.Own+sub == 0) {
				return fmt.Errorf("%s: aligned size %d is not a power of two", path, s.Aligned)
			}
		} else if s.Aligned%al != 0 {
			return fmt.Errorf("%s: aligned size %d is not a multiple of %d", path, s.Aligned, al)
		}
		if b.AddrSpace.End-b.AddrSpace.Start+1 != b.Count*s.Aligned {
			return fmt.Errorf("%s: address space %d:%d, count %d, aligned size %d", path, b.AddrSpace.Start, b.AddrSpace.End, b.Count, s.Aligned)
		}
		if !align && s.Aligned > 0 && b.AddrSpace.Start%s.Aligned != 0 {
			return fmt.Errorf("%s: starts at %d which is not a multiple of aligned size %d", path, b.AddrSpace.Start, s.Aligned)
		}
		// For a block array subblocks are described for one of its items.
		lo, hi := int64(-1), int64(-1)
		i0, i1 := int64(0), b.Count
		if len(b.Subblocks) == 0 {
			i1 = i0
		} else if s.Aligned <= 0 {
			i1 = min(i1, 1)
		} else if b.Count > 1000 {
			i0 = (b.Subblocks[0].AddrSpace.Start - b.AddrSpace.Start) / s.Aligned
			i1 = min(b.Count, i0+1)
			i0-- // An empty subblock may start right after the item.
		}
		for i := max(i0, 0); i < i1; i++ {
			is := b.AddrSpace.Start + i*s.Aligned
			ie := is + s.Aligned - 1
			in := true
			for _, sb := range b.Subblocks {
				if sb.AddrSpace.Start < is || sb.AddrSpace.End > ie {
					in = false
				}
			}
			if in {
				lo, hi = is, ie
			}
		}
		if len(b.Subblocks) > 0 && lo < 0 {
			for _, sb := range b.Subblocks {
				if sb.AddrSpace.Start < b.AddrSpace.Start || sb.AddrSpace.End > b.AddrSpace.End {
					return fmt.Errorf("%s: subblock %s %d:%d lies outside of %d:%d", path, sb.Name, sb.AddrSpace.Start, sb.AddrSpace.End, b.AddrSpace.Start, b.AddrSpace.End)
				}
			}
			return fmt.Errorf("%s: subblocks do not lie within one item of the array", path)
		}
		_ = hi
		for i, x := range b.Subblocks {
			if x.AddrSpace.Start < lo+s.Own {
				return fmt.Errorf("%s: subblock %s starts at %d, own registers are %d:%d", path, x.Name, x.AddrSpace.Start, lo, lo+s.Own-1)
			}
			for _, y := range b.Subblocks[i+1:] {
				if x.AddrSpace.Start <= y.AddrSpace.End && y.AddrSpace.Start <= x.AddrSpace.End {
					return fmt.Errorf("%s: subblocks %s %d:%d and %s %d:%d overlap", path, x.Name, x.AddrSpace.Start, x.AddrSpace.End, y.Name, y.AddrSpace.Start, y.AddrSpace.End)
				}
			}
		}
		return nil
	})
}

func checkC04(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		regs := map[int64][]Acc{}
		for _, a := range accesses(b) {
			sp, err := spans(a.A, bw)
			if err != nil {
				return fmt.Errorf("%s: %s: %v", path, a.What, err)
			}
			perItem := map[int64]map[int64]bool{}
			seen := map[int64]bool{}
			for _, s := range sp {
				if perItem[s.Item] == nil {
					perItem[s.Item] = map[int64]bool{}
				}
				perItem[s.Item][s.Reg] = true
				if !seen[s.Reg] {
					seen[s.Reg] = true
					regs[s.Reg] = append(regs[s.Reg], a)
				}
			}
			if a.Atom && a.Width <= bw {
				for i, r := range perItem {
					if len(r) != 1 {
						return fmt.Errorf("%s: item %d of atomic %s occupies %d registers", path, i, a.What, len(r))
					}
				}
			}
		}
		writable := func(a Acc) bool {
			switch a.Kind {
			case "config", "mask", "irq", "proc", "stream":
				return true
			}
			return false
		}
		same := func(x, y Acc) bool { return x.Kind == y.Kind && x.Owner == y.Owner }
		for r, as := range regs {
			for _, x := range as {
				for _, y := range as {
					if same(x, y) {
						continue
					}
					if (x.Kind == "config" || x.Kind == "mask") && writable(y) {
						return fmt.Errorf("%s: register %d holds %s and %s", path, r, x.What, y.What)
					}
					if x.Frame {
						return fmt.Errorf("%s: register %d holds %s and %s", path, r, x.What, y.What)
					}
					if x.Kind == "irq" && x.Irq.Clear == "On Read" {
						return fmt.Errorf("%s: register %d holds %s cleared on read and %s", path, r, x.What, y.What)
					}
				}
			}
		}
		clears := map[int64]string{}
		for _, i := range b.Irqs {
			if i.Clear == "On Read" {
				if i.ClearAddr != nil {
					// Writing has no meaning for an irq cleared on read, but the address must not hit anything.
				}
				continue
			}
			if i.ClearAddr == nil {
				return fmt.Errorf("%s: irq %s is cleared explicitly, but it has no clear address", path, i.Name)
			}
			for _, a := range regs[*i.ClearAddr] {
				if a.Kind == "irq" && a.Owner == i.Name {
					if a.En {
						return fmt.Errorf("%s: clear address %d of irq %s holds its enable", path, *i.ClearAddr, i.Name)
					}
					continue
				}
				if a.Kind == "irq" || a.Kind == "config" || a.Kind == "mask" {
					return fmt.Errorf("%s: clear address %d of irq %s holds %s", path, *i.ClearAddr, i.Name, a.What)
				}
			}
			if o, ok := clears[*i.ClearAddr]; ok {
				return fmt.Errorf("%s: irqs %s and %s have the same clear address %d", path, o, i.Name, *i.ClearAddr)
			}
			clears[*i.ClearAddr] = i.Name
		}
		// Call, exit and strobe addresses must not hit registers of anything else.
		for _, t := range triggers(b) {
			for _, a := range regs[t.addr] {
				if t.kind == "irq" {
					if a.Frame {
						return fmt.Errorf("%s: %s falls on register %d of %s", path, t.what, t.addr, a.What)
					}
					continue
				}
				if a.Kind != t.kind || a.Owner != t.owner {
					return fmt.Errorf("%s: %s falls on register %d of %s", path, t.what, t.addr, a.What)
				}
			}
		}
		ts := triggers(b)
		for i, x := range ts {
			for _, y := range ts[i+1:] {
				if x.addr == y.addr && (x.kind != y.kind || x.owner != y.owner) {
					return fmt.Errorf("%s: %s and %s are the same %d", path, x.what, y.what, x.addr)
				}
			}
		}
		return nil
	})
}

// checkFrame checks packing of a frame and returns the first register and the number of registers.
func checkFrame(what string, ps []*JParam, rs []*JReturn, bw int64) (pend, rend int64, err error) {
	pos := int64(0) // bit position within the frame
	base := int64(-1)
	one := func(f Func, kind string, width int64, a Access) (int64, error) {
		if base < 0 {
			base = a.StartAddr
		}
		sp, err := spans(a, bw)
		if err != nil {
			return 0, fmt.Errorf("%s %s %s: %v", what, kind, f.Name, err)
		}
		var last int64
		k := int64(0)
		n := int64(0)
		for _, s := range sp {
			for bit := s.Lo; bit <= s.Hi; bit++ {
				want := [2]int64{base + (pos+k)/bw, (pos + k) % bw}
				if s.Reg != want[0] || bit != want[1] {
					return 0, fmt.Errorf("%s %s %s: bit %d of the element is at register %d bit %d, want register %d bit %d", what, kind, f.Name, k, s.Reg, bit, want[0], want[1])
				}
				wantItem := k / width
				if s.Item != wantItem {
					return 0, fmt.Errorf("%s %s %s: bit %d belongs to item %d, want %d", what, kind, f.Name, k, s.Item, wantItem)
				}
				k++
			}
			last = s.Reg
			n++
		}
		if k != f.Count*width {
			return 0, fmt.Errorf("%s %s %s: %d bits, want %d", what, kind, f.Name, k, f.Count*width)
		}
		pos += k
		return last, nil
	}
	pend, rend = -1, -1
	for _, p := range ps {
		if pend, err = one(p.Func, "param", p.Width, p.Access); err != nil {
			return
		}
	}
	for _, p := range rs {
		if rend, err = one(p.Func, "return", p.Width, p.Access); err != nil {
			return
		}
	}
	return
}

func checkC05(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		type own struct{ kind, name string }
		owners := map[int64]own{}
		for _, a := range accesses(b) {
			sp, err := spans(a.A, bw)
			if err != nil {
				return fmt.Errorf("%s: %s: %v", path, a.What, err)
			}
			for _, s := range sp {
				o := own{a.Kind, a.Owner}
				if p, ok := owners[s.Reg]; ok && p != o && (a.Frame || p.kind == "proc" || p.kind == "stream") {
					return fmt.Errorf("%s: register %d of %s %s is not fresh, it is used by %s %s", path, s.Reg, o.kind, o.name, p.kind, p.name)
				}
				owners[s.Reg] = o
			}
		}
		ptr := func(p *int64) string {
			if p == nil {
				return "none"
			}
			return fmt.Sprint(*p)
		}
		for _, p := range b.Procs {
			what := path + "/" + p.Name
			pend, rend, err := checkFrame(what, p.Params, p.Returns, bw)
			if err != nil {
				return err
			}
			delay := p.Delay != nil
			switch {
			case pend >= 0:
				if p.CallAddr == nil || *p.CallAddr != pend {
					return fmt.Errorf("%s: call address %s, the last param ends in register %d", what, ptr(p.CallAddr), pend)
				}
			case rend >= 0:
				if delay != (p.CallAddr != nil) {
					return fmt.Errorf("%s: proc with returns only, delay %v, call address %s", what, delay, ptr(p.CallAddr))
				}
				if p.CallAddr != nil {
					if o := owners[*p.CallAddr]; o.name != p.Name {
						return fmt.Errorf("%s: call address %d is not a register of the proc", what, *p.CallAddr)
					}
				}
			default:
				if p.CallAddr == nil {
					return fmt.Errorf("%s: empty proc has no call address", what)
				}
				if o, ok := owners[*p.CallAddr]; ok {
					return fmt.Errorf("%s: call address %d of empty proc is register of %s %s", what, *p.CallAddr, o.kind, o.name)
				}
			}
			switch {
			case rend >= 0:
				if p.ExitAddr == nil || *p.ExitAddr != rend {
					return fmt.Errorf("%s: exit address %s, the last return ends in register %d", what, ptr(p.ExitAddr), rend)
				}
			default:
				if delay != (p.ExitAddr != nil) {
					return fmt.Errorf("%s: proc without returns, delay %v, exit address %s", what, delay, ptr(p.ExitAddr))
				}
				if delay && *p.ExitAddr != *p.CallAddr {
					return fmt.Errorf("%s: proc without returns, exit address %d, call address %d", what, *p.ExitAddr, *p.CallAddr)
				}
			}
		}
		for _, s := range b.Streams {
			what := path + "/" + s.Name
			pend, rend, err := checkFrame(what, s.Params, s.Returns, bw)
			if err != nil {
				return err
			}
			switch {
			case pend >= 0 || rend >= 0:
				if s.StbAddr != max(pend, rend) {
					return fmt.Errorf("%s: strobe address %d, the last element ends in register %d", what, s.StbAddr, max(pend, rend))
				}
			default:
				if o, ok := owners[s.StbAddr]; ok {
					return fmt.Errorf("%s: strobe address %d of empty stream is register of %s %s", what, s.StbAddr, o.kind, o.name)
				}
			}
		}
		return nil
	})
}
