package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Accesses too large for bit by bit decoding are decoded to rectangles: bits lo..hi of registers r0..r1.

type rect struct{ r0, r1, lo, hi int64 }

// rects decodes an access. For ArrayOneInNRegs with many items only items at both ends are decoded.
func rects(a Access, bw int64) ([]rect, error) {
	w, n := a.ItemWidth, a.ItemCount
	if w < 1 || n < 1 || a.StartBit < 0 || a.StartBit >= bw || a.StartAddr < 0 {
		return nil, fmt.Errorf("access with %d items of width %d at bit %d of register %d", n, w, a.StartBit, a.StartAddr)
	}
	out := []rect{}
	run := func(reg, bit, width int64) {
		k := min(width, bw-bit)
		out = append(out, rect{reg, reg, bit, bit + k - 1})
		width -= k
		reg++
		if width >= bw {
			out = append(out, rect{reg, reg + width/bw - 1, 0, bw - 1})
			reg += width / bw
		}
		if width%bw > 0 {
			out = append(out, rect{reg, reg, 0, width%bw - 1})
		}
	}
	wraps := func(x, y int64) bool { return float64(x)*float64(y) > 1<<63 }
	switch a.Type {
	case "ArrayOneReg", "ArrayNRegs":
		if wraps(n, w) {
			return nil, fmt.Errorf("%s with %d items of width %d, bits cannot be counted", a.Type, n, w)
		}
	case "ArrayOneInNRegs":
		if wraps(n, w/bw+1) {
			return nil, fmt.Errorf("%s with %d items of width %d, registers cannot be counted", a.Type, n, w)
		}
	}
	switch a.Type {
	case "SingleOneReg", "SingleNRegs":
		if n != 1 || (a.Type == "SingleOneReg") != (a.StartBit+w <= bw) {
			return nil, fmt.Errorf("%s with %d items of width %d at bit %d", a.Type, n, w, a.StartBit)
		}
		run(a.StartAddr, a.StartBit, w)
	case "ArrayOneReg":
		if a.StartBit+n*w > bw {
			return nil, fmt.Errorf("ArrayOneReg: bits leave register")
		}
		run(a.StartAddr, a.StartBit, n*w)
	case "ArrayOneInReg":
		if a.StartBit+w > bw {
			return nil, fmt.Errorf("ArrayOneInReg: bits leave register")
		}
		out = append(out, rect{a.StartAddr, a.StartAddr + n - 1, a.StartBit, a.StartBit + w - 1})
	case "ArrayNRegs":
		run(a.StartAddr, a.StartBit, n*w)
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		k := bw / w
		if k < 1 || a.StartBit != 0 || (a.Type == "ArrayNInReg") != (n%k == 0) {
			return nil, fmt.Errorf("%s with %d items of width %d at bit %d", a.Type, n, w, a.StartBit)
		}
		if n/k > 0 {
			out = append(out, rect{a.StartAddr, a.StartAddr + n/k - 1, 0, k*w - 1})
		}
		if n%k > 0 {
			out = append(out, rect{a.StartAddr + n/k, a.StartAddr + n/k, 0, n%k*w - 1})
		}
	case "ArrayOneInNRegs":
		if w <= bw || a.StartBit != 0 {
			return nil, fmt.Errorf("ArrayOneInNRegs with width %d at bit %d", w, a.StartBit)
		}
		k := (w + bw - 1) / bw
		for i := int64(0); i < n; i++ {
			if i == 32 && n > 64 {
				i = n - 32
			}
			run(a.StartAddr+i*k, 0, w)
		}
	default:
		return nil, fmt.Errorf("unknown access type %q", a.Type)
	}
	return out, nil
}

// checkAccessHuge does the same as checkAccess.
func checkAccessHuge(a Access, bw, count, width int64, isArray bool) error {
	if a.ItemCount != count || a.ItemWidth != width || a.RegWidth != bw {
		return fmt.Errorf("%d items of width %d in registers of width %d, declared %d of %d in %d", a.ItemCount, a.ItemWidth, a.RegWidth, count, width, bw)
	}
	if isArray != strings.HasPrefix(a.Type, "Array") {
		return fmt.Errorf("access type %s, array %v", a.Type, isArray)
	}
	rs, err := rects(a, bw)
	if err != nil {
		return err
	}
	first, last := rs[0].r0, rs[len(rs)-1].r1
	var fw, lw, lend int64
	for _, r := range rs {
		if r.r0 <= first && first <= r.r1 {
			fw += r.hi - r.lo + 1
		}
		if r.r0 <= last && last <= r.r1 {
			lw += r.hi - r.lo + 1
			lend = max(lend, r.hi)
		}
	}
	for _, x := range []struct {
		n         string
		got, want int64
	}{
		{"StartAddr", a.StartAddr, first}, {"EndAddr", a.EndAddr, last}, {"RegCount", a.RegCount, last - first + 1}, {"EndBit", a.EndBit, lend},
		{"StartRegWidth", a.StartRegWidth, fw}, {"EndRegWidth", a.EndRegWidth, lw},
	} {
		if x.got != x.want {
			return fmt.Errorf("%s is %d, want %d", x.n, x.got, x.want)
		}
	}
	return nil
}

func checkHugeC01(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		type own struct {
			what string
			r    rect
		}
		all := []own{}
		for _, a := range accesses(b) {
			rs, err := rects(a.A, bw)
			if err != nil {
				return fmt.Errorf("%s: %s: %v", path, a.What, err)
			}
			for _, r := range rs {
				if r.r1 >= b.Sizes.Own || r.hi >= bw {
					return fmt.Errorf("%s: %s uses registers up to %d, own size is %d", path, a.What, r.r1, b.Sizes.Own)
				}
				if main && r.r0 == 0 && a.What != "static ID" {
					return fmt.Errorf("%s: %s uses register 0 reserved for the ID", path, a.What)
				}
				for _, o := range all {
					if o.r.r0 <= r.r1 && r.r0 <= o.r.r1 && o.r.lo <= r.hi && r.lo <= o.r.hi {
						return fmt.Errorf("%s: %s and %s share bits in registers %d..%d", path, o.what, a.What, max(o.r.r0, r.r0), min(o.r.r1, r.r1))
					}
				}
				all = append(all, own{a.What, r})
			}
		}
		for _, t := range triggers(b) {
			if t.addr < 0 || t.addr >= b.Sizes.Own || main && t.addr == 0 {
				return fmt.Errorf("%s: %s is %d, block own size is %d", path, t.what, t.addr, b.Sizes.Own)
			}
		}
		return nil
	})
}

func checkHugeC02(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		for _, a := range accesses(b) {
			if err := checkAccessHuge(a.A, bw, a.Count, a.Width, a.Array); err != nil {
				return fmt.Errorf("%s: %s: %v (%+v)", path, a.What, err, a.A)
			}
		}
		return nil
	})
}

// checkHugeC05 checks positions of frame elements and addresses of triggers by arithmetic on bit positions.
func checkHugeC05(bus *JBlock, bw int64) error {
	return walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		frame := func(name string, ps []*JParam, rs []*JReturn) (pend, rend int64, err error) {
			pend, rend = -1, -1
			base, pos := int64(-1), int64(0)
			one := func(what string, a Access, bits int64) int64 {
				if base < 0 {
					base = a.StartAddr
				}
				if r, bit := base+pos/bw, pos%bw; err == nil && (a.StartAddr != r || a.StartBit != bit) {
					err = fmt.Errorf("%s/%s: %s starts at register %d bit %d, want register %d bit %d", path, name, what, a.StartAddr, a.StartBit, r, bit)
				}
				pos += bits
				if r, bit := base+(pos-1)/bw, (pos-1)%bw; err == nil && (a.EndAddr != r || a.EndBit != bit) {
					err = fmt.Errorf("%s/%s: %s ends at register %d bit %d, want register %d bit %d", path, name, what, a.EndAddr, a.EndBit, r, bit)
				}
				return base + (pos-1)/bw
			}
			for _, p := range ps {
				pend = one("param "+p.Name, p.Access, p.Count*p.Width)
			}
			for _, r := range rs {
				rend = one("return "+r.Name, r.Access, r.Count*r.Width)
			}
			return
		}
		for _, p := range b.Procs {
			pend, rend, err := frame(p.Name, p.Params, p.Returns)
			if err != nil {
				return err
			}
			if pend >= 0 && (p.CallAddr == nil || *p.CallAddr != pend) {
				return fmt.Errorf("%s/%s: the last param ends in register %d, call address differs", path, p.Name, pend)
			}
			if rend >= 0 && (p.ExitAddr == nil || *p.ExitAddr != rend) {
				return fmt.Errorf("%s/%s: the last return ends in register %d, exit address differs", path, p.Name, rend)
			}
		}
		for _, s := range b.Streams {
			pend, rend, err := frame(s.Name, s.Params, s.Returns)
			if err != nil {
				return err
			}
			if e := max(pend, rend); e >= 0 && s.StbAddr != e {
				return fmt.Errorf("%s/%s: the last element ends in register %d, strobe address is %d", path, s.Name, e, s.StbAddr)
			}
		}
		return nil
	})
}

// checkHugeC03 is checkC03 for sizes which might wrap around.
func checkHugeC03(bus *JBlock, bw int64) error {
	err := walkBlocks(bus, "", func(b *JBlock, path string, main bool) error {
		s := b.Sizes
		if s.Own < 0 || s.Cumulated < s.Own || s.Aligned < s.Own || b.AddrSpace.Start < 0 || b.AddrSpace.End < b.AddrSpace.Start-1 {
			return fmt.Errorf("%s: impossible sizes %+v, address space %+v", path, s, b.AddrSpace)
		}
		cum, al := float64(s.Own), float64(s.Own)
		for _, sb := range b.Subblocks {
			cum += float64(sb.Count) * float64(sb.Sizes.Cumulated)
			al += float64(sb.Count) * float64(sb.Sizes.Aligned)
		}
		if cum > 1<<63 || al > 1<<63 || float64(b.Count)*float64(s.Aligned) > 1<<63 {
			return fmt.Errorf("%s: sizes %+v wrapped around", path, s)
		}
		own := 0.0
		for _, a := range accesses(b) {
			own = max(own, float64(a.A.StartAddr)+float64(a.A.RegCount))
		}
		if own > float64(s.Own)*1.001+1 {
			return fmt.Errorf("%s: own size %d wrapped around", path, s.Own)
		}
		return nil
	})
	if err != nil {
		return err
	}
	return checkC03(bus, bw)
}

// hugeInt draws a number up to 2^bits, often near multiples of k.
func hugeInt(t *rapid.T, bits int, k int64, label string) int64 {
	n := int64(1)<<uint(rapid.IntRange(0, bits).Draw(t, label+"bits")) + rapid.Int64Range(0, 1<<uint(bits)-1).Draw(t, label+"rest")>>uint(rapid.IntRange(0, bits).Draw(t, label+"shift"))
	if k > 1 && chance(t, 60, label+"near") {
		n = n/k*k + rapid.Int64Range(-1, 1).Draw(t, label+"off")
	}
	return max(n, 1)
}

func genHuge(t *rapid.T) LayoutCase {
	bw := rapid.OneOf(sampledFrom([]int64{8, 16, 32, 64, 128}), rapid.Int64Range(2, 70)).Draw(t, "bw")
	b := strings.Builder{}
	n := 0
	// Numbers which may be too large for the compiler.
	most, wmost, bmost, amost := 36, 30, 12, 40
	if chance(t, 20, "extreme") {
		most, wmost, bmost, amost = 62, 62, 50, 62
	}
	elem := func(ind, kind string) {
		n++
		bits := 12
		if chance(t, 50, "huge") {
			bits = most
		}
		var w int64
		switch intRange(0, 2).Draw(t, "wk") {
		case 0:
			w = rapid.Int64Range(1, bw).Draw(t, "w")
		case 1:
			w = max(1, bw/rapid.Int64Range(1, 6).Draw(t, "div"))
		case 2:
			w = rapid.Int64Range(1, 5*bw).Draw(t, "w")
		}
		if kind != "static" && chance(t, 20, "wide") {
			w = hugeInt(t, min(bits, wmost), bw, "width")
			if !chance(t, 20, "both") || most == 36 {
				bits = 8
			}
		}
		arr := ""
		if chance(t, 75, "array") {
			arr = fmt.Sprintf("[%d]", hugeInt(t, bits, max(1, bw/w), "count"))
		}
		fmt.Fprintf(&b, "%se%d %s%s; width = %d", ind, n, arr, kind, w)
		if kind == "static" {
			b.WriteString("; init-value = 1")
		}
		b.WriteString("\n")
	}
	body := func(ind string, min int) {
		for i := intRange(min, 4).Draw(t, "nelem"); i > 0; i-- {
			switch k := sampledFrom([]string{"status", "status", "config", "static", "proc", "stream"}).Draw(t, "kind"); k {
			case "proc", "stream":
				n++
				fmt.Fprintf(&b, "%sf%d %s\n", ind, n, k)
				ps, rs := intRange(0, 3).Draw(t, "params"), intRange(0, 3).Draw(t, "returns")
				if k == "stream" && ps > 0 {
					rs = 0
				}
				for j := 0; j < ps; j++ {
					elem(ind+"  ", "param")
				}
				for j := 0; j < rs; j++ {
					elem(ind+"  ", "return")
				}
			default:
				elem(ind, k)
			}
		}
	}
	fmt.Fprintf(&b, "main bus\n  width = %d\n", bw)
	if chance(t, 30, "align") {
		fmt.Fprintf(&b, "  align = %d\n", int64(1)<<uint(rapid.IntRange(0, amost).Draw(t, "align")))
	}
	body("  ", 1)
	for i := intRange(0, 2).Draw(t, "nblocks"); i > 0; i-- {
		n++
		arr := ""
		if chance(t, 50, "barray") {
			arr = fmt.Sprintf("[%d]", hugeInt(t, bmost, 1, "bcount"))
		}
		fmt.Fprintf(&b, "  b%d %sblock\n", n, arr)
		if chance(t, 20, "balign") {
			fmt.Fprintf(&b, "    align = %d\n", int64(1)<<uint(rapid.IntRange(0, amost).Draw(t, "balign")))
		}
		body("    ", 1)
	}
	deep := chance(t, 3, "deep")
	if deep {
		for i, d := 0, intRange(30, 75).Draw(t, "depth"); i < d; i++ {
			n++
			fmt.Fprintf(&b, "%sd%d block\n%sx config\n", strings.Repeat("  ", i+1), n, strings.Repeat("  ", i+2))
		}
	}
	return LayoutCase{Src: Files{"bus.fbd": b.String()}, BusWidth: bw, Labels: "huge", Fits: !deep && most == 36}
}
