// Helper process giving access to the public library API of go-fbdl.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

type req struct {
	Op   string    `json:"op"`
	S    string    `json:"s"`
	S2   string    `json:"s2"`
	N    []int64   `json:"n"`
	B    bool      `json:"b"`
	Dir  string    `json:"dir"`
	Rngs [][]int64 `json:"rngs"`
}

type resp struct {
	OK    bool            `json:"ok"`
	Err   string          `json:"err,omitempty"`
	Panic string          `json:"panic,omitempty"`
	S     string          `json:"s,omitempty"`
	N     []int64         `json:"n,omitempty"`
	U     uint64          `json:"u,omitempty"`
	J     json.RawMessage `json:"j,omitempty"`
	J2    json.RawMessage `json:"j2,omitempty"`
}

type lw struct{}

func (lw) Write(p []byte) (int, error) {
	if len(p) >= 5 && string(p[:5]) == "debug" {
		return len(p), nil
	}
	return os.Stderr.Write(p)
}

func main() {
	log.SetFlags(0)
	log.SetOutput(lw{})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return
		}
		rq := req{}
		if err := json.Unmarshal(line, &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		data, err := json.Marshal(handle(rq))
		if err != nil {
			data, _ = json.Marshal(resp{Err: err.Error()})
		}
		out.Write(data)
		out.WriteByte('\n')
		out.Flush()
	}
}

func handle(rq req) (rs resp) {
	defer func() {
		if p := recover(); p != nil {
			rs = resp{Panic: fmt.Sprint(p)}
		}
	}()
	switch rq.Op {
	case "compile":
		if rq.Dir != "" {
			if err := os.Chdir(rq.Dir); err != nil {
				return resp{Err: "chdir: " + err.Error()}
			}
		}
		bus, pkgs, err := fbdl.Compile(rq.S, rq.S2, rq.B)
		if err != nil {
			return resp{Err: err.Error()}
		}
		// What a caller gets must be usable as the same JSON the tool prints.
		j, err := json.Marshal(bus)
		if err != nil {
			return resp{Err: err.Error()}
		}
		j2, err := json.Marshal(pkgs)
		if err != nil {
			return resp{Err: err.Error()}
		}
		return resp{OK: true, J: j, J2: j2}
	case "query":
		if rq.Dir != "" {
			if err := os.Chdir(rq.Dir); err != nil {
				return resp{Err: "chdir: " + err.Error()}
			}
		}
		bus, pkgs, err := fbdl.Compile(rq.S, rq.S2, rq.B)
		if err != nil {
			return resp{Err: err.Error()}
		}
		j, err := json.Marshal(bus)
		if err != nil {
			return resp{Err: err.Error()}
		}
		q := queries(bus)
		for name, p := range pkgs {
			q["package "+name] = answers{"empty": b2s(p.Consts.Empty())}
		}
		j2, err := json.Marshal(q)
		if err != nil {
			return resp{Err: err.Error()}
		}
		return resp{OK: true, J: j, J2: j2}
	case "queryj":
		blk := &fn.Block{}
		if err := json.Unmarshal([]byte(rq.S), blk); err != nil {
			return resp{Err: err.Error()}
		}
		j2, err := json.Marshal(queries(blk))
		if err != nil {
			return resp{Err: err.Error()}
		}
		return resp{OK: true, J2: j2}
	case "shift":
		r := types.SingleRange{Start: rq.N[0], End: rq.N[1]}
		s := r.Shift(rq.N[2])
		return resp{OK: true, N: []int64{s.Start, s.End, r.Start, r.End}}
	case "iszero":
		if (types.Time{S: rq.N[0], Ns: rq.N[1]}).IsZero() {
			return resp{OK: true, N: []int64{1}}
		}
		return resp{OK: true, N: []int64{0}}
	case "access":
		types.Init(rq.N[0])
		var a types.Access
		n := rq.N[1:]
		switch rq.S {
		case "Single":
			a = types.MakeSingleAccess(n[0], n[1], n[2])
		case "SingleOneReg":
			a = types.MakeSingleOneRegAccess(n[0], n[1], n[2])
		case "SingleNRegs":
			a = types.MakeSingleNRegsAccess(n[0], n[1], n[2])
		case "ArrayOneReg":
			a = types.MakeArrayOneRegAccess(n[3], n[0], n[1], n[2])
		case "ArrayOneInReg":
			a = types.MakeArrayOneInRegAccess(n[3], n[0], n[1], n[2])
		case "ArrayNRegs":
			a = types.MakeArrayNRegsAccess(n[3], n[0], n[1], n[2])
		case "ArrayNInReg":
			a = types.MakeArrayNInRegAccess(n[3], n[0], n[2])
		case "ArrayNInRegMInEndReg":
			a = types.MakeArrayNInRegMInEndRegAccess(n[3], n[0], n[2])
		case "ArrayOneInNRegs":
			a = types.MakeArrayOneInNRegsAccess(n[3], n[0], n[2])
		default:
			return resp{Err: "unknown access kind"}
		}
		j, _ := json.Marshal(a)
		return resp{OK: true, J: j}
	case "tobin":
		return resp{OK: true, S: string(types.BitStr(rq.S).ToBin())}
	case "extend":
		return resp{OK: true, S: string(types.BitStr(rq.S).Extend(rq.N[0]))}
	case "uint64":
		return resp{OK: true, U: types.BitStr(rq.S).Uint64()}
	case "widths":
		b := types.BitStr(rq.S)
		bi := func(x bool) int64 {
			if x {
				return 1
			}
			return 0
		}
		return resp{OK: true, S: b.ValueLiteral(), N: []int64{b.BitWidth(), b.CharWidth(), bi(b.IsBin()), bi(b.IsOctal()), bi(b.IsHex())}}
	case "range1":
		return resp{OK: true, N: []int64{types.SingleRange{Start: rq.N[0], End: rq.N[1]}.BitWidth()}}
	case "rangen":
		ar := types.ArrayRange{}
		for _, r := range rq.Rngs {
			ar = append(ar, types.SingleRange{Start: r[0], End: r[1]})
		}
		return resp{OK: true, N: []int64{ar.BitWidth()}}
	}
	return resp{Err: "unknown op " + rq.Op}
}
