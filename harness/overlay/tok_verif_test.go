package tok_test

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"testing"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
)

type vhTok struct {
	Name       string
	S, E, L, C int
}

type vhResp struct {
	Err   string
	Panic string
	Toks  []vhTok
}

func vhParse(src []byte) (r vhResp) {
	defer func() {
		if p := recover(); p != nil {
			r = vhResp{Panic: fmt.Sprint(p)}
		}
	}()
	toks, err := tok.Parse(src, "x.fbd")
	if err != nil {
		r.Err = err.Error()
		return r
	}
	for _, t := range toks {
		r.Toks = append(r.Toks, vhTok{t.Name(), t.Start(), t.End(), t.Line(), t.Column()})
	}
	return r
}

// TestVH answers requests (JSON encoded byte slices, one in a line) with tokens.
func TestVH(t *testing.T) {
	if os.Getenv("VH_TOK") == "" {
		t.Skip()
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var src []byte
		if err := json.Unmarshal(line, &src); err != nil {
			t.Fatal(err)
		}
		out, err := json.Marshal(vhParse(src))
		if err != nil {
			t.Fatal(err)
		}
		os.Stdout.Write(append(out, '\n'))
	}
}
