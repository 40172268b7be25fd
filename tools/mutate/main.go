// mutate lists small changes of Go sources as JSON lines: file, offset, old and new text.
// usage: mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

var binary = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fun := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(kind string, from, to int, new string) {
			enc.Encode(mut{f, 1 + strings.Count(string(src[:from]), "\n"), from, string(src[from:to]), new, kind, fun})
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fun = fd.Name.Name
			if fun == "isFunctionality" || strings.HasPrefix(fun, "isR") {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.STRING && n.Op == token.ADD {
						return true
					}
					for _, r := range binary[n.Op] {
						put("binary", off(n.OpPos), off(n.OpPos)+len(n.Op.String()), r)
					}
				case *ast.IfStmt:
					c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
					if c == "err != nil" {
						return true
					}
					put("if", off(n.Cond.Pos()), off(n.Cond.End()), "!("+c+")")
					put("if", off(n.Cond.Pos()), off(n.Cond.End()), "("+c+") && false")
					put("if", off(n.Cond.Pos()), off(n.Cond.End()), "("+c+") || true")
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							put("int", off(n.Pos()), off(n.End()), fmt.Sprint(v+1))
							if v > 0 {
								put("int", off(n.Pos()), off(n.End()), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						put("bool", off(n.Pos()), off(n.End()), "false")
					} else if n.Name == "false" {
						put("bool", off(n.Pos()), off(n.End()), "true")
					}
				case *ast.BlockStmt:
					stmts(n.List, off, put)
				case *ast.CaseClause:
					stmts(n.Body, off, put)
					for i, e := range n.List {
						if len(n.List) > 1 {
							a, b := off(e.Pos()), off(e.End())
							if i > 0 {
								a = off(n.List[i-1].End())
							} else {
								b = off(n.List[1].Pos())
							}
							put("case", a, b, "")
						}
					}
				}
				return true
			})
		}
	}
}

func stmts(list []ast.Stmt, off func(token.Pos) int, put func(string, int, int, string)) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				put("drop", off(s.Pos()), off(s.End()), "")
			}
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
			put("drop", off(s.Pos()), off(s.End()), "")
		case *ast.IfStmt:
			put("dropif", off(s.Pos()), off(s.End()), "")
		}
	}
}
