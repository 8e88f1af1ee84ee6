// Command mutate lists small changes to Go files, one JSON object per line:
// file, offset range, replacement text, kind. It plants bugs by the hundred to
// find what the checks cannot see; sweep.py runs them.
//
//	go run ./tools/mutate FILE.go...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	S    int    `json:"s"`
	E    int    `json:"e"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		b, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, b, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		put := func(s, e token.Pos, to, kind string) {
			enc.Encode(mut{name, fset.Position(s).Line, off(s), off(e), string(b[off(s):off(e)]), to, kind})
		}
		logging := func(n ast.Node) bool {
			t := text(n)
			return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "trace(") || strings.HasPrefix(t, "panic(") || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "flag.")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CallExpr:
				if logging(n) {
					return false
				}
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					if n.Op == token.ADD && strings.Contains(text(n), `"`) {
						continue
					}
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "op")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put(n.Pos(), n.End(), text(n.X), "drop right")
					put(n.Pos(), n.End(), text(n.Y), "drop left")
				}
			case *ast.IfStmt:
				put(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				if _, ok := n.Cond.(*ast.BinaryExpr); ok || n.Init == nil {
					put(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
					put(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						put(n.Pos(), n.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							put(n.Pos(), n.End(), fmt.Sprint(v-1), "int")
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 {
						put(n.Pos(), n.End(), strconv.Quote(s[1:]), "string")
						if len(s) > 1 {
							put(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "string")
						}
					}
				case token.CHAR:
					if s, _, _, err := strconv.UnquoteChar(n.Value[1:], '\''); err == nil {
						put(n.Pos(), n.End(), strconv.QuoteRune(s+1), "char")
					}
				case token.FLOAT:
					put(n.Pos(), n.End(), "("+n.Value+"*1.01)", "float")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					stmt(s, put, text, logging)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					stmt(s, put, text, logging)
				}
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i == 0 {
							put(e.Pos(), n.List[1].Pos(), "", "case value")
						} else {
							put(n.List[i-1].End(), e.End(), "", "case value")
						}
					}
				}
			case *ast.CommClause:
				for _, s := range n.Body {
					stmt(s, put, text, logging)
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch text(r) {
					case "true":
						put(r.Pos(), r.End(), "false", "return")
					case "false":
						put(r.Pos(), r.End(), "true", "return")
					}
				}
			case *ast.KeyValueExpr:
				if _, ok := n.Key.(*ast.Ident); ok {
					e := n.End()
					for off(e) < len(b) && b[off(e)] != ',' && b[off(e)] != '}' {
						e++
					}
					if b[off(e)] == ',' {
						put(n.Pos(), e+1, "", "field")
					}
				}
			}
			return true
		})
	}
}

func stmt(s ast.Stmt, put func(s, e token.Pos, to, kind string), text func(ast.Node) string, logging func(ast.Node) bool) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		if !logging(s) {
			put(s.Pos(), s.End(), "", "delete")
		}
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			put(s.Pos(), s.End(), "", "delete")
		}
	case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
		put(s.Pos(), s.End(), "", "delete")
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			put(s.Pos(), s.End(), "", "delete")
		} else {
			put(s.Pos(), s.Pos(), "if true { panic(\"unreachable\") }; ", "reached?")
		}
	case *ast.IfStmt:
		if s.Else == nil {
			put(s.Pos(), s.End(), "", "delete")
		}
	}
}
