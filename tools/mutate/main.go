// mutate lists small changes of Go files, one JSON object per line, to try the checks against.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Op    string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, new, op string) {
			old := text(n)
			if old == new {
				return
			}
			enc.Encode(mutant{file, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), new, old, op})
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					o := off(x.OpPos)
					enc.Encode(mutant{file, fs.Position(x.OpPos).Line, o, o + len(x.Op.String()), s, x.Op.String(), "operator"})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, text(x.X), "left-only")
					emit(x, text(x.Y), "right-only")
				}
			case *ast.IfStmt:
				emit(x.Cond, "true || ("+text(x.Cond)+")", "if-true")
				emit(x.Cond, "false && ("+text(x.Cond)+")", "if-false")
			case *ast.ForStmt:
				if x.Body != nil && len(x.Body.List) > 0 {
					emit(x.Body.List[len(x.Body.List)-1], text(x.Body.List[len(x.Body.List)-1])+"; break", "loop-once")
				}
			case *ast.RangeStmt:
				if x.Body != nil && len(x.Body.List) > 0 {
					l := x.Body.List[len(x.Body.List)-1]
					emit(l, text(l)+"; break", "loop-once")
				}
			case *ast.BlockStmt:
				for i, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
						emit(s, "", "delete")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s, "", "delete")
						}
					case *ast.IfStmt:
						if y.Init == nil {
							emit(s, "", "delete")
						}
					case *ast.RangeStmt, *ast.ForStmt:
						emit(s, "", "delete")
					}
					if i+1 < len(x.List) {
						a, b := s, x.List[i+1]
						_, r := b.(*ast.ReturnStmt)
						if !r {
							enc.Encode(mutant{file, fs.Position(a.Pos()).Line, off(a.Pos()), off(b.End()), text(b) + "\n" + text(a), text(a) + " / " + text(b), "reorder"})
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch y := s.(type) {
					case *ast.ExprStmt:
						emit(s, "", "delete")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s, "", "delete")
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if t := text(r); t == "err" {
						emit(r, "nil", "return-nil")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, "false", "bool")
				} else if x.Name == "false" {
					emit(x, "true", "bool")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x, text(x.X), "not")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x, fmt.Sprint(v+1), "int")
						if v > 0 {
							emit(x, fmt.Sprint(v-1), "int")
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && s != "" {
						emit(x, strconv.Quote(s+"x"), "string")
						emit(x, `""`, "string")
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					enc.Encode(mutant{file, fs.Position(a.Pos()).Line, off(a.Pos()), off(b.End()), text(b) + ", " + text(a), text(a) + ", " + text(b), "args"})
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 1 {
					emit(x, text(x.Args[0]), "append")
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Value.(*ast.SelectorExpr); ok {
					_ = ok
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok && len(x.Elts) > 1 {
						end := off(kv.End())
						for end < len(src) && (src[end] == ' ' || src[end] == ',') {
							end++
						}
						if end > 0 && off(x.Rbrace) >= end {
							enc.Encode(mutant{file, fs.Position(kv.Pos()).Line, off(kv.Pos()), end, "", text(kv), "field"})
						}
					}
				}
			case *ast.SelectorExpr:
				sib := map[string]string{"From": "To", "To": "From", "Name": "Expanded", "Mechanism": "Name", "Expanded": "Mechanism", "External": "External"}
				if s := sib[x.Sel.Name]; s != "" && s != x.Sel.Name {
					emit(x.Sel, s, "sibling")
				}
			}
			return true
		})
	}
}
