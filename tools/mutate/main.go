// Command mutate lists small syntactic changes to Go files, as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.MUL: {"+"}, token.QUO: {"*"},
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		emit := func(from, to token.Pos, n string) {
			a, b := fs.Position(from), fs.Position(to)
			enc.Encode(change{f, a.Line, a.Offset, b.Offset - a.Offset, string(src[a.Offset:b.Offset]), n})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && s != "" {
						emit(x.Pos(), x.End(), strconv.Quote(s+"~"))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					s := ""
					for _, r := range x.Rhs {
						s += "_ = " + text(r) + "; "
					}
					emit(x.Pos(), x.End(), s)
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "nil")
					}
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "continue")
				} else if x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
				}
			case *ast.CallExpr:
				if f := text(x.Fun); f == "errs.WithContext" || f == "errs.WithCause" || f == "errs.Wrap" || f == "errs.New" {
					return false
				}
				for i := 0; i+1 < len(x.Args); i++ {
					emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
			}
			return true
		})
	}
}
