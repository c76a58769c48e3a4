// mut lists (as JSON lines) small syntactic changes of the library's source files: mut REPO FILE...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
)

type M struct {
	File       string
	Line       int
	Start, End int
	New, Desc  string
}

func main() {
	repo := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, _ := os.ReadFile(filepath.Join(repo, f))
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, s, e int, nw, desc string) {
			enc.Encode(M{f, fs.Position(n.Pos()).Line, s, e, nw, desc})
		}
		_ = printer.Fprint
		_ = bytes.NewReader
		fn := ""
		stmts := func(list []ast.Stmt) {
			for _, st := range list {
				s, e := off(st.Pos()), off(st.End())
				short := text(st)
				if len(short) > 60 {
					short = short[:60]
				}
				switch x := st.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					emit(st, s, e, "", fn+": delete "+short)
				case *ast.GoStmt:
					emit(st, s, e, text(x.Call), fn+": no go: "+short)
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(st, s, e, "", fn+": delete "+short)
					}
				case *ast.BranchStmt:
					emit(st, s, e, "", fn+": delete "+short)
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(st, s, e, "", fn+": delete if "+short)
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(st, s, e, "", fn+": delete return")
					}
				}
			}
			// neighbours swapped.
			for i := 0; i+1 < len(list); i++ {
				a, b := list[i], list[i+1]
				simple := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
						return true
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					case *ast.IfStmt:
						return x.Else == nil
					}
					return false
				}
				if simple(a) && simple(b) {
					as, ae, bs, be := off(a.Pos()), off(a.End()), off(b.Pos()), off(b.End())
					emit(a, as, be, string(src[bs:be])+string(src[ae:bs])+string(src[as:ae]), fn+": swap "+fmt.Sprintf("%.40s / %.40s", text(a), text(b)))
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.IfStmt:
				emit(x, off(x.Cond.Pos()), off(x.Cond.End()), "!("+text(x.Cond)+")", fn+": negate if "+text(x.Cond))
			case *ast.BinaryExpr:
				r := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}[x.Op]
				if x.Op == token.LAND || x.Op == token.LOR {
					s, e := off(x.Pos()), off(x.End())
					emit(x, s, e, "("+text(x.X)+")", fn+": only left of "+text(x))
					emit(x, s, e, "("+text(x.Y)+")", fn+": only right of "+text(x))
				} else if r != "" {
					o := off(x.OpPos)
					emit(x, o, o+len(x.Op.String()), r, fn+": "+r+" in "+text(x))
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, off(x.Pos()), off(x.End()), "false", fn+": true->false")
				} else if x.Name == "false" {
					emit(x, off(x.Pos()), off(x.End()), "true", fn+": false->true")
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Key.(*ast.Ident); ok && fn != "" {
					e := off(x.End())
					if src[e] == ',' {
						e++
					}
					emit(x, off(x.Pos()), e, "", fn+": drop field "+text(x))
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(x, off(r.Pos()), off(r.End()), "nil", fn+": return nil for err")
					}
				}
			}
			return true
		})
	}
}
