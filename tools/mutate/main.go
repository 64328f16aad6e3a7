// mutate lists the single-edit mutants of a Go file as JSON lines:
// {"file","line","start","end","new","what"}; used by drive.py only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var enc = json.NewEncoder(os.Stdout)

func main() {
	for _, f := range os.Args[1:] {
		one(f)
	}
}

func one(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	t, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(n ast.Node, a, b token.Pos, repl, what string) {
		enc.Encode(map[string]any{"file": file, "line": fs.Position(n.Pos()).Line, "start": off(a), "end": off(b), "new": repl, "what": what})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swaps := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}}
	del := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.GoStmt:
				emit(s, s.Pos(), s.End(), "", "delete "+text(s))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					l := ""
					for _, e := range s.Lhs {
						if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
							l += "_ = " + id.Name + ";"
						}
					}
					for _, e := range s.Rhs {
						if id, ok := e.(*ast.Ident); ok && id.Name != "nil" {
							l += "_ = " + id.Name + ";"
						}
					}
					emit(s, s.Pos(), s.End(), l, "delete "+text(s))
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					emit(s, s.Pos(), s.End(), "", "delete if "+text(s.Cond))
				}
			case *ast.ReturnStmt:
				_ = i
			}
		}
	}
	ast.Inspect(t, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body == nil {
				return false
			}
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, r := range swaps[n.Op] {
				emit(n, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, fmt.Sprintf("%s: %s -> %s", text(n), n.Op, r))
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit(n, n.X.Pos(), n.Y.Pos(), "", "drop left of "+text(n))
				emit(n, n.X.End(), n.Y.End(), "", "drop right of "+text(n))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT || n.Op == token.SUB {
				emit(n, n.OpPos, n.OpPos+1, "", "drop "+n.Op.String()+" of "+text(n))
			}
		case *ast.IfStmt:
			emit(n, n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate if "+text(n.Cond))
			if n.Else != nil {
				emit(n, n.Body.End(), n.Else.End(), "", "delete else of "+text(n.Cond))
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					emit(n, n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", n.Value, v+1))
					if v > 0 {
						emit(n, n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", n.Value, v-1))
					}
				}
			case token.STRING:
				if v, err := strconv.Unquote(n.Value); err == nil && v == "" {
					emit(n, n.Pos(), n.End(), `"x"`, `"" -> "x"`)
				} else if err == nil && len(v) < 24 {
					emit(n, n.Pos(), n.End(), strconv.Quote("x"+v), "change "+n.Value)
				}
			case token.CHAR:
				emit(n, n.Pos(), n.End(), "'~'", n.Value+" -> '~'")
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit(n, n.Pos(), n.End(), "false", "true -> false")
			}
			if n.Name == "false" {
				emit(n, n.Pos(), n.End(), "true", "false -> true")
			}
		case *ast.BlockStmt:
			del(n.List)
		case *ast.CaseClause:
			del(n.Body)
			if n.List != nil && len(n.Body) > 0 {
				emit(n, n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
			}
			for i, e := range n.List {
				if len(n.List) > 1 {
					if i+1 < len(n.List) {
						emit(n, e.Pos(), n.List[i+1].Pos(), "", "drop case "+text(e))
					} else {
						emit(n, n.List[i-1].End(), e.End(), "", "drop case "+text(e))
					}
				}
			}
		case *ast.KeyValueExpr:
			if _, ok := n.Value.(*ast.FuncLit); !ok {
				emit(n, n.Pos(), n.End(), "", "drop entry "+text(n))
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				emit(n, n.Body.Lbrace+1, n.Body.Lbrace+1, " if true { break };", "loop body never runs")
			}
		case *ast.RangeStmt:
			emit(n, n.Body.Lbrace+1, n.Body.Lbrace+1, " if true { break };", "range body never runs")
		case *ast.SliceExpr:
			if n.Low != nil {
				emit(n, n.Low.Pos(), n.Low.End(), "", "drop low of "+text(n))
			}
			if n.High != nil {
				emit(n, n.High.Pos(), n.High.End(), "", "drop high of "+text(n))
			}
		case *ast.CallExpr:
			// f(x) -> x when the types may agree
			if len(n.Args) == 1 {
				emit(n, n.Pos(), n.End(), text(n.Args[0]), "unwrap "+text(n))
			}
			if len(n.Args) == 2 {
				a, b := text(n.Args[0]), text(n.Args[1])
				if a != b {
					emit(n, n.Args[0].Pos(), n.Args[1].End(), b+", "+a, "swap args of "+text(n))
				}
			}
		}
		return true
	})
}
