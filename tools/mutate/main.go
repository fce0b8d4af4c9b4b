// mutate lists single-place changes of Go files: mutate FILE... prints one JSON
// object per line: {"file","line","op","start","end","new"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b token.Pos, n string) {
			old := string(src[off(a):off(b)])
			if old == n {
				return
			}
			_ = enc.Encode(mut{f, fs.Position(a).Line, op, off(a), off(b), n, old})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		quiet := map[ast.Node]bool{}
		var walk func(n ast.Node) bool
		delStmt := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.BranchStmt:
					emit("delete", s.Pos(), s.End(), "")
					if x.Tok == token.CONTINUE {
						emit("break", s.Pos(), s.End(), "break")
					}
				case *ast.RangeStmt, *ast.ForStmt:
					emit("delete", s.Pos(), s.End(), "")
				}
			}
			// neighbours exchanged
			for i := 0; i+1 < len(l); i++ {
				_, a1 := l[i].(*ast.ReturnStmt)
				_, a2 := l[i+1].(*ast.ReturnStmt)
				if !a1 && !a2 {
					emit("swap", l[i].Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(l[i]))
				}
			}
		}
		walk = func(n ast.Node) bool {
			if quiet[n] {
				return false
			}
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				delStmt(x.List)
			case *ast.CaseClause:
				delStmt(x.Body)
				if x.List != nil {
					emit("drop case", x.Pos(), x.End(), "")
				}
				if len(x.List) > 1 {
					for _, e := range x.List {
						_ = e
					}
				}
			case *ast.IfStmt:
				emit("cond true", x.Cond.Pos(), x.Cond.End(), "true || "+"("+text(x.Cond)+")")
				emit("cond false", x.Cond.Pos(), x.Cond.End(), "false && "+"("+text(x.Cond)+")")
				emit("cond neg", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
			case *ast.BinaryExpr:
				m := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
				for _, t := range m[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left only", x.Pos(), x.End(), text(x.X))
					emit("right only", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("drop !", x.Pos(), x.End(), text(x.X))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					emit("int", x.Pos(), x.End(), "("+x.Value+"+1)")
					emit("int", x.Pos(), x.End(), "("+x.Value+"-1)")
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil {
						if v == "" {
							emit("string", x.Pos(), x.End(), `"x"`)
						} else {
							emit("string", x.Pos(), x.End(), strconv.Quote(v+"x"))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					emit("bool", x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
				}
			case *ast.CallExpr:
				t := text(x.Fun)
				if t == "fmt.Errorf" || t == "errors.New" || t == "fmt.Printf" || t == "panic" {
					return false
				}
				// arguments of equal looks exchanged
				for i := 0; i+1 < len(x.Args); i++ {
					emit("swap args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
				if strings.HasPrefix(t, "strings.") && len(x.Args) >= 1 && (t == "strings.ToLower" || t == "strings.TrimSpace") {
					emit("unwrap", x.Pos(), x.End(), text(x.Args[0]))
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					end := e.End()
					if i+1 < len(x.Elts) {
						end = x.Elts[i+1].Pos()
					} else if src[off(end)] == ',' {
						end++
					}
					emit("drop element", e.Pos(), end, "")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 2 && text(x.Results[1]) == "nil" && text(x.Results[0]) != "nil" {
					emit("return nil", x.Results[0].Pos(), x.Results[0].End(), "nil")
				}
				if len(x.Results) == 1 && (text(x.Results[0]) == "true" || text(x.Results[0]) == "false") {
					break
				}
			}
			return true
		}
		ast.Inspect(file, walk)
	}
	_ = fmt.Sprint
}
