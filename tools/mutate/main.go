// Lists small changes of Go files as JSON lines: {id,file,start,end,text,desc}.
// Used to look for behaviour that no check pins down; not part of any check.
//
//	go run main.go ROOT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Desc  string `json:"desc"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	n := 0
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(a ast.Node) string { return string(src[off(a.Pos()):off(a.End())]) }
		fn := ""
		emit := func(s, e token.Pos, t, desc string) {
			n++
			old := string(src[off(s):off(e)])
			if old == t {
				return
			}
			sh := func(x string) string {
				x = strings.Join(strings.Fields(x), " ")
				if len(x) > 90 {
					x = x[:90] + "…"
				}
				return x
			}
			enc.Encode(mut{fmt.Sprintf("m%05d", n), f, off(s), off(e), t, desc + ": " + sh(old) + " => " + sh(t), fset.Position(s).Line, fn})
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		}
		var stack []ast.Node
		ast.Inspect(file, func(nd ast.Node) bool {
			if nd == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, nd)
			var parent ast.Node
			if len(stack) > 1 {
				parent = stack[len(stack)-2]
			}
			switch x := nd.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "left only")
					emit(x.Pos(), x.End(), text(x.Y), "right only")
				}
				if x.Op == token.ADD {
					emit(x.Pos(), x.End(), text(x.X), "left only")
					emit(x.Pos(), x.End(), text(x.Y), "right only")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "drop")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "drop")
				}
			case *ast.IncDecStmt:
				if _, ok := parent.(*ast.BlockStmt); ok {
					emit(x.Pos(), x.End(), "", "drop")
				}
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop")
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "", "drop")
					emit(x.Pos(), x.End(), "break", "branch")
				} else if x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "", "drop")
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					l := x.Results[len(x.Results)-1]
					switch text(l) {
					case "nil":
					case "err":
						emit(l.Pos(), l.End(), "nil", "return")
					}
				}
				if _, ok := parent.(*ast.BlockStmt); ok && len(stack) > 2 {
					if _, ok := stack[len(stack)-3].(*ast.FuncDecl); !ok {
						emit(x.Pos(), x.End(), "", "drop return")
					}
				}
			case *ast.CaseClause:
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i+1 < len(x.List) {
							emit(e.Pos(), x.List[i+1].Pos(), "", "drop case expr")
						} else {
							emit(x.List[i-1].End(), e.End(), "", "drop case expr")
						}
					}
				}
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
				if x.List != nil {
					emit(x.Pos(), x.End(), "", "drop case")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "not")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "int")
					if x.Value != "0" {
						emit(x.Pos(), x.End(), "("+x.Value+"-1)", "int")
					}
				}
				if x.Kind == token.STRING && x.Value != `""` {
					if _, ok := parent.(*ast.Field); ok {
						// a tag
						if strings.Contains(x.Value, ",omitempty") {
							emit(x.Pos(), x.End(), strings.ReplaceAll(x.Value, ",omitempty", ""), "tag")
						}
						break
					}
					if _, ok := parent.(*ast.ImportSpec); ok {
						break
					}
					msg := false
					if c, ok := parent.(*ast.CallExpr); ok {
						t := text(c.Fun)
						msg = strings.Contains(t, "Errorf") || strings.Contains(t, "rintf") || strings.Contains(t, "errors.New") || t == "panic" || strings.Contains(t, "rintln")
					}
					if !msg {
						s, err := strconv.Unquote(x.Value)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.Quote(s[:len(s)-1]), "string")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.CallExpr:
				if len(x.Args) == 1 {
					emit(x.Pos(), x.End(), "("+text(x.Args[0])+")", "call")
				}
				if t := text(x.Fun); len(x.Args) == 2 && strings.HasPrefix(t, "strings.") {
					emit(x.Pos(), x.End(), "("+text(x.Args[0])+")", "call")
					if strings.HasSuffix(t, "HasPrefix") {
						emit(x.Fun.Pos(), x.Fun.End(), "strings.Contains", "call")
					}
					if strings.HasSuffix(t, "EqualFold") {
						emit(x.Pos(), x.End(), text(x.Args[0])+" == "+text(x.Args[1]), "call")
					}
				}
				if text(x.Fun) == "append" && len(x.Args) == 2 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "append")
				}
			case *ast.SliceExpr:
				emit(x.Pos(), x.End(), text(x.X), "slice")
			case *ast.KeyValueExpr:
				if cl, ok := parent.(*ast.CompositeLit); ok && len(cl.Elts) > 1 {
					end := x.End()
					for off(end) < len(src) && src[off(end)] != ',' && src[off(end)] != '\n' && src[off(end)] != '}' {
						end++
					}
					if src[off(end)] == ',' {
						end++
					}
					emit(x.Pos(), end, "", "drop element")
				}
			case *ast.ForStmt:
			case *ast.RangeStmt:
				emit(x.Body.Lbrace+1, x.Body.Rbrace, "", "empty loop")
			}
			return true
		})
	}
}
