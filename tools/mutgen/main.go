// mutgen lists small changes of Go files as JSON lines: file, line, start and
// end offset, replacement, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	Desc string `json:"desc"`
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, text, desc string) {
			a, b := off(from), off(to)
			if string(src[a:b]) == text {
				return
			}
			enc.Encode(mut{path, fs.Position(from).Line, fn, a, b, text, desc + ": " + short(string(src[a:b])) + " -> " + short(text)})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range ops[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), txt(x.X), "left only")
						emit(x.Pos(), x.End(), txt(x.Y), "right only")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), txt(x.X), "not")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", "const")
						if x.Value != "0" {
							emit(x.Pos(), x.End(), "("+x.Value+"-1)", "const")
						}
					}
				case *ast.IfStmt:
					if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
						emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
					}
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never")
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always")
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "("+txt(x.Low)+")+1", "low")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+txt(x.High)+")-1", "high")
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.Pos(), x.End(), txt(x.X)+"--", "incdec")
					} else {
						emit(x.Pos(), x.End(), txt(x.X)+"++", "incdec")
					}
					emit(x.Pos(), x.End(), "", "delete")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "delete")
						switch x.Tok {
						case token.ADD_ASSIGN:
							emit(x.TokPos, x.TokPos+2, "-=", "assign")
							emit(x.TokPos, x.TokPos+2, "=", "assign")
						case token.SUB_ASSIGN:
							emit(x.TokPos, x.TokPos+2, "+=", "assign")
						}
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "delete")
				case *ast.BranchStmt:
					switch x.Tok {
					case token.BREAK:
						if x.Label == nil {
							emit(x.Pos(), x.End(), "continue", "branch")
						}
						emit(x.Pos(), x.End(), "", "delete")
					case token.CONTINUE:
						if x.Label == nil {
							emit(x.Pos(), x.End(), "break", "branch")
						}
						emit(x.Pos(), x.End(), "", "delete")
					case token.GOTO:
						emit(x.Pos(), x.End(), "", "delete")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						switch t := txt(r); t {
						case "true":
							emit(r.Pos(), r.End(), "false", "return")
						case "false":
							emit(r.Pos(), r.End(), "true", "return")
						case "nil", "err":
						default:
							if _, ok := r.(*ast.BinaryExpr); ok {
								emit(r.Pos(), r.End(), "("+t+")+1", "return")
							}
						}
					}
					if len(x.Results) == 0 {
						emit(x.Pos(), x.End(), "", "delete return")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i := range x.List {
							if i > 0 {
								emit(x.List[i-1].End(), x.List[i].End(), "", "case value")
							}
						}
					}
				case *ast.CallExpr:
					// string functions with a mirror
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if r := mirror[s.Sel.Name]; r != "" {
							emit(s.Sel.Pos(), s.Sel.End(), r, "call")
						}
					}
				case *ast.FuncLit:
				}
				return true
			})
		}
	}
}

var mirror = map[string]string{
	"HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "Index": "LastIndex", "LastIndex": "Index",
	"IndexByte": "LastIndexByte", "LastIndexByte": "IndexByte", "IndexRune": "IndexByte",
	"DecodeRuneInString": "DecodeLastRuneInString", "DecodeLastRuneInString": "DecodeRuneInString",
	"TrimSpace": "ToLower", "EqualFold": "HasPrefix",
}

func short(s string) string {
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return fmt.Sprintf("%q", s)
}
