// mutate lists small changes of the Go files named on the command line, one JSON object per line:
// {"file","start","end","new","op","line"}: bytes start..end are replaced by new.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New, Op    string
	Line       int
	Func       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, new, op string) {
			enc.Encode(mut{f, off(n.Pos()), off(n.End()), new, op, fs.Position(n.Pos()).Line, fn})
		}
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			emit(e, "!("+text(e)+")", "negate")
			emit(e, "(true || ("+text(e)+"))", "true")
			emit(e, "(false && ("+text(e)+"))", "false")
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					cond(x.Cond)
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond, "(false && ("+text(x.Cond)+"))", "false")
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
					for _, a := range alt[x.Op] {
						emit(x, text(x.X)+" "+a+" "+text(x.Y), "op "+x.Op.String()+"->"+a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, text(x.X), "drop-right")
						emit(x, text(x.Y), "drop-left")
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						switch x.Tok {
						case token.CONTINUE:
							emit(x, "break", "continue->break")
						case token.BREAK:
							emit(x, "continue", "break->continue")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit(r, "false", "ret")
							case "false":
								emit(r, "true", "ret")
							}
							if id.Name != "nil" && id.Name != "true" && id.Name != "false" && len(x.Results) > 0 {
								emit(r, "nil", "ret-nil")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, "false", "const")
					} else if x.Name == "false" {
						emit(x, "true", "const")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x, "("+x.Value+"+1)", "int")
					}
					if x.Kind == token.STRING && x.Value == `""` {
						emit(x, `"x"`, "str")
					}
				case *ast.BlockStmt:
					for i, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
							emit(s, "", "delete")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s, blank(y, text), "delete")
							}
						case *ast.IfStmt:
							if y.Init == nil && y.Else == nil {
								// only the body's effect is dropped by "false"
							}
						case *ast.RangeStmt:
							emit(s, blankBody(src, off(y.Pos()), off(y.Body.Pos()), text(y.Body)), "break-after-first")
						}
						if i+1 < len(x.List) {
							t := x.List[i+1]
							a, aok := s.(*ast.ExprStmt)
							b, bok := t.(*ast.ExprStmt)
							if aok && bok {
								enc.Encode(mut{f, off(a.Pos()), off(b.End()), text(b) + "\n" + text(a), "swap", fs.Position(a.Pos()).Line, fn})
							}
						}
					}
				case *ast.CallExpr:
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						sw := map[string]string{"RLock": "Lock", "Lock": "RLock", "Unlock": "RUnlock", "RUnlock": "Unlock", "After": "Before"}
						if w := sw[se.Sel.Name]; w != "" {
							emit(se.Sel, w, "call")
						}
					}
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						enc.Encode(mut{f, off(a.Pos()), off(b.End()), text(b) + ", " + text(a), "swap-args", fs.Position(a.Pos()).Line, fn})
					}
				case *ast.SelectorExpr:
					alt := map[string][]string{"NamespaceID": {"ScopeID"}, "ScopeID": {"NamespaceID"}, "TenantID": {"NamespaceID"}, "PrincipalID": {"TenantID"}, "Namespace": {"Scope"}, "Scope": {"Namespace"}, "Tenant": {"Namespace"}, "Principal": {"Tenant"}, "TenantID_": nil}
					for _, a := range alt[x.Sel.Name] {
						emit(x.Sel, a, "field")
					}
				}
				return true
			})
		}
	}
}

func blank(y *ast.AssignStmt, text func(ast.Node) string) string {
	s := ""
	for _, r := range y.Rhs {
		s += "_ = " + text(r) + "; "
	}
	return s
}

func blankBody(src []byte, a, b int, body string) string {
	return string(src[a:b]) + body[:len(body)-1] + "\nbreak\n}"
}
