// gomut lists small changes ("mutants") of Go source files as JSON lines: byte range and replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		cur := ""
		put := func(a, b token.Pos, s, kind string) {
			enc.Encode(mut{fn, fs.Position(a).Offset, fs.Position(b).Offset, s, kind, fs.Position(a).Line, cur})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		ops := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range ops[n.Op] {
						put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "op "+n.Op.String()+" "+o)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT && len(n.Value) < 6 && !strings.HasPrefix(n.Value, "0x") {
						put(n.Pos(), n.End(), "("+n.Value+"+1)", "lit+1")
						if n.Value != "0" {
							put(n.Pos(), n.End(), "("+n.Value+"-1)", "lit-1")
						}
					}
				case *ast.IfStmt:
					put(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate if")
					if n.Init == nil {
						put(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false")
					} else {
						put(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false")
					}
				case *ast.IndexExpr:
					put(n.Index.Pos(), n.Index.End(), text(n.Index)+"+1", "index+1")
				case *ast.SliceExpr:
					if n.Low != nil {
						put(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", "low+1")
					}
					if n.High != nil {
						put(n.High.Pos(), n.High.End(), text(n.High)+"-1", "high-1")
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt:
							put(s.Pos(), s.End(), "_ = 0", "delete call")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								var l []string
								for _, r := range s.Rhs {
									if _, ok := r.(*ast.FuncLit); !ok {
										l = append(l, text(r))
									}
								}
								if len(s.Lhs) == len(s.Rhs) && len(l) == len(s.Rhs) {
									put(s.Pos(), s.End(), strings.Repeat("_, ", len(l)-1)+"_ = "+strings.Join(l, ", "), "delete assign")
								}
							}
						case *ast.IncDecStmt:
							put(s.Pos(), s.End(), "_ = 0", "delete inc")
						case *ast.BranchStmt:
							if s.Label == nil && s.Tok == token.BREAK {
								put(s.Pos(), s.End(), "continue", "break->continue")
							}
							if s.Label == nil && s.Tok == token.CONTINUE {
								put(s.Pos(), s.End(), "break", "continue->break")
							}
							put(s.Pos(), s.End(), "_ = 0", "delete branch")
						case *ast.DeferStmt:
							put(s.Pos(), s.End(), "_ = 0", "delete defer")
						}
					}
				case *ast.ReturnStmt:
					if k := len(n.Results); k > 0 {
						last := n.Results[k-1]
						if t := text(last); t != "nil" && (strings.HasPrefix(t, "err") || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "Err") || strings.Contains(t, "rror")) {
							put(last.Pos(), last.End(), "nil", "swallow error")
						}
						for _, r := range n.Results {
							switch text(r) {
							case "true":
								put(r.Pos(), r.End(), "false", "true->false")
							case "false":
								put(r.Pos(), r.End(), "true", "false->true")
							}
						}
					}
				}
				return true
			})
		}
	}
	_ = fmt.Sprint
}
