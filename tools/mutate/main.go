//go:build ignore

// Development only: writes the mutants of one Go file, one directory each.
// usage: go run main.go FILE OUTDIR
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	file, out := os.Args[len(os.Args)-2], os.Args[len(os.Args)-1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var eds []edit
	add := func(n ast.Node, text, what string) {
		eds = append(eds, edit{off(n.Pos()), off(n.End()), text, fmt.Sprintf("%s:%d %s", filepath.Base(file), fset.Position(n.Pos()).Line, what)})
	}
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"/"},
	}
	inFunc := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncDecl:
			inFunc = true
		case *ast.GenDecl:
			if y.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range ops[y.Op] {
				eds = append(eds, edit{off(y.OpPos), off(y.OpPos) + len(y.Op.String()), o, fmt.Sprintf("%s:%d %s -> %s", filepath.Base(file), fset.Position(y.OpPos).Line, y.Op, o)})
			}
			if y.Op == token.LAND || y.Op == token.LOR {
				add(y, txt(y.X), "keep left of "+y.Op.String())
				add(y, txt(y.Y), "keep right of "+y.Op.String())
			}
		case *ast.BasicLit:
			switch y.Kind {
			case token.INT:
				add(y, "("+y.Value+"+1)", y.Value+"+1")
				if y.Value != "0" {
					add(y, "("+y.Value+"-1)", y.Value+"-1")
				}
			case token.STRING:
				if inFunc && len(y.Value) > 3 {
					add(y, y.Value[:len(y.Value)-2]+y.Value[len(y.Value)-1:], "shorten "+y.Value)
				}
			}
		case *ast.Ident:
			switch y.Name {
			case "true":
				add(y, "false", "true -> false")
			case "false":
				add(y, "true", "false -> true")
			case "nil":
			}
		case *ast.IfStmt:
			add(y.Cond, "!("+txt(y.Cond)+")", "negate")
			add(y.Cond, "("+txt(y.Cond)+") && false", "never")
			add(y.Cond, "("+txt(y.Cond)+") || true", "always")
		case *ast.ExprStmt:
			add(y, "", "delete "+txt(y))
		case *ast.AssignStmt:
			if y.Tok != token.DEFINE {
				var ids []string
				for range y.Lhs {
					ids = append(ids, "_")
				}
				if y.Tok == token.ASSIGN {
					add(y, strings.Join(ids, ", ")+" = "+string(src[off(y.Rhs[0].Pos()):off(y.End())]), "drop "+txt(y))
				} else {
					add(y, "_ = "+txt(y.Rhs[0]), "drop "+txt(y))
				}
			}
		case *ast.IncDecStmt:
			add(y, "", "delete "+txt(y))
		case *ast.BranchStmt:
			if y.Label == nil && (y.Tok == token.BREAK || y.Tok == token.CONTINUE) {
				add(y, "", "delete "+txt(y))
				if y.Tok == token.BREAK {
					add(y, "continue", "continue")
				} else {
					add(y, "break", "break")
				}
			}
		case *ast.CaseClause:
			if len(y.List) > 1 {
				for i := range y.List {
					var l []string
					for j, e := range y.List {
						if j != i {
							l = append(l, txt(e))
						}
					}
					eds = append(eds, edit{off(y.List[0].Pos()), off(y.List[len(y.List)-1].End()), strings.Join(l, ", "), fmt.Sprintf("%s:%d drop case %s", filepath.Base(file), fset.Position(y.Pos()).Line, txt(y.List[i]))})
				}
			}
			if len(y.Body) > 0 && len(y.List) > 0 {
				eds = append(eds, edit{off(y.Pos()), off(y.End()), "", fmt.Sprintf("%s:%d delete %s", filepath.Base(file), fset.Position(y.Pos()).Line, strings.Split(txt(y), "\n")[0])})
			}
		case *ast.ReturnStmt:
			for _, r := range y.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r, "nil", "return nil error")
				}
			}
		case *ast.SelectorExpr:
			// Swap similar constants.
			name := y.Sel.Name
			if strings.HasPrefix(name, "GCB") && name != "GCBProperty" || strings.HasPrefix(name, "InCB") && name != "InCBProperty" {
				next := map[string]string{"GCBL": "GCBLV", "GCBV": "GCBT", "GCBLV": "GCBLVT", "GCBLVT": "GCBLV", "GCBT": "GCBV", "GCBExtend": "GCBSpacingMark", "GCBZWJ": "GCBExtend", "GCBSpacingMark": "GCBPrepend", "GCBPrepend": "GCBControl",
					"GCBRegionalIndicator": "GCBExtendedPictographic", "GCBExtendedPictographic": "GCBRegionalIndicator", "GCBCR": "GCBLF", "GCBLF": "GCBCR", "InCBLinker": "InCBExtend", "InCBExtend": "InCBLinker", "InCBConsonant": "InCBExtend"}[name]
				if next != "" {
					add(y.Sel, next, name+" -> "+next)
				}
			}
		}
		return true
	})
	// States.
	for _, s := range []string{"StateBase", "StateAwaitEmojiFlag", "StateGB11BeforeZWJ", "StateGB11AfterZWJ", "StateGB9cConsonant", "StateGB9cLinker"} {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				if r, ok := n.(*ast.ReturnStmt); ok {
					for _, e := range r.Results {
						if id, ok := e.(*ast.Ident); ok && strings.HasPrefix(id.Name, "State") && id.Name != s {
							add(e, s, id.Name+" -> "+s)
						}
					}
				}
				return true
			})
		}
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	os.MkdirAll(out, 0o755)
	for i, e := range eds {
		s := string(src[:e.from]) + e.text + string(src[e.to:])
		os.WriteFile(filepath.Join(out, fmt.Sprintf("%04d.go", i)), []byte(s), 0o644)
		os.WriteFile(filepath.Join(out, fmt.Sprintf("%04d.txt", i)), []byte(e.what+"\n"), 0o644)
	}
	fmt.Println(len(eds), "mutants of", file)
}
