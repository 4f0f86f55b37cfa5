// mutate lists or applies small syntactic changes to Go files, to measure what
// the monitors notice.   mutate list FILE | mutate apply FILE N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	a, b      int
	text, why string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[2], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ms []mut
	add := func(a, b token.Pos, text, why string) { ms = append(ms, mut{off(a), off(b), text, why}) }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	isLog := func(s string) bool {
		return strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "fmt.Print") || strings.Contains(s, "Errorf") || strings.HasPrefix(s, "defer")
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.FuncDecl:
			if n.Name.Name == "String" || n.Name.Name == "Dump" {
				return false
			}
		case *ast.CallExpr:
			if isLog(txt(n)) {
				return false
			}
			if len(n.Args) == 2 && txt(n.Args[0]) != txt(n.Args[1]) && len(txt(n)) < 60 {
				add(n.Args[0].Pos(), n.Args[1].End(), txt(n.Args[1])+", "+txt(n.Args[0]), "swap args")
			}
		case *ast.BinaryExpr:
			for _, r := range map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}}[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, n.Op.String()+" -> "+r)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n.X.Pos(), n.Y.Pos(), "", "drop left")
				add(n.X.End(), n.Y.End(), "", "drop right")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.Atoi(n.Value); err == nil {
					add(n.Pos(), n.End(), strconv.Itoa(v+1), "int+1")
					if v > 0 {
						add(n.Pos(), n.End(), strconv.Itoa(v-1), "int-1")
					}
				}
			}
			if n.Kind == token.FLOAT {
				add(n.Pos(), n.End(), n.Value+"*1.01", "float*1.01")
			}
			if n.Kind == token.STRING && len(n.Value) > 3 {
				add(n.Pos()+1, n.Pos()+2, "_", "string changed")
			}
		case *ast.UnaryExpr:
			if n.Op == token.SUB || n.Op == token.NOT {
				add(n.Pos(), n.Pos()+1, "", "drop "+n.Op.String())
			}
		case *ast.SelectorExpr:
			switch n.Sel.Name {
			case "X", "Y", "Z", "W":
				add(n.Sel.Pos(), n.Sel.End(), map[string]string{"X": "Y", "Y": "Z", "Z": "X", "W": "X"}[n.Sel.Name], "component")
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")", "if false")
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+txt(n.Cond)+")", "if true")
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
			if !isLog(txt(n)) {
				add(n.Pos(), n.End(), "", "delete statement")
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				add(n.Pos(), n.End(), "", "delete assignment")
			}
		case *ast.KeyValueExpr:
			if _, ok := n.Value.(*ast.BasicLit); !ok {
				add(n.Pos(), n.End(), "", "drop field") // may leave ",," -> does not compile, skipped
			}
		case *ast.ReturnStmt:
			for i, e := range n.Results {
				if i == len(n.Results)-1 && txt(e) == "err" {
					add(e.Pos(), e.End(), "nil", "err -> nil")
				}
				if t := txt(e); t == "true" || t == "false" {
					add(e.Pos(), e.End(), map[string]string{"true": "false", "false": "true"}[t], "bool")
				}
			}
		}
		return true
	})
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].a < ms[j].a })
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Println(i, fset.Position(token.Pos(f.FileStart)+token.Pos(m.a)).Line, m.why, "|", strings.ReplaceAll(string(src[m.a:m.b]), "\n", " "))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[3])
	m := ms[i]
	s := string(src)
	out := s[:m.a] + m.text + s[m.b:]
	if m.why == "drop field" { // take the following comma too
		rest := s[m.b:]
		if t := strings.TrimLeft(rest, " \t"); strings.HasPrefix(t, ",") {
			out = s[:m.a] + t[1:]
		}
	}
	os.WriteFile(os.Args[2], []byte(out), 0644)
	fmt.Println(fset.Position(token.Pos(f.FileStart)+token.Pos(m.a)).Line, m.why, "|", strings.ReplaceAll(string(src[m.a:m.b]), "\n", " "))
}
