// mutate lists small changes of a Go file: "mutate FILE" prints how many there are,
// "mutate FILE N" writes the file with the Nth of them to standard output and says
// on standard error what it is. It is for looking for holes in the checks; no check
// uses it.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var l [][]edit
	add := func(e ...edit) { l = append(l, e) }
	rep := func(n ast.Node, s string) { add(edit{off(n.Pos()), off(n.End()), s}) }
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			if txt(n.X) == "err" && txt(n.Y) == "nil" {
				return false // see IfStmt
			}
			for _, o := range ops[n.Op] {
				p := off(n.OpPos)
				add(edit{p, p + len(n.Op.String()), o})
			}
		case *ast.IfStmt:
			rep(n.Cond, "false && ("+txt(n.Cond)+")")
			if txt(n.Cond) != "err != nil" {
				rep(n.Cond, "true || ("+txt(n.Cond)+")")
			}
		case *ast.ForStmt:
			if n.Cond != nil {
				rep(n.Cond, "false && ("+txt(n.Cond)+")")
			}
		case *ast.ExprStmt:
			rep(n, "")
		case *ast.DeferStmt:
			rep(n, "")
			rep(n, txt(n.Call))
		case *ast.GoStmt:
			rep(n, txt(n.Call))
		case *ast.IncDecStmt:
			rep(n, "")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				rep(n, "")
			}
		case *ast.BranchStmt:
			if n.Label == nil {
				switch n.Tok {
				case token.BREAK:
					rep(n, "continue")
				case token.CONTINUE:
					rep(n, "break")
				}
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				last := n.Results[k-1]
				if txt(last) != "nil" {
					rep(last, "nil")
				}
				for _, r := range n.Results[:k-1] {
					if txt(r) != "nil" {
						rep(r, "nil")
					}
				}
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				rep(n, "("+n.Value+"+1)")
				rep(n, "("+n.Value+"-1)")
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil {
					rep(n, strconv.Quote(s+"x"))
				}
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				rep(n, "false")
			case "false":
				rep(n, "true")
			}
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); ok && ast.IsExported(id.Name) {
				if n.Value.Pos().IsValid() {
					end := off(n.End())
					if end < len(src) && src[end] == ',' {
						add(edit{off(n.Pos()), end + 1, ""})
					}
				}
			}
		case *ast.CaseClause:
			if n.List != nil && len(n.Body) > 0 {
				add(edit{off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), ""})
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := n.Args[i], n.Args[i+1]
				if txt(a) == "ctx" || txt(a) == txt(b) {
					continue
				}
				add(edit{off(a.Pos()), off(a.End()), txt(b)}, edit{off(b.Pos()), off(b.End()), txt(a)})
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				rep(n.Low, "("+txt(n.Low)+")+1")
			}
			if n.High != nil {
				rep(n.High, "("+txt(n.High)+")-1")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				rep(n, txt(n.X))
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		fmt.Println(len(l))
		return
	}
	i, err := strconv.Atoi(os.Args[2])
	if err != nil {
		panic(err)
	}
	e := l[i]
	out := string(src)
	for j := len(e) - 1; j >= 0; j-- {
		out = out[:e[j].from] + e[j].text + out[e[j].to:]
	}
	line := 1
	for _, c := range src[:e[0].from] {
		if c == '\n' {
			line++
		}
	}
	old := string(src[e[0].from:e[0].to])
	if len(old) > 60 {
		old = old[:60] + "..."
	}
	fmt.Fprintf(os.Stderr, "%s:%d %q -> %.70q\n", os.Args[1], line, old, e[0].text)
	os.Stdout.WriteString(out)
}
