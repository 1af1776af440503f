// mutate writes small semantic changes of a Go package's sources, one at a
// time, for measuring what the simulator detects (development tool).
//
// usage: mutate -src DIR            lists the changes
//
//	mutate -src DIR -n K -out D   writes the changed file into D
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type change struct {
	file     string
	from, to int
	text     string
	what     string
	line     int
	more     []change
}

func main() {
	src := flag.String("src", "/repo", "")
	n := flag.Int("n", -1, "")
	out := flag.String("out", "", "")
	flag.Parse()
	files, _ := filepath.Glob(filepath.Join(*src, "*.go"))
	sort.Strings(files)
	var all []change
	texts := map[string][]byte{}
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		b, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		texts[fn] = b
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, b, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		all = append(all, changes(fset, f, fn, b)...)
	}
	if *n < 0 {
		for i, c := range all {
			fmt.Printf("%d\t%s:%d\t%s\n", i, filepath.Base(c.file), c.line, c.what)
		}
		return
	}
	c := all[*n]
	b := texts[c.file]
	l := append([]change{c}, c.more...)
	sort.Slice(l, func(i, j int) bool { return l[i].from > l[j].from })
	for _, x := range l {
		b = append(append(append([]byte{}, b[:x.from]...), x.text...), b[x.to:]...)
	}
	if err := os.WriteFile(filepath.Join(*out, filepath.Base(c.file)), b, 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%s:%d %s\n", filepath.Base(c.file), c.line, c.what)
}

func changes(fset *token.FileSet, f *ast.File, fn string, b []byte) []change {
	var out []change
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(n ast.Node, text, what string) {
		s := string(b[off(n.Pos()):off(n.End())])
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			s = s[:i] + " ..."
		}
		out = append(out, change{file: fn, from: off(n.Pos()), to: off(n.End()), text: text, what: what + ": " + s, line: fset.Position(n.Pos()).Line})
	}
	src := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	stmts := func(l []ast.Stmt) {
		for i, st := range l {
			switch x := st.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
					t := ""
					for _, r := range x.Rhs {
						if src(r) != "nil" && src(r) != "true" && src(r) != "false" {
							_ = r
						}
					}
					add(st, t, "delete")
				}
			case *ast.IncDecStmt, *ast.DeferStmt:
				add(st, "", "delete")
			case *ast.ExprStmt:
				add(st, "", "delete")
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(st, "", "delete")
				}
			case *ast.ReturnStmt:
				if i < len(l)-1 || len(x.Results) == 0 {
					if len(x.Results) == 0 {
						add(st, "", "delete")
					}
				}
			case *ast.BranchStmt, *ast.GoStmt:
				add(st, "", "delete")
			}
			if i > 0 { // swap with the previous simple statement
				simple := func(s ast.Stmt) bool {
					switch s.(type) {
					case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt:
						return true
					}
					return false
				}
				if simple(st) && simple(l[i-1]) {
					p := l[i-1]
					c := change{file: fn, from: off(p.Pos()), to: off(st.End()), text: src(st) + "\n" + src(p), what: "swap: " + src(p) + " <> " + src(st), line: fset.Position(p.Pos()).Line}
					if !strings.Contains(c.what, "\n") {
						out = append(out, c)
					}
				}
			}
		}
	}
	swapOp := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHR: {"<<"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR
		case *ast.FuncDecl:
			if x.Body != nil { // drop all lock calls
				var l []change
				ast.Inspect(x.Body, func(m ast.Node) bool {
					st, ok := m.(ast.Stmt)
					if !ok {
						return true
					}
					var c *ast.CallExpr
					switch y := st.(type) {
					case *ast.ExprStmt:
						c, _ = y.X.(*ast.CallExpr)
					case *ast.DeferStmt:
						c = y.Call
					}
					if c != nil {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Lock" || s.Sel.Name == "Unlock") {
							l = append(l, change{file: fn, from: off(st.Pos()), to: off(st.End()), what: "unlocked: " + x.Name.Name, line: fset.Position(x.Pos()).Line})
						}
					}
					return true
				})
				if len(l) > 0 {
					c := l[0]
					c.more = l[1:]
					out = append(out, c)
				}
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.IfStmt:
			add(x.Cond, "true || "+"("+src(x.Cond)+")", "always")
			add(x.Cond, "false && "+"("+src(x.Cond)+")", "never")
		case *ast.ForStmt:
			if x.Cond != nil {
				add(x.Cond, "false && "+"("+src(x.Cond)+")", "never loop")
			}
		case *ast.BinaryExpr:
			for _, t := range swapOp[x.Op] {
				s := src(x.X) + " " + t + " " + src(x.Y)
				add(x, s, "op "+t)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, src(x.X), "drop right")
				add(x, src(x.Y), "drop left")
			}
			if x.Op == token.ADD || x.Op == token.SUB {
				add(x, src(x.X), "drop right")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x, "("+x.Value+"+1)", "+1")
				if x.Value != "0" {
					add(x, "("+x.Value+"-1)", "-1")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "bool")
			} else if x.Name == "false" {
				add(x, "true", "bool")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, src(x.X), "drop !")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r, "nil", "return nil for")
				}
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 {
				out = append(out, change{file: fn, from: off(x.Args[0].Pos()), to: off(x.Args[1].End()), text: src(x.Args[1]) + ", " + src(x.Args[0]), what: "swap args: " + src(x), line: fset.Position(x.Pos()).Line})
			}
		case *ast.SelectorExpr:
			sw := map[string]string{"Lock": "", "leftChild": "right", "prefixSumLeftChild": "prefixSumRightChild", "prefixSumRightChild": "prefixSumLeftChild", "left": "right", "right": "left", "nextBPlusTreeNode": "prevBPlusTreeNode", "prevBPlusTreeNode": "nextBPlusTreeNode", "minKeysPerNode": "maxKeysPerNode", "maxKeysPerNode": "minKeysPerNode"}
			if t := sw[x.Sel.Name]; t != "" {
				add(x, src(x.X)+"."+t, "field "+t)
			}
		}
		return true
	})
	return out
}
