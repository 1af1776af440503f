package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"
)

// With -race every access to memory other tasks may reach is reported to
// simrt: fields behind pointers, elements of slices and maps, package
// variables and variables captured by function literals.

// race turns that on.
var race bool

type accKind int

const (
	accRead accKind = 1 + iota
	accWrite
	accLater // a write reported after the statement
	accMapRead
	accMapWrite
	accAtomicRead // operand of an atomic load
	accAtomic     // operand of another atomic operation
	accAtomicVar  // variable whose atomic method is called
	accAtomicPtr  // pointer to one
	accAll        // a struct or an array is read
	accAllWrite
	accElems // elements copied from
	accElemsWrite
	accAppend // slice appended to
)

func (s *fileState) site(n ast.Node) string {
	p := s.fset.Position(n.Pos())
	t := strings.Join(strings.Fields(s.text(n)), " ")
	if len(t) > 60 {
		t = t[:60]
	}
	return fmt.Sprintf("%q", fmt.Sprintf("%s:%d (%s)", filepath.Base(p.Filename), p.Line, t))
}

// mark reports an access when the node is visited.
func (s *fileState) mark(e ast.Expr) {
	for _, k := range s.acc[e] {
		switch k {
		case accRead:
			s.ins(e.Pos(), "(*simrt_.Rd(&")
			s.close(e.End(), ", "+s.site(e)+"))")
		case accWrite:
			s.ins(e.Pos(), "(*simrt_.Wr(&")
			s.close(e.End(), ", "+s.site(e)+"))")
		case accMapRead:
			s.ins(e.Pos(), "simrt_.RdM(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accMapWrite:
			s.ins(e.Pos(), "simrt_.WrM(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accAll:
			s.ins(e.Pos(), "(*simrt_.RdS(&")
			s.close(e.End(), ", "+s.site(e)+"))")
		case accAllWrite:
			s.ins(e.Pos(), "(*simrt_.WrS(&")
			s.close(e.End(), ", "+s.site(e)+"))")
		case accElems:
			s.ins(e.Pos(), "simrt_.RdE(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accElemsWrite:
			s.ins(e.Pos(), "simrt_.WrE(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accAppend:
			s.ins(e.Pos(), "simrt_.WrA(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accAtomicRead:
			s.ins(e.Pos(), "simrt_.ApR(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accAtomic:
			s.ins(e.Pos(), "simrt_.ApW(")
			s.close(e.End(), ", "+s.site(e)+")")
		case accAtomicPtr:
			s.ins(e.Pos(), "simrt_.Ap(")
			s.close(e.End(), ")")
		case accAtomicVar:
			s.ins(e.Pos(), "simrt_.Ap(&")
			s.close(e.End(), ")")
		}
	}
}

// later reports writes of a statement of a list after it.
func (s *fileState) later(st ast.Stmt) {
	a, ok := st.(*ast.AssignStmt)
	if !ok || !race {
		return
	}
	for _, e := range a.Lhs {
		for _, k := range s.acc[ast.Unparen(e)] {
			if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && k == accLater {
				s.close(st.End(), fmt.Sprintf("; simrt_.WrM(%s, %s)", s.text(ix.X), s.site(e)))
			} else if k == accLater {
				wr := "Wr"
				if !whole(s.typeOf(e)) {
					wr = "WrS"
				}
				s.close(st.End(), fmt.Sprintf("; simrt_.%s(&%s, %s)", wr, s.text(e), s.site(e)))
			}
		}
	}
}

func (s *fileState) typeOf(e ast.Expr) types.Type {
	tv, ok := s.info.Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := s.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (s *fileState) under(e ast.Expr) types.Type {
	t := s.typeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// place says whether e denotes addressable memory and whether other tasks may
// reach it.
func (s *fileState) place(e ast.Expr) (addr, shared bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return s.place(x.X)
	case *ast.Ident:
		v, ok := s.info.Uses[x].(*types.Var)
		if !ok || v.IsField() {
			return false, false
		}
		return true, v.Parent() == s.pkg.Scope() || s.captured[v]
	case *ast.StarExpr:
		_, ok := s.under(x.X).(*types.Pointer)
		return ok, ok
	case *ast.IndexExpr:
		switch t := s.under(x.X).(type) {
		case *types.Slice:
			return true, true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok, ok
		case *types.Array:
			return s.place(x.X)
		}
	case *ast.SelectorExpr:
		sel := s.info.Selections[x]
		if sel == nil {
			v, ok := s.info.Uses[x.Sel].(*types.Var) // a variable of another package
			return ok && !v.IsField(), false
		}
		if sel.Kind() != types.FieldVal {
			return false, false
		}
		if sel.Indirect() {
			return true, true
		}
		return s.place(x.X)
	}
	return false, false
}

// whole reports types whose values are one location to us.
func whole(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple, *types.Signature:
		_, ok := t.Underlying().(*types.Signature)
		return ok
	}
	return true
}

// wholly reports that e, a struct or an array, is read or written as one value.
func (s *fileState) wholly(stack []ast.Node, e ast.Expr) bool {
	switch s.under(e).(type) {
	case *types.Struct, *types.Array:
	default:
		return false
	}
	if len(stack) < 2 {
		return false
	}
	switch p := stack[len(stack)-2].(type) {
	case *ast.AssignStmt, *ast.ReturnStmt, *ast.CompositeLit, *ast.KeyValueExpr, *ast.BinaryExpr, *ast.ValueSpec, *ast.SendStmt:
		return true
	case *ast.CallExpr:
		return p.Fun != e && s.builtin(ast.Unparen(p.Fun)) == ""
	}
	return false
}

func fromAtomic(o types.Object) bool {
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic"
}

// capture finds the variables function literals share with their surroundings.
func (s *fileState) capture() {
	s.captured = map[*types.Var]bool{}
	ast.Inspect(s.f, func(n ast.Node) bool {
		lit, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(lit, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok {
				if v, ok := s.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != s.pkg.Scope() && (v.Pos() < lit.Pos() || v.Pos() >= lit.End()) {
					s.captured[v] = true
				}
			}
			return true
		})
		return true
	})
}

// accesses decides what is reported where.
func (s *fileState) accesses() {
	s.acc = map[ast.Expr][]accKind{}
	if !race {
		return
	}
	s.capture()
	skip := map[ast.Expr]bool{}
	inList := map[ast.Stmt]bool{}
	var stack []ast.Node
	lhs := map[ast.Expr]accKind{}
	add := func(e ast.Expr, k accKind) { s.acc[e] = append(s.acc[e], k) }
	isMap := func(e ast.Expr) bool {
		_, ok := s.under(e).(*types.Map)
		return ok
	}
	isSlice := func(e ast.Expr) bool {
		tv, ok := s.info.Types[e]
		if !ok || tv.IsNil() {
			return false
		}
		_, ok = s.under(e).(*types.Slice)
		return ok
	}
	none := func(e ast.Expr) {
		if e != nil {
			skip[ast.Unparen(e)] = true
		}
	}
	ast.Inspect(s.f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, st := range x.List {
				inList[st] = true
			}
		case *ast.CaseClause:
			for _, st := range x.Body {
				inList[st] = true
			}
		case *ast.CommClause:
			for _, st := range x.Body {
				inList[st] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				none(x.X)
			}
		case *ast.IncDecStmt:
			lhs[ast.Unparen(x.X)] = accWrite
		case *ast.RangeStmt:
			if isMap(x.X) {
				add(x.X, accMapRead)
			}
			none(x.Key)
			none(x.Value)
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				for _, e := range x.Lhs {
					none(e)
				}
				break
			}
			k := accWrite
			calls := len(x.Rhs) > 0 && s.calls(x.Rhs)
			if calls && inList[x] && x.Tok == token.ASSIGN {
				k = accLater
			}
			for i, e := range x.Lhs {
				e = ast.Unparen(e)
				k := k
				if ix, ok := e.(*ast.IndexExpr); ok && k == accLater && isMap(ix.X) && pure(ix.X) {
					lhs[e] = accLater
					add(e, accLater)
					continue
				}
				if calls && (!inList[x] || !pure(e)) {
					none(e) // when it is written cannot be told apart from before the call
					continue
				}
				if !pure(e) {
					k = accWrite
				}
				for j, o := range x.Lhs {
					if i != j && strings.HasPrefix(s.text(e), s.text(o)) {
						k = accWrite
					}
				}
				lhs[e] = k
			}
		case *ast.CallExpr:
			fun := ast.Unparen(x.Fun)
			switch b := s.builtin(fun); b {
			case "delete", "clear":
				if isMap(x.Args[0]) {
					add(x.Args[0], accMapWrite)
				}
			case "len":
				if isMap(x.Args[0]) {
					add(x.Args[0], accMapRead)
				}
			case "copy":
				if isSlice(x.Args[0]) {
					add(x.Args[0], accElemsWrite)
				}
				if isSlice(x.Args[1]) {
					add(x.Args[1], accElems)
				}
			case "append":
				if isSlice(x.Args[0]) {
					add(x.Args[0], accAppend)
				}
				if x.Ellipsis.IsValid() && len(x.Args) == 2 && isSlice(x.Args[1]) {
					add(x.Args[1], accElems)
				}
			}
			sel, ok := fun.(*ast.SelectorExpr)
			if !ok {
				break
			}
			if m := s.info.Selections[sel]; m != nil {
				if fromAtomic(m.Obj()) && m.Kind() == types.MethodVal && len(m.Index()) == 1 {
					if _, ptr := s.under(sel.X).(*types.Pointer); ptr {
						add(sel.X, accAtomicPtr)
					} else if a, _ := s.place(sel.X); a {
						add(sel.X, accAtomicVar)
					}
				}
			} else if fromAtomic(s.info.Uses[sel.Sel]) && len(x.Args) > 0 {
				if f, isF := s.info.Uses[sel.Sel].(*types.Func); isF {
					if strings.HasPrefix(f.Name(), "Load") {
						add(x.Args[0], accAtomicRead)
					} else {
						add(x.Args[0], accAtomic)
					}
				}
			}
		}
		e, ok := n.(ast.Expr)
		if !ok || skip[e] {
			return true
		}
		if ix, ok := n.(*ast.IndexExpr); ok && isMap(ix.X) {
			if k, w := lhs[e]; w && k == accLater {
			} else if w && k != 0 {
				add(ix.X, accMapWrite)
			} else {
				add(ix.X, accMapRead)
			}
			return true
		}
		switch e.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		default:
			return true
		}
		if len(stack) > 1 {
			if p, ok := stack[len(stack)-2].(*ast.SelectorExpr); ok && p.Sel == n {
				return true
			}
			if p, ok := stack[len(stack)-2].(*ast.KeyValueExpr); ok && p.Key == n {
				if id, ok := n.(*ast.Ident); ok {
					if v, ok := s.info.Uses[id].(*types.Var); ok && v.IsField() {
						return true
					}
				}
			}
		}
		tv, ok := s.info.Types[e]
		if ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin() || tv.IsVoid() || tv.IsNil()) {
			return true
		}
		all := false
		if !whole(s.typeOf(e)) {
			if all = s.wholly(stack, e); !all {
				return true
			}
		}
		if a, sh := s.place(e); !a || !sh {
			return true
		}
		k, w := lhs[e]
		switch {
		case all && w && k == accWrite:
			add(e, accAllWrite)
		case all && !w:
			add(e, accAll)
		case w:
			add(e, k)
		default:
			// outermost first: a map operand is wrapped around its read
			add(e, accRead)
		}
		return true
	})
}

// calls reports calls or receives in expressions.
func (s *fileState) calls(l []ast.Expr) bool {
	found := false
	for _, e := range l {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if tv, ok := s.info.Types[x.Fun]; !ok || !tv.IsType() && !tv.IsBuiltin() {
					found = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			}
			return !found
		})
	}
	return found
}
