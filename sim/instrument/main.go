// instrument rewrites the non-test sources of a Go package for deterministic
// simulation and writes a go build overlay. It works on whatever the sources
// are (typed AST, no knowledge of the functions in them):
//
//   - a scheduler yield before every statement, and inside x++ / x op= e on
//     fields, so a preemption can fall anywhere;
//   - package sync replaced by verif/sim/simsync;
//   - go statements replaced by simrt.Go;
//   - iteration over maps replaced by a reproducible order;
//   - channels (types, operations, select, range) replaced by simrt.Chan;
//   - the clock and the timers of package time and runtime.Gosched replaced by
//     simulated ones;
//   - package variables and init functions rerun at the start of a process.
//
// usage: instrument -src DIR -out DIR   (writes DIR/overlay.json)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
	seq      int
	end      bool // closes something: inner ones go first
}

type fileState struct {
	fset  *token.FileSet
	f     *ast.File
	src   []byte
	info  *types.Info
	pkg   *types.Package
	edits []edit
	uses  map[string]string
	nvar  int
	warn  []string
	nY    int
	tail  string
	two   map[*ast.UnaryExpr]bool // receives whose second result is used
	// with -race
	acc      map[ast.Expr][]accKind
	captured map[*types.Var]bool
	gone     map[ast.Node]bool // statements replaced as a whole
}

func (s *fileState) off(p token.Pos) int { return s.fset.Position(p).Offset }
func (s *fileState) text(n ast.Node) string {
	return string(s.src[s.off(n.Pos()):s.off(n.End())])
}
func (s *fileState) ins(p token.Pos, t string) { o := s.off(p); s.rep(o, o, t) }
func (s *fileState) rep(a, b int, t string) {
	s.edits = append(s.edits, edit{a, b, t, len(s.edits), false})
}

// close inserts what ends a construct opened before.
func (s *fileState) close(p token.Pos, t string) {
	o := s.off(p)
	s.edits = append(s.edits, edit{o, o, t, len(s.edits), true})
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	as := flag.String("as", "", "directory the overlay pretends the sources are in (default: -src)")
	flag.BoolVar(&plain, "plain", false, "only yield between statements")
	flag.BoolVar(&race, "race", false, "report memory accesses")
	flag.BoolVar(&nochan, "nochan", false, "leave channels and timers alone")
	flag.Parse()
	if err := run(*src, *out, *as); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

// plain turns off the yields inside statements.
var plain bool

// nochan leaves channels and timers as they are.
var nochan bool

func run(src, out, as string) error {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", ".")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	exports := map[string]string{}
	dirs := map[string][]string{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p struct {
			ImportPath, Export, Dir string
			GoFiles                 []string
		}
		if e := dec.Decode(&p); e == io.EOF {
			break
		} else if e != nil {
			return e
		}
		exports[p.ImportPath] = p.Export
		if rel, e := filepath.Rel(src, p.Dir); e == nil && (rel == "." || !strings.HasPrefix(rel, "..")) {
			for _, f := range p.GoFiles {
				dirs[rel] = append(dirs[rel], filepath.Join(p.Dir, f))
			}
		}
	}
	if len(dirs["."]) == 0 {
		return fmt.Errorf("no Go files in %s", src)
	}
	overlay := map[string]string{}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	for rel, files := range dirs {
		if err := rewrite(files, rel, out, as, exports, overlay); err != nil {
			return err
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

// rewrite instruments the files of one package.
func rewrite(files []string, rel, out, as string, exports, overlay map[string]string) error {
	sort.Strings(files)
	out = filepath.Join(out, rel)
	fset := token.NewFileSet()
	var asts []*ast.File
	var srcs [][]byte
	for _, fn := range files {
		c, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, fn, c, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		asts = append(asts, f)
		srcs = append(srcs, c)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	pkg, terr := conf.Check("p", fset, asts, info)
	if terr != nil {
		return fmt.Errorf("type check: %v", terr)
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	total := 0
	var states []*fileState
	for i, f := range asts {
		s := &fileState{fset: fset, f: f, src: srcs[i], info: info, pkg: pkg, uses: map[string]string{}, two: map[*ast.UnaryExpr]bool{}, gone: map[ast.Node]bool{}}
		s.accesses()
		s.process()
		states = append(states, s)
	}
	resets(states, info)
	for i, s := range states {
		res := s.apply()
		dst := filepath.Join(out, filepath.Base(files[i]))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		key := files[i]
		if as != "" {
			key = filepath.Join(as, rel, filepath.Base(files[i]))
		}
		overlay[key] = dst
		total += s.nY
		for _, w := range s.warn {
			fmt.Fprintln(os.Stderr, "instrument: warning:", w)
		}
	}
	fmt.Printf("instrumented %d files, %d yields\n", len(files), total)
	return nil
}

// resets makes the package's variables and init functions run again whenever a
// simulated process starts.
func resets(states []*fileState, info *types.Info) {
	var calls []string
	n := 0
	add := func(s *fileState, body string) {
		n++
		f := fmt.Sprintf("simrt_reset_%d_", n)
		s.tail += fmt.Sprintf("\nfunc %s() { %s }\n", f, body)
		calls = append(calls, f+"()")
	}
	for _, s := range states {
		for _, d := range s.f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Values) > 0 {
					continue
				}
				for _, id := range v.Names {
					if id.Name != "_" {
						add(s, fmt.Sprintf("var z %s; %s = z", s.render(v.Type), id.Name))
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		for _, s := range states {
			if in.Rhs.Pos() < s.f.FileStart || in.Rhs.Pos() >= s.f.FileEnd {
				continue
			}
			var l []string
			blank := true
			for _, v := range in.Lhs {
				l = append(l, v.Name())
				blank = blank && v.Name() == "_"
			}
			if blank {
				continue // an assertion about types
			}
			add(s, strings.Join(l, ", ")+" = "+s.render(in.Rhs))
		}
	}
	for _, s := range states {
		for _, d := range s.f.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Recv != nil || f.Name.Name != "init" || f.Body == nil {
				continue
			}
			n++
			name := fmt.Sprintf("simrt_init_%d_", n)
			s.rep(s.off(f.Name.Pos()), s.off(f.Name.End()), name)
			calls = append(calls, name+"()")
		}
	}
	if race {
		states[0].tail += "\nfunc init() { simrt_.RaceBuilt = true }\n"
	}
	if len(calls) > 0 {
		states[0].tail += "\nfunc init() { simrt_.OnStart(func() { " + strings.Join(calls, "; ") + " }) }\n"
	}
}

func (s *fileState) process() {
	s.ins(s.f.Name.End(), `; import simrt_ "verif/sim/simrt"`)
	for _, im := range s.f.Imports {
		switch im.Path.Value {
		case `"sync"`:
			t := `"verif/sim/simsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			s.rep(s.off(im.Path.Pos()), s.off(im.Path.End()), t)
		case `"math/rand"`, `"math/rand/v2"`, `"crypto/rand"`:
			s.warn = append(s.warn, "unseeded randomness imported: "+im.Path.Value)
		}
	}
	ast.Inspect(s.f, s.visit)
}

// render is the rewritten text of a part of the file.
func (s *fileState) render(n ast.Node) string {
	sub := *s
	sub.edits = nil
	ast.Inspect(n, sub.visit)
	s.nvar, s.nY, s.warn = sub.nvar, sub.nY, sub.warn
	return string(sub.span(s.off(n.Pos()), s.off(n.End())))
}

func (s *fileState) isChan(e ast.Expr) bool {
	tv, ok := s.info.Types[e]
	if !ok || tv.Type == nil || nochan {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (s *fileState) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if _, ok := s.info.Uses[id].(*types.Builtin); ok {
		return id.Name
	}
	return ""
}

// recvOf reports a receive expression.
func (s *fileState) recvOf(e ast.Expr) *ast.UnaryExpr {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW || nochan {
		return nil
	}
	return u
}

// recv2 marks the receive on the right of v, ok := <-ch.
func (s *fileState) recv2(lhs int, rhs []ast.Expr) {
	if lhs == 2 && len(rhs) == 1 {
		if u := s.recvOf(rhs[0]); u != nil {
			s.two[u] = true
		}
	}
}

func (s *fileState) call(x *ast.CallExpr) {
	b := s.builtin(x.Fun)
	if b == "" || len(x.Args) == 0 || !s.isChan(x.Args[0]) {
		return
	}
	fun := func(t string) { s.rep(s.off(x.Fun.Pos()), s.off(x.Fun.End()), t) }
	switch b {
	case "close":
		fun("simrt_.Close")
	case "len":
		fun("simrt_.ChLen")
	case "cap":
		fun("simrt_.ChCap")
	case "make":
		s.rep(s.off(x.Fun.Pos()), s.off(x.Args[0].Pos()), "simrt_.MakeCh[")
		if len(x.Args) == 1 {
			s.close(x.Args[0].End(), "](")
			return
		}
		s.rep(s.off(x.Args[0].End()), s.off(x.Args[1].Pos()), "](int(")
		s.close(x.Args[1].End(), ")")
	}
}

func (s *fileState) selectStmt(x *ast.SelectStmt) {
	if nochan {
		s.warn = append(s.warn, fmt.Sprintf("%v: channel operation is not simulated", s.fset.Position(x.Pos())))
		return
	}
	if len(x.Body.List) == 0 {
		s.rep(s.off(x.Pos()), s.off(x.End()), "for { simrt_.Forever() }")
		return
	}
	var vars, chans, cases []string
	def := false
	n := 0
	for _, cl := range x.Body.List {
		if cl.(*ast.CommClause).Comm == nil {
			def = true
		} else {
			n++
		}
	}
	i := 0
	for _, l := range x.Body.List {
		cl := l.(*ast.CommClause)
		if cl.Comm == nil {
			continue
		}
		v := s.name()
		vars = append(vars, v)
		head := fmt.Sprintf("case %d:", i)
		i++
		if !def && i == n {
			head = "default:" // keeps the statement terminating
		}
		got := ""
		switch c := cl.Comm.(type) {
		case *ast.SendStmt:
			chans = append(chans, s.render(c.Chan))
			cases = append(cases, fmt.Sprintf("simrt_.SendCase(%s)(%s)", v, s.render(c.Value)))
		case *ast.ExprStmt:
			chans = append(chans, s.render(s.recvOf(c.X).X))
			cases = append(cases, fmt.Sprintf("simrt_.RecvCase(%s)", v))
		case *ast.AssignStmt:
			chans = append(chans, s.render(s.recvOf(c.Rhs[0]).X))
			cases = append(cases, fmt.Sprintf("simrt_.RecvCase(%s)", v))
			f := "Got"
			var lhs []string
			for _, e := range c.Lhs {
				lhs = append(lhs, s.render(e))
			}
			if len(lhs) == 2 {
				f = "Got2"
			}
			got = fmt.Sprintf(" %s %s simrt_.%s(%s);", strings.Join(lhs, ", "), c.Tok, f, v)
		}
		s.rep(s.off(cl.Case), s.off(cl.Colon)+1, head+got)
	}
	sw := "switch "
	if len(vars) > 0 {
		sw += strings.Join(vars, ", ") + " := " + strings.Join(chans, ", ") + "; "
	}
	sw += fmt.Sprintf("simrt_.Select(%v", def)
	for _, c := range cases {
		sw += ", " + c
	}
	s.rep(s.off(x.Select), s.off(x.Body.Lbrace), sw+") ")
}

func (s *fileState) visit(n ast.Node) bool {
	if s.gone[n] {
		return false
	}
	if e, ok := n.(ast.Expr); ok {
		s.mark(e)
	}
	{
		switch x := n.(type) {
		case *ast.BlockStmt:
			s.list(x.List)
		case *ast.CaseClause:
			s.list(x.Body)
		case *ast.CommClause:
			s.list(x.Body)
		case *ast.GoStmt:
			s.goStmt(x)
		case *ast.RangeStmt:
			s.rangeStmt(x)
		case *ast.SelectorExpr:
			s.selector(x)
		case *ast.ReturnStmt:
			s.reads(x.Results)
		case *ast.AssignStmt:
			s.reads(x.Rhs)
			s.recv2(len(x.Lhs), x.Rhs)
		case *ast.ValueSpec:
			s.recv2(len(x.Names), x.Values)
		case *ast.ChanType:
			if !nochan {
				s.rep(s.off(x.Begin), s.off(x.Value.Pos()), "*simrt_.Chan[")
				s.close(x.Value.End(), "]")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !nochan {
				f := "simrt_.Recv("
				if s.two[x] {
					f = "simrt_.Recv2("
				}
				s.rep(s.off(x.OpPos), s.off(x.X.Pos()), f)
				s.close(x.X.End(), ")")
			}
		case *ast.SendStmt:
			if nochan {
				s.warn = append(s.warn, fmt.Sprintf("%v: channel operation is not simulated", s.fset.Position(n.Pos())))
				break
			}
			s.ins(x.Chan.Pos(), "simrt_.Send(")
			s.rep(s.off(x.Chan.End()), s.off(x.Value.Pos()), ")(")
			s.close(x.Value.End(), ")")
		case *ast.SelectStmt:
			s.selectStmt(x)
		case *ast.CallExpr:
			s.call(x)
		case *ast.CompositeLit:
			var l []ast.Expr
			for _, e := range x.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					e = kv.Value
				}
				l = append(l, e)
			}
			s.reads(l)
		}
		return true
	}
}

func (s *fileState) list(l []ast.Stmt) {
	for _, st := range l {
		switch st.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		s.ins(st.Pos(), "simrt_.Y(); ")
		s.nY++
		s.later(st)
		s.split(st)
	}
}

// reads puts a yield after each of several field reads made by one statement,
// so that a preemption can also fall between them.
func (s *fileState) reads(l []ast.Expr) {
	if len(l) < 2 || plain {
		return
	}
	for _, e := range l {
		sel, ok := e.(*ast.SelectorExpr)
		if !ok || !pure(sel) {
			continue
		}
		tv, ok := s.info.Types[e]
		if !ok || tv.Value != nil || !tv.IsValue() {
			continue
		}
		if _, ok := tv.Type.Underlying().(*types.Basic); !ok {
			continue
		}
		s.ins(e.Pos(), "simrt_.YV(")
		s.close(e.End(), ")")
		s.nY++
	}
}

// pure reports expressions that can be evaluated twice.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

func hasFuncLit(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

// split turns x.f++ and x.f op= e into load, yield, store.
func (s *fileState) split(st ast.Stmt) {
	if plain {
		return
	}
	target := func(e ast.Expr) bool {
		if _, isId := e.(*ast.Ident); isId || !pure(e) {
			return false
		}
		tv, ok := s.info.Types[e]
		if !ok {
			return false
		}
		bt, ok := tv.Type.Underlying().(*types.Basic)
		return ok && bt.Info()&(types.IsNumeric|types.IsString) != 0
	}
	switch x := st.(type) {
	case *ast.IncDecStmt:
		if !target(x.X) {
			return
		}
		s.gone[st] = true
		v := s.name()
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		l, r := s.store(x.X), s.load(x.X)
		s.rep(s.off(x.Pos()), s.off(x.End()), fmt.Sprintf("{ %s := %s; simrt_.Y(); %s = %s %s 1 }", v, r, l, v, op))
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN || x.Tok == token.DEFINE || len(x.Lhs) != 1 || !target(x.Lhs[0]) || hasFuncLit(x.Rhs[0]) {
			return
		}
		s.gone[st] = true
		v, d := s.name(), s.name()
		op := strings.TrimSuffix(x.Tok.String(), "=")
		ld, l, r := s.load(x.Lhs[0]), s.store(x.Lhs[0]), s.render(x.Rhs[0])
		if tv, ok := s.info.Types[x.Rhs[0]]; ok && tv.Value != nil {
			s.rep(s.off(x.Pos()), s.off(x.End()), fmt.Sprintf("{ %s := %s; simrt_.Y(); %s = %s %s (%s) }", v, ld, l, v, op, r))
			return
		}
		s.rep(s.off(x.Pos()), s.off(x.End()), fmt.Sprintf("{ %s := %s; %s := %s; simrt_.Y(); %s = %s %s %s }", d, r, v, ld, l, v, op, d))
	}
}

// load and store are a target of split as operand and as destination.
func (s *fileState) load(e ast.Expr) string {
	if len(s.acc[ast.Unparen(e)]) == 0 {
		return s.render(e)
	}
	return fmt.Sprintf("(*simrt_.Rd(&%s, %s))", s.text(e), s.site(e))
}

func (s *fileState) store(e ast.Expr) string { return s.render(e) }

func (s *fileState) name() string { s.nvar++; return fmt.Sprintf("sim_%d_", s.nvar) }

func (s *fileState) goStmt(x *ast.GoStmt) {
	c := x.Call
	fn := s.name()
	var lhs, args []string
	anyVar := false
	for _, a := range c.Args {
		tv := s.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			lhs = append(lhs, "_")
			args = append(args, s.text(a))
			continue
		}
		v := s.name()
		lhs = append(lhs, v)
		args = append(args, v)
		anyVar = true
	}
	call := fn + "(" + strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	call += ")"
	s.rep(s.off(x.Go), s.off(c.Fun.Pos()), "{ "+fn+" := ")
	end := fmt.Sprintf("; simrt_.Go(func() { %s }) }", call)
	if len(c.Args) == 0 || !anyVar {
		// nothing to bind: drop the argument list
		s.rep(s.off(c.Lparen), s.off(c.Rparen)+1, end)
		return
	}
	s.rep(s.off(c.Lparen), s.off(c.Lparen)+1, "; "+strings.Join(lhs, ", ")+" := ")
	last := s.off(c.Args[len(c.Args)-1].End())
	s.rep(last, s.off(c.Rparen)+1, end)
}

func (s *fileState) rangeStmt(x *ast.RangeStmt) {
	tv, ok := s.info.Types[x.X]
	if !ok {
		return
	}
	switch tv.Type.Underlying().(type) {
	case *types.Map:
	case *types.Chan:
		if nochan {
			s.warn = append(s.warn, fmt.Sprintf("%v: channel range is not simulated", s.fset.Position(x.Pos())))
			return
		}
		c, ok := s.name(), s.name()
		s.rep(s.off(x.For)+3, s.off(x.X.Pos()), " "+c+" := ")
		s.close(x.X.End(), "; ; ")
		b := ""
		switch {
		case x.Key == nil:
			b = fmt.Sprintf(" _, %s := simrt_.Recv2(%s); ", ok, c)
		case x.Tok == token.DEFINE:
			b = fmt.Sprintf(" %s, %s := simrt_.Recv2(%s); ", s.text(x.Key), ok, c)
		default:
			v := s.name()
			b = fmt.Sprintf(" %s, %s := simrt_.Recv2(%s); if %s { %s = %s }; ", v, ok, c, ok, s.text(x.Key), v)
		}
		b += fmt.Sprintf("if !%s { break }; ", ok)
		s.rep(s.off(x.Body.Lbrace)+1, s.off(x.Body.Lbrace)+1, b)
		return
	default:
		return
	}
	e := s.name()
	s.rep(s.off(x.For)+3, s.off(x.X.Pos()), fmt.Sprintf(" _, %s := range simrt_.MapEntries(", e))
	s.close(x.X.End(), ")")
	b := fmt.Sprintf(" if !%s.Live() { continue }; ", e)
	blank := func(k ast.Expr) bool {
		if k == nil {
			return true
		}
		id, ok := k.(*ast.Ident)
		return ok && id.Name == "_"
	}
	tok := x.Tok.String()
	if !blank(x.Key) {
		b += fmt.Sprintf("%s %s %s.K; ", s.text(x.Key), tok, e)
	}
	if !blank(x.Value) {
		b += fmt.Sprintf("%s %s %s.V(); ", s.text(x.Value), tok, e)
	}
	s.rep(s.off(x.Body.Lbrace)+1, s.off(x.Body.Lbrace)+1, b)
}

func (s *fileState) selector(x *ast.SelectorExpr) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := s.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	to := map[string]string{"time.Now": "TimeNow", "time.Sleep": "SleepFor", "time.Since": "TimeSince", "runtime.Gosched": "Gosched"}[pn.Imported().Path()+"."+x.Sel.Name]
	if to == "" && !nochan && pn.Imported().Path() == "time" {
		to = map[string]string{"After": "TimeAfter", "Tick": "TimeTick", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Timer": "Timer", "Ticker": "Ticker"}[x.Sel.Name]
	}
	if to == "" {
		switch pn.Imported().Path() + "." + x.Sel.Name {
		case "time.After", "time.AfterFunc", "time.NewTimer", "time.NewTicker", "time.Tick":
			s.warn = append(s.warn, fmt.Sprintf("%v: timer is not simulated", s.fset.Position(x.Pos())))
		}
		return
	}
	s.rep(s.off(x.Pos()), s.off(x.End()), "simrt_."+to)
	if pn.Imported().Path() == "time" {
		s.uses[id.Name] = "Nanosecond"
	} else {
		s.uses[id.Name] = "NumCPU"
	}
}

// span applies the edits within [lo, hi).
func (s *fileState) span(lo, hi int) []byte {
	sort.SliceStable(s.edits, func(i, j int) bool {
		a, b := s.edits[i], s.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		ai, bi := a.to == a.from, b.to == b.from
		if ai != bi {
			return ai // insertions before replacements at the same place
		}
		if a.end != b.end {
			return a.end
		}
		if a.end {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out []byte
	pos := lo
	for _, e := range s.edits {
		if e.from < pos || e.to > hi { // swallowed by an enclosing replacement
			continue
		}
		out = append(out, s.src[pos:e.from]...)
		out = append(out, e.text...)
		pos = e.to
	}
	return append(out, s.src[pos:hi]...)
}

func (s *fileState) apply() []byte {
	out := s.span(0, len(s.src))
	out = append(out, "\nvar _ = simrt_.Y\n"...)
	var names []string
	for n := range s.uses {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, fmt.Sprintf("\nvar _ = %s.%s\n", n, s.uses[n])...)
	}
	return append(out, s.tail...)
}
