package main

// Source instrumentation for replaying a model trace against the real code:
// every operation the model treats as a scheduling point is preceded by a gate
// at which the goroutine waits until the trace says it is its turn.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

const zvp = "zvp"

func sel(x, name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func intLit(i int) ast.Expr                           { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)} }

type instrumenter struct {
	info         *types.Info
	pkg          *types.Package
	used         bool
	n            int
	keep         map[string]bool
	tomb         bool
	vpc, usedVpc bool // package vpc is there, is needed
	fn           string
	inSel        map[ast.Node]bool
}

func (in *instrumenter) fresh(p string) string {
	in.n++
	return fmt.Sprintf("zvp_%s%d", p, in.n)
}

func (in *instrumenter) call(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return call(sel(zvp, name), args...)
}

// calleeName returns the full name of a statically known callee.
func (in *instrumenter) calleeName(e ast.Expr) string {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	var id *ast.Ident
	switch x := e.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	default:
		return ""
	}
	switch o := in.info.Uses[id].(type) {
	case *types.Func:
		return o.FullName()
	case *types.Builtin:
		return "builtin." + o.Name()
	}
	return ""
}

func (in *instrumenter) recvExpr(s *ast.SelectorExpr) ast.Expr {
	// expression of the method's receiver as a pointer, following promotions
	selx := in.info.Selections[s]
	x := s.X
	if selx == nil {
		return x
	}
	t := selx.Recv()
	idx := selx.Index()
	for _, i := range idx[:len(idx)-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		f := t.Underlying().(*types.Struct).Field(i)
		x = &ast.SelectorExpr{X: x, Sel: ast.NewIdent(f.Name())}
		t = f.Type()
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return x
	}
	return &ast.UnaryExpr{Op: token.AND, X: x}
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *instrumenter) file(f *ast.File) {
	in.inSel = map[ast.Node]bool{}
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.FuncDecl:
			in.fn = n.Name.Name
		case *ast.CommClause:
			switch s := n.Comm.(type) {
			case *ast.SendStmt:
				in.inSel[s] = true
			case *ast.ExprStmt:
				in.inSel[ast.Unparen(s.X)] = true
			case *ast.AssignStmt:
				in.inSel[ast.Unparen(s.Rhs[0])] = true
			}
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		if in.tomb {
			in.tombNode(c)
			return true
		}
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || in.inSel[n] {
				return true
			}
			if _, ok := in.info.TypeOf(n).(*types.Tuple); ok {
				c.Replace(in.call("Recv2", n.X))
			} else {
				c.Replace(in.call("Recv", n.X))
			}
		case *ast.SendStmt:
			if in.inSel[n] {
				return true
			}
			c.Replace(&ast.ExprStmt{X: in.call("Send", n.Chan, n.Value)})
		case *ast.CallExpr:
			in.callExpr(c, n)
		case *ast.GoStmt:
			in.used = true
			if id, ok := n.Call.Fun.(*ast.SelectorExpr); ok {
				if x, ok := id.X.(*ast.Ident); ok && x.Name == zvp {
					// a rewritten builtin or method: wrap it in a closure
					body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: n.Call}}}
					n.Call = call(in.call("W", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}))
					return true
				}
			}
			n.Call.Fun = in.call("W", n.Call.Fun)
		case *ast.SelectStmt:
			c.Replace(in.selectStmt(n))
		case *ast.LabeledStmt:
			if b, ok := n.Stmt.(*ast.BlockStmt); ok && len(b.List) > 0 {
				if s, ok := b.List[len(b.List)-1].(*ast.SelectStmt); ok {
					b.List[len(b.List)-1] = &ast.LabeledStmt{Label: n.Label, Stmt: s}
					c.Replace(b)
				}
			}
		case *ast.RangeStmt:
			t := in.info.TypeOf(n.X)
			if t == nil {
				return true
			}
			switch t.Underlying().(type) {
			case *types.Map:
				c.Replace(in.rangeStmt(n, "MapIter", 2))
			case *types.Chan:
				c.Replace(in.rangeStmt(n, "ChanIter", 1))
			}
		}
		return true
	}
	astutil.Apply(f, pre, post)
}

func (in *instrumenter) rangeStmt(n *ast.RangeStmt, iter string, vars int) ast.Stmt {
	it := in.fresh("it")
	lhs := []ast.Expr{ast.NewIdent(it)}
	var next []ast.Expr
	for i, v := range []ast.Expr{n.Key, n.Value} {
		if i >= vars {
			break
		}
		blank := v == nil
		if id, ok := v.(*ast.Ident); ok && id.Name == "_" {
			blank = true
		}
		switch {
		case blank:
			lhs = append(lhs, ast.NewIdent("_"))
			next = append(next, ast.NewIdent("nil"))
		case n.Tok == token.DEFINE:
			lhs = append(lhs, v)
			next = append(next, &ast.UnaryExpr{Op: token.AND, X: v})
		default:
			lhs = append(lhs, ast.NewIdent("_"))
			next = append(next, &ast.UnaryExpr{Op: token.AND, X: v})
		}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{in.call(iter, n.X)}},
		Cond: call(&ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}, next...),
		Body: n.Body,
	}
}

func (in *instrumenter) callExpr(c *astutil.Cursor, n *ast.CallExpr) {
	name := in.calleeName(n.Fun)
	switch name {
	case "":
		return
	case "builtin.close":
		c.Replace(in.call("Close", n.Args[0]))
		return
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock", "(*sync.RWMutex).RLock":
		c.Replace(in.call("Lock", n.Fun))
		return
	case "(*sync.WaitGroup).Wait":
		c.Replace(in.call("WgWait", n.Fun))
		return
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		n.Fun = in.call("A", n.Fun)
		return
	case "(*sync.Cond).Wait", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		s := n.Fun.(*ast.SelectorExpr)
		c.Replace(in.call("Cond"+s.Sel.Name, in.recvExpr(s)))
		return
	case "(*sync.Once).Do":
		n.Fun = in.call("A", n.Fun)
		return
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		n.Fun = sel(zvp, strings.TrimPrefix(name, "context."))
		in.used = true
		in.keep["context.Background"] = true
		return
	case "time.After", "time.NewTimer":
		if in.vpc {
			s := n.Fun.(*ast.SelectorExpr)
			in.keep[s.X.(*ast.Ident).Name+"."+s.Sel.Name] = true
			n.Fun = sel("zvpc", s.Sel.Name)
			in.usedVpc = true
		}
		return
	case "math/rand.Float64", "math/rand/v2.Float64":
		if s, ok := n.Fun.(*ast.SelectorExpr); ok {
			in.keep[s.X.(*ast.Ident).Name+".Float64"] = true
			n.Fun = sel(zvp, "RandFloat64")
			in.used = true
		}
		return
	}
	if name == "time.Sleep" || strings.HasPrefix(name, "(*sync.Map).") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		n.Fun = in.call("A", n.Fun)
	}
}

func (in *instrumenter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	sv := in.fresh("sel")
	gate := in.call("SelGate")
	// hoist operands in source order
	idx := 0
	hasDef := "false"
	var fix []func()
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		i := idx
		switch m := cc.Comm.(type) {
		case nil:
			hasDef = "true"
			cc.Comm = &ast.ExprStmt{X: &ast.UnaryExpr{Op: token.ARROW, X: in.call("CaseDefault", ast.NewIdent(sv))}}
			cc.Body = append([]ast.Stmt{&ast.ExprStmt{X: in.call("Post", ast.NewIdent(sv))}}, cc.Body...)
			continue
		case *ast.SendStmt:
			ch, v := in.fresh("c"), in.fresh("v")
			blk.List = append(blk.List,
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{m.Chan}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Val", ast.NewIdent(ch), m.Value)}})
			gate.Args = append(gate.Args, in.call("AltS", ast.NewIdent(ch)))
			m.Chan = in.call("CaseS", ast.NewIdent(sv), intLit(i), ast.NewIdent(ch))
			m.Value = ast.NewIdent(v)
		case *ast.ExprStmt, *ast.AssignStmt:
			var u *ast.UnaryExpr
			if e, ok := m.(*ast.ExprStmt); ok {
				u = ast.Unparen(e.X).(*ast.UnaryExpr)
			} else {
				u = ast.Unparen(m.(*ast.AssignStmt).Rhs[0]).(*ast.UnaryExpr)
			}
			ch := in.fresh("c")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{u.X}})
			gate.Args = append(gate.Args, in.call("AltR", ast.NewIdent(ch)))
			u.X = in.call("CaseR", ast.NewIdent(sv), intLit(i), ast.NewIdent(ch))
		}
		cc.Body = append([]ast.Stmt{&ast.ExprStmt{X: in.call("Post", ast.NewIdent(sv))}}, cc.Body...)
		idx++
	}
	_ = fix
	gate.Args = append([]ast.Expr{ast.NewIdent(hasDef)}, gate.Args...)
	blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(sv)}, Tok: token.DEFINE, Rhs: []ast.Expr{gate}}, n)
	return blk
}

func (in *instrumenter) tombNode(c *astutil.Cursor) {
	switch n := c.Node().(type) {
	case *ast.GoStmt:
		if in.fn != "WithContext" {
			n.Call.Fun = in.call("W", n.Call.Fun)
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && in.fn == "Wait" {
			c.Replace(in.call("Recv", n.X))
		}
	case *ast.CallExpr:
		if in.fn == "Kill" || in.fn == "run" || in.fn == "Err" {
			if in.calleeName(n.Fun) == "(*sync.Mutex).Lock" {
				c.Replace(in.call("Lock", n.Fun))
			}
		}
	}
}

// instrument writes instrumented sources under dir and returns the overlay.
func instrument(repo, hroot, pkg, fn, dir string) error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay(hroot, repo)}
	ps, err := packages.Load(cfg, sutPkg+"/zzverif/"+pkg)
	if err != nil {
		return err
	}
	hasVpc := false
	packages.Visit(ps, nil, func(p *packages.Package) { hasVpc = hasVpc || p.PkgPath == vpcPkg })
	repl := map[string]string{}
	var ferr error
	tombDir := ""
	emit := func(p *packages.Package, f *ast.File, orig, dst string) {
		f.Comments = nil
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				x.Doc = nil
			case *ast.FuncDecl:
				x.Doc = nil
			case *ast.Field:
				x.Doc, x.Comment = nil, nil
			case *ast.ValueSpec:
				x.Doc, x.Comment = nil, nil
			case *ast.TypeSpec:
				x.Doc, x.Comment = nil, nil
			case *ast.ImportSpec:
				x.Doc, x.Comment = nil, nil
			}
			return true
		})
		f.Doc = nil
		in := &instrumenter{info: p.TypesInfo, pkg: p.Types, keep: map[string]bool{}, tomb: p.PkgPath == "gopkg.in/tomb.v2", vpc: hasVpc}
		in.file(f)
		if in.usedVpc {
			astutil.AddNamedImport(p.Fset, f, "zvpc", vpcPkg)
		}
		if in.used {
			astutil.AddNamedImport(p.Fset, f, zvp, vpPkg)
		}
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, p.Fset, f); err != nil {
			ferr = err
			return
		}
		for k := range in.keep {
			fmt.Fprintf(&buf, "\nvar _ = %s\n", k)
		}
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			ferr = err
			return
		}
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			ferr = err
		}
	}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if ferr != nil {
			return
		}
		if len(p.Errors) > 0 {
			ferr = fmt.Errorf("%v", p.Errors[0])
			return
		}
		switch {
		case p.PkgPath == vpPkg || p.PkgPath == modelPkg || p.PkgPath == vpcPkg:
			for _, f := range p.CompiledGoFiles {
				// all files, also those for other build tags
				rel, _ := filepath.Rel(filepath.Join(repo, "zzverif"), filepath.Dir(f))
				l, _ := filepath.Glob(filepath.Join(hroot, rel, "*.go"))
				for _, h := range l {
					repl[filepath.Join(filepath.Dir(f), filepath.Base(h))] = h
				}
			}
		case strings.HasPrefix(p.PkgPath, sutPkg):
			for i, f := range p.Syntax {
				orig := p.CompiledGoFiles[i]
				rel, _ := filepath.Rel(repo, orig)
				dst := filepath.Join(dir, "src", rel)
				emit(p, f, orig, dst)
				repl[orig] = dst
			}
		case p.PkgPath == "gopkg.in/tomb.v2":
			tombDir = filepath.Join(dir, "tomb")
			for i, f := range p.Syntax {
				emit(p, f, "", filepath.Join(tombDir, filepath.Base(p.CompiledGoFiles[i])))
			}
			ferr = os.WriteFile(filepath.Join(tombDir, "go.mod"), []byte("module gopkg.in/tomb.v2\n\ngo 1.21\n"), 0644)
		}
	})
	if ferr != nil {
		return ferr
	}
	main := fmt.Sprintf("package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() { vp.Run(h.%s) }\n", sutPkg+"/zzverif/"+pkg, vpPkg, fn)
	md := filepath.Join(dir, "src", "zzverif", "replaymain", "main.go")
	os.MkdirAll(filepath.Dir(md), 0755)
	if err := os.WriteFile(md, []byte(main), 0644); err != nil {
		return err
	}
	repl[filepath.Join(repo, "zzverif", "replaymain", "main.go")] = md
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644); err != nil {
		return err
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	if tombDir != "" {
		gm = append(gm, []byte("\nreplace gopkg.in/tomb.v2 => "+tombDir+"\n")...)
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), gm, 0644)
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	return os.WriteFile(filepath.Join(dir, "go.sum"), gs, 0644)
}

var _ = parser.ParseFile
