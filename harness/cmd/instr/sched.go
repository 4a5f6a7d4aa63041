package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// swap are the packages that are replaced.
var swap = map[string]string{
	"sync":        "verif/vsched/vsync",
	"sync/atomic": "verif/vsched/vatomic",
	"time":        "verif/vsched/vtime",
	"net":         "verif/vsched/vnet",
	"context":     "verif/vsched/vctx",
}

type rewriter struct {
	*file
	info    *types.Info
	pkg     *types.Package
	n       int
	escapes map[types.Object]string // locals shared with function literals
	done    map[ast.Node]bool
	race    bool
	taken   map[types.Object]bool // locals whose address is taken
}

// sched rewrites packages and the packages below them.
func sched(files []*file, roots ...string) {
	exports := map[string]string{}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	for _, r := range roots {
		args = append(args, "./"+r+"/...")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	for dec := json.NewDecoder(bytes.NewReader(out)); ; {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	dirs := map[string][]*file{}
	for _, f := range files {
		d := filepath.ToSlash(filepath.Dir(f.rel))
		for _, r := range roots {
			if (d == r || strings.HasPrefix(d, r+"/")) && f.ast.Name.Name != "main" {
				dirs[d] = append(dirs[d], f)
			}
		}
	}
	for d, fs := range dirs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(err error) {}}
		var asts []*ast.File
		for _, f := range fs {
			asts = append(asts, f.ast)
		}
		pkg, err := conf.Check("github.com/dblokhin/gringo/"+d, fset, asts, info)
		if err != nil {
			die("type check:", err)
		}
		resets := map[string]string{} // variable -> function that sets it
		var inits []string
		for i, f := range fs {
			r := &rewriter{file: f, info: info, pkg: pkg, escapes: map[types.Object]string{}, done: map[ast.Node]bool{}, race: *mode == "race", taken: map[types.Object]bool{}}
			r.rewrite(i, resets, &inits)
		}
		r := "package " + pkg.Name() + "\n\n// VerifReset sets all variables of the package as at the start.\nfunc VerifReset() {\n"
		// variables without initial values first
		var names []string
		for n, f := range resets {
			if strings.HasPrefix(f, "zero_") {
				names = append(names, strings.TrimPrefix(f, "zero_"))
			}
			_ = n
		}
		sort.Strings(names)
		for _, n := range names {
			r += "\t" + n + "()\n"
		}
		seen := map[string]bool{}
		for _, in := range info.InitOrder {
			if f := resets[in.Lhs[0].Name()]; f != "" && !seen[f] {
				seen[f] = true
				r += "\t" + f + "()\n"
			}
		}
		for _, n := range inits {
			r += "\t" + n + "()\n"
		}
		r += "}\n"
		if pkg.Scope().Lookup("maxOnlineConnections") != nil {
			r += "\n// VerifSetLimit sets the limit of connections, if it is a variable.\nfunc VerifSetLimit(n int) bool { " + assign(pkg, "maxOnlineConnections") + " }\n"
		} else {
			r += "\n// VerifSetLimit tells that there is no such variable.\nfunc VerifSetLimit(n int) bool { return false }\n"
		}
		if pkg.Scope().Lookup("maxPeersTableSize") != nil {
			r += "\n// VerifSetTable sets the limit of the table, if it is a variable.\nfunc VerifSetTable(n int) bool { " + assign(pkg, "maxPeersTableSize") + " }\n"
		} else {
			r += "\n// VerifSetTable tells that there is no such variable.\nfunc VerifSetTable(n int) bool { return false }\n"
		}
		write(d+"/zz_verif.go", []byte(r))
	}
}

func assign(pkg *types.Package, name string) string {
	v, ok := pkg.Scope().Lookup(name).(*types.Var)
	if !ok {
		return "return false"
	}
	if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return "return false"
	}
	return fmt.Sprintf("%s = %s(n); return true", name, types.TypeString(v.Type(), types.RelativeTo(pkg)))
}

func (r *rewriter) site(n ast.Node) string {
	p := fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", r.rel, p.Line)
}

// render is the text of a range with the edits in it applied, which are removed.
func (r *rewriter) render(from, to token.Pos) string {
	a, b := off(from), off(to)
	var in, rest []edit
	for _, e := range r.edits {
		if e.from >= a && e.to <= b {
			in = append(in, e)
		} else {
			rest = append(rest, e)
		}
	}
	r.edits = rest
	sort.SliceStable(in, func(i, j int) bool { return less(in[i], in[j]) })
	var out bytes.Buffer
	at := a
	for _, e := range in {
		if e.from < at {
			die(r.rel, "overlapping edits", e.text)
		}
		out.Write(r.src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(r.src[at:b])
	return out.String()
}

func (r *rewriter) node(n ast.Node) string { return r.render(n.Pos(), n.End()) }

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) rewrite(num int, resets map[string]string, inits *[]string) {
	for _, i := range r.ast.Imports {
		path := strings.Trim(i.Path.Value, `"`)
		if to := swap[path]; to != "" {
			name := filepath.Base(path)
			if i.Name != nil {
				name = i.Name.Name
			}
			r.replace(i.Pos(), i.End(), fmt.Sprintf("%s %q", name, to))
		}
	}
	r.shared()
	if r.race {
		r.findTaken()
	}
	var tail []string
	k := 0
	for _, d := range r.ast.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
			if d.Recv == nil && d.Name.Name == "init" {
				k++
				name := fmt.Sprintf("verifInit_%d_%d", num, k)
				r.replace(d.Name.Pos(), d.Name.End(), name)
				tail = append(tail, "func init() { "+name+"() }")
				*inits = append(*inits, name)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				for _, x := range v.Values {
					r.expr(x)
				}
				for i, n := range v.Names {
					if n.Name == "_" {
						continue
					}
					k++
					name := fmt.Sprintf("verifSet_%d_%d", num, k)
					switch {
					case len(v.Values) == 0:
						tail = append(tail, fmt.Sprintf("func %s() { %s = *new(%s) }", name, n.Name, r.text(v.Type)))
						resets[n.Name] = "zero_" + name
					case len(v.Values) == len(v.Names):
						tail = append(tail, fmt.Sprintf("func %s() { %s = %s }", name, n.Name, r.text(v.Values[i])))
						resets[n.Name] = name
					case i == 0:
						var lhs []string
						for _, m := range v.Names {
							lhs = append(lhs, m.Name)
						}
						tail = append(tail, fmt.Sprintf("func %s() { %s = %s }", name, strings.Join(lhs, ", "), r.text(v.Values[0])))
						for _, m := range v.Names {
							resets[m.Name] = name
						}
					}
				}
			}
		}
	}
	r.addImport("verif_vsched", "verif/vsched")
	r.insert(r.ast.End(), "\n\nvar _ = verif_vsched.Active\n"+strings.Join(tail, "\n")+"\n")
}

// shared finds the local variables that function literals share with the
// function around them and that are assigned to.
func (r *rewriter) shared() {
	for _, d := range r.ast.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		inLit, assigned := map[types.Object]bool{}, map[types.Object]bool{}
		var lits []*ast.FuncLit
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.FuncLit:
					if n == x {
						return true
					}
					lits = append(lits, x)
					walk(x)
					lits = lits[:len(lits)-1]
					return false
				case *ast.Ident:
					if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() && len(lits) > 0 {
						l := lits[len(lits)-1]
						if v.Pos() < l.Pos() || v.Pos() > l.End() {
							inLit[v] = true
						}
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok {
								assigned[r.info.Uses[id]] = true
							}
						}
					} else {
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok && r.info.Uses[id] != nil {
								assigned[r.info.Uses[id]] = true
							}
						}
					}
				case *ast.IncDecStmt:
					if id, ok := x.X.(*ast.Ident); ok {
						assigned[r.info.Uses[id]] = true
					}
				case *ast.RangeStmt:
					for _, l := range []ast.Expr{x.Key, x.Value} {
						if id, ok := l.(*ast.Ident); ok {
							if o := r.info.Defs[id]; o != nil {
								assigned[o] = true // before go 1.22 it is one variable
							}
						}
					}
				}
				return true
			})
		}
		walk(fd.Body)
		for v := range inLit {
			if v != nil && assigned[v] {
				r.escapes[v] = fd.Name.Name + "." + v.Name()
			}
		}
	}
}

// accesses lists the unsynchronised members that an expression reads or, as
// the target of an assignment, writes.
func (r *rewriter) accesses(n ast.Node, write bool, acc map[string]bool) {
	if n == nil {
		return
	}
	add := func(name string, w bool) { acc[name] = acc[name] || w }
	switch x := n.(type) {
	case *ast.FuncLit, *ast.BlockStmt:
		return
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok {
			if v.Parent() == r.pkg.Scope() && plain(v.Type()) {
				add(v.Name(), write)
			} else if s := r.escapes[v]; s != "" && plain(v.Type()) {
				add(s, write)
			}
		}
		return
	case *ast.SelectorExpr:
		if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
			if v := sel.Obj().(*types.Var); v.Pkg() == r.pkg && plain(v.Type()) {
				t := sel.Recv()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				name := types.TypeString(t, func(*types.Package) string { return "" })
				if len(name) > 30 {
					name = "struct"
				}
				add(name+"."+v.Name(), write)
			}
			// the path to it is read, or written if it is no pointer
			w := write
			if t := r.info.Types[x.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					w = false
				}
			}
			r.accesses(x.X, w, acc)
			return
		}
		if _, ok := x.X.(*ast.Ident); ok {
			if id := x.X.(*ast.Ident); r.info.Uses[id] != nil {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					return
				}
			}
		}
		r.accesses(x.X, false, acc)
		return
	case *ast.IndexExpr:
		r.accesses(x.X, write && !isMap(r.info.Types[x.X].Type), acc)
		r.accesses(x.Index, false, acc)
		return
	case *ast.StarExpr:
		r.accesses(x.X, false, acc)
		return
	case *ast.ParenExpr:
		r.accesses(x.X, write, acc)
		return
	case *ast.UnaryExpr:
		if x.Op == token.AND { // passed on
			if _, ok := x.X.(*ast.SelectorExpr); ok {
				r.accesses(x.X.(*ast.SelectorExpr).X, false, acc)
				return
			}
		}
		r.accesses(x.X, write, acc)
		return
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			r.accesses(l, true, acc)
		}
		for _, e := range x.Rhs {
			r.accesses(e, false, acc)
		}
		return
	case *ast.IncDecStmt:
		r.accesses(x.X, true, acc)
		return
	}
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			r.accesses(c, false, acc)
		}
		return false
	})
}

// plain tells whether a variable of the type is accessed without
// synchronisation of its own.
func plain(t types.Type) bool {
	if isChan(t) {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false
		}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return false
	}
	return true
}

func (r *rewriter) points(at ast.Node, parts ...ast.Node) {
	if t := r.pointText(parts...); t != "" {
		r.before(at.Pos(), t)
	}
}

func (r *rewriter) pointText(parts ...ast.Node) string {
	acc := map[string]bool{}
	for _, p := range parts {
		if p != nil {
			r.accesses(p, false, acc)
		}
	}
	var names []string
	for n := range acc {
		names = append(names, n)
	}
	sort.Strings(names)
	out := ""
	for _, n := range names {
		out += fmt.Sprintf("verif_vsched.P(%q, %v); ", n, acc[n])
	}
	return out
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.list(b.List)
	}
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		r.stmt(s, s, true)
	}
}

func nn(s ast.Stmt) ast.Node {
	if s == nil {
		return nil
	}
	return s
}

func ne(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

// stmt rewrites a statement; points are put before at, if allowed.
func (r *rewriter) stmt(s, at ast.Stmt, pts bool) {
	points := func(parts ...ast.Node) {
		if pts {
			r.points(at, parts...)
		}
	}
	switch s := s.(type) {
	case nil, *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.LabeledStmt:
		r.stmt(s.Stmt, at, pts)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		points(s)
		r.expr(s.X)
	case *ast.SendStmt:
		points(s)
		r.expr(s.Chan)
		r.expr(s.Value)
		r.prefix(s.Chan.Pos(), "verif_vsched.SendTo(")
		r.replace(s.Arrow, s.Arrow+2, ")(")
		r.insert(s.Value.End(), ")")
	case *ast.IncDecStmt:
		points(s)
		r.lhs(s.X)
		if r.race {
			r.write(s.X)
		}
	case *ast.AssignStmt:
		points(s)
		if r.race && !(len(s.Lhs) == 2 && len(s.Rhs) == 1 && r.isRecv(s.Rhs[0])) {
			r.raceAssign(s, pts && ast.Stmt(s) == at)
			return
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.expr(u.X)
				r.replace(u.OpPos, u.OpPos+2, "verif_vsched.Recv2(")
				r.insert(u.X.End(), ")")
				r.lhs(s.Lhs[0])
				r.lhs(s.Lhs[1])
				return
			}
		}
		for _, l := range s.Lhs {
			r.lhs(l)
		}
		for _, e := range s.Rhs {
			r.expr(e)
		}
	case *ast.GoStmt:
		points(s.Call)
		r.goStmt(s)
	case *ast.DeferStmt:
		points(s.Call)
		if len(s.Call.Args) > 0 && (r.builtin(s.Call.Fun, "close") || r.builtin(s.Call.Fun, "delete")) {
			r.expr(s.Call)
			return
		}
		r.expr(s.Call.Fun)
		for _, a := range s.Call.Args {
			r.expr(a)
		}
	case *ast.ReturnStmt:
		points(s)
		for _, e := range s.Results {
			r.expr(e)
		}
	case *ast.IfStmt:
		points(nn(s.Init), s.Cond)
		r.stmt(s.Init, s, false)
		r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			r.stmt(s.Else, s.Else, false)
		}
	case *ast.SwitchStmt:
		parts := []ast.Node{nn(s.Init), ne(s.Tag)}
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				parts = append(parts, e)
			}
		}
		points(parts...)
		r.stmt(s.Init, s, false)
		r.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.expr(e)
			}
			r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		points(nn(s.Init), s.Assign)
		r.stmt(s.Init, s, false)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			r.expr(a.X)
		case *ast.AssignStmt:
			r.expr(a.Rhs[0])
		}
		for _, c := range s.Body.List {
			r.list(c.(*ast.CaseClause).Body)
		}
	case *ast.ForStmt:
		points(nn(s.Init), ne(s.Cond))
		r.stmt(s.Init, s, false)
		r.expr(s.Cond)
		r.stmt(s.Post, s, false)
		if t := r.pointText(ne(s.Cond), nn(s.Post)); t != "" && pts {
			// the condition is evaluated again after each round
			r.insert(s.Body.Lbrace+1, " "+t)
		}
		r.block(s.Body)
	case *ast.RangeStmt:
		points(s.X)
		r.rangeStmt(s)
	case *ast.SelectStmt:
		var parts []ast.Node
		for _, c := range s.Body.List {
			switch c := c.(*ast.CommClause).Comm.(type) {
			case *ast.SendStmt:
				parts = append(parts, c.Chan, c.Value)
			case *ast.ExprStmt:
				parts = append(parts, c.X)
			case *ast.AssignStmt:
				parts = append(parts, c.Rhs[0])
			}
		}
		points(parts...)
		r.selectStmt(s)
	case *ast.DeclStmt:
		points(s)
		if d, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range d.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := ast.Unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							r.expr(u.X)
							r.replace(u.OpPos, u.OpPos+2, "verif_vsched.Recv2(")
							r.insert(u.X.End(), ")")
							continue
						}
					}
					for _, e := range v.Values {
						r.expr(e)
					}
				}
			}
		}
	}
}

// lhs rewrites the target of an assignment.
func (r *rewriter) lhs(e ast.Expr) {
	switch x := e.(type) {
	case *ast.IndexExpr:
		if isMap(r.info.Types[x.X].Type) {
			r.expr(x.X)
			r.expr(x.Index)
			r.prefix(x.X.Pos(), "verif_vsched.MW(")
			r.insert(x.X.End(), fmt.Sprintf(", %q)", r.site(x)))
			return
		}
		if r.race {
			r.path(x)
			return
		}
		r.lhs(x.X)
		r.expr(x.Index)
	case *ast.ParenExpr:
		r.lhs(x.X)
	case *ast.Ident:
	default:
		if r.race {
			r.path(e)
			return
		}
		r.expr(e)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) {
	c := s.Call
	simple := !c.Ellipsis.IsValid()
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			simple = false
		}
	}
	if !simple {
		// evaluate the arguments now
		r.n++
		var names, vals []string
		for i, a := range c.Args {
			r.expr(a)
			names = append(names, fmt.Sprintf("verif_a%d_%d", r.n, i))
			vals = append(vals, r.node(a))
		}
		fun := r.text(c.Fun)
		if r.builtin(c.Fun, "close") {
			fun = "verif_vsched.Close"
		}
		dots := ""
		if c.Ellipsis.IsValid() {
			dots = "..."
		}
		pre := ""
		if len(names) > 0 {
			pre = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
		}
		r.replace(s.Pos(), s.End(), fmt.Sprintf("{ %sverif_vsched.Go(func() { %s(%s%s) }) }", pre, fun, strings.Join(names, ", "), dots))
		return
	}
	r.expr(c.Fun)
	for _, a := range c.Args {
		r.expr(a)
	}
	r.replace(s.Go, c.Fun.Pos(), "verif_vsched.Go(")
	if len(c.Args) > 0 {
		r.replace(c.Lparen, c.Lparen+1, ", ")
	} else {
		r.replace(c.Lparen, c.Lparen+1, "")
	}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) {
	t := r.info.Types[s.X].Type
	switch {
	case isChan(t):
		r.expr(s.X)
		r.block(s.Body)
		r.n++
		ch, ok := fmt.Sprintf("verif_c%d", r.n), fmt.Sprintf("verif_ok%d", r.n)
		head := fmt.Sprintf("for %s := (%s); ; { ", ch, r.node(s.X))
		switch {
		case s.Key == nil:
			head += fmt.Sprintf("_, %s := verif_vsched.Recv2(%s); ", ok, ch)
		case s.Tok == token.DEFINE:
			k := r.text(s.Key)
			head += fmt.Sprintf("%s, %s := verif_vsched.Recv2(%s); ", k, ok, ch)
			if k != "_" {
				head += "_ = " + k + "; "
			}
		default:
			head += fmt.Sprintf("var %s bool; %s, %s = verif_vsched.Recv2(%s); ", ok, r.node(s.Key), ok, ch)
		}
		head += fmt.Sprintf("if !%s { break }; {", ok)
		r.replace(s.For, s.Body.Lbrace+1, head)
		r.insert(s.Body.Rbrace, "}")
	case isMap(t):
		r.expr(s.X)
		r.block(s.Body)
		r.n++
		it := fmt.Sprintf("verif_i%d", r.n)
		k, v := "nil", "nil"
		dk, dv := "_", "_"
		if s.Key != nil && r.text(s.Key) != "_" {
			k = "&" + r.node(s.Key)
			if s.Tok == token.DEFINE {
				dk = r.text(s.Key)
			}
		}
		if s.Value != nil && r.text(s.Value) != "_" {
			v = "&" + r.node(s.Value)
			if s.Tok == token.DEFINE {
				dv = r.text(s.Value)
			}
		}
		r.replace(s.For, s.Body.Lbrace, fmt.Sprintf("for %s, %s, %s := verif_vsched.MapIter(%s, %q); %s.Next(%s, %s); ", it, dk, dv, r.node(s.X), r.site(s), it, k, v))
	default:
		r.expr(s.X)
		if r.race && s.Value != nil && r.text(s.Value) != "_" {
			r.elements(s.X)
		}
		if s.Tok == token.ASSIGN {
			r.lhs(s.Key)
			if s.Value != nil {
				r.lhs(s.Value)
			}
		}
		r.block(s.Body)
	}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) {
	if len(s.Body.List) == 0 {
		r.replace(s.Pos(), s.End(), "for { verif_vsched.Forever() }")
		return
	}
	r.n++
	var names, vals []string
	def := false
	for _, c := range s.Body.List {
		def = def || c.(*ast.CommClause).Comm == nil
	}
	i := 0
	last := s.Body.List[len(s.Body.List)-1]
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			r.list(cc.Body)
			continue
		}
		name := fmt.Sprintf("verif_s%d_%d", r.n, i)
		label := fmt.Sprintf("case %d:", i)
		if c == last && !def {
			label = "default:"
		}
		names = append(names, name)
		pre := ""
		recv := func(e ast.Expr) {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			r.expr(u.X)
			vals = append(vals, "verif_vsched.CaseRecv("+r.node(u.X)+")")
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			r.expr(x.Chan)
			r.expr(x.Value)
			vals = append(vals, "verif_vsched.CaseSend("+r.node(x.Chan)+")("+r.node(x.Value)+")")
		case *ast.ExprStmt:
			recv(x.X)
		case *ast.AssignStmt:
			recv(x.Rhs[0])
			val := ".Val()"
			if len(x.Lhs) == 2 {
				val = ".Val2()"
			}
			var lhs []string
			blank := true
			use := ""
			for _, l := range x.Lhs {
				r.lhs(l)
				t := r.node(l)
				lhs = append(lhs, t)
				if t != "_" {
					blank = false
					if x.Tok == token.DEFINE {
						use += "; _ = " + t
					}
				}
			}
			if !blank {
				pre = " " + strings.Join(lhs, ", ") + " " + x.Tok.String() + " " + name + val + use + ";"
			}
		}
		r.replace(cc.Case, cc.Colon+1, label+pre)
		r.list(cc.Body)
		i++
	}
	head := fmt.Sprintf("switch verif_vsched.Select(%q, %v) ", r.site(s), def)
	if len(names) > 0 {
		head = fmt.Sprintf("switch %s := %s; verif_vsched.Select(%q, %v, %s) ", strings.Join(names, ", "), strings.Join(vals, ", "), r.site(s), def, strings.Join(names, ", "))
	}
	r.replace(s.Select, s.Body.Lbrace, head)
}

// expr rewrites an expression.
func (r *rewriter) expr(e ast.Expr) {
	if e == nil {
		return
	}
	switch x := e.(type) {
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.Ident:
		r.read(x)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.expr(x.X)
			r.replace(x.OpPos, x.OpPos+2, "verif_vsched.Recv(")
			r.insert(x.X.End(), ")")
			return
		}
		if x.Op == token.AND && r.race {
			r.path(x.X)
			return
		}
		r.expr(x.X)
	case *ast.CallExpr:
		switch {
		case r.builtin(x.Fun, "close"):
			r.replace(x.Fun.Pos(), x.Fun.End(), "verif_vsched.Close")
		case r.builtin(x.Fun, "len") && isChan(r.info.Types[x.Args[0]].Type):
			r.replace(x.Fun.Pos(), x.Fun.End(), "verif_vsched.Len")
		case r.builtin(x.Fun, "len") && isMap(r.info.Types[x.Args[0]].Type):
			r.mapRead(x.Args[0], x)
			return
		case r.builtin(x.Fun, "delete"), r.builtin(x.Fun, "clear") && isMap(r.info.Types[x.Args[0]].Type):
			for _, a := range x.Args {
				r.expr(a)
			}
			r.prefix(x.Args[0].Pos(), "verif_vsched.MW(")
			r.insert(x.Args[0].End(), fmt.Sprintf(", %q)", r.site(x)))
			return
		default:
			r.expr(x.Fun)
		}
		for _, a := range x.Args {
			r.expr(a)
		}
		if r.race {
			r.raceCall(x)
		}
	case *ast.IndexExpr:
		if isMap(r.info.Types[x.X].Type) {
			r.mapRead(x.X, x)
			r.expr(x.Index)
			return
		}
		if r.race {
			r.path(x)
			r.read(x)
			return
		}
		r.expr(x.X)
		r.expr(x.Index)
	case *ast.BinaryExpr:
		r.expr(x.X)
		r.expr(x.Y)
	case *ast.ParenExpr:
		r.expr(x.X)
	case *ast.SelectorExpr:
		if r.race {
			r.path(x)
			r.read(x)
			return
		}
		r.expr(x.X)
	case *ast.StarExpr:
		r.expr(x.X)
		r.read(x)
	case *ast.SliceExpr:
		if _, ok := under(r.info.Types[x.X].Type).(*types.Array); ok && r.race {
			r.path(x.X)
		} else {
			r.expr(x.X)
		}
		r.expr(x.Low)
		r.expr(x.High)
		r.expr(x.Max)
	case *ast.TypeAssertExpr:
		r.expr(x.X)
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			r.expr(el)
		}
	case *ast.KeyValueExpr:
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok && v.IsField() {
				r.expr(x.Value)
				return
			}
		}
		r.expr(x.Key)
		r.expr(x.Value)
	}
}

func (r *rewriter) mapRead(m ast.Expr, at ast.Node) {
	r.expr(m)
	r.prefix(m.Pos(), "verif_vsched.MR(")
	r.insert(m.End(), fmt.Sprintf(", %q)", r.site(at)))
}
