package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

// findTaken finds the locals whose address is taken, explicitly or as the
// receiver of a method.
func (r *rewriter) findTaken() {
	mark := func(e ast.Expr) {
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.SelectorExpr:
				if isPtr(r.info.Types[x.X].Type) {
					return
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if _, ok := under(r.info.Types[x.X].Type).(*types.Array); !ok {
					return
				}
				e = x.X
				continue
			case *ast.Ident:
				if o := r.info.Uses[x]; o != nil {
					r.taken[o] = true
				}
			}
			return
		}
	}
	ast.Inspect(r.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.SelectorExpr:
			if r.takesAddress(x) {
				mark(x.X)
			}
		}
		return true
	})
}

// takesAddress tells whether a method selection takes the address of its
// operand.
func (r *rewriter) takesAddress(x *ast.SelectorExpr) bool {
	sel := r.info.Selections[x]
	if sel == nil || sel.Kind() != types.MethodVal || isPtr(r.info.Types[x.X].Type) {
		return false
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return false
	}
	v := f.Type().(*types.Signature).Recv()
	return v != nil && isPtr(v.Type())
}

// addressable tells whether an expression is a place in memory.
func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && !v.IsField()
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.StarExpr:
		return !r.info.Types[x].IsType()
	case *ast.SelectorExpr:
		if sel := r.info.Selections[x]; sel != nil {
			return sel.Kind() == types.FieldVal && (sel.Indirect() || isPtr(r.info.Types[x.X].Type) || r.addressable(x.X))
		}
		_, ok := r.info.Uses[x.Sel].(*types.Var)
		return ok
	case *ast.IndexExpr:
		switch t := under(r.info.Types[x.X].Type).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.addressable(x.X)
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

// place names an expression if it is memory that could be shared.
func (r *rewriter) place(e ast.Expr) string {
	if !r.addressable(e) {
		return ""
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.place(x.X)
	case *ast.Ident:
		v := r.info.Uses[x].(*types.Var)
		if v.Parent() == r.pkg.Scope() {
			return v.Name()
		}
		if s := r.escapes[v]; s != "" {
			return s
		}
		if r.taken[v] {
			return v.Name()
		}
		return ""
	case *ast.SelectorExpr:
		if sel := r.info.Selections[x]; sel != nil {
			t := sel.Recv()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			n := types.TypeString(t, func(*types.Package) string { return "" })
			if len(n) > 30 {
				n = "struct"
			}
			return n + "." + x.Sel.Name
		}
		return r.text(x)
	case *ast.IndexExpr:
		return "an element of " + short(r.text(x.X))
	case *ast.StarExpr:
		return "what " + short(r.text(x.X)) + " points to"
	}
	return ""
}

func short(s string) string {
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

// read monitors the read of an expression that has been rewritten already.
func (r *rewriter) read(e ast.Expr) {
	if !r.race {
		return
	}
	if tv, ok := r.info.Types[e]; ok && (!tv.IsValue() || tv.Value != nil) {
		return
	}
	n := r.place(e)
	if n == "" || skip(r.info.Types[e].Type) {
		return
	}
	r.prefix(e.Pos(), "(*verif_vsched.RD(&")
	r.insert(e.End(), fmt.Sprintf(", %q, %q))", n, r.site(e)))
}

// skip tells that a type synchronises itself.
func skip(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

// write monitors the write of the target of an assignment.
func (r *rewriter) write(e ast.Expr) {
	n := r.place(e)
	if n == "" {
		return
	}
	r.prefix(e.Pos(), "*verif_vsched.WR(&")
	r.insert(e.End(), fmt.Sprintf(", %q, %q)", n, r.site(e)))
}

// path rewrites what has to be evaluated to get the address of an expression.
func (r *rewriter) path(e ast.Expr) {
	switch x := e.(type) {
	case *ast.Ident:
	case *ast.ParenExpr:
		r.path(x.X)
	case *ast.StarExpr:
		r.expr(x.X)
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		switch {
		case sel == nil: // of a package, or a method expression
			if id, ok := x.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.PkgName); ok {
					return
				}
			}
			if !r.info.Types[x.X].IsType() {
				r.expr(x.X)
			}
		case sel.Kind() == types.FieldVal && !isPtr(r.info.Types[x.X].Type) && r.addressable(x.X), r.takesAddress(x):
			r.path(x.X)
			r.object(x)
		case sel.Kind() == types.MethodExpr:
		default:
			r.expr(x.X)
			r.object(x)
		}
	case *ast.IndexExpr:
		t := r.info.Types[x.X].Type
		if _, ok := under(t).(*types.Array); ok && r.addressable(x.X) {
			r.path(x.X)
		} else if tv := r.info.Types[x.X]; tv.IsValue() && !isFunc(t) {
			if isMap(t) {
				r.mapRead(x.X, x)
			} else {
				r.expr(x.X)
			}
		} else {
			r.expr(x.X)
			return // an instance of a generic function
		}
		r.expr(x.Index)
	default:
		r.expr(e)
	}
}

func isFunc(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }

// objects are types whose methods do not synchronise themselves, with those
// methods that change nothing.
var objects = map[string]map[string]bool{
	"bytes.Buffer":        {"Len": true, "Bytes": true, "String": true, "Cap": true, "Available": true},
	"strings.Builder":     {"Len": true, "String": true, "Cap": true},
	"bufio.Writer":        {"Buffered": true, "Available": true, "Size": true},
	"bufio.Reader":        {"Buffered": true, "Size": true},
	"bytes.Reader":        {"Len": true, "Size": true},
	"container/list.List": {"Len": true, "Front": true, "Back": true},
	"math/rand.Rand":      {},
	"hash.Hash":           {"Size": true, "BlockSize": true, "Sum": true},
	"hash.Hash32":         {"Size": true, "BlockSize": true, "Sum": true, "Sum32": true},
	"hash.Hash64":         {"Size": true, "BlockSize": true, "Sum": true, "Sum64": true},
	"math/big.Int": {"Append": true, "Bit": true, "BitLen": true, "Bits": true, "Bytes": true, "Cmp": true, "CmpAbs": true,
		"FillBytes": true, "Format": true, "Int64": true, "IsInt64": true, "IsUint64": true, "ProbablyPrime": true, "Sign": true,
		"String": true, "Text": true, "TrailingZeroBits": true, "Uint64": true},
}

// object monitors the call of a method of one of them.
func (r *rewriter) object(x *ast.SelectorExpr) {
	sel := r.info.Selections[x]
	if sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
		return
	}
	t := r.info.Types[x.X].Type
	ptr := false
	if p, ok := under(t).(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return
	}
	name := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	quiet, ok := objects[name]
	if !ok {
		return
	}
	if _, ok := n.Underlying().(*types.Interface); ok {
		r.prefix(x.X.Pos(), fmt.Sprintf("verif_vsched.OI(%v, ", !quiet[x.Sel.Name]))
		r.insert(x.X.End(), fmt.Sprintf(", %q, %q)", "the "+name+" "+short(r.text(x.X)), r.site(x)))
		return
	}
	f := "OW("
	if quiet[x.Sel.Name] {
		f = "OR("
	}
	if !ptr {
		if !r.addressable(x.X) {
			return
		}
		f += "&"
	}
	r.prefix(x.X.Pos(), "verif_vsched."+f)
	r.insert(x.X.End(), fmt.Sprintf(", %q, %q)", "the "+name+" "+short(r.text(x.X)), r.site(x)))
}

// elements monitors the reads of a range statement.
func (r *rewriter) elements(e ast.Expr) {
	if _, ok := under(r.info.Types[e].Type).(*types.Slice); !ok {
		return
	}
	r.prefix(e.Pos(), "verif_vsched.RS(")
	r.insert(e.End(), fmt.Sprintf(", %q, %q)", "an element of "+short(r.text(e)), r.site(e)))
}

func (r *rewriter) isRecv(e ast.Expr) bool {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	return ok && u.Op == token.ARROW
}

// calls tells whether evaluating an expression can synchronise.
func (r *rewriter) calls(e ast.Expr) (yes bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if r.info.Types[x.Fun].IsType() {
				return true
			}
			if id, ok := x.Fun.(*ast.Ident); ok {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					return true
				}
			}
			yes = true
		case *ast.UnaryExpr:
			yes = yes || x.Op == token.ARROW
		}
		return true
	})
	return
}

// raceAssign rewrites an assignment and monitors its writes: at their place,
// or after the statement if its right side may synchronise.
func (r *rewriter) raceAssign(s *ast.AssignStmt, listed bool) {
	late := false
	for _, e := range s.Rhs {
		late = late || r.calls(e)
	}
	var after []ast.Expr
	for _, l := range s.Lhs {
		r.lhs(l)
		if id, ok := l.(*ast.Ident); ok && (id.Name == "_" || s.Tok == token.DEFINE && r.info.Uses[id] == nil) {
			continue
		}
		if x, ok := l.(*ast.IndexExpr); ok && isMap(r.info.Types[x.X].Type) {
			continue
		}
		if r.place(l) == "" {
			continue
		}
		switch {
		case late && listed && !r.calls(l), s.Tok == token.DEFINE:
			if listed {
				after = append(after, l)
			}
		default:
			r.write(l)
		}
	}
	for _, e := range s.Rhs {
		r.expr(e)
	}
	for _, l := range after {
		r.insert(s.End(), fmt.Sprintf("; verif_vsched.WR(&%s, %q, %q)", r.text(l), r.place(l), r.site(l)))
	}
}

// writers are library functions that write to the elements of their first
// slice, or what their last pointer points to.
var writers = map[string]bool{"Read": true, "ReadFull": true, "ReadAtLeast": true, "ReadAt": true, "PutUint16": true,
	"PutUint32": true, "PutUint64": true, "PutUvarint": true, "PutVarint": true, "FillBytes": true, "Encode": true, "Decode": true,
	"Slice": true, "SliceStable": true, "Ints": true, "Strings": true, "Shuffle": true, "XORKeyStream": true}

func (r *rewriter) isSlice(e ast.Expr) bool {
	_, ok := under(r.info.Types[e].Type).(*types.Slice)
	return ok && !r.info.Types[e].IsNil()
}

// raceCall monitors what a builtin or a function of a library does with the
// memory that it is given.
func (r *rewriter) raceCall(x *ast.CallExpr) {
	wrap := func(e ast.Expr, f, n string) {
		r.prefix(e.Pos(), "verif_vsched."+f+"(")
		r.insert(e.End(), fmt.Sprintf(", %s%q, %q)", n, "an element of "+short(r.text(e)), r.site(e)))
	}
	switch {
	case r.builtin(x.Fun, "append"):
		if len(x.Args) < 2 || !r.isSlice(x.Args[0]) {
			return
		}
		n := len(x.Args) - 1
		if x.Ellipsis.IsValid() {
			n = -1
			if r.isSlice(x.Args[1]) {
				wrap(x.Args[1], "RS", "")
			}
		}
		wrap(x.Args[0], "AP", fmt.Sprintf("%d, ", n))
		return
	case r.builtin(x.Fun, "copy"):
		if len(x.Args) != 2 || !r.isSlice(x.Args[0]) || !r.isSlice(x.Args[1]) {
			return
		}
		r.replace(x.Fun.Pos(), x.Fun.End(), "verif_vsched.Copy")
		r.insert(x.Args[1].End(), fmt.Sprintf(", %q, %q", "an element of "+short(r.text(x.Args[0])), r.site(x)))
		return
	}
	var f *types.Func
	switch y := ast.Unparen(x.Fun).(type) {
	case *ast.SelectorExpr:
		f, _ = r.info.Uses[y.Sel].(*types.Func)
	case *ast.Ident:
		f, _ = r.info.Uses[y].(*types.Func) // a dot import
	}
	if f == nil || f.Pkg() == nil || x.Ellipsis.IsValid() {
		return
	}
	switch p := f.Pkg().Path(); {
	case strings.HasPrefix(p, "github.com/dblokhin/"), strings.HasPrefix(p, "verif"), strings.Contains(p, "logrus"), p == "fmt", p == "sync", p == "sync/atomic", p == "time":
		return
	}
	first := true
	for i, a := range x.Args {
		t := r.info.Types[a]
		switch {
		case r.isSlice(a):
			if first && writers[f.Name()] {
				wrap(a, "WS", "")
			} else {
				wrap(a, "RS", "")
			}
			first = false
		case isPtr(t.Type) && !t.IsNil():
			n, ok := t.Type.(*types.Pointer)
			if !ok {
				continue
			}
			if d, ok := n.Elem().(*types.Named); ok && d.Obj().Pkg() != nil {
				if o, ok := objects[d.Obj().Pkg().Path()+"."+d.Obj().Name()]; ok {
					if d.Obj().Name() == "Int" {
						wrap(a, "OR", "")
					} else if o != nil {
						wrap(a, "OW", "")
					}
					continue
				}
			}
			if f.Pkg().Path() == "encoding/binary" && f.Name() == "Read" && i == 2 {
				wrap(a, "WR", "")
			}
		}
	}
}
