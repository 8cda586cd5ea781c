package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// Local objects that nothing else can refer to yet. A local variable that is
// only ever assigned freshly made maps and slices, and has so far been used
// only in place (method receiver, index, len, range, append to itself), is
// not reachable from the heap: whatever is loaded from memory or returned by a
// call differs from it.
type localObj struct {
	obj types.Object
	dcl token.Pos
	esc token.Pos // first position at which it may have been stored elsewhere
}

func (ex *Exec) findLocals(pkg *Pkg, body *ast.BlockStmt) {
	ex.locals = nil
	info := pkg.Info
	type cand struct {
		bad bool
		esc token.Pos
		dcl token.Pos
	}
	cs := map[types.Object]*cand{}
	fresh := func(e ast.Expr, self types.Object) bool {
		switch x := ast.Unparen(e).(type) {
		case *ast.CallExpr:
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					if id.Name == "make" || id.Name == "new" {
						return true
					}
					if id.Name == "append" && len(x.Args) > 0 {
						if a, ok := ast.Unparen(x.Args[0]).(*ast.Ident); ok && info.Uses[a] == self {
							return true
						}
					}
					return false
				}
			}
			switch f := ast.Unparen(x.Fun).(type) {
			case *ast.SelectorExpr:
				return f.Sel.Name == "NewYispMap"
			case *ast.Ident:
				return f.Name == "NewYispMap"
			case *ast.IndexListExpr:
				if s, ok := f.X.(*ast.SelectorExpr); ok {
					return s.Sel.Name == "NewOrderedMap"
				}
			}
		case *ast.CompositeLit:
			switch info.TypeOf(x).Underlying().(type) {
			case *types.Slice, *types.Map:
				return true
			}
		case *ast.Ident:
			return x.Name == "nil"
		}
		return false
	}
	isRef := func(o types.Object) bool {
		switch o.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		return isOrderedMap(o.Type())
	}
	get := func(o types.Object) *cand {
		if o == nil || !isRef(o) {
			return nil
		}
		if _, ok := o.(*types.Var); !ok || o.Parent() == pkg.Types.Scope() {
			return nil
		}
		if cs[o] == nil {
			cs[o] = &cand{dcl: o.Pos()}
			if o.Pos() < body.Pos() || o.Pos() > body.End() {
				cs[o].bad = true // a parameter
			}
		}
		return cs[o]
	}
	var stack []ast.Node
	escape := func(o types.Object) {
		c := get(o)
		if c == nil {
			return
		}
		var p token.Pos
		for _, n := range stack {
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				if p == 0 && !(n.Pos() <= c.dcl && c.dcl < n.End()) {
					p = n.Pos()
				}
			}
		}
		if p == 0 {
			for i := len(stack) - 1; i >= 0; i-- {
				if s, ok := stack[i].(ast.Stmt); ok {
					p = s.Pos()
					break
				}
			}
		}
		if c.esc == 0 || p < c.esc {
			c.esc = p
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				id, ok := l.(*ast.Ident)
				if !ok {
					continue
				}
				o := info.Defs[id]
				if o == nil {
					o = info.Uses[id]
				}
				if c := get(o); c != nil {
					if len(x.Lhs) != len(x.Rhs) || !fresh(x.Rhs[i], o) {
						c.bad = true
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if c := get(info.Defs[id]); c != nil && len(x.Values) > 0 {
					if len(x.Values) != len(x.Names) || !fresh(x.Values[i], info.Defs[id]) {
						c.bad = true
					}
				}
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{x.Key, x.Value} {
				if id, ok := l.(*ast.Ident); ok {
					if c := get(info.Defs[id]); c != nil {
						c.bad = true
					}
					if c := get(info.Uses[id]); c != nil {
						c.bad = true
					}
				}
			}
		case *ast.FuncLit:
			// whatever it mentions may be kept
			ast.Inspect(x.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && info.Uses[id] != nil {
					escape(info.Uses[id])
				}
				return true
			})
		case *ast.TypeSwitchStmt:
		case *ast.Ident:
			o := info.Uses[x]
			if o == nil || get(o) == nil {
				return true
			}
			par := stack[len(stack)-2]
			for i := len(stack) - 2; i > 0; i-- {
				if _, ok := stack[i].(*ast.ParenExpr); !ok {
					par = stack[i]
					break
				}
			}
			ok := false
			switch p := par.(type) {
			case *ast.SelectorExpr:
				ok = p.X == ast.Expr(x) && isOrderedMap(o.Type())
			case *ast.IndexExpr:
				ok = p.X == ast.Expr(x)
			case *ast.RangeStmt:
				ok = p.X == ast.Expr(x)
			case *ast.BinaryExpr:
				ok = true // comparison with nil
			case *ast.AssignStmt:
				for _, l := range p.Lhs {
					ok = ok || l == ast.Expr(x)
				}
				for _, r := range p.Rhs {
					if r == ast.Expr(x) {
						ok = false
					}
				}
			case *ast.CallExpr:
				if id, is := ast.Unparen(p.Fun).(*ast.Ident); is {
					if _, is := info.Uses[id].(*types.Builtin); is {
						switch id.Name {
						case "len", "cap", "delete", "clear":
							ok = true
						case "append":
							// to itself (anything else is a bad assignment or an escape)
							if len(stack) >= 3 && p.Args[0] == ast.Expr(x) {
								if as, is := stack[len(stack)-3].(*ast.AssignStmt); is && len(as.Lhs) == 1 {
									if l, is := as.Lhs[0].(*ast.Ident); is && (info.Uses[l] == o || info.Defs[l] == o) {
										ok = true
									}
								}
							}
						}
					}
				}
			}
			if !ok {
				escape(o)
			}
		}
		return true
	})
	for o, c := range cs {
		if !c.bad {
			ex.locals = append(ex.locals, localObj{o, c.dcl, c.esc})
		}
	}
}

// apart: a reference that came from memory or a call is none of the local
// objects.
func (ex *Exec) apart(st *State, v *Term, t types.Type) *Term {
	if ex.rootPos == 0 || len(ex.locals) == 0 {
		return True()
	}
	r := refOf(v)
	if r == nil || r.n != nil {
		return True()
	}
	var out []*Term
	for _, l := range ex.locals {
		if l.esc != 0 && ex.rootPos >= l.esc || ex.rootPos <= l.dcl || ex.addr[l.obj] {
			continue
		}
		if !types.Identical(types.Unalias(l.obj.Type()), types.Unalias(t)) {
			continue
		}
		x, ok := st.vars[l.obj]
		if !ok {
			continue
		}
		a := refOf(x)
		if a == nil || a.n != nil && a.n.Sign() == 0 || a == r {
			continue
		}
		out = append(out, Or(Neq(r, a), Eq(a, IntLit(0))))
	}
	return And(out...)
}

// loaded: what is known about a value that came from memory or a call.
func (ex *Exec) loaded(st *State, v *Term, t types.Type) *Term {
	return And(validVal(v, t, st.next), ex.apart(st, v, t))
}
