package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
)

func StrLen(x *Term) *Term {
	if s, ok := strLitOf(x); ok {
		return IntLit(int64(len(s)))
	}
	return Fn("strlen", SInt, x)
}

func Substr(s, a, b *Term) *Term {
	if a.n != nil && a.n.Sign() == 0 && b == StrLen(s) {
		return s
	}
	if l, ok := strLitOf(s); ok && a.n != nil && b.n != nil && a.n.Sign() >= 0 && a.n.Cmp(b.n) <= 0 && b.n.Cmp(big.NewInt(int64(len(l)))) <= 0 {
		return StrLit(l[a.n.Int64():b.n.Int64()])
	}
	return Fn("substr", SStr, s, a, b)
}

func StrCat(a, b *Term) *Term {
	la, oka := strLitOf(a)
	lb, okb := strLitOf(b)
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	if oka && okb {
		return StrLit(la + lb)
	}
	// left-associate
	if b.op == "app" && b.name == "strcat" {
		return StrCat(StrCat(a, b.args[0]), b.args[1])
	}
	if okb && a.op == "app" && a.name == "strcat" {
		if l2, ok := strLitOf(a.args[1]); ok {
			return StrCat(a.args[0], StrLit(l2+lb))
		}
	}
	return Fn("strcat", SStr, a, b)
}

// exprAs evaluates e and converts it to type t.
func (ex *Exec) exprAs(st *State, e ast.Expr, t types.Type) *Term {
	if tv, ok := ex.info().Types[e]; ok && tv.IsNil() {
		return zero(t)
	}
	v := ex.expr(st, e)
	return ex.conv(st, v, ex.typeOf(e), t)
}

// conv converts for assignability (boxing into interfaces).
func (ex *Exec) conv(st *State, v *Term, from, to types.Type) *Term {
	from, to = types.Unalias(from), types.Unalias(to)
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zero(to)
	}
	if isInterface(to) && !isInterface(from) {
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		if neverNilBoxed(from) && !isOrderedCtorRef(v) && !(len(ex.frames) == 1 && ex.contract != nil && ex.contract.MaybeNil) {
			ex.safe(st, "nil-pointer-in-interface "+typeStr(from), Neq(v, IntLit(0)), ex.site)
		}
		r := box(from, v)
		if n := ifaceName(to); n != "" {
			st.assume(Implements(r, to))
		}
		return r
	}
	if isInterface(to) && isInterface(from) {
		if n := ifaceName(to); n != "" {
			st.assume(Or(Eq(v, Nil()), Implements(v, to)))
		}
	}
	want := sortOf(to)
	if v.sort != want {
		if want == SFlt && v.sort == SInt {
			return Fn("i2f", SFlt, v)
		}
		panic(unsupported(fmt.Sprintf("conversion %s to %s", typeStr(from), typeStr(to))))
	}
	return v
}

// neverNilBoxed: pointers the interpreter keeps in interface values; a nil one
// would be a node that is there and cannot be read.
func neverNilBoxed(t types.Type) bool {
	switch typeStr(t) {
	case "*core.YispNode", "*core.Schema", "*core.Lambda":
		return true
	}
	return isOrderedMap(t)
}

func isOrderedCtorRef(v *Term) bool { return false }

// neverNilElem: element types of slices and maps that are always non-nil.
func neverNilElem(t types.Type) bool {
	if s := typeStr(t); s == "*core.YispNode" || s == "core.YispOperator" {
		return true // the operator tables are computed from the initialisers (registry.go)
	}
	return false
}

// neverNilField: fields that are set by every constructor.
func neverNilField(st types.Type, f string) bool {
	switch typeStr(st) + "." + f {
	case "core.Env.Vars", "core.Lambda.Body", "core.Lambda.Clojure":
		return true
	}
	return false
}

func ifaceName(t types.Type) string {
	it, ok := types.Unalias(t).Underlying().(*types.Interface)
	if !ok || it.Empty() {
		return ""
	}
	return typeStr(t)
}

func Implements(v *Term, t types.Type) *Term { return Fn("implements$"+typeStr(t), SBool, v) }

func (ex *Exec) constTerm(v constant.Value, t types.Type) *Term {
	t = types.Unalias(t)
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if isInterface(t) {
			switch v.Kind() {
			case constant.Int:
				return box(types.Typ[types.Int], ex.constTerm(v, types.Typ[types.Int]))
			case constant.String:
				return box(types.Typ[types.String], ex.constTerm(v, types.Typ[types.String]))
			case constant.Bool:
				return box(types.Typ[types.Bool], ex.constTerm(v, types.Typ[types.Bool]))
			case constant.Float:
				return box(types.Typ[types.Float64], ex.constTerm(v, types.Typ[types.Float64]))
			}
		}
		panic(unsupported("constant of type " + typeStr(t)))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolLit(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		return StrLit(constant.StringVal(v))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(v)
		if i, ok := constant.Int64Val(iv); ok {
			return IntLit(i)
		}
		bi, _ := new(big.Int).SetString(iv.ExactString(), 10)
		return BigLit(bi)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		return FltLit(fmt.Sprint(f))
	}
	panic(unsupported("constant " + v.String()))
}

func (ex *Exec) expr(st *State, e ast.Expr) *Term {
	if tv, ok := ex.info().Types[e]; ok && tv.Value != nil {
		t := ex.subst(tv.Type)
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedNil {
			t = types.Default(t)
		}
		return ex.constTerm(tv.Value, t)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ex.expr(st, e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			return Nil()
		}
		o := ex.info().ObjectOf(e)
		switch o := o.(type) {
		case *types.Var:
			return ex.loadVar(st, o)
		case *types.Func:
			return ex.funcValue(o)
		case *types.Nil:
			return Nil()
		}
		panic(unsupported("identifier " + e.Name))
	case *ast.FuncLit:
		x := Fresh("closure", SInt)
		st.assume(Lt(IntLit(0), x))
		ex.closures[x] = &Closure{lit: e, pkg: ex.top().pkg, targs: ex.top().targs}
		return x
	case *ast.CompositeLit:
		return ex.composite(st, e)
	case *ast.UnaryExpr:
		return ex.unary(st, e)
	case *ast.BinaryExpr:
		return ex.binary(st, e)
	case *ast.StarExpr:
		// *new(T)
		if c, ok := ast.Unparen(e.X).(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				if b, ok := ex.info().Uses[id].(*types.Builtin); ok && b.Name() == "new" {
					return zero(ex.typeOf(e))
				}
			}
		}
		r := ex.expr(st, e.X)
		ex.safe(st, "nil-deref", Neq(r, IntLit(0)), e)
		v := ex.loadObj(st, ex.typeOf(e), r)
		st.assume(ex.loaded(st, v, ex.typeOf(e)))
		return v
	case *ast.SelectorExpr:
		return ex.selector(st, e)
	case *ast.IndexExpr:
		v, _ := ex.index(st, e, false)
		return v
	case *ast.SliceExpr:
		return ex.slice(st, e)
	case *ast.TypeAssertExpr:
		v := ex.expr(st, e.X)
		t := ex.typeOf(e.Type)
		ok := ex.isTypeT(st, v, t)
		ex.safe(st, "type-assert", ok, e)
		u := unbox(v, t)
		st.assume(ex.loaded(st, u, t))
		return u
	case *ast.CallExpr:
		rs := ex.call(st, e)
		if len(rs) == 0 {
			return IntLit(0)
		}
		return rs[0]
	}
	panic(unsupported(fmt.Sprintf("expression %T at %s", e, ex.posOf(e))))
}

func (ex *Exec) isTypeT(st *State, v *Term, t types.Type) *Term { return isType(v, t) }

func (ex *Exec) funcValue(f *types.Func) *Term {
	key := f.FullName()
	if fi := ex.prog.Funcs[f]; fi != nil {
		key = fi.Key
		x := Sym("fn$"+key, SInt)
		ex.closures[x] = &Closure{fi: fi, pkg: fi.Pkg}
		T.symFacts["fn$"+key] = []*Term{Lt(IntLit(0), x), Eq(Fn("fnid", SInt, x), tagOfName("fn$"+key))}
		return x
	}
	x := Sym("fn$"+key, SInt)
	T.symFacts["fn$"+key] = []*Term{Lt(IntLit(0), x), Eq(Fn("fnid", SInt, x), tagOfName("fn$"+key))}
	return x
}

func tagOfName(s string) *Term {
	if _, ok := typeTags[s]; !ok {
		typeTags[s] = int64(len(typeTags) + 1)
	}
	return IntLit(typeTags[s])
}

// multi evaluates an expression producing n values.
func (ex *Exec) multi(st *State, e ast.Expr, n int) ([]*Term, []types.Type) {
	e = ast.Unparen(e)
	switch x := e.(type) {
	case *ast.CallExpr:
		vs := ex.call(st, x)
		tt, ok := ex.typeOf(x).(*types.Tuple)
		var tys []types.Type
		if ok {
			for i := 0; i < tt.Len(); i++ {
				tys = append(tys, ex.subst(tt.At(i).Type()))
			}
		} else {
			tys = append(tys, ex.typeOf(x))
		}
		if len(vs) != n {
			panic(unsupported(fmt.Sprintf("call yields %d values, want %d at %s", len(vs), n, ex.posOf(e))))
		}
		return vs, tys
	case *ast.TypeAssertExpr:
		v := ex.expr(st, x.X)
		t := ex.subst(ex.info().TypeOf(x.Type))
		ok := isType(v, t)
		u := Ite(ok, unbox(v, t), zero(t))
		st.assume(Implies(ok, ex.loaded(st, unbox(v, t), t)))
		return []*Term{u, ok}, []types.Type{t, types.Typ[types.Bool]}
	case *ast.IndexExpr:
		v, ok := ex.index(st, x, true)
		vt := ex.typeOf(x.X).Underlying().(*types.Map).Elem()
		return []*Term{v, ok}, []types.Type{vt, types.Typ[types.Bool]}
	}
	panic(unsupported(fmt.Sprintf("multi-value %T", e)))
}

func (ex *Exec) index(st *State, e *ast.IndexExpr, comma bool) (*Term, *Term) {
	// generic instantiation used as a value
	if tv, ok := ex.info().Types[e.Index]; ok && tv.IsType() {
		panic(unsupported("generic function value"))
	}
	xt := ex.typeOf(e.X)
	x := ex.expr(st, e.X)
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		i := ex.exprAs(st, e.Index, types.Typ[types.Int])
		ex.safe(st, "index", And(Le(IntLit(0), i), Lt(i, SLen(x))), e)
		_, m := ex.memComp(st, u.Elem())
		v := Select(Select(m, SBase(x)), Add(SOff(x), i))
		st.assume(ex.loaded(st, v, u.Elem()))
		return v, nil
	case *types.Map:
		k := ex.exprAs(st, e.Index, u.Key())
		has, val, _ := ex.gomap(st, xt)
		ok := And(Neq(x, IntLit(0)), Select(Select(has, x), k))
		v := Select(Select(val, x), k)
		st.assume(Implies(ok, ex.loaded(st, v, u.Elem())))
		if neverNilElem(u.Elem()) {
			st.assume(Implies(ok, Neq(v, IntLit(0))))
		}
		return Ite(ok, v, zero(u.Elem())), ok
	case *types.Basic:
		i := ex.exprAs(st, e.Index, types.Typ[types.Int])
		ex.safe(st, "index", And(Le(IntLit(0), i), Lt(i, StrLen(x))), e)
		v := Fn("strat", SInt, x, i)
		st.assume(inRange(v, types.Typ[types.Uint8]))
		return v, nil
	}
	panic(unsupported("index of " + typeStr(xt)))
}

func (ex *Exec) slice(st *State, e *ast.SliceExpr) *Term {
	xt := ex.typeOf(e.X)
	x := ex.expr(st, e.X)
	lo := IntLit(0)
	if e.Low != nil {
		lo = ex.exprAs(st, e.Low, types.Typ[types.Int])
	}
	switch xt.Underlying().(type) {
	case *types.Slice:
		hi := SLen(x)
		lim := SLen(x)
		if e.High != nil {
			hi = ex.exprAs(st, e.High, types.Typ[types.Int])
			lim = SCap(x)
		}
		if e.Slice3 {
			mx := ex.exprAs(st, e.Max, types.Typ[types.Int])
			ex.safe(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, SCap(x))), e)
			return MkSlice(SBase(x), Add(SOff(x), lo), Sub(hi, lo), Sub(mx, lo))
		}
		ex.safe(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, lim)), e)
		return MkSlice(SBase(x), Add(SOff(x), lo), Sub(hi, lo), Sub(SCap(x), lo))
	case *types.Basic:
		hi := StrLen(x)
		if e.High != nil {
			hi = ex.exprAs(st, e.High, types.Typ[types.Int])
		}
		ex.safe(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, StrLen(x))), e)
		return Substr(x, lo, hi)
	case *types.Array:
		// value array held as opaque: b[:] of a digest
		return ex.opaqueArraySlice(st, x, xt, e)
	}
	panic(unsupported("slice of " + typeStr(xt)))
}

func (ex *Exec) opaqueArraySlice(st *State, x *Term, t types.Type, e ast.Node) *Term {
	at, ok := t.Underlying().(*types.Array)
	if !ok {
		panic(unsupported("slice of pointer to array"))
	}
	// a fresh slice whose content is a function of the array value
	r := ex.alloc(st)
	n, m := ex.memComp(st, at.Elem())
	st.heap[n] = Store(m, r, Fn("arraycontent$"+typeStr(at.Elem()), arrSort(SInt, sortOf(at.Elem())), x))
	l := IntLit(at.Len())
	return MkSlice(r, IntLit(0), l, l)
}

func (ex *Exec) selector(st *State, e *ast.SelectorExpr) *Term {
	sel := ex.info().Selections[e]
	if sel == nil {
		switch o := ex.info().ObjectOf(e.Sel).(type) {
		case *types.Var:
			return ex.loadVar(st, o)
		case *types.Func:
			return ex.funcValue(o)
		}
		panic(unsupported("selector " + e.Sel.Name))
	}
	switch sel.Kind() {
	case types.FieldVal:
		return ex.fieldGet(st, e, sel)
	case types.MethodVal:
		f := sel.Obj().(*types.Func)
		fi := ex.prog.Funcs[f]
		if fi == nil {
			panic(unsupported("method value " + f.FullName()))
		}
		recv := ex.expr(st, e.X)
		x := Fresh("bound", SInt)
		st.assume(Lt(IntLit(0), x))
		ex.closures[x] = &Closure{fi: fi, pkg: fi.Pkg, recv: recv}
		return x
	}
	panic(unsupported("selector kind"))
}

func (ex *Exec) fieldGet(st *State, e *ast.SelectorExpr, sel *types.Selection) *Term {
	t := ex.typeOf(e.X)
	x := ex.expr(st, e.X)
	for _, i := range sel.Index() {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			ex.safe(st, "nil-deref", Neq(x, IntLit(0)), e)
			bt := ex.subst(p.Elem())
			u := bt.Underlying().(*types.Struct)
			f := u.Field(i)
			if !isRepoStruct(bt) {
				_, h := ex.extField(st, bt, f)
				v := Select(h, x)
				st.assume(ex.loaded(st, v, f.Type()))
				x, t = v, f.Type()
				continue
			}
			_, h := ex.fieldComp(st, bt, f)
			v := Select(h, x)
			st.assume(ex.loaded(st, v, f.Type()))
			if neverNilField(bt, f.Name()) {
				st.assume(Neq(v, IntLit(0)))
			}
			x, t = v, ex.subst(f.Type())
			continue
		}
		u := t.Underlying().(*types.Struct)
		f := u.Field(i)
		if !isRepoStruct(t) {
			v := Fn("extfield$"+typeStr(t)+"."+f.Name(), sortOf(f.Type()), x)
			x, t = v, f.Type()
			continue
		}
		x = structGet(x, f.Name())
		t = ex.subst(f.Type())
	}
	return x
}

func (ex *Exec) composite(st *State, e *ast.CompositeLit) *Term {
	t := ex.typeOf(e)
	return ex.compositeT(st, e, t)
}

func (ex *Exec) elemExpr(st *State, e ast.Expr, t types.Type) *Term {
	if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			v := ex.compositeT(st, c, p.Elem())
			r := ex.alloc(st)
			ex.storeObj(st, p.Elem(), r, v)
			return r
		}
		return ex.compositeT(st, c, t)
	}
	return ex.exprBoxed(st, e, t)
}

// exprBoxed is exprAs for positions that store the value in a data structure:
// a nil pointer must not disappear inside an interface there.
func (ex *Exec) exprBoxed(st *State, e ast.Expr, t types.Type) *Term {
	v := ex.exprAs(st, e, t)
	return v
}

func (ex *Exec) compositeT(st *State, e *ast.CompositeLit, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !isRepoStruct(t) {
			// external struct literal: opaque, but evaluate the fields
			var args []*Term
			name := "extlit$" + typeStr(t)
			for _, el := range e.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					name += "." + kv.Key.(*ast.Ident).Name
					args = append(args, ex.expr(st, kv.Value))
				} else {
					args = append(args, ex.expr(st, el))
				}
			}
			return Fn(name, SInt, args...)
		}
		vals := map[string]*Term{}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == n {
						vals[n] = ex.elemExpr(st, kv.Value, ex.subst(u.Field(j).Type()))
					}
				}
			} else {
				vals[u.Field(i).Name()] = ex.elemExpr(st, el, ex.subst(u.Field(i).Type()))
			}
		}
		return structMk(sortOf(t), u, func(i int) *Term {
			if v := vals[u.Field(i).Name()]; v != nil {
				return v
			}
			return zero(ex.subst(u.Field(i).Type()))
		})
	case *types.Slice:
		var vals []*Term
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed slice literal"))
			}
			vals = append(vals, ex.elemExpr(st, el, ex.subst(u.Elem())))
		}
		return ex.newSlice(st, u.Elem(), vals)
	case *types.Map:
		type kv struct{ k, v *Term }
		var kvs []kv
		for _, el := range e.Elts {
			p := el.(*ast.KeyValueExpr)
			k := ex.elemExpr(st, p.Key, u.Key())
			v := ex.elemExpr(st, p.Value, u.Elem())
			kvs = append(kvs, kv{k, v})
		}
		m := ex.newMap(st, t)
		for _, p := range kvs {
			ex.mapSet(st, t, m, p.k, p.v)
		}
		return m
	case *types.Array:
		var args []*Term
		for _, el := range e.Elts {
			args = append(args, ex.elemExpr(st, el, u.Elem()))
		}
		if len(args) == 0 {
			return IntLit(0)
		}
		return Fn(fmt.Sprintf("arraylit%d$%s", len(args), typeStr(t)), SInt, args...)
	}
	panic(unsupported("composite literal " + typeStr(t)))
}

func (ex *Exec) newSlice(st *State, elem types.Type, vals []*Term) *Term {
	r := ex.alloc(st)
	n, m := ex.memComp(st, elem)
	arr := Select(m, r)
	for i, v := range vals {
		arr = Store(arr, IntLit(int64(i)), v)
	}
	st.heap[n] = Store(m, r, arr)
	l := IntLit(int64(len(vals)))
	if ex.useSeq() && len(vals) > 0 {
		q := seqEmpty()
		for _, v := range vals {
			q = seqSnoc(q, box(elem, v))
		}
		st.assume(Eq(seqFn(arr, IntLit(0), l, elem), q))
	}
	return MkSlice(r, IntLit(0), l, l)
}

func (ex *Exec) newMap(st *State, t types.Type) *Term {
	m := ex.alloc(st)
	hn, _, nn := mapCompNames(t)
	has, _, cnt := ex.gomap(st, t)
	st.heap[hn] = Store(has, m, ConstArr(arrElem(has.sort), False()))
	st.heap[nn] = Store(cnt, m, IntLit(0))
	return m
}

func (ex *Exec) unary(st *State, e *ast.UnaryExpr) *Term {
	switch e.Op {
	case token.NOT:
		return Not(ex.expr(st, e.X))
	case token.SUB:
		t := ex.typeOf(e)
		x := ex.expr(st, e.X)
		if x.sort == SFlt {
			return Fn("fneg", SFlt, x)
		}
		return ex.arith(st, token.SUB, IntLit(0), x, t, e)
	case token.ADD:
		return ex.expr(st, e.X)
	case token.XOR:
		return Fn("bitnot", SInt, ex.expr(st, e.X))
	case token.AND:
		switch x := ast.Unparen(e.X).(type) {
		case *ast.CompositeLit:
			t := ex.typeOf(x)
			v := ex.compositeT(st, x, t)
			r := ex.alloc(st)
			ex.storeObj(st, t, r, v)
			return r
		case *ast.Ident:
			o := ex.info().ObjectOf(x)
			if ex.addr[o] {
				return st.vars[o]
			}
		}
		panic(unsupported("address of expression at " + ex.posOf(e)))
	}
	panic(unsupported("unary " + e.Op.String()))
}

func (ex *Exec) binary(st *State, e *ast.BinaryExpr) *Term {
	switch e.Op {
	case token.LAND, token.LOR:
		l := ex.expr(st, e.X)
		isAnd := e.Op == token.LAND
		if isAnd && l.isFalse() {
			return l
		}
		if !isAnd && l.isTrue() {
			return l
		}
		g := l
		if !isAnd {
			g = Not(l)
		}
		if g.isTrue() {
			return ex.expr(st, e.Y)
		}
		mark := st.facts
		a := st.clone()
		a.assumeBranch(g)
		r := ex.expr(a, e.Y)
		b := st.clone()
		b.assumeBranch(Not(g))
		m := ex.merge2(mark, g, a, b)
		*st = *m
		if isAnd {
			return And(l, r)
		}
		return Or(l, r)
	case token.EQL, token.NEQ:
		xt, yt := ex.typeOf(e.X), ex.typeOf(e.Y)
		var r *Term
		if ex.info().Types[e.Y].IsNil() {
			x := ex.expr(st, e.X)
			r = isNilTerm(x)
		} else if ex.info().Types[e.X].IsNil() {
			r = isNilTerm(ex.expr(st, e.Y))
		} else {
			x := ex.expr(st, e.X)
			y := ex.expr(st, e.Y)
			r = ex.equal(st, x, xt, y, yt, e)
		}
		if e.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	t := ex.typeOf(e.X)
	x := ex.expr(st, e.X)
	yt := ex.typeOf(e.Y)
	y := ex.expr(st, e.Y)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = yt
	}
	if e.Op != token.SHL && e.Op != token.SHR {
		x = ex.conv(st, x, ex.typeOf(e.X), t)
		y = ex.conv(st, y, yt, t)
	}
	switch e.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if e.Op == token.GTR || e.Op == token.GEQ {
			x, y = y, x
		}
		strict := e.Op == token.LSS || e.Op == token.GTR
		switch x.sort {
		case SInt:
			if strict {
				return Lt(x, y)
			}
			return Le(x, y)
		case SFlt:
			if strict {
				return FLt(x, y)
			}
			return FLe(x, y)
		case SStr:
			if strict {
				return Fn("strlt", SBool, x, y)
			}
			return Not(Fn("strlt", SBool, y, x))
		}
	}
	return ex.arith(st, e.Op, x, y, t, e)
}

func FLt(x, y *Term) *Term {
	if a, b, ok := fltLits(x, y); ok {
		return BoolLit(a < b)
	}
	return Fn("flt", SBool, x, y)
}
func FEq(x, y *Term) *Term {
	if a, b, ok := fltLits(x, y); ok {
		return BoolLit(a == b)
	}
	return Fn("feq", SBool, x, y)
}
func FLe(x, y *Term) *Term {
	if a, b, ok := fltLits(x, y); ok {
		return BoolLit(a <= b)
	}
	return Fn("fle", SBool, x, y)
}

// fltLits: both operands are literals.
func fltLits(x, y *Term) (float64, float64, bool) {
	f := func(t *Term) (float64, bool) {
		for s, l := range T.fltLits {
			if l == t {
				v, err := strconv.ParseFloat(s, 64)
				return v, err == nil
			}
		}
		return 0, false
	}
	a, ok := f(x)
	if !ok {
		return 0, 0, false
	}
	b, ok := f(y)
	return a, b, ok
}

func isNilTerm(x *Term) *Term {
	switch x.sort {
	case SAny:
		return Eq(x, Nil())
	case SInt:
		return Eq(x, IntLit(0))
	case SSlice:
		return Eq(SBase(x), IntLit(0))
	}
	panic(unsupported("nil comparison of " + x.sort))
}

func (ex *Exec) equal(st *State, x *Term, xt types.Type, y *Term, yt types.Type, n ast.Node) *Term {
	xi, yi := isInterface(xt), isInterface(yt)
	if b, ok := types.Unalias(xt).(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedNil && !yi {
		x = ex.conv(st, x, xt, yt)
		xt = yt
	}
	if b, ok := types.Unalias(yt).(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedNil && !xi {
		y = ex.conv(st, y, yt, xt)
		yt = xt
	}
	if xi && !yi {
		y = ex.conv(st, y, yt, xt)
		return ifaceEq(x, y)
	}
	if yi && !xi {
		x = ex.conv(st, x, xt, yt)
		return ifaceEq(x, y)
	}
	if xi && yi {
		// comparing equal dynamic types that are not comparable panics
		un := func(v *Term) *Term { return Is("aslc", v) }
		bad := And(un(x), un(y), Eq(Acc("aslc", "aslc_t", x), Acc("aslc", "aslc_t", y)))
		ex.safe(st, "compare-uncomparable", Not(bad), n)
		// maps and functions are pointers with a map/func type tag: also uncomparable
		badp := And(Is("aptr", x), Is("aptr", y), Eq(Acc("aptr", "aptr_t", x), Acc("aptr", "aptr_t", y)), Fn("uncomparable", SBool, Acc("aptr", "aptr_t", x)))
		ex.safe(st, "compare-uncomparable-map", Not(badp), n)
		return ifaceEq(x, y)
	}
	switch x.sort {
	case SFlt:
		return FEq(x, y)
	case SInt, SBool, SStr, SAny:
		return Eq(x, y)
	}
	return Eq(x, y)
}

// ifaceEq: equality of interface values (float content compares with ==).
func ifaceEq(x, y *Term) *Term {
	if x == y && !Is("aflt", x).isFalse() {
		return Implies(Is("aflt", x), FEq(Acc("aflt", "aflt_v", x), Acc("aflt", "aflt_v", y)))
	}
	fx, fy := Is("aflt", x), Is("aflt", y)
	if fx.isFalse() || fy.isFalse() {
		return Eq(x, y)
	}
	return Ite(And(fx, fy), FEq(Acc("aflt", "aflt_v", x), Acc("aflt", "aflt_v", y)), Eq(x, y))
}

func bounded(st *State, x *Term) bool {
	// x is known to be below some other mathematical integer that fits an int
	if x.n != nil {
		return x.n.CmpAbs(big.NewInt(1<<50)) < 0
	}
	b, _ := linBase(x)
	isLen := func(t *Term) bool {
		return t.op == "app" && (t.name == "slen" || t.name == "strlen" || t.name == "scap")
	}
	if isLen(x) || b != nil && isLen(b) {
		return true
	}
	n := 0
	for f := st.facts; f != nil && n < 300; f = f.prev {
		t := f.f.t
		if t.op == "app" && (t.name == "<" || t.name == "<=") && (t.args[0] == x || t.args[0] == b) {
			return true
		}
		if t.op == "app" && t.name == "and" {
			for _, c := range t.args {
				if c.op == "app" && (c.name == "<") && (c.args[0] == x || c.args[0] == b) {
					return true
				}
			}
		}
		n++
	}
	return false
}

func (ex *Exec) arith(st *State, op token.Token, x, y *Term, t types.Type, n ast.Node) *Term {
	switch x.sort {
	case SStr:
		if op == token.ADD {
			return StrCat(x, y)
		}
	case SFlt:
		switch op {
		case token.ADD:
			return Fn("fadd", SFlt, x, y)
		case token.SUB:
			return Fn("fsub", SFlt, x, y)
		case token.MUL:
			return Fn("fmul", SFlt, x, y)
		case token.QUO:
			return Fn("fdiv", SFlt, x, y)
		}
	case SInt:
		switch op {
		case token.ADD, token.SUB:
			is64 := false
			if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt) {
				is64 = true
			}
			if x.n != nil && y.n != nil {
				if op == token.ADD {
					return Add(x, y)
				}
				return Sub(x, y)
			}
			small := func(z *Term) bool { return z.n != nil && z.n.CmpAbs(big.NewInt(1<<40)) < 0 }
			if is64 {
				if op == token.ADD {
					if small(y) && y.n.Sign() >= 0 && bounded(st, x) {
						return Add(x, y)
					}
					if small(x) && x.n.Sign() >= 0 && bounded(st, y) {
						return Add(x, y)
					}
					if isLenTerm(x) && isLenTerm(y) {
						return Add(x, y)
					}
				} else {
					if small(y) && isLenTerm(x) {
						return Sub(x, y)
					}
					if isLenTerm(x) && isLenTerm(y) {
						return Sub(x, y)
					}
				}
				if op == token.ADD {
					return WAdd(x, y)
				}
				return WSub(x, y)
			}
			nm := "wadd$"
			if op == token.SUB {
				nm = "wsub$"
			}
			r := Fn(nm+typeStr(t.Underlying()), SInt, x, y)
			st.assume(inRange(r, t))
			return r
		case token.MUL:
			if x.n != nil && y.n != nil {
				return BigLit(new(big.Int).Mul(x.n, y.n))
			}
			return WMul(x, y)
		case token.QUO, token.REM:
			ex.safe(st, "div-by-zero", Neq(y, IntLit(0)), n)
			if op == token.QUO {
				return Fn("wdiv", SInt, x, y)
			}
			return Fn("wrem", SInt, x, y)
		case token.AND:
			return Fn("bitand", SInt, x, y)
		case token.OR:
			return Fn("bitor", SInt, x, y)
		case token.XOR:
			return Fn("bitxor", SInt, x, y)
		case token.SHL:
			return Fn("shl", SInt, x, y)
		case token.SHR:
			return Fn("shr", SInt, x, y)
		}
	}
	panic(unsupported(fmt.Sprintf("operator %s on %s", op, x.sort)))
}

func isLenTerm(x *Term) bool {
	b, _ := linBase(x)
	if b == nil {
		return true
	}
	if b.op == "app" && (b.name == "slen" || b.name == "strlen") {
		return true
	}
	if b.op == "app" && b.name == "+" {
		return isLenTerm(b.args[0]) && isLenTerm(b.args[1])
	}
	return false
}

// 64-bit wrap-around arithmetic.
func WAdd(x, y *Term) *Term {
	if x.n != nil && x.n.Sign() == 0 {
		return y
	}
	if y.n != nil && y.n.Sign() == 0 {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return Fn("wadd", SInt, x, y)
}
func WSub(x, y *Term) *Term {
	if y.n != nil && y.n.Sign() == 0 {
		return x
	}
	return Fn("wsub", SInt, x, y)
}
func WMul(x, y *Term) *Term {
	if x.n != nil && x.n.IsInt64() && x.n.Int64() == 1 {
		return y
	}
	if y.n != nil && y.n.IsInt64() && y.n.Int64() == 1 {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return Fn("wmul", SInt, x, y)
}

func initAxioms() {
	x, y := BVar("x", SInt), BVar("y", SInt)
	wrap := func(s *Term) *Term {
		return Ite(Lt(BigLit(maxInt), s), T.mk("app", "-", SInt, s, BigLit(two64)), Ite(Lt(s, BigLit(minInt)), T.mk("app", "+", SInt, s, BigLit(two64)), s))
	}
	rangeBoth := And(inRange(x, tInt), inRange(y, tInt))
	for _, d := range []struct {
		n string
		s *Term
	}{{"wadd", T.mk("app", "+", SInt, x, y)}, {"wsub", T.mk("app", "-", SInt, x, y)}} {
		a := Fn(d.n, SInt, x, y)
		AddFnAxiom(d.n, Forall([]*Term{x, y}, Implies(rangeBoth, Eq(a, wrap(d.s))), []*Term{a}))
	}
	for _, d := range []string{"wadd", "wsub", "wmul", "wdiv", "wrem"} {
		a := Fn(d, SInt, x, y)
		AddFnAxiom(d, Forall([]*Term{x, y}, inRange(a, tInt), []*Term{a}))
	}
	s, t := BVar("s", SStr), BVar("t", SStr)
	sl := Fn("strlen", SInt, s)
	AddFnAxiom("strlen", Forall([]*Term{s}, And(Le(IntLit(0), sl), Le(sl, maxLen), Eq(Eq(sl, IntLit(0)), Eq(s, StrLit("")))), []*Term{sl}))
	sc := Fn("strcat", SStr, s, t)
	AddFnAxiom("strcat", Forall([]*Term{s, t}, Eq(Fn("strlen", SInt, sc), T.mk("app", "+", SInt, Fn("strlen", SInt, s), Fn("strlen", SInt, t))), []*Term{Fn("strlen", SInt, sc)}))
	ss := Fn("substr", SStr, s, x, y)
	AddFnAxiom("substr", Forall([]*Term{s, x, y}, Implies(And(Le(IntLit(0), x), Le(x, y), Le(y, Fn("strlen", SInt, s))), Eq(Fn("strlen", SInt, ss), T.mk("app", "-", SInt, y, x))), []*Term{ss}))
	AddFnAxiom("substr", Forall([]*Term{s}, Eq(Fn("substr", SStr, s, IntLit(0), Fn("strlen", SInt, s)), s), []*Term{Fn("substr", SStr, s, IntLit(0), Fn("strlen", SInt, s))}))
	// orders
	u := BVar("u", SStr)
	lt := func(a, b *Term) *Term { return Fn("strlt", SBool, a, b) }
	AddFnAxiom("strlt", Forall([]*Term{s}, Not(lt(s, s)), []*Term{lt(s, s)}))
	AddFnAxiom("strlt", Forall([]*Term{s, t}, Implies(Not(lt(s, t)), Or(Eq(s, t), lt(t, s))), []*Term{lt(s, t)}))
	AddFnAxiom("strlt", Forall([]*Term{s, t, u}, Implies(And(lt(s, t), lt(t, u)), lt(s, u)), []*Term{lt(s, t), lt(t, u)}))
	// IEEE comparisons: exactly one of <, ==, > unless NaN is involved
	f, g := BVar("f", SFlt), BVar("g", SFlt)
	nan := func(a *Term) *Term { return Fn("isnan", SBool, a) }
	AddFnAxiom("flt", Forall([]*Term{f, g}, Implies(FLt(f, g), And(Not(nan(f)), Not(nan(g)), Not(FLt(g, f)), Not(FEq(f, g)))), []*Term{FLt(f, g)}))
	AddFnAxiom("flt", Forall([]*Term{f, g}, Implies(And(Not(nan(f)), Not(nan(g)), Not(FLt(f, g)), Not(FEq(f, g))), FLt(g, f)), []*Term{FLt(f, g), FEq(f, g)}))
	AddFnAxiom("feq", Forall([]*Term{f, g}, Implies(FEq(f, g), And(FEq(g, f), Not(nan(f)), Not(nan(g)))), []*Term{FEq(f, g)}))
	AddFnAxiom("feq", Forall([]*Term{f}, Eq(FEq(f, f), Not(nan(f))), []*Term{FEq(f, f)}))
	le := Fn("fle", SBool, f, g)
	AddFnAxiom("fle", Forall([]*Term{f, g}, Eq(le, Or(FLt(f, g), FEq(f, g))), []*Term{le}))
	AddFnAxiom("i2f", Forall([]*Term{x}, Not(nan(Fn("i2f", SFlt, x))), []*Term{Fn("i2f", SFlt, x)}))
}

var tInt = types.Typ[types.Int]
