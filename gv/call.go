package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (ex *Exec) calleeFunc(c *ast.CallExpr) *types.Func {
	f := ast.Unparen(c.Fun)
	switch x := f.(type) {
	case *ast.IndexExpr:
		f = x.X
	case *ast.IndexListExpr:
		f = x.X
	}
	switch x := ast.Unparen(f).(type) {
	case *ast.Ident:
		fn, _ := ex.info().Uses[x].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		if sel := ex.info().Selections[x]; sel != nil {
			fn, _ := sel.Obj().(*types.Func)
			return fn
		}
		fn, _ := ex.info().Uses[x.Sel].(*types.Func)
		return fn
	}
	return nil
}

func (ex *Exec) call(st *State, c *ast.CallExpr) []*Term {
	// conversion
	if tv, ok := ex.info().Types[c.Fun]; ok && tv.IsType() {
		return []*Term{ex.convert(st, c)}
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := ex.info().Uses[id].(*types.Builtin); ok {
			return ex.builtin(st, c, b.Name())
		}
	}
	f := ex.calleeFunc(c)
	if f == nil {
		return ex.dynCall(st, c)
	}
	sig := f.Type().(*types.Signature)
	// receiver
	var recv *Term
	var recvT types.Type
	var sel *ast.SelectorExpr
	var writeBack func(st *State)
	if sig.Recv() != nil {
		fun := ast.Unparen(c.Fun)
		sel = fun.(*ast.SelectorExpr)
		recv, recvT, writeBack = ex.receiver(st, sel, sig)
	}
	targs := ex.typeArgs(c, f)
	asig := sig
	if tt, ok := ex.info().Types[c.Fun]; ok {
		if s, ok := tt.Type.(*types.Signature); ok {
			asig = s
		}
	}
	var rs []*Term
	if ev := ex.eventKind(f, recvT); ev != "" {
		args := ex.args(st, c, asig)
		rs = ex.event(st, ev, recv, args, asig, c)
	} else if isInterfaceMethod(f) {
		args := ex.args(st, c, asig)
		rs = ex.externCall(st, c, f, recv, recvT, args, asig)
	} else if fi := ex.prog.Funcs[f.Origin()]; fi != nil {
		args := ex.args(st, c, asig)
		if recv != nil {
			args = append([]*Term{recv}, args...)
		}
		if ct := ex.book.callContract(fi); ct != nil && !ex.concrete {
			rs = ex.applyContract(st, ct, fi, args, c)
		} else {
			rs = ex.inline(st, fi.Key, fi.Pkg, fi.Decl, nil, args, targs, c)
		}
	} else if isStdlibNoEval(f) {
		rs = ex.externSpecial(st, c, f, recv, recvT, asig)
	} else {
		args := ex.args(st, c, asig)
		rs = ex.externCall(st, c, f, recv, recvT, args, asig)
	}
	if writeBack != nil {
		writeBack(st)
	}
	return rs
}

func isInterfaceMethod(f *types.Func) bool {
	s := f.Type().(*types.Signature)
	return s.Recv() != nil && isInterface(s.Recv().Type())
}

func (ex *Exec) typeArgs(c *ast.CallExpr, f *types.Func) map[*types.TypeParam]types.Type {
	var id *ast.Ident
	fun := ast.Unparen(c.Fun)
	switch x := fun.(type) {
	case *ast.IndexExpr:
		fun = x.X
	case *ast.IndexListExpr:
		fun = x.X
	}
	switch x := ast.Unparen(fun).(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	}
	if id == nil {
		return nil
	}
	inst, ok := ex.info().Instances[id]
	if !ok {
		return nil
	}
	m := map[*types.TypeParam]types.Type{}
	tp := f.Origin().Type().(*types.Signature).TypeParams()
	for i := 0; i < tp.Len() && i < inst.TypeArgs.Len(); i++ {
		m[tp.At(i)] = ex.subst(inst.TypeArgs.At(i))
	}
	return m
}

// receiver evaluates the receiver operand, taking or dropping addresses.
func (ex *Exec) receiver(st *State, sel *ast.SelectorExpr, sig *types.Signature) (*Term, types.Type, func(*State)) {
	s := ex.info().Selections[sel]
	xt := ex.typeOf(sel.X)
	_, wantPtr := types.Unalias(sig.Recv().Type()).Underlying().(*types.Pointer)
	if isInterface(sig.Recv().Type()) {
		wantPtr = false
	}
	_, havePtr := xt.Underlying().(*types.Pointer)
	if len(s.Index()) > 1 {
		// promoted through embedded fields
		x := ex.expr(st, sel.X)
		t := xt
		for _, i := range s.Index()[:len(s.Index())-1] {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				ex.safe(st, "nil-deref", Neq(x, IntLit(0)), sel)
				bt := p.Elem()
				f := bt.Underlying().(*types.Struct).Field(i)
				if !isRepoStruct(bt) {
					_, h := ex.extField(st, bt, f)
					x, t = Select(h, x), f.Type()
					continue
				}
				_, h := ex.fieldComp(st, bt, f)
				x, t = Select(h, x), f.Type()
			} else {
				f := t.Underlying().(*types.Struct).Field(i)
				if !isRepoStruct(t) {
					x, t = Fn("extfield$"+typeStr(t)+"."+f.Name(), sortOf(f.Type()), x), f.Type()
					continue
				}
				x, t = structGet(x, f.Name()), f.Type()
			}
		}
		return x, t, nil
	}
	if havePtr && !wantPtr && !isInterface(sig.Recv().Type()) {
		p := ex.expr(st, sel.X)
		ex.safe(st, "nil-deref", Neq(p, IntLit(0)), sel)
		bt := xt.Underlying().(*types.Pointer).Elem()
		return ex.loadObj(st, bt, p), bt, nil
	}
	if !havePtr && wantPtr {
		// &x
		if id, ok := ast.Unparen(sel.X).(*ast.Ident); ok {
			o := ex.info().ObjectOf(id)
			if ex.addr[o] {
				return st.vars[o], types.NewPointer(xt), nil
			}
		}
		v := ex.expr(st, sel.X)
		if sortOf(xt) == SInt { // opaque external struct: identity stands for the object
			return v, types.NewPointer(xt), nil
		}
		r := ex.alloc(st)
		ex.storeObj(st, xt, r, v)
		before := map[string]*Term{}
		for k, h := range st.heap {
			before[k] = h
		}
		return r, types.NewPointer(xt), func(st2 *State) {
			changed := false
			if u, ok := xt.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					n, h := ex.fieldComp(st2, xt, u.Field(i))
					if h != before[n] {
						changed = true
					}
				}
			}
			if changed {
				ex.store(st2, sel.X, ex.loadObj(st2, xt, r))
			}
		}
	}
	return ex.expr(st, sel.X), xt, nil
}

// args evaluates call arguments, packing variadic ones into a slice.
func (ex *Exec) args(st *State, c *ast.CallExpr, sig *types.Signature) []*Term {
	var out []*Term
	np := sig.Params().Len()
	// f(g()) with multiple results
	if len(c.Args) == 1 && np > 1 {
		if cc, ok := ast.Unparen(c.Args[0]).(*ast.CallExpr); ok {
			if _, isT := ex.typeOf(cc).(*types.Tuple); isT {
				vs, tys := ex.multi(st, cc, np)
				for i := range vs {
					out = append(out, ex.conv(st, vs[i], tys[i], ex.subst(sig.Params().At(i).Type())))
				}
				return out
			}
		}
	}
	for i := 0; i < np; i++ {
		pt := ex.subst(sig.Params().At(i).Type())
		if sig.Variadic() && i == np-1 && c.Ellipsis == token.NoPos {
			et := pt.Underlying().(*types.Slice).Elem()
			var vals []*Term
			for _, a := range c.Args[min(i, len(c.Args)):] {
				vals = append(vals, ex.exprAs(st, a, et))
			}
			if len(vals) == 0 {
				out = append(out, NilSlice())
			} else {
				out = append(out, ex.newSlice(st, et, vals))
			}
			break
		}
		out = append(out, ex.exprAs(st, c.Args[i], pt))
	}
	return out
}

func (ex *Exec) convert(st *State, c *ast.CallExpr) *Term {
	to := ex.typeOf(c.Fun)
	from := ex.typeOf(c.Args[0])
	x := ex.exprAs(st, c.Args[0], from)
	return ex.convertT(st, x, from, to)
}

func (ex *Exec) convertT(st *State, x *Term, from, to types.Type) *Term {
	if isInterface(to) {
		return ex.conv(st, x, from, to)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		if sf, s2 := sortOf(from), sortOf(to); sf != s2 {
			panic(unsupported("struct conversion"))
		}
		return x
	}
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		if x.n != nil {
			return x
		}
		lo, hi := intRange(to)
		flo, fhi := intRange(from)
		if lo != nil && flo != nil && lo.Cmp(flo) <= 0 && hi.Cmp(fhi) >= 0 {
			return x
		}
		if isLenTerm(x) && hi != nil && hi.IsInt64() && hi.Int64() > 1<<50 {
			return x
		}
		if _, ok := from.Underlying().(*types.Basic); !ok {
			return x
		}
		r := Fn("conv$"+typeStr(to.Underlying()), SInt, x)
		st.assume(inRange(r, to))
		if lo != nil {
			st.assume(Implies(And(Le(BigLit(lo), x), Le(x, BigLit(hi))), Eq(r, x)))
		}
		return r
	case fs == SInt && ts == SFlt:
		return Fn("i2f", SFlt, x)
	case fs == SFlt && ts == SInt:
		r := Fn("f2i", SInt, x)
		st.assume(inRange(r, to))
		return r
	case fs == SFlt && ts == SFlt:
		if typeStr(to.Underlying()) == typeStr(from.Underlying()) || typeStr(to.Underlying()) == "float64" {
			return x
		}
		return Fn("f32", SFlt, x)
	case fs == SSlice && ts == SStr: // string(bytes)
		el := from.Underlying().(*types.Slice).Elem()
		_, m := ex.memComp(st, el)
		return Fn("bytes2str", SStr, Select(m, SBase(x)), SOff(x), SLen(x))
	case fs == SStr && ts == SSlice:
		el := to.Underlying().(*types.Slice).Elem()
		r := ex.alloc(st)
		n, m := ex.memComp(st, el)
		arr := Fn("str2bytes$"+typeStr(el), arrSort(SInt, sortOf(el)), x)
		st.heap[n] = Store(m, r, arr)
		l := StrLen(x)
		if typeStr(el) != "byte" && typeStr(el) != "uint8" {
			l = Fn("runecount", SInt, x)
			st.assume(And(Le(IntLit(0), l), Le(l, StrLen(x))))
		}
		st.assume(Eq(Fn("bytes2str", SStr, arr, IntLit(0), l), x))
		return MkSlice(r, IntLit(0), l, l)
	case fs == SInt && ts == SStr:
		return Fn("rune2str", SStr, x)
	case fs == SSlice && ts == SSlice:
		return x
	}
	panic(unsupported("conversion " + typeStr(from) + " -> " + typeStr(to)))
}

func (ex *Exec) builtin(st *State, c *ast.CallExpr, name string) []*Term {
	one := func(t *Term) []*Term { return []*Term{t} }
	switch name {
	case "len", "cap":
		t := ex.typeOf(c.Args[0])
		x := ex.expr(st, c.Args[0])
		switch t.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return one(SCap(x))
			}
			return one(SLen(x))
		case *types.Map:
			_, _, n := ex.gomap(st, t)
			r := Ite(Eq(x, IntLit(0)), IntLit(0), Select(n, x))
			st.assume(And(Le(IntLit(0), r), Le(r, maxLen)))
			return one(r)
		case *types.Basic:
			l := StrLen(x)
			return one(l)
		}
		panic(unsupported("len of " + typeStr(t)))
	case "append":
		return one(ex.appendCall(st, c))
	case "make":
		t := ex.typeOf(c)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := ex.exprAs(st, c.Args[1], types.Typ[types.Int])
			cp := n
			if len(c.Args) > 2 {
				cp = ex.exprAs(st, c.Args[2], types.Typ[types.Int])
				ex.safe(st, "make-size", And(Le(IntLit(0), n), Le(n, cp)), c)
			} else {
				ex.safe(st, "make-size", Le(IntLit(0), n), c)
			}
			st.assume(Le(cp, maxLen)) // larger requests exhaust memory before anything else
			r := ex.alloc(st)
			nm, m := ex.memComp(st, u.Elem())
			st.heap[nm] = Store(m, r, ConstArr(arrElem(m.sort), zero(u.Elem())))
			return one(MkSlice(r, IntLit(0), n, cp))
		case *types.Map:
			for _, a := range c.Args[1:] {
				ex.expr(st, a)
			}
			return one(ex.newMap(st, t))
		}
		panic(unsupported("make " + typeStr(t)))
	case "new":
		t := ex.typeOf(c.Args[0])
		r := ex.alloc(st)
		ex.storeObj(st, t, r, zero(t))
		return one(r)
	case "copy":
		return one(ex.copyCall(st, c))
	case "delete":
		t := ex.typeOf(c.Args[0])
		m := ex.expr(st, c.Args[0])
		u := t.Underlying().(*types.Map)
		k := ex.exprAs(st, c.Args[1], u.Key())
		has, _, cnt := ex.gomap(st, t)
		hn, _, nn := mapCompNames(t)
		had := Select(Select(has, m), k)
		st.heap[nn] = Store(cnt, m, Ite(had, Sub(Select(cnt, m), IntLit(1)), Select(cnt, m)))
		st.heap[hn] = Store(has, m, Store(Select(has, m), k, False()))
		return nil
	case "panic":
		for _, a := range c.Args {
			ex.expr(st, a)
		}
		ex.safe(st, "explicit-panic", False(), c)
		st.facts = st.facts.add(Fact{t: False()})
		return nil
	case "min", "max":
		t := ex.typeOf(c)
		acc := ex.exprAs(st, c.Args[0], t)
		for _, a := range c.Args[1:] {
			v := ex.exprAs(st, a, t)
			if acc.sort != SInt {
				panic(unsupported("min/max of non-integers"))
			}
			if name == "min" {
				acc = Ite(Le(acc, v), acc, v)
			} else {
				acc = Ite(Le(v, acc), acc, v)
			}
		}
		return one(acc)
	case "print", "println":
		for _, a := range c.Args {
			ex.expr(st, a)
		}
		return nil
	}
	panic(unsupported("builtin " + name))
}

func (ex *Exec) appendCall(st *State, c *ast.CallExpr) *Term {
	t := ex.typeOf(c)
	et := t.Underlying().(*types.Slice).Elem()
	s := ex.exprAs(st, c.Args[0], t)
	if c.Ellipsis != token.NoPos {
		yt := ex.typeOf(c.Args[1])
		if sortOf(yt) == SStr {
			panic(unsupported("append string..."))
		}
		y := ex.exprAs(st, c.Args[1], yt)
		return ex.appendMany(st, et, s, y)
	}
	for _, a := range c.Args[1:] {
		v := ex.exprAs(st, a, et)
		s = ex.append1(st, et, s, v)
	}
	return s
}

func (ex *Exec) append1(st *State, et types.Type, s, v *Term) *Term {
	nm, m := ex.memComp(st, et)
	before := ex.seqOf(st, s, et, SLen(s))
	fits := Lt(SLen(s), SCap(s))
	nb := Ite(fits, SBase(s), st.next)
	st.heap[nm] = Store(m, nb, Store(Select(m, SBase(s)), Add(SOff(s), SLen(s)), v))
	nl := Add(SLen(s), IntLit(1))
	nc := Fn("growcap", SInt, SCap(s), nl)
	st.assume(And(Le(nl, nc), Le(nc, maxLen)))
	st.next = Add(st.next, IntLit(1))
	r := MkSlice(nb, SOff(s), nl, Ite(fits, SCap(s), nc))
	ex.seqAppended(st, et, before, r, v)
	return r
}

func (ex *Exec) appendMany(st *State, et types.Type, s, y *Term) *Term {
	// literal number of elements: repeat
	if n := SLen(y); n.n != nil && n.n.IsInt64() && n.n.Int64() <= 8 {
		_, m := ex.memComp(st, et)
		var vals []*Term
		for i := int64(0); i < n.n.Int64(); i++ {
			vals = append(vals, Select(Select(m, SBase(y)), Add(SOff(y), IntLit(i))))
		}
		for _, v := range vals {
			s = ex.append1(st, et, s, v)
		}
		return s
	}
	nm, m := ex.memComp(st, et)
	nl := Add(SLen(s), SLen(y))
	fits := Le(nl, SCap(s))
	keep := Eq(SLen(y), IntLit(0))
	nb := Ite(Or(fits, keep), SBase(s), st.next)
	arr := Fresh("appended", arrElem(m.sort))
	i := BVar("i", SInt)
	src := Select(m, SBase(s))
	ysrc := Select(m, SBase(y))
	at := Select(arr, i)
	lo := Add(SOff(s), SLen(s))
	st.assume(Forall([]*Term{i}, Eq(at, Ite(And(Le(lo, i), Lt(i, Add(SOff(s), nl))), Select(ysrc, Add(SOff(y), Sub(i, lo))), Select(src, i))), []*Term{at}))
	st.heap[nm] = Ite(keep, m, Store(m, nb, arr))
	nc := Fn("growcap", SInt, SCap(s), nl)
	st.assume(And(Le(nl, nc), Le(nc, maxLen)))
	st.next = Add(st.next, IntLit(1))
	r := MkSlice(nb, SOff(s), nl, Ite(Or(fits, keep), SCap(s), nc))
	if ex.useSeq() {
		cat := seqCat(seqFn(src, SOff(s), SLen(s), et), seqFn(ysrc, SOff(y), SLen(y), et))
		st.assume(Eq(ex.seqOf(st, r, et, nl), cat))
	}
	return r
}

func (ex *Exec) copyCall(st *State, c *ast.CallExpr) *Term {
	dt := ex.typeOf(c.Args[0])
	et := dt.Underlying().(*types.Slice).Elem()
	d := ex.expr(st, c.Args[0])
	if sortOf(ex.typeOf(c.Args[1])) == SStr {
		panic(unsupported("copy from string"))
	}
	s := ex.expr(st, c.Args[1])
	nm, m := ex.memComp(st, et)
	n := Ite(Le(SLen(d), SLen(s)), SLen(d), SLen(s))
	arr := Fresh("copied", arrElem(m.sort))
	i := BVar("i", SInt)
	at := Select(arr, i)
	st.assume(Forall([]*Term{i}, Eq(at, Ite(And(Le(SOff(d), i), Lt(i, Add(SOff(d), n))), Select(Select(m, SBase(s)), Add(SOff(s), Sub(i, SOff(d)))), Select(Select(m, SBase(d)), i))), []*Term{at}))
	st.heap[nm] = Ite(Eq(n, IntLit(0)), m, Store(m, SBase(d), arr))
	return n
}

// ---------------------------------------------------------------- inlining

func (ex *Exec) inline(st *State, key string, pkg *Pkg, decl *ast.FuncDecl, lit *ast.FuncLit, args []*Term, targs map[*types.TypeParam]types.Type, site ast.Node) []*Term {
	for _, f := range ex.frames {
		if f.key == key && decl != nil {
			panic(unsupported("recursive call of " + key + " needs a contract"))
		}
	}
	if len(ex.frames) > 24 {
		panic(unsupported("inlining too deep at " + key))
	}
	ex.inlined[key] = true
	var ftype *ast.FuncType
	var body *ast.BlockStmt
	var sig *types.Signature
	if decl != nil {
		ftype, body = decl.Type, decl.Body
		sig = pkg.Info.Defs[decl.Name].Type().(*types.Signature)
		ex.findAddr(pkg, decl)
	} else {
		ftype, body = lit.Type, lit.Body
		sig = pkg.Info.TypeOf(lit).(*types.Signature)
		ex.findAddr(pkg, lit)
	}
	fr := &Frame{key: key, pkg: pkg, sig: sig, targs: targs, callPos: site}
	ex.frames = append(ex.frames, fr)
	mark := st.facts
	s := st.clone()
	ex.bindParams(s, fr, decl, ftype, args)
	out := ex.block(s, body.List)
	if out != nil && !ex.dead(out) {
		var res []*Term
		for _, o := range fr.results {
			res = append(res, ex.loadVar(out, o))
		}
		if sig.Results().Len() == 0 || len(res) > 0 {
			fr.exits = append(fr.exits, &Exit{st: out, kind: "return", res: res})
		}
	}
	var live []*Exit
	for _, e := range fr.exits {
		if e.kind != "return" {
			panic(unsupported("stray " + e.kind))
		}
		if !ex.dead(e.st) {
			live = append(live, e)
		}
	}
	m, res := ex.mergeExits(mark, live)
	ex.frames = ex.frames[:len(ex.frames)-1]
	if m == nil {
		st.facts = st.facts.add(Fact{t: False()})
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, zero(ex.substWith(sig.Results().At(i).Type(), targs)))
		}
		return res
	}
	for o := range m.vars {
		if _, ok := st.vars[o]; !ok {
			delete(m.vars, o)
		}
	}
	*st = *m
	return res
}

func (ex *Exec) substWith(t types.Type, targs map[*types.TypeParam]types.Type) types.Type {
	ex.frames = append(ex.frames, &Frame{targs: targs})
	defer func() { ex.frames = ex.frames[:len(ex.frames)-1] }()
	return ex.subst(t)
}

func (ex *Exec) bindParams(s *State, fr *Frame, decl *ast.FuncDecl, ftype *ast.FuncType, args []*Term) {
	i := 0
	bind := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			if len(f.Names) == 0 {
				i++
				continue
			}
			for _, id := range f.Names {
				if o := fr.pkg.Info.Defs[id]; o != nil && id.Name != "_" {
					ex.declare(s, o, args[i])
				}
				i++
			}
		}
	}
	if decl != nil {
		bind(decl.Recv)
	}
	bind(ftype.Params)
	if ftype.Results != nil {
		for _, f := range ftype.Results.List {
			for _, id := range f.Names {
				if o := fr.pkg.Info.Defs[id]; o != nil {
					fr.results = append(fr.results, o)
					ex.declare(s, o, zero(ex.subst(o.Type())))
				}
			}
		}
	}
}

// findAddr marks local variables whose address is taken.
func (ex *Exec) findAddr(pkg *Pkg, root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
					if o := pkg.Info.ObjectOf(id); o != nil {
						ex.addr[o] = true
					}
				}
			}
		case *ast.SelectorExpr:
			if s := pkg.Info.Selections[n]; s != nil && s.Kind() == types.MethodVal && len(s.Index()) == 1 {
				f := s.Obj().(*types.Func)
				r := f.Type().(*types.Signature).Recv()
				if r == nil {
					return true
				}
				_, wantPtr := types.Unalias(r.Type()).(*types.Pointer)
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && wantPtr {
					if v, ok := pkg.Info.ObjectOf(id).(*types.Var); ok {
						if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
							ex.addr[v] = true
						}
					}
				}
			}
		}
		return true
	})
}

func (ex *Exec) dynCall(st *State, c *ast.CallExpr) []*Term {
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
		sig := ex.typeOf(lit).(*types.Signature)
		args := ex.args(st, c, sig)
		return ex.inline(st, "func literal", ex.top().pkg, nil, lit, args, ex.top().targs, c)
	}
	sig, ok := ex.typeOf(c.Fun).Underlying().(*types.Signature)
	if !ok {
		panic(unsupported("call of " + typeStr(ex.typeOf(c.Fun))))
	}
	fn := ex.expr(st, c.Fun)
	args := ex.args(st, c, sig)
	return ex.callValue(st, fn, args, sig, ex.typeOf(c.Fun), c)
}

func (ex *Exec) callValue(st *State, fn *Term, args []*Term, sig *types.Signature, ft types.Type, c ast.Node) []*Term {
	if cl := ex.closures[fn]; cl != nil {
		if cl.lit != nil {
			return ex.inline(st, "func literal", cl.pkg, nil, cl.lit, args, cl.targs, c)
		}
		if cl.recv != nil {
			args = append([]*Term{cl.recv}, args...)
		}
		if isOperatorSig(sig) && !ex.concrete {
			// an operator: its own contract is checked separately
			return ex.event(st, "Op", fn, args, sig, c)
		}
		if ct := ex.book.callContract(cl.fi); ct != nil {
			return ex.applyContract(st, ct, cl.fi, args, c)
		}
		return ex.inline(st, cl.fi.Key, cl.pkg, cl.fi.Decl, nil, args, cl.targs, c)
	}
	if isOperatorSig(sig) {
		ex.safe(st, "nil-func", Neq(fn, IntLit(0)), c)
		return ex.event(st, "Op", fn, args, sig, c)
	}
	if fn.op == "app" && fn.name == "ite" {
		mark := st.facts
		a, b := st.clone(), st.clone()
		a.assumeBranch(fn.args[0])
		b.assumeBranch(Not(fn.args[0]))
		ra := ex.callValue(a, fn.args[1], args, sig, ft, c)
		rb := ex.callValue(b, fn.args[2], args, sig, ft, c)
		m := ex.merge2(mark, fn.args[0], a, b)
		var rs []*Term
		for i := range ra {
			rs = append(rs, Ite(fn.args[0], ra[i], rb[i]))
		}
		*st = *m
		return rs
	}
	panic(unsupported("call of unknown function value at " + ex.posOf(c)))
}

func isOperatorSig(sig *types.Signature) bool {
	return sig.Params().Len() == 4 && sig.Results().Len() == 2 && strings.HasSuffix(typeStr(sig.Params().At(3).Type()), "core.Engine")
}

// ---------------------------------------------------------------- events

// eventKind: calls into the evaluator (or the outside world) that are recorded
// on the ghost trace instead of being looked into.
func (ex *Exec) eventKind(f *types.Func, recvT types.Type) string {
	s := f.Type().(*types.Signature)
	if s.Recv() != nil {
		rt := typeStr(s.Recv().Type())
		if rt == "core.Engine" || rt == "*engine.engine" {
			switch f.Name() {
			case "Apply", "Eval", "Run", "Render":
				return f.Name()
			}
		}
		if f.FullName() == "(*os/exec.Cmd).Run" || f.FullName() == "(*os/exec.Cmd).Output" || f.FullName() == "(*os/exec.Cmd).Start" || f.FullName() == "(*os/exec.Cmd).CombinedOutput" {
			return "Process"
		}
	}
	if fi := ex.prog.Funcs[f.Origin()]; fi != nil {
		if d := ex.book.events[fi.Key]; d != nil && (fi != ex.root || len(ex.frames) > 0) && !ex.concrete {
			d.fn = f
			return d.kind
		}
	}
	return ""
}

func eventCode(kind string) *Term { return tagOfName("event$" + kind) }

func (ex *Exec) event(st *State, kind string, recv *Term, args []*Term, sig *types.Signature, c ast.Node) []*Term {
	if ex.contract != nil && ex.book.quietKind(kind) {
		for _, u := range ex.contract.Unrecorded {
			if u == kind {
				old := st.next
				st.next = Fresh("next", SInt)
				st.assume(Le(old, st.next))
				var rs []*Term
				for i := 0; i < sig.Results().Len(); i++ {
					t := sig.Results().At(i).Type()
					r := Fresh("res", sortOf(t))
					st.assume(ex.loaded(st, r, t))
					rs = append(rs, r)
				}
				return rs
			}
		}
	}
	n := st.tn
	kc := ex.comp(st, "T:kind", arrSort(SInt, SInt), tInt)
	st.heap["T:kind"] = Store(kc, n, eventCode(kind))
	put := func(name string, v *Term, t types.Type) {
		h := ex.comp(st, name, arrSort(SInt, v.sort), t)
		st.heap[name] = Store(h, n, v)
	}
	if recv != nil {
		if recv.sort == SInt && ex.evRecvSort(kind) == SAny {
			recv = box(ex.book.typ("*engine.engine"), recv)
		}
		put("T:"+kind+".recv", recv, tInt)
	}
	for i, a := range args {
		pt := sig.Params().At(i).Type()
		put(fmt.Sprintf("T:%s.%d", kind, i), a, pt)
		if typeStr(pt) == "*core.Env" {
			ex.snapEnv(st, fmt.Sprintf("T:%s.%d", kind, i), a, put)
		}
		if sl, ok := pt.Underlying().(*types.Slice); ok {
			_, m := ex.memComp(st, sl.Elem())
			put(fmt.Sprintf("T:%s.%d.content", kind, i), Select(m, SBase(a)), sl.Elem())
		}
	}
	if kind == "Process" {
		anyT := types.Universe.Lookup("any").Type()
		cm := ex.comp(st, "X:exec.Cmd.Stdin", arrSort(SInt, SAny), anyT)
		put("T:Process.stdin", Select(cm, recv), anyT)
	}
	st.tn = Add(n, IntLit(1))
	old := st.next
	st.next = Fresh("next", SInt)
	st.assume(Le(old, st.next))
	// scopes may gain or change bindings during the callback
	if kind != "Process" && !ex.book.quietKind(kind) {
		ex.havocEnvs(st)
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fn(fmt.Sprintf("evres%d$%s", i, sortOf(t)), sortOf(t), n)
		st.assume(ex.loaded(st, r, t))
		rs = append(rs, r)
	}
	if len(rs) == 2 && rs[0].sort == SInt && rs[1].sort == SBool {
		st.assume(Implies(rs[1], Lt(IntLit(0), rs[0])))
	} else if len(rs) == 2 && rs[0].sort == SInt && ex.valueOrError(kind) {
		st.assume(Implies(Eq(rs[1], Nil()), Lt(IntLit(0), rs[0])))
		// value or error, exactly one: an obligation of every operator and of the evaluator
		st.assume(Implies(Neq(rs[1], Nil()), Eq(rs[0], IntLit(0))))
		if ax := ex.book.nodeAxiom(ex, st, rs[0]); ax != nil {
			st.assume(Implies(Eq(rs[1], Nil()), ax))
		}
	}
	return rs
}

// valueOrError: the function behind the event is known to return a value or an
// error and never both. That is an obligation of every operator and of every
// function with a contract that does not say "maybenil".
func (ex *Exec) valueOrError(kind string) bool {
	for key, d := range ex.book.events {
		if d.kind == kind {
			ct := ex.book.funcs[key]
			return ct != nil && !ct.MaybeNil
		}
	}
	return true
}

func (ex *Exec) havocEnvs(st *State) {
	for _, p := range []string{"MH:", "MV:", "MN:"} {
		n := p + "string,*core.YispNode"
		if _, ok := compSort[n]; !ok {
			mt := types.NewMap(types.Typ[types.String], types.NewPointer(ex.prog.Pkgs[modPath+"/core"].Types.Scope().Lookup("YispNode").Type()))
			ex.gomap(st, mt)
		}
		h := ex.comp(st, n, compSort[n], compElem[n])
		bn := "B:" + n
		compSort[bn], compElem[bn] = compSort[n], compElem[n]
		// scopes that existed at entry must not have been changed by this
		// function since the evaluator last ran
		base, ok := st.heap[bn]
		if !ok {
			base = ex.comp(ex.entryState(), n, compSort[n], compElem[n])
		}
		if h != base && !ex.modifies(n) {
			r := bvarNamed("r?fr", SInt)
			ex.oblige(st, "frame", n, Forall([]*Term{r}, Implies(And(Lt(IntLit(0), r), Lt(r, ex.entryNext), ex.allowed(nil, st, n, r)), Eq(Select(h, r), Select(base, r))), []*Term{Select(h, r)}), []string{"C16", "C25"}, nil)
		}
		t := Fresh("H:"+n, compSort[n])
		st.heap[n] = t
		st.heap[bn] = t
		if v := ex.validComp(n, t, st.next); !v.isTrue() {
			st.assume(v)
		}
	}
}

func (ex *Exec) modifies(n string) bool {
	if ex.contract != nil {
		for _, m := range ex.contract.Modifies {
			if m == n {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) entryState() *State {
	if ex.entry == nil {
		ex.entry = &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, next: ex.entryNext}
	}
	return ex.entry
}

// snapEnv records what a scope held when it was handed to the evaluator.
func (ex *Exec) snapEnv(st *State, name string, env *Term, put func(string, *Term, types.Type)) {
	core := ex.prog.Pkgs[modPath+"/core"].Types.Scope()
	et := core.Lookup("Env").Type()
	u := et.Underlying().(*types.Struct)
	mt := types.NewMap(types.Typ[types.String], types.NewPointer(core.Lookup("YispNode").Type()))
	has, val, _ := ex.gomap(st, mt)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		_, h := ex.fieldComp(st, et, f)
		x := Select(h, env)
		put(name+"."+f.Name(), x, f.Type())
		if f.Name() == "Vars" {
			put(name+".has", Select(has, x), types.Typ[types.Bool])
			put(name+".val", Select(val, x), types.NewPointer(core.Lookup("YispNode").Type()))
		}
	}
}
