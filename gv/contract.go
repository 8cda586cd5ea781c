package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func bigMul(a, b *Term) *big.Int { return new(big.Int).Mul(a.n, b.n) }

// ctxFor builds the evaluation context of a contract at a function's
// boundary: parameters and results by position.
func (ex *Exec) ctxFor(ct *Contract, sig *types.Signature, args, res []*Term, st, old *State) *sctx {
	c := &sctx{ex: ex, st: st, old: old, vars: map[string]Val{}, ct: ct}
	var ps []types.Type
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, ex.subst(sig.Params().At(i).Type()))
	}
	if len(ct.Params) != len(ps) {
		panic(specErr{fmt.Sprintf("contract %s names %d parameters, the function has %d", ct.Key, len(ct.Params), len(ps))})
	}
	for i, n := range ct.Params {
		c.vars[n] = Val{args[i], ps[i]}
	}
	if res != nil {
		if len(ct.Results) != sig.Results().Len() {
			panic(specErr{fmt.Sprintf("contract %s names %d results, the function has %d", ct.Key, len(ct.Results), sig.Results().Len())})
		}
		for i, n := range ct.Results {
			c.vars[n] = Val{res[i], ex.subst(sig.Results().At(i).Type())}
		}
	}
	return c
}

// defaultPre: what every caller guarantees about a parameter.
func (ex *Exec) defaultPre(st *State, name string, x *Term, t types.Type) []*Term {
	var out []*Term
	out = append(out, validVal(x, t, st.next))
	switch typeStr(t) {
	case "*core.YispNode", "*core.Env", "*core.Schema", "*core.Lambda", "*yaml.Node", "*engine.engine", "*core.YispMap", "*core.ErrorTypeEvaluation", "*core.Attribute":
		out = append(out, Neq(x, IntLit(0)))
	case "core.Engine", "io.Reader", "error":
		out = append(out, Neq(x, Nil()))
	case "[]*core.YispNode", "[]*yaml.Node":
		el := t.Underlying().(*types.Slice).Elem()
		_, m := ex.memComp(st, el)
		i := BVar("i", SInt)
		s := Select(Select(m, SBase(x)), i)
		out = append(out, Forall([]*Term{i}, Implies(And(Le(SOff(x), i), Lt(i, Add(SOff(x), SLen(x)))), And(Neq(s, IntLit(0)))), []*Term{s}))
	}
	if isOrderedMap(t) {
		out = append(out, Neq(x, IntLit(0)))
	}
	return out
}

func paramNames(sig *types.Signature) (names []string, tys []types.Type) {
	if r := sig.Recv(); r != nil {
		names = append(names, r.Name())
		tys = append(tys, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		names = append(names, sig.Params().At(i).Name())
		tys = append(tys, sig.Params().At(i).Type())
	}
	return
}

// applyContract: a caller is checked against the callee's contract only.
func (ex *Exec) applyContract(st *State, ct *Contract, fi *FuncInfo, args []*Term, c ast.Node) []*Term {
	sig := fi.Obj.Type().(*types.Signature)
	ex.called[ct.Key] = true
	_, tys := paramNames(sig)
	pre := st.clone()
	for i, t := range tys {
		pn := ct.Params[i]
		if ct.Nullable[pn] {
			continue
		}
		for _, g := range ex.defaultPre(st, pn, args[i], t) {
			if g.op == "forall" || isNeq(g) {
				ex.safe(st, "requires "+fi.Key+" "+pn, g, c)
			}
		}
	}
	cx := ex.ctxFor(ct, sig, args, nil, st, pre)
	for _, r := range ct.Requires {
		g := cx.boolE(r.E)
		if ex.noPanic == 0 && !st.known(g) {
			ex.oblige(st, "requires", fi.Key+": "+r.Label, g, append([]string{"C23"}, r.Props...), c)
		}
		st.assume(g)
	}
	old := st.next
	st.next = Fresh("next", SInt)
	st.assume(Le(old, st.next))
	for _, m := range ct.Modifies {
		if compSort[m] == "" {
			ex.touch(st, m)
		}
		h0 := ex.comp(st, m, compSort[m], compElem[m])
		h := Fresh("H:"+m, compSort[m])
		st.heap[m] = h
		if v := ex.validComp(m, h, st.next); !v.isTrue() {
			st.assume(v)
		}
		_ = h0
	}
	if ct.Events {
		ex.havocEnvs(st)
		oldTn := st.tn
		st.tn = Fresh("tn", SInt)
		st.assume(Le(oldTn, st.tn))
		for _, n := range sortedKeys(compSort) {
			if !strings.HasPrefix(n, "T:") {
				continue
			}
			h0 := ex.comp(st, n, compSort[n], compElem[n])
			h := Fresh("H:"+n, compSort[n])
			j := BVar("j", SInt)
			st.assume(Forall([]*Term{j}, Implies(Lt(j, oldTn), Eq(Select(h, j), Select(h0, j))), []*Term{Select(h, j)}))
			st.heap[n] = h
		}
	}
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := ex.subst(sig.Results().At(i).Type())
		r := Fresh("ret."+fi.Obj.Name(), sortOf(t))
		st.assume(validVal(r, t, st.next))
		res = append(res, r)
	}
	if !ct.MaybeNil {
		for _, g := range valueOrError(sig, res) {
			st.assume(g)
		}
	}
	cx = ex.ctxFor(ct, sig, args, res, st, pre)
	for _, e := range ct.Ensures {
		st.assume(cx.boolE(e.E))
	}
	for _, e := range ct.Assumes {
		st.assume(cx.boolE(e.E))
	}
	return res
}

func isNeq(g *Term) bool {
	return g.op == "app" && g.name == "not" && g.args[0].op == "app" && g.args[0].name == "="
}

// valueOrError: functions returning (node, error) give exactly one of the two.
func valueOrError(sig *types.Signature, res []*Term) []*Term {
	n := sig.Results().Len()
	if n == 2 && types.Identical(sig.Results().At(1).Type(), errT) {
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
			return []*Term{Eq(Eq(res[1], Nil()), Neq(res[0], IntLit(0)))}
		}
	}
	return nil
}

// touch registers a heap component by name.
func (ex *Exec) touch(st *State, name string) {
	switch {
	case name == "OK" || name == "ON" || name == "OI" || name == "OV":
		ex.om(st)
		return
	case strings.HasPrefix(name, "F:core."):
		rest := name[len("F:core."):]
		i := strings.IndexByte(rest, '.')
		t := ex.book.typ(rest[:i])
		u := t.Underlying().(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == rest[i+1:] {
				ex.fieldComp(st, t, u.Field(j))
				return
			}
		}
	case strings.HasPrefix(name, "M:"):
		t := ex.book.typ(strings.ReplaceAll(name[2:], "core.", ""))
		ex.memComp(st, t)
		return
	}
	panic(specErr{"unknown heap component " + name})
}

// foldFacts unfolds the contract's folds around the loop counter.
func (ex *Exec) foldFacts(h *State, k *Term) {
	if ex.contract == nil {
		return
	}
	var outer []*Term
	for _, l := range ex.loopStack[:len(ex.loopStack)-1] {
		outer = append(outer, l.k)
	}
	nested := false
	for _, f := range ex.contract.Folds {
		nested = nested || len(f.Ks) > 1
	}
	for _, f := range ex.contract.Folds {
		n := len(f.Ks) - 1
		if len(outer) == n || len(outer) > n && !nested {
			for d := int64(0); d <= 1; d++ {
				ex.foldStep(h, f, outer[len(outer)-n:], Add(k, IntLit(d)))
			}
		}
		if n > 0 && len(outer) == n-1 {
			lead := append(append([]*Term{}, outer[len(outer)-n+1:]...), k)
			ex.foldInit(h, f, lead)
		}
	}
}

func (ex *Exec) foldInit(h *State, f *FoldDef, lead []*Term) {
	cx := ex.rootCtx(ex.entry)
	t := ex.book.typ(f.Ty)
	for i, l := range lead {
		cx = cx.with(f.Ks[i], Val{l, tInt})
	}
	v := cx.eval(f.Init)
	h.assume(Eq(Fn(cx.foldName(f), sortOf(t), append(append([]*Term{}, lead...), IntLit(0))...), cx.coerce(v, t, f.Init)))
}

func (ex *Exec) foldStep(h *State, f *FoldDef, lead []*Term, j *Term) {
	cx := ex.rootCtx(ex.entry)
	t := ex.book.typ(f.Ty)
	at := func(x *Term) *Term {
		return Fn(cx.foldName(f), sortOf(t), append(append([]*Term{}, lead...), x)...)
	}
	for i, l := range lead {
		cx = cx.with(f.Ks[i], Val{l, tInt})
	}
	c2 := cx.with(f.Name, Val{at(j), t}).with(f.Ks[len(lead)], Val{j, tInt})
	v := c2.eval(f.Step)
	h.assume(Implies(Le(IntLit(0), j), Eq(at(Add(j, IntLit(1))), c2.coerce(v, t, f.Step))))
}

func (ex *Exec) rootCtx(st *State) *sctx {
	return &sctx{ex: ex, st: st, old: ex.entry, vars: ex.rootVars, ct: ex.contract}
}

// ---------------------------------------------------------------- loop invariant candidates

type candInst struct {
	c    *Cand
	at   func(st *State, k *Term) (*Term, bool)
	head *Term
}

func refOf(x *Term) *Term {
	switch x.sort {
	case SSlice:
		return SBase(x)
	case SInt:
		return x
	}
	return nil
}

func isRefType(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

func (ex *Exec) candidates(entry, h *State, mods map[types.Object]bool, wset map[string]bool, lp *loopParts, ctx *loopCtx) []*candInst {
	var out []*candInst
	lname := fmt.Sprintf("L%d", ctx.id)
	add := func(text string, at func(st *State, k *Term) (*Term, bool)) {
		out = append(out, &candInst{c: &Cand{loop: ctx.id, text: lname + ": " + text, alive: true}, at: at})
	}
	next0 := ex.entryNext
	objs := sortObjs(entry.vars)
	var refs []types.Object
	for _, o := range objs {
		if ex.addr[o] || isRefType(ex.subst(o.Type())) {
			refs = append(refs, o)
		}
	}
	get := func(st *State, o types.Object) (*Term, bool) {
		x, ok := st.vars[o]
		return x, ok
	}
	// heap frames
	for _, n := range sortedKeys(wset) {
		n := n
		if n == "next" || n == "tn" || strings.HasPrefix(n, "G:") || strings.HasPrefix(n, "B:") {
			continue
		}
		if strings.HasPrefix(n, "T:") {
			he := ex.comp(entry, n, compSort[n], compElem[n])
			add("past "+n+" kept", func(st *State, k *Term) (*Term, bool) {
				hs := ex.comp(st, n, compSort[n], compElem[n])
				j := bvarNamed("j?tk", SInt)
				return Forall([]*Term{j}, Implies(Lt(j, entry.tn), Eq(Select(hs, j), Select(he, j))), []*Term{Select(hs, j)}), true
			})
			continue
		}
		if !strings.HasPrefix(compSort[n], "(Array Int") {
			continue
		}
		h0 := ex.comp(ex.entry, n, compSort[n], compElem[n])
		he := ex.comp(entry, n, compSort[n], compElem[n])
		r := bvarNamed("r?fr", SInt)
		if strings.HasPrefix(n, "MH:string,*core.YispNode") || strings.HasPrefix(n, "MV:string,*core.YispNode") || strings.HasPrefix(n, "MN:string,*core.YispNode") {
			add("scopes "+n+" unchanged since callback", func(st *State, k *Term) (*Term, bool) {
				hs := ex.comp(st, n, compSort[n], compElem[n])
				hb, ok := st.heap["B:"+n]
				if !ok {
					hb = h0
				}
				return Forall([]*Term{r}, Implies(And(Lt(IntLit(0), r), Lt(r, next0), ex.allowed(nil, st, n, r)), Eq(Select(hs, r), Select(hb, r))), []*Term{Select(hs, r)}), true
			})
		}
		add("frame0 "+n, func(st *State, k *Term) (*Term, bool) {
			hs := ex.comp(st, n, compSort[n], compElem[n])
			return Forall([]*Term{r}, Implies(And(Lt(IntLit(0), r), Lt(r, next0)), Eq(Select(hs, r), Select(h0, r))), []*Term{Select(hs, r)}), true
		})
		if he != h0 {
			add("frameE "+n, func(st *State, k *Term) (*Term, bool) {
				hs := ex.comp(st, n, compSort[n], compElem[n])
				return Forall([]*Term{r}, Implies(And(Lt(IntLit(0), r), Lt(r, entry.next)), Eq(Select(hs, r), Select(he, r))), []*Term{Select(hs, r)}), true
			})
			// everything but the object one variable refers to
			for _, o := range refs {
				o := o
				if !compForType(n, ex.subst(o.Type()), ex.addr[o]) {
					continue
				}
				if !mods[o] && ex.oldValue(entry, o) && (ex.contract == nil || !ex.contract.NoFrame && !ex.modifies(n)) {
					continue
				}
				x0 := entry.vars[o]
				add("frameE "+n+" but "+o.Name(), func(st *State, k *Term) (*Term, bool) {
					hs := ex.comp(st, n, compSort[n], compElem[n])
					return Forall([]*Term{r}, Implies(And(Lt(IntLit(0), r), Lt(r, entry.next), Neq(r, refOf(x0))), Eq(Select(hs, r), Select(he, r))), []*Term{Select(hs, r)}), true
				})
			}
		}
		// ordered maps that callbacks will return are what the entry heap says,
		// too; only the map being built differs
		if len(n) == 2 && n[0] == 'O' && ex.contract != nil && len(ex.contract.Folds) > 0 {
			for _, o := range refs {
				o := o
				if !compForType(n, ex.subst(o.Type()), ex.addr[o]) || ex.oldValue(entry, o) {
					continue
				}
				x0 := entry.vars[o]
				add("frameA "+n+" but "+o.Name(), func(st *State, k *Term) (*Term, bool) {
					hs := ex.comp(st, n, compSort[n], compElem[n])
					return Forall([]*Term{r}, Implies(Neq(r, refOf(x0)), Eq(Select(hs, r), Select(h0, r))), []*Term{Select(hs, r)}), true
				})
			}
		}
		// objects allocated by the caller side before the loop started but owned by nobody else
	}
	if wset["tn"] {
		for _, c := range []int64{1, 2} {
			c := c
			add(fmt.Sprintf("tn = entry + %d*k", c), func(st *State, k *Term) (*Term, bool) { return Eq(st.tn, Add(entry.tn, mulLit(c, k))), true })
		}
	}
	var slices []types.Object
	for _, o := range objs {
		if _, ok := ex.subst(o.Type()).Underlying().(*types.Slice); ok && !ex.addr[o] {
			slices = append(slices, o)
		}
	}
	for _, o := range objs {
		o := o
		if !mods[o] {
			continue
		}
		x0 := entry.vars[o]
		t := ex.subst(o.Type())
		nm := o.Name()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				for _, c := range []int64{1, -1} {
					c := c
					add(fmt.Sprintf("%s = entry %+d*k", nm, c), func(st *State, k *Term) (*Term, bool) {
						x, ok := get(st, o)
						return Eq(x, Add(x0, mulLit(c, k))), ok
					})
				}
				add(nm+" >= entry", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Le(x0, x), ok })
				add(nm+" <= entry + k", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Le(x, Add(x0, k)), ok })
				add(nm+" >= 0", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Le(IntLit(0), x), ok })
				for _, s := range slices {
					s := s
					add(nm+" <= len "+s.Name(), func(st *State, k *Term) (*Term, bool) {
						x, ok := get(st, o)
						y, ok2 := get(st, s)
						if !ok || !ok2 {
							return nil, false
						}
						return Le(x, SLen(y)), true
					})
				}
			}
		case *types.Slice:
			add("len "+nm+" = entry + k", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Eq(SLen(x), Add(SLen(x0), k)), ok })
			add("len "+nm+" <= entry + k", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Le(SLen(x), Add(SLen(x0), k)), ok })
			add("len "+nm+" >= entry", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Le(SLen(x0), SLen(x)), ok })
			add("off "+nm, func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Eq(SOff(x), SOff(x0)), ok })
			add("base "+nm+" kept", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Eq(SBase(x), SBase(x0)), ok })
			add("base "+nm+" kept or new", func(st *State, k *Term) (*Term, bool) {
				x, ok := get(st, o)
				return Or(Eq(SBase(x), SBase(x0)), Le(entry.next, SBase(x))), ok
			})
			add("base "+nm+" fresh or full", func(st *State, k *Term) (*Term, bool) {
				x, ok := get(st, o)
				return Or(Le(next0, SBase(x)), Eq(SCap(x), SLen(x))), ok
			})
			add("base "+nm+" fresh or empty", func(st *State, k *Term) (*Term, bool) {
				x, ok := get(st, o)
				return Or(Le(next0, SBase(x)), Eq(SBase(x), IntLit(0))), ok
			})
		case *types.Pointer, *types.Map:
			add(nm+" not nil", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Neq(x, IntLit(0)), ok })
			add(nm+" kept or new", func(st *State, k *Term) (*Term, bool) {
				x, ok := get(st, o)
				return Or(Eq(x, x0), Le(entry.next, x)), ok
			})
			add(nm+" fresh", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Le(next0, x), ok })
		case *types.Interface:
			if types.Identical(t, errT) {
				add(nm+" is nil", func(st *State, k *Term) (*Term, bool) { x, ok := get(st, o); return Eq(x, Nil()), ok })
			}
		}
	}
	// distinct storage
	for i, o := range refs {
		for _, p := range refs[i+1:] {
			if !mods[o] && !mods[p] {
				continue
			}
			o, p := o, p
			add(o.Name()+" apart from "+p.Name(), func(st *State, k *Term) (*Term, bool) {
				x, ok := get(st, o)
				y, ok2 := get(st, p)
				if !ok || !ok2 {
					return nil, false
				}
				a, b := refOf(x), refOf(y)
				return Or(Neq(a, b), Eq(a, IntLit(0))), true
			})
		}
	}
	// contract templates
	if ex.contract != nil {
		for _, inv := range ex.contract.Invs {
			if inv.Depth > 0 && inv.Depth != len(ex.loopStack) {
				continue
			}
			ex.instantiate(inv, entry, mods, lname, ctx, &out)
		}
	}
	return out
}

// oldValue: the variable holds something the function was given (a parameter
// or a part of one), not something it is building.
func (ex *Exec) oldValue(st *State, o types.Object) bool {
	if ex.addr[o] {
		return false
	}
	var old func(x *Term) bool
	old = func(x *Term) bool {
		switch {
		case x.op == "sym":
			return strings.HasPrefix(x.name, "p.") || strings.HasPrefix(x.name, "p0") || strings.HasPrefix(x.name, "p1")
		case x.op == "app" && x.name == "ite":
			return (old(x.args[1]) || isZeroRef(x.args[1])) && (old(x.args[2]) || isZeroRef(x.args[2]))
		case x.op == "app":
			return x.name == "select" || x.name == "aslc_v" || x.name == "aptr_v"
		}
		return false
	}
	return old(st.vars[o])
}

func isZeroRef(x *Term) bool {
	r := refOf(x)
	return r != nil && r.n != nil && r.n.Sign() == 0
}

func mulLit(c int64, k *Term) *Term {
	switch {
	case k.n != nil:
		return BigLit(new(big.Int).Mul(big.NewInt(c), k.n))
	case c == 1:
		return k
	case c == -1:
		return Sub(IntLit(0), k)
	}
	// distribute over k = base + literal
	b, d := linBase(k)
	if d.Sign() != 0 {
		return Add(mulLit(c, b), BigLit(new(big.Int).Mul(big.NewInt(c), d)))
	}
	return T.mk("app", "*", SInt, IntLit(c), k)
}

// compForType: may an object a variable of type t refers to live in component n?
func compForType(n string, t types.Type, addr bool) bool {
	if addr {
		return n == "P:"+typeStr(t) || strings.HasPrefix(n, "F:"+typeStr(t)+".")
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return n == "M:"+typeStr(u.Elem())
	case *types.Map:
		a, b, c := mapCompNames(t)
		return n == a || n == b || n == c
	case *types.Pointer:
		if isOrderedMap(t) {
			return n == "OK" || n == "ON" || n == "OI" || n == "OV"
		}
		return strings.HasPrefix(n, "F:"+typeStr(u.Elem())+".") || n == "P:"+typeStr(u.Elem())
	}
	return false
}

func metasIn(n *SNode, out map[string]bool) {
	if n.op == "meta" {
		out[n.name] = true
	}
	for _, k := range n.kids {
		metasIn(k, out)
	}
}

// instantiate tries every choice of in-scope variables for the template's
// metavariables; ill-typed choices are skipped. A metavariable named ?s..., ?m...,
// ?i..., ?n... ranges over slices, ordered maps, integers or nodes only.
func (ex *Exec) instantiate(inv Clause, entry *State, mods map[types.Object]bool, lname string, ctx *loopCtx, out *[]*candInst) {
	mm := map[string]bool{}
	metasIn(inv.E, mm)
	metas := sortedKeys(mm)
	objs := sortObjs(entry.vars)
	var ks []*Term
	for _, l := range ex.loopStack[:max(0, len(ex.loopStack)-1)] {
		ks = append(ks, l.k)
	}
	okKind := func(m string, t types.Type) bool {
		switch m[1] {
		case 's':
			_, ok := t.Underlying().(*types.Slice)
			return ok
		case 'm':
			return isOrderedMap(t)
		case 'g':
			_, ok := t.Underlying().(*types.Map)
			return ok
		case 'i':
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		case 'b':
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsBoolean != 0
		case 't':
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		case 'n':
			return typeStr(t) == "*core.YispNode"
		case 'v':
			return isInterface(t)
		case 'p':
			_, ok := t.Underlying().(*types.Pointer)
			return ok
		}
		return true
	}
	var rec func(i int, pick map[string]types.Object, names []string)
	rec = func(i int, pick map[string]types.Object, names []string) {
		if i == len(metas) {
			p := map[string]types.Object{}
			for k, v := range pick {
				p[k] = v
			}
			text := fmt.Sprintf("%s: %s [%s]", lname, inv.E, strings.Join(names, ","))
			at := func(st *State, k *Term) (t *Term, ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specErr); is {
							t, ok = nil, false
							return
						}
						panic(r)
					}
				}()
				c := ex.rootCtx(st)
				c.ks = append(append([]*Term{}, ks...), k)
				c.rank, c.over = ctx.rank, ctx.over
				c.metas = map[string]Val{}
				for m, o := range p {
					x, has := st.vars[o]
					if !has {
						return nil, false
					}
					ot := ex.subst(o.Type())
					if ex.addr[o] {
						x = ex.loadObj(st, ot, x)
					}
					c.metas[m] = Val{x, ot}
				}
				return c.boolE(inv.E), true
			}
			if _, ok := at(entry, IntLit(0)); !ok {
				return
			}
			*out = append(*out, &candInst{c: &Cand{loop: ctx.id, text: text, alive: true, tmpl: true}, at: at})
			return
		}
		for _, o := range objs {
			if !okKind(metas[i], ex.subst(o.Type())) {
				continue
			}
			if !mods[o] && !ex.addr[o] {
				switch metas[i][1] {
				case 'i', 'b', 't', 'v':
					continue
				}
				if ex.oldValue(entry, o) {
					continue
				}
			}
			dup := false
			for _, q := range pick {
				if q == o {
					dup = true
				}
			}
			if dup {
				continue
			}
			pick[metas[i]] = o
			rec(i+1, pick, append(names, metas[i]+"="+o.Name()))
			delete(pick, metas[i])
		}
	}
	rec(0, map[string]types.Object{}, nil)
}

// ---------------------------------------------------------------- verifying a function

type Task struct {
	fi       *FuncInfo
	ct       *Contract // may be nil: only the general obligations
	name     string
	ex       *Exec
	err      string
	obls     []*Obl
	nocover  bool
	dropped  int
	candUsed int
	ran      bool
	full     bool
	fast     bool
}

var tvPos token.Pos

// Run executes the function symbolically and collects every obligation.
func (t *Task) Execute(prog *Program, book *Book) {
	ex := NewExec(prog, t.fi, book)
	t.ex = ex
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				t.err = e.Error()
			case specErr:
				t.err = e.Error()
			default:
				if debugPanics {
					panic(r)
				}
				t.err = fmt.Sprintf("verifier error: %v", r)
			}
		}
		for _, o := range ex.obls {
			o.Fn = t.name
		}
		t.obls = ex.obls
	}()
	ex.contract = t.ct
	fi := t.fi
	sig := fi.Obj.Type().(*types.Signature)
	fr := &Frame{key: fi.Key, pkg: fi.Pkg, sig: sig}
	ex.frames = []*Frame{fr}
	ex.findAddr(fi.Pkg, fi.Decl)
	ex.findLocals(fi.Pkg, fi.Decl.Body)
	st := &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, next: ex.entryNext, tn: Sym("tn0", SInt)}
	st.assume(Lt(IntLit(0), ex.entryNext))
	names, tys := paramNames(sig)
	var args []*Term
	for i := range names {
		n := fmt.Sprintf("p%d", i)
		if t.ct != nil && i < len(t.ct.Params) {
			n = "p." + t.ct.Params[i]
		}
		x := Sym(n+"$"+sortKey(sortOf(tys[i])), sortOf(tys[i]))
		args = append(args, x)
		nullable := t.ct != nil && i < len(t.ct.Params) && t.ct.Nullable[t.ct.Params[i]]
		for _, f := range ex.defaultPre(st, names[i], x, tys[i]) {
			if nullable && (isNeq(f) || f.op == "forall") {
				continue
			}
			st.assume(f)
		}
		// recursively defined objects reachable from an argument exist already
		for _, rn := range sortedKeys(ex.book.rels) {
			rd := ex.book.rels[rn]
			if rd.body == nil || len(rd.ptys) != 1 || t.ct == nil || len(t.ct.Allows) == 0 {
				continue
			}
			if rt := ex.book.typ(rd.ret); isPtr(rt) && types.Identical(ex.book.typ(rd.ptys[0]), tys[i]) {
				x := Fn("rel$"+rn, sortOf(rt), x)
				st.assume(And(Le(IntLit(0), x), Lt(x, ex.entryNext)))
			}
		}
	}
	ex.entry = st.clone()
	ex.entry.facts = nil
	if t.ct != nil {
		c := ex.ctxFor(t.ct, sig, args, nil, ex.entry, ex.entry)
		ex.rootVars = c.vars
		// what they are, by one step of their definition
		for _, rn := range sortedKeys(ex.book.rels) {
			rd := ex.book.rels[rn]
			if rd.body == nil || len(rd.ptys) != 1 || len(t.ct.Allows) == 0 {
				continue
			}
			for i, x := range args {
				if rt := ex.book.typ(rd.ret); isPtr(rt) && types.Identical(ex.book.typ(rd.ptys[0]), tys[i]) {
					nc := *c
					nc.vars = map[string]Val{rd.params[0]: {x, tys[i]}}
					nc.unfold = 0
					st.assume(Eq(Fn("rel$"+rn, sortOf(rt), x), nc.eval(rd.body).t))
				}
			}
		}
		for _, r := range t.ct.Given {
			nc := *c
			nc.unfold, nc.explicit = 1, true
			st.assume(Implies(c.boolE(r.E), nc.boolE(r.E)))
		}
		for _, r := range t.ct.Requires {
			st.assume(c.boolE(r.E))
			if len(t.ct.Defines) > 0 { // and by its definition
				nc := *c
				nc.unfold = 1
				st.assume(nc.boolE(r.E))
			}
		}
		for _, f := range t.ct.Folds {
			if len(f.Ks) > 1 {
				continue
			}
			ex.foldInit(st, f, nil)
			ex.foldStep(st, f, nil, IntLit(0))
			ex.foldStep(st, f, nil, IntLit(1))
		}
	}
	ex.bindParams(st, fr, fi.Decl, fi.Decl.Type, args)
	finish := func(out *State) {
		if out == nil || ex.dead(out) {
			return
		}
		var res []*Term
		for _, o := range fr.results {
			res = append(res, ex.loadVar(out, o))
		}
		if sig.Results().Len() == 0 || len(res) > 0 {
			fr.exits = append(fr.exits, &Exit{st: out, kind: "return", res: res, pos: ex.posOf(fi.Decl.Body)})
		}
	}
	if t.ct != nil && t.ct.Paths {
		ex.blockK(st, fi.Decl.Body.List, finish)
	} else {
		finish(ex.block(st, fi.Decl.Body.List))
	}
	n := 0
	for _, e := range fr.exits {
		if e.kind != "return" {
			panic(unsupported("stray " + e.kind))
		}
		if ex.dead(e.st) {
			continue
		}
		n++
		t.exitObligations(e, n, sig, args)
	}
	if n == 0 {
		panic(unsupported("no reachable return"))
	}
}

func sortKey(s Sort) string { return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s) }

func (t *Task) exitObligations(e *Exit, n int, sig *types.Signature, args []*Term) {
	ex := t.ex
	var split []*Term
	if t.ct != nil {
		sc := ex.ctxFor(t.ct, sig, args, e.res, e.st, ex.entry)
		for _, x := range t.ct.Splits {
			split = append(split, sc.boolE(x))
		}
	}
	mk := func(kind, label string, props []string, g *Term) {
		ex.obls = append(ex.obls, &Obl{Kind: kind, Label: label, Props: props, Pos: e.pos, facts: e.st.facts, goal: g, exit: n, split: split})
	}
	if t.ct == nil || !t.ct.MaybeNil {
		for _, g := range valueOrError(sig, e.res) {
			mk("ensures", "value-or-error", []string{"C23"}, g)
		}
	}
	if t.ct != nil {
		c := ex.ctxFor(t.ct, sig, args, e.res, e.st, ex.entry)
		c.unfold = 0
		for _, en := range t.ct.Ensures {
			nc := *c
			nc.unfold = 1
			g := nc.boolE(en.E)
			mk("ensures", en.Label, en.Props, g)
		}
	}
	if t.ct != nil && t.ct.NoFrame {
		return
	}
	var c *sctx
	if t.ct != nil && len(t.ct.Allows) > 0 {
		c = ex.ctxFor(t.ct, sig, args, e.res, e.st, ex.entry)
	}
	ex.frameObligations(c, e.st, "", func(name string, g *Term) { mk("frame", name, []string{"C25"}, g) })
}

// frameObligations: objects that existed at entry are unchanged.
func (ex *Exec) frameObligations(c *sctx, st *State, only string, emit func(string, *Term)) {
	mod := map[string]bool{}
	if ex.contract != nil {
		for _, m := range ex.contract.Modifies {
			mod[m] = true
		}
	}
	for _, n := range sortedKeys(st.heap) {
		if strings.HasPrefix(n, "T:") || strings.HasPrefix(n, "X:") || strings.HasPrefix(n, "B:") || mod[n] || only != "" && n != only {
			continue
		}
		h := st.heap[n]
		h0 := ex.comp(ex.entry, n, compSort[n], compElem[n])
		if b, ok := st.heap["B:"+n]; ok {
			h0 = b
		}
		if h == h0 {
			continue
		}
		if !strings.HasPrefix(compSort[n], "(Array Int") || strings.HasPrefix(n, "G:") {
			emit(n, Eq(h, h0))
			continue
		}
		r := bvarNamed("r?fr", SInt)
		emit(n, Forall([]*Term{r}, Implies(And(Lt(IntLit(0), r), Lt(r, ex.entryNext), ex.allowed(c, st, n, r)), Eq(Select(h, r), Select(h0, r))), []*Term{Select(h, r)}))
	}
}

// allowed: reference r is none of the scopes the contract lets the function
// change (clause "allows").
func (ex *Exec) allowed(c *sctx, st *State, n string, r *Term) *Term {
	if ex.contract == nil || len(ex.contract.Allows) == 0 || !strings.HasSuffix(n, ":string,*core.YispNode") || n[0] != 'M' {
		return True()
	}
	if c == nil {
		c = ex.rootCtx(st)
	}
	out := True()
	for _, a := range ex.contract.Allows {
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(specErr); !ok {
						panic(p)
					}
				}
			}()
			out = And(out, Neq(r, c.eval(a).t))
		}()
	}
	return out
}

func sortStrings(s []string) { sort.Strings(s) }

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
