package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Exec symbolically executes one function body, collecting proof obligations.
type Exec struct {
	prog      *Program
	root      *FuncInfo
	baseSyms  map[*Term]bool
	entryNext *Term
	entry     *State
	obls      []*Obl
	cands     []*Cand
	frames    []*Frame
	closures  map[*Term]*Closure
	fnKeys    map[*Term]string
	dry       int
	contract  *Contract // contract of the root function
	rootVars  map[string]Val
	book      *Book
	loopSeq   int
	loopStack []*loopCtx
	useOpt    bool
	concrete  bool // unroll loops over literal slices (package initialisation)
	addr      map[types.Object]bool
	steps     int
	uses      map[string]bool // external functions relied upon
	inlined   map[string]bool
	called    map[string]bool // contracts used
	nevent    int
	site      ast.Node // statement being executed
	locals    []localObj
	rootPos   token.Pos
	noPanic   int // >0: evaluating in a context where safety obligations are not wanted
}

type Obl struct {
	Fn    string
	Kind  string // "ensures", "panic", "frame", "requires", "init", "keep", "cover"
	Label string
	Props []string
	Pos   string
	facts *FactList
	goal  *Term
	cand  *Cand
	res   Result
	exit  int
	split []*Term
}

func (o *Obl) Name() string { return o.Fn + "/" + o.Kind + "/" + o.Label }

type Cand struct {
	id    int
	loop  int
	text  string
	alive bool
	tmpl  bool
}

type Frame struct {
	key     string
	pkg     *Pkg
	sig     *types.Signature
	results []types.Object // named results
	exits   []*Exit
	targs   map[*types.TypeParam]types.Type
	loops   int
	callPos ast.Node
}

type Closure struct {
	lit   *ast.FuncLit
	pkg   *Pkg
	targs map[*types.TypeParam]types.Type
	recv  *Term // bound method value
	fi    *FuncInfo
}

type loopCtx struct {
	id    int
	k     *Term
	entry *State
	over  Val   // the slice ranged over
	rank  *Term // map-range loops: position of each key in the enumeration
}

func NewExec(p *Program, fi *FuncInfo, book *Book) *Exec {
	ex := &Exec{prog: p, root: fi, baseSyms: map[*Term]bool{}, closures: map[*Term]*Closure{}, fnKeys: map[*Term]string{}, book: book, addr: map[types.Object]bool{},
		uses: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}}
	ex.entryNext = Sym("next0", SInt)
	return ex
}

func (ex *Exec) top() *Frame       { return ex.frames[len(ex.frames)-1] }
func (ex *Exec) info() *types.Info { return ex.top().pkg.Info }

func (ex *Exec) subst(t types.Type) types.Type {
	t = types.Unalias(t)
	fr := ex.top()
	if len(fr.targs) == 0 {
		return t
	}
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := fr.targs[u]; ok {
			return r
		}
	case *types.Pointer:
		if e := ex.subst(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := ex.subst(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Map:
		k, v := ex.subst(u.Key()), ex.subst(u.Elem())
		if k != u.Key() || v != u.Elem() {
			return types.NewMap(k, v)
		}
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, types.NewVar(u.At(i).Pos(), u.At(i).Pkg(), u.At(i).Name(), ex.subst(u.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	return t
}

func (ex *Exec) typeOf(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok {
		if o := ex.info().ObjectOf(id); o != nil {
			if tv, ok := ex.info().Types[e]; ok && tv.Type != nil {
				return ex.subst(tv.Type)
			}
			return ex.subst(o.Type())
		}
	}
	t := ex.info().TypeOf(e)
	if t == nil {
		panic(unsupported("untyped expression at " + ex.prog.Pos(e)))
	}
	return ex.subst(t)
}

func (ex *Exec) posOf(n ast.Node) string {
	s := ex.prog.Pos(n)
	return s
}

func (ex *Exec) oblige(st *State, kind, label string, goal *Term, props []string, n ast.Node) {
	if ex.dry > 0 {
		return
	}
	if goal.isTrue() && (kind == "panic" || kind == "keep" || kind == "init") {
		return
	}
	pos := ""
	if n != nil {
		pos = ex.posOf(n)
	}
	ex.obls = append(ex.obls, &Obl{Fn: ex.root.Key, Kind: kind, Label: label, Props: props, Pos: pos, facts: st.facts, goal: goal})
}

// safety: c must hold here or the program panics.
func (ex *Exec) safe(st *State, label string, c *Term, n ast.Node) {
	if c.isTrue() {
		return
	}
	if ex.noPanic == 0 && !st.known(c) {
		key := label
		if len(ex.frames) > 1 {
			key = ex.top().key + ":" + label
		}
		ex.oblige(st, "panic", key, c, []string{"C23"}, n)
	}
	st.assume(c)
}

func (s *State) known(c *Term) bool {
	n := 0
	for f := s.facts; f != nil && n < 400; f = f.prev {
		if f.f.cand == nil {
			if f.f.t == c {
				return true
			}
			if f.f.t.op == "app" && f.f.t.name == "and" {
				for _, a := range f.f.t.args {
					if a == c {
						return true
					}
				}
			}
		}
		n++
	}
	return false
}

// ---------------------------------------------------------------- statements

func (ex *Exec) block(st *State, list []ast.Stmt) *State {
	for _, s := range list {
		if st == nil {
			return nil
		}
		st = ex.stmt(st, s)
	}
	return st
}

// blockK runs statements and then k. The cases of switch statements among them
// are followed to the end one by one instead of being merged.
func (ex *Exec) blockK(st *State, list []ast.Stmt, k func(*State)) {
	for i, s := range list {
		if st == nil || ex.dead(st) {
			return
		}
		if sw, ok := s.(*ast.SwitchStmt); ok {
			ex.site, ex.rootPos = s, s.Pos()
			ex.switchK(st, sw, func(x *State) { ex.blockK(x, list[i+1:], k) })
			return
		}
		if c, ok := s.(*ast.IfStmt); ok && hasSwitch(c) {
			ex.site, ex.rootPos = s, s.Pos()
			ex.ifK(st, c, func(x *State) { ex.blockK(x, list[i+1:], k) })
			return
		}
		if b, ok := s.(*ast.BlockStmt); ok && hasSwitch(b) {
			ex.blockK(st, b.List, func(x *State) { ex.blockK(x, list[i+1:], k) })
			return
		}
		st = ex.stmt(st, s)
	}
	if st != nil && !ex.dead(st) {
		k(st)
	}
}

// hasSwitch: a switch statement outside loops and function literals.
func hasSwitch(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			return false
		case *ast.SwitchStmt:
			found = true
		}
		return !found
	})
	return found
}

func (ex *Exec) ifK(st *State, s *ast.IfStmt, k func(*State)) {
	if s.Init != nil {
		st = ex.stmt(st, s.Init)
		if st == nil {
			return
		}
	}
	c := ex.expr(st, s.Cond)
	if !c.isFalse() && !st.known(Not(c)) {
		a := st.clone()
		a.assumeBranch(c)
		ex.blockK(a, s.Body.List, k)
	}
	if !c.isTrue() && !st.known(c) {
		b := st.clone()
		b.assumeBranch(Not(c))
		if s.Else == nil {
			k(b)
		} else {
			ex.blockK(b, []ast.Stmt{s.Else}, k)
		}
	}
}

func (ex *Exec) switchK(st *State, s *ast.SwitchStmt, k func(*State)) {
	if s.Init != nil {
		st = ex.stmt(st, s.Init)
		if st == nil {
			return
		}
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag = ex.expr(st, s.Tag)
		tagT = ex.typeOf(s.Tag)
	}
	after := func(x *State) {
		from := len(ex.top().exits)
		k(x)
		for _, e := range ex.top().exits[from:] {
			if e.kind != "return" {
				panic(unsupported("break out of an enclosing statement"))
			}
		}
	}
	body := func(b *State, cc *ast.CaseClause) {
		if b == nil || ex.dead(b) {
			return
		}
		if n := len(cc.Body); n > 0 {
			if br, ok := cc.Body[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				panic(unsupported("fallthrough"))
			}
		}
		from := len(ex.top().exits)
		ex.blockK(b, cc.Body, after)
		for _, e := range ex.take(from, "break", "") {
			after(e.st)
		}
	}
	var def *ast.CaseClause
	cur := st.clone()
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var cs []*Term
		for _, e := range cc.List {
			if tag == nil {
				cs = append(cs, ex.expr(cur, e))
			} else {
				v := ex.expr(cur, e)
				cs = append(cs, ex.equal(cur, tag, tagT, v, ex.typeOf(e), e))
			}
		}
		c := Or(cs...)
		if !c.isFalse() && !cur.known(Not(c)) {
			a := cur.clone()
			a.assumeBranch(c)
			body(a, cc)
		}
		if c.isTrue() || cur.known(c) {
			return
		}
		cur.assumeBranch(Not(c))
	}
	if def != nil {
		body(cur, def)
	} else if !ex.dead(cur) {
		after(cur)
	}
}

func (ex *Exec) exit(st *State, kind, label string, res []*Term, n ast.Node) {
	fr := ex.top()
	pos := ""
	if n != nil {
		pos = ex.posOf(n)
	}
	fr.exits = append(fr.exits, &Exit{st: st, kind: kind, label: label, res: res, pos: pos})
}

func (ex *Exec) dead(st *State) bool {
	return st.facts != nil && st.facts.f.t.isFalse()
}

func (ex *Exec) stmt(st *State, s ast.Stmt) *State {
	ex.steps++
	if s != nil {
		ex.site = s
		if len(ex.frames) == 1 {
			ex.rootPos = s.Pos()
		}
	}
	if ex.steps > 400000 {
		panic(unsupported("function too large"))
	}
	if ex.dead(st) {
		return nil
	}
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		return st
	case *ast.BlockStmt:
		return ex.block(st, s.List)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			ex.call(st, c)
		} else {
			ex.expr(st, s.X)
		}
		if ex.dead(st) {
			return nil
		}
		return st
	case *ast.AssignStmt:
		ex.assign(st, s)
		return st
	case *ast.IncDecStmt:
		t := ex.typeOf(s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		v := ex.arith(st, op, ex.expr(st, s.X), IntLit(1), t, s)
		ex.store(st, s.X, v)
		return st
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return st
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					if o := ex.info().Defs[id]; o != nil {
						ex.declare(st, o, zero(ex.subst(o.Type())))
					}
				}
			} else if len(vs.Values) == len(vs.Names) {
				var vals []*Term
				for i, id := range vs.Names {
					o := ex.info().Defs[id]
					vals = append(vals, ex.exprAs(st, vs.Values[i], ex.subst(o.Type())))
				}
				for i, id := range vs.Names {
					ex.declare(st, ex.info().Defs[id], vals[i])
				}
			} else {
				vals, tys := ex.multi(st, vs.Values[0], len(vs.Names))
				for i, id := range vs.Names {
					if o := ex.info().Defs[id]; o != nil && id.Name != "_" {
						ex.declare(st, o, ex.conv(st, vals[i], tys[i], ex.subst(o.Type())))
					}
				}
			}
		}
		return st
	case *ast.ReturnStmt:
		fr := ex.top()
		var res []*Term
		rs := fr.sig.Results()
		if len(s.Results) == 0 {
			for _, o := range fr.results {
				res = append(res, ex.loadVar(st, o))
			}
		} else if len(s.Results) == rs.Len() {
			for i, e := range s.Results {
				res = append(res, ex.exprAs(st, e, ex.subst(rs.At(i).Type())))
			}
		} else {
			vals, tys := ex.multi(st, s.Results[0], rs.Len())
			for i := range vals {
				res = append(res, ex.conv(st, vals[i], tys[i], ex.subst(rs.At(i).Type())))
			}
		}
		if ex.dead(st) {
			return nil
		}
		ex.exit(st, "return", "", res, s)
		return nil
	case *ast.IfStmt:
		return ex.ifStmt(st, s)
	case *ast.SwitchStmt:
		return ex.switchStmt(st, s, "")
	case *ast.TypeSwitchStmt:
		return ex.typeSwitch(st, s, "")
	case *ast.ForStmt, *ast.RangeStmt:
		return ex.loop(st, s, "")
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			return ex.loop(st, b, s.Label.Name)
		case *ast.SwitchStmt:
			return ex.switchStmt(st, b, s.Label.Name)
		case *ast.TypeSwitchStmt:
			return ex.typeSwitch(st, b, s.Label.Name)
		}
		return ex.stmt(st, s.Stmt)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			ex.exit(st, "break", l, nil, s)
		case token.CONTINUE:
			ex.exit(st, "continue", l, nil, s)
		case token.FALLTHROUGH:
			ex.exit(st, "fallthrough", l, nil, s)
		default:
			panic(unsupported("goto"))
		}
		return nil
	case *ast.DeferStmt:
		// only deferred clean-up of external resources
		if fn := ex.calleeFunc(s.Call); fn != nil && ignorableDefer(fn) {
			return st
		}
		panic(unsupported("defer at " + ex.posOf(s)))
	}
	panic(unsupported(fmt.Sprintf("statement %T at %s", s, ex.posOf(s))))
}

func ignorableDefer(f *types.Func) bool {
	switch f.Name() {
	case "Close", "RemoveAll", "Remove", "Unlock", "RUnlock":
		return true
	}
	return false
}

func (ex *Exec) ifStmt(st *State, s *ast.IfStmt) *State {
	if s.Init != nil {
		st = ex.stmt(st, s.Init)
		if st == nil {
			return nil
		}
	}
	c := ex.expr(st, s.Cond)
	return ex.branch(st, c, func(a *State) *State { return ex.stmt(a, s.Body) }, func(b *State) *State {
		if s.Else == nil {
			return b
		}
		return ex.stmt(b, s.Else)
	})
}

func (ex *Exec) branch(st *State, c *Term, then, els func(*State) *State) *State {
	if c.isTrue() || st.known(c) {
		return then(st)
	}
	if c.isFalse() || st.known(Not(c)) {
		return els(st)
	}
	mark := st.facts
	a, b := st.clone(), st.clone()
	a.assumeBranch(c)
	b.assumeBranch(Not(c))
	a = then(a)
	b = els(b)
	if a != nil && ex.dead(a) {
		a = nil
	}
	if b != nil && ex.dead(b) {
		b = nil
	}
	return ex.merge2(mark, c, a, b)
}

// takeBreaks removes and returns the exits of kind k (with matching label)
// pushed since mark.
func (ex *Exec) take(from int, kind, label string) []*Exit {
	fr := ex.top()
	var got, rest []*Exit
	for _, e := range fr.exits[from:] {
		if e.kind == kind && (e.label == "" || e.label == label) {
			got = append(got, e)
		} else {
			rest = append(rest, e)
		}
	}
	fr.exits = append(fr.exits[:from:from], rest...)
	return got
}

func (ex *Exec) switchStmt(st *State, s *ast.SwitchStmt, label string) *State {
	if s.Init != nil {
		st = ex.stmt(st, s.Init)
		if st == nil {
			return nil
		}
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag = ex.expr(st, s.Tag)
		tagT = ex.typeOf(s.Tag)
	}
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	mark := st.facts
	from := len(ex.top().exits)
	hasFall := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if n := len(cc.Body); n > 0 {
			if b, ok := cc.Body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				hasFall = true
			}
		}
	}
	body := func(b *State, cc *ast.CaseClause) *State {
		if !hasFall {
			return ex.block(b, cc.Body)
		}
		// run with fallthrough into the textually next clause
		idx := 0
		for i, c := range s.Body.List {
			if c.(*ast.CaseClause) == cc {
				idx = i
			}
		}
		for {
			list := s.Body.List[idx].(*ast.CaseClause).Body
			n := len(list)
			if n > 0 {
				if br, ok := list[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					b = ex.block(b, list[:n-1])
					if b == nil {
						return nil
					}
					idx++
					continue
				}
			}
			return ex.block(b, list)
		}
	}
	var rec func(b *State, i int) *State
	rec = func(b *State, i int) *State {
		if i == len(clauses) {
			if def != nil {
				return body(b, def)
			}
			return b
		}
		var cs []*Term
		for _, e := range clauses[i].List {
			if tag == nil {
				cs = append(cs, ex.expr(b, e))
			} else {
				v := ex.expr(b, e)
				cs = append(cs, ex.equal(b, tag, tagT, v, ex.typeOf(e), e))
			}
		}
		return ex.branch(b, Or(cs...), func(x *State) *State { return body(x, clauses[i]) }, func(x *State) *State { return rec(x, i+1) })
	}
	out := rec(st.clone(), 0)
	return ex.joinBreaks(mark, out, from, label)
}

func (ex *Exec) joinBreaks(mark *FactList, out *State, from int, label string) *State {
	brs := ex.take(from, "break", label)
	if len(brs) == 0 {
		return out
	}
	if out != nil {
		brs = append(brs, &Exit{st: out})
	}
	m, _ := ex.mergeExits(mark, brs)
	return m
}

func (ex *Exec) typeSwitch(st *State, s *ast.TypeSwitchStmt, label string) *State {
	if s.Init != nil {
		st = ex.stmt(st, s.Init)
		if st == nil {
			return nil
		}
	}
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := ex.expr(st, x)
	mark := st.facts
	from := len(ex.top().exits)
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	bind := func(b *State, cc *ast.CaseClause, t types.Type) {
		if o := ex.info().Implicits[cc]; o != nil {
			if t != nil {
				u := unbox(v, t)
				ex.declare(b, o, u)
				b.assume(validVal(u, t, b.next))
			} else {
				ex.declare(b, o, v)
			}
		}
	}
	var rec func(b *State, i int) *State
	rec = func(b *State, i int) *State {
		if i == len(clauses) {
			if def != nil {
				bind(b, def, nil)
				return ex.block(b, def.Body)
			}
			return b
		}
		cc := clauses[i]
		var cs []*Term
		for _, e := range cc.List {
			if tv := ex.info().Types[e]; tv.IsNil() {
				cs = append(cs, Eq(v, Nil()))
			} else {
				cs = append(cs, isType(v, ex.typeOf(e)))
			}
		}
		return ex.branch(b, Or(cs...), func(y *State) *State {
			var t types.Type
			if len(cc.List) == 1 && !ex.info().Types[cc.List[0]].IsNil() {
				t = ex.typeOf(cc.List[0])
			}
			bind(y, cc, t)
			return ex.block(y, cc.Body)
		}, func(y *State) *State { return rec(y, i+1) })
	}
	out := rec(st.clone(), 0)
	return ex.joinBreaks(mark, out, from, label)
}

// ---------------------------------------------------------------- variables

func (ex *Exec) declare(st *State, o types.Object, v *Term) {
	if o == nil {
		return
	}
	if ex.addr[o] {
		r := ex.alloc(st)
		ex.storeObj(st, ex.subst(o.Type()), r, v)
		st.vars[o] = r
		return
	}
	st.vars[o] = v
}

func (ex *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = Add(st.next, IntLit(1))
	return r
}

// storeObj writes a whole value of type t to the object at r.
func (ex *Exec) storeObj(st *State, t types.Type, r, v *Term) {
	t = types.Unalias(t)
	if u, ok := t.Underlying().(*types.Struct); ok && isRepoStruct(t) {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n, h := ex.fieldComp(st, t, f)
			ex.checkField(st, t, f.Name(), structGet(v, f.Name()))
			st.heap[n] = Store(h, r, structGet(v, f.Name()))
		}
		return
	}
	n, h := ex.cellComp(st, t)
	st.heap[n] = Store(h, r, v)
}

// checkField: a value stored in a field that is never nil.
func (ex *Exec) checkField(st *State, t types.Type, f string, v *Term) {
	if neverNilField(t, f) {
		ex.safe(st, "nil-field "+f, Neq(v, IntLit(0)), ex.site)
	}
}

func (ex *Exec) loadObj(st *State, t types.Type, r *Term) *Term {
	t = types.Unalias(t)
	if u, ok := t.Underlying().(*types.Struct); ok && isRepoStruct(t) {
		s := sortOf(t)
		return structMk(s, u, func(i int) *Term {
			_, h := ex.fieldComp(st, t, u.Field(i))
			return Select(h, r)
		})
	}
	_, h := ex.cellComp(st, t)
	return Select(h, r)
}

func (ex *Exec) loadVar(st *State, o types.Object) *Term {
	if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		n := "G:" + v.Pkg().Name() + "." + v.Name()
		x := ex.comp(st, n, sortOf(v.Type()), v.Type())
		st.assume(validVal(x, v.Type(), st.next))
		return x
	}
	x, ok := st.vars[o]
	if !ok {
		panic(unsupported("captured variable " + o.Name() + " out of scope"))
	}
	if ex.addr[o] {
		return ex.loadObj(st, ex.subst(o.Type()), x)
	}
	return x
}

func (ex *Exec) storeVar(st *State, o types.Object, v *Term) {
	if gv, ok := o.(*types.Var); ok && gv.Pkg() != nil && gv.Parent() == gv.Pkg().Scope() {
		n := "G:" + gv.Pkg().Name() + "." + gv.Name()
		ex.comp(st, n, sortOf(gv.Type()), gv.Type())
		st.heap[n] = v
		return
	}
	if ex.addr[o] {
		r, ok := st.vars[o]
		if !ok {
			panic(unsupported("assignment to variable out of scope"))
		}
		ex.storeObj(st, ex.subst(o.Type()), r, v)
		return
	}
	if _, ok := st.vars[o]; !ok {
		panic(unsupported("assignment to captured variable " + o.Name() + " out of scope"))
	}
	st.vars[o] = v
}

func (ex *Exec) assign(st *State, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		t := ex.typeOf(s.Lhs[0])
		l := ex.expr(st, s.Lhs[0])
		r := ex.exprAs(st, s.Rhs[0], t)
		ex.store(st, s.Lhs[0], ex.arith(st, op, l, r, t, s))
		return
	}
	var vals []*Term
	var tys []types.Type
	if len(s.Lhs) == len(s.Rhs) {
		for i, e := range s.Rhs {
			lt := ex.lhsType(s.Lhs[i], s.Rhs[i])
			vals = append(vals, ex.exprAs(st, e, lt))
			tys = append(tys, lt)
		}
	} else {
		vals, tys = ex.multi(st, s.Rhs[0], len(s.Lhs))
	}
	// index and pointer operands of the left side are evaluated before the
	// assignments; with a single target the order cannot matter
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if o := ex.info().Defs[id]; o != nil && s.Tok == token.DEFINE {
				ex.declare(st, o, ex.conv(st, vals[i], tys[i], ex.subst(o.Type())))
				continue
			}
		}
		v := vals[i]
		if lt := ex.typeOf(l); len(s.Lhs) != len(s.Rhs) && isInterface(lt) && !isInterface(tys[i]) && neverNilBoxed(tys[i]) && v.sort == SInt {
			// one of several results, possibly nil: then the interface value is left open
			ex.store(st, l, Ite(Eq(v, IntLit(0)), Fresh("niliface", SAny), box(types.Unalias(tys[i]), v)))
			continue
		}
		ex.store(st, l, ex.conv(st, v, tys[i], ex.typeOf(l)))
	}
}

func (ex *Exec) lhsType(l, r ast.Expr) types.Type {
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			t := ex.typeOf(r)
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return types.Default(t)
			}
			return t
		}
		if o := ex.info().ObjectOf(id); o != nil {
			return ex.subst(o.Type())
		}
	}
	return ex.typeOf(l)
}

// store assigns v to an addressable expression.
func (ex *Exec) store(st *State, l ast.Expr, v *Term) {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		ex.storeVar(st, ex.info().ObjectOf(l), v)
	case *ast.StarExpr:
		r := ex.expr(st, l.X)
		ex.safe(st, "nil-deref", Neq(r, IntLit(0)), l)
		ex.storeObj(st, ex.typeOf(l), r, v)
	case *ast.SelectorExpr:
		sel := ex.info().Selections[l]
		if sel == nil { // package-qualified variable
			ex.storeVar(st, ex.info().ObjectOf(l.Sel), v)
			return
		}
		ex.storeField(st, l, sel, v)
	case *ast.IndexExpr:
		xt := ex.typeOf(l.X)
		switch u := xt.Underlying().(type) {
		case *types.Slice:
			s := ex.expr(st, l.X)
			i := ex.exprAs(st, l.Index, types.Typ[types.Int])
			ex.safe(st, "index", And(Le(IntLit(0), i), Lt(i, SLen(s))), l)
			n, m := ex.memComp(st, u.Elem())
			before := ex.seqOf(st, s, u.Elem(), i)
			st.heap[n] = Store(m, SBase(s), Store(Select(m, SBase(s)), Add(SOff(s), i), v))
			if ex.useSeq() {
				st.assume(Eq(ex.seqOf(st, s, u.Elem(), Add(i, IntLit(1))), seqSnoc(before, box(u.Elem(), v))))
			}
		case *types.Map:
			m := ex.expr(st, l.X)
			k := ex.exprAs(st, l.Index, u.Key())
			ex.safe(st, "nil-map-write", Neq(m, IntLit(0)), l)
			ex.mapSet(st, xt, m, k, v)
		default:
			panic(unsupported("store to " + typeStr(xt) + " element"))
		}
	default:
		panic(unsupported(fmt.Sprintf("store to %T", l)))
	}
}

func (ex *Exec) mapSet(st *State, t types.Type, m, k, v *Term) {
	if el := t.Underlying().(*types.Map).Elem(); neverNilElem(el) {
		ex.safe(st, "nil node bound", Neq(v, IntLit(0)), ex.site)
	}
	hn, vn, nn := mapCompNames(t)
	h, vv, n := ex.gomap(st, t)
	had := Select(Select(h, m), k)
	st.heap[nn] = Store(n, m, Ite(had, Select(n, m), Add(Select(n, m), IntLit(1))))
	st.heap[hn] = Store(h, m, Store(Select(h, m), k, True()))
	st.heap[vn] = Store(vv, m, Store(Select(vv, m), k, v))
}

func (ex *Exec) storeField(st *State, l *ast.SelectorExpr, sel *types.Selection, v *Term) {
	// walk to the last field
	t := ex.typeOf(l.X)
	idx := sel.Index()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		r := ex.expr(st, l.X)
		ex.safe(st, "nil-deref", Neq(r, IntLit(0)), l)
		ex.storePath(st, ex.subst(p.Elem()), r, idx, v, l)
		return
	}
	// struct value: read-modify-write
	if len(idx) != 1 {
		panic(unsupported("store to promoted field of value"))
	}
	if id, ok := ast.Unparen(l.X).(*ast.Ident); ok {
		if o := ex.info().ObjectOf(id); ex.addr[o] {
			r := st.vars[o]
			ex.storePath(st, ex.subst(o.Type()), r, idx, v, l)
			return
		}
	}
	cur := ex.expr(st, l.X)
	u := t.Underlying().(*types.Struct)
	ex.store(st, l.X, structSet(cur, u.Field(idx[0]).Name(), v))
}

func (ex *Exec) storePath(st *State, t types.Type, r *Term, idx []int, v *Term, n ast.Node) {
	u := t.Underlying().(*types.Struct)
	f := u.Field(idx[0])
	if !isRepoStruct(t) {
		name, h := ex.extField(st, t, f)
		st.heap[name] = Store(h, r, v)
		return
	}
	name, h := ex.fieldComp(st, t, f)
	if len(idx) == 1 {
		ex.checkField(st, t, f.Name(), v)
		st.heap[name] = Store(h, r, v)
		return
	}
	panic(unsupported("store to promoted field"))
}

// ---------------------------------------------------------------- loops

type loopParts struct {
	node  ast.Node
	body  *ast.BlockStmt
	cond  func(st *State) *Term // evaluated at the head, before binding
	bind  func(st *State)       // bind iteration variables
	post  func(st *State) *State
	bound *Term // number of iterations if known (range loops)
	mods  map[types.Object]bool
	k     *Term
	rank  *Term
	over  Val             // the slice ranged over
	facts func(st *State) // facts about the head state and the ghost counter
}

func (ex *Exec) loop(st *State, s ast.Stmt, label string) *State {
	lp := &loopParts{node: s, mods: map[types.Object]bool{}}
	ex.loopSeq++
	id := ex.loopSeq
	var unroll int64 = -1
	switch s := s.(type) {
	case *ast.ForStmt:
		if s.Init != nil {
			st = ex.stmt(st, s.Init)
			if st == nil {
				return nil
			}
		}
		lp.body = s.Body
		lp.cond = func(b *State) *Term {
			if s.Cond == nil {
				return True()
			}
			return ex.expr(b, s.Cond)
		}
		lp.bind = func(b *State) {}
		lp.post = func(b *State) *State {
			if s.Post == nil {
				return b
			}
			return ex.stmt(b, s.Post)
		}
		ex.assigned(s.Body, lp.mods)
		if s.Post != nil {
			ex.assigned(s.Post, lp.mods)
		}
		if s.Cond != nil {
			ex.assigned(s.Cond, lp.mods)
		}
	case *ast.RangeStmt:
		ex.assigned(s.Body, lp.mods)
		lp.body = s.Body
		lp.post = func(b *State) *State { return b }
		unroll = ex.rangeParts(st, s, lp)
		if s.Tok == token.ASSIGN {
			for _, e := range []ast.Expr{s.Key, s.Value} {
				if e != nil {
					ex.lvalues(e, lp.mods)
				}
			}
		}
	}
	if ex.concrete && unroll >= 0 {
		return ex.unrolled(st, lp, unroll, label)
	}
	ex.top().loops++

	mods := map[types.Object]bool{}
	for o := range lp.mods {
		if _, ok := st.vars[o]; ok && !ex.addr[o] {
			mods[o] = true
		}
	}
	// heap write set: dry runs to a fixpoint
	wset := map[string]bool{}
	ex.dry++
	for {
		h := ex.havocState(st, mods, wset)
		ends, _, _ := ex.iteration(h, lp, label)
		grew := false
		for _, e := range ends {
			for k := range e.heap {
				base := ex.comp(h, k, compSort[k], compElem[k])
				if e.heap[k] != base && !wset[k] {
					wset[k] = true
					grew = true
				}
			}
			for o := range e.vars {
				if x, ok := h.vars[o]; ok && x != e.vars[o] && !mods[o] {
					mods[o] = true
					grew = true
				}
			}
			if e.tn != h.tn {
				if !wset["tn"] {
					wset["tn"] = true
					grew = true
				}
			}
			if e.next != h.next && !wset["next"] {
				wset["next"] = true
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	ex.dry--
	// real run
	entry := st
	k := Fresh("k", SInt)
	lp.k = k
	h := ex.havocState(entry, mods, wset)
	h.assume(Le(IntLit(0), k))
	h.assume(Le(entry.next, h.next))
	if h.tn != entry.tn {
		h.assume(Le(entry.tn, h.tn))
	}
	ctx := &loopCtx{id: id, k: k, entry: entry.clone(), rank: lp.rank, over: lp.over}
	ex.loopStack = append(ex.loopStack, ctx)
	if lp.facts != nil {
		lp.facts(h)
	}
	ex.foldFacts(h, k)
	cs := ex.candidates(entry, h, mods, wset, lp, ctx)
	var kept []*candInst
	for _, c := range cs {
		t0, ok := c.at(entry, IntLit(0))
		if !ok {
			continue
		}
		th, ok := c.at(h, k)
		if !ok || th.isTrue() {
			continue
		}
		if t0.isFalse() {
			continue
		}
		c.c.id = len(ex.cands)
		c.head = th
		kept = append(kept, c)
		if ex.dry == 0 {
			ex.cands = append(ex.cands, c.c)
			if !t0.isTrue() {
				ex.obls = append(ex.obls, &Obl{Fn: ex.root.Key, Kind: "init", Label: c.c.text, facts: entry.facts, goal: t0, cand: c.c, Pos: ex.posOf(s)})
			}
		}
	}
	for _, c := range kept {
		h.facts = h.facts.add(Fact{t: c.head, cand: c.c})
	}
	mark := h.facts
	from := len(ex.top().exits)
	hc := h.clone()
	cond := lp.cond(hc)
	var out *State
	var ends []*State
	brs := []*Exit{}
	if !cond.isFalse() {
		b := hc.clone()
		b.assumeBranch(cond)
		lp.bind(b)
		b = ex.block(b, lp.body.List)
		es := ex.take(from, "continue", label)
		brs = ex.take(from, "break", label)
		if b != nil && !ex.dead(b) {
			es = append(es, &Exit{st: b})
		}
		for _, e := range es {
			if p := lp.post(e.st); p != nil {
				ends = append(ends, p)
			}
		}
	}
	k1 := Add(k, IntLit(1))
	if ex.dry == 0 {
		for _, e := range ends {
			for _, c := range kept {
				te, ok := c.at(e, k1)
				if !ok {
					te = False()
				}
				if te.isTrue() {
					continue
				}
				ex.obls = append(ex.obls, &Obl{Fn: ex.root.Key, Kind: "keep", Label: c.c.text, facts: e.facts, goal: te, cand: c.c, Pos: ex.posOf(s)})
			}
		}
	}
	ex.loopStack = ex.loopStack[:len(ex.loopStack)-1]
	if !cond.isTrue() {
		out = hc
		out.assumeBranch(Not(cond))
	}
	if len(brs) == 0 {
		return ex.dropVars(out, entry)
	}
	var xs []*Exit
	if out != nil {
		xs = append(xs, &Exit{st: out})
	}
	xs = append(xs, brs...)
	m, _ := ex.mergeExits(mark, xs)
	return ex.dropVars(m, entry)
}

func (ex *Exec) dropVars(m, entry *State) *State {
	if m == nil {
		return nil
	}
	for o := range m.vars {
		if _, ok := entry.vars[o]; !ok {
			delete(m.vars, o)
		}
	}
	return m
}

func (ex *Exec) unrolled(st *State, lp *loopParts, n int64, label string) *State {
	for i := int64(0); i < n && st != nil; i++ {
		lp.k = IntLit(i)
		from := len(ex.top().exits)
		mark := st.facts
		lp.bind(st)
		b := ex.block(st, lp.body.List)
		es := ex.take(from, "continue", label)
		if brs := ex.take(from, "break", label); len(brs) > 0 {
			panic(unsupported("break in unrolled loop"))
		}
		if b != nil {
			es = append(es, &Exit{st: b})
		}
		st, _ = ex.mergeExits(mark, es)
	}
	return st
}

// iteration runs cond, body, post once (dry) and returns end states.
func (ex *Exec) iteration(h *State, lp *loopParts, label string) (ends, brs, rets []*State) {
	k := Fresh("kd", SInt)
	old := lp.k
	lp.k = k
	defer func() { lp.k = old }()
	h.assume(Le(IntLit(0), k))
	from := len(ex.top().exits)
	c := lp.cond(h)
	b := h.clone()
	b.assumeBranch(c)
	lp.bind(b)
	b = ex.block(b, lp.body.List)
	es := ex.take(from, "continue", label)
	for _, e := range ex.take(from, "break", label) {
		brs = append(brs, e.st)
	}
	for _, e := range ex.top().exits[from:] {
		rets = append(rets, e.st)
	}
	ex.top().exits = ex.top().exits[:from]
	if b != nil {
		es = append(es, &Exit{st: b})
	}
	for _, e := range es {
		if p := lp.post(e.st); p != nil {
			ends = append(ends, p)
		}
	}
	return
}

// havocState returns a copy of st with the given variables and heap
// components replaced by fresh symbols.
func (ex *Exec) havocState(st *State, mods map[types.Object]bool, wset map[string]bool) *State {
	h := st.clone()
	if wset["next"] {
		h.next = Fresh("next", SInt)
	}
	if wset["tn"] {
		h.tn = Fresh("tn", SInt)
	}
	var objs []types.Object
	for o := range mods {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		v := Fresh("v."+o.Name(), st.vars[o].sort)
		h.vars[o] = v
		h.assume(validVal(v, ex.subst(o.Type()), h.next))
	}
	for _, n := range sortedKeys(wset) {
		if n == "next" || n == "tn" {
			continue
		}
		ex.comp(st, n, compSort[n], compElem[n])
		t := Fresh("H:"+n, compSort[n])
		h.heap[n] = t
		if v := ex.validComp(n, t, h.next); !v.isTrue() {
			h.facts = h.facts.add(Fact{t: v, opt: true})
		}
	}
	if wset["OK"] || wset["ON"] || wset["OI"] {
		keys, n, idx, _ := ex.om(h)
		h.assume(omWF(keys, n, idx))
	}
	return h
}

// assigned collects variables assigned anywhere below n.
func (ex *Exec) assigned(n ast.Node, out map[types.Object]bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				ex.lvalues(l, out)
			}
		case *ast.IncDecStmt:
			ex.lvalues(x.X, out)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					ex.lvalues(x.Key, out)
				}
				if x.Value != nil {
					ex.lvalues(x.Value, out)
				}
			}
		}
		return true
	})
}

func (ex *Exec) lvalues(e ast.Expr, out map[types.Object]bool) {
	for {
		switch x := ast.Unparen(e).(type) {
		case *ast.Ident:
			if o := ex.info().ObjectOf(x); o != nil {
				out[o] = true
			}
			return
		case *ast.SelectorExpr:
			e = x.X
			continue
		}
		return
	}
}

// rangeParts fills in the pieces of a range loop; returns the literal length
// when the ranged slice has one.
func (ex *Exec) rangeParts(st *State, s *ast.RangeStmt, lp *loopParts) int64 {
	t := ex.typeOf(s.X)
	def := func(b *State, e ast.Expr, v *Term, vt types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			o := ex.info().Defs[e.(*ast.Ident)]
			ex.declare(b, o, v)
			return
		}
		ex.store(b, e, ex.conv(b, v, vt, ex.typeOf(e)))
	}
	intT := types.Typ[types.Int]
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x := ex.expr(st, s.X)
		n := SLen(x)
		lp.bound = n
		lp.over = Val{x, t}
		lp.cond = func(b *State) *Term { return Lt(lp.k, n) }
		lp.facts = func(h *State) { h.assume(Le(lp.k, n)) }
		lp.bind = func(b *State) {
			_, m := ex.memComp(b, u.Elem())
			v := Select(Select(m, SBase(x)), Add(SOff(x), lp.k))
			b.assume(ex.loaded(b, v, u.Elem()))
			def(b, s.Key, lp.k, intT)
			def(b, s.Value, v, u.Elem())
		}
		if n.n != nil {
			return n.n.Int64()
		}
		return -1
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n := ex.expr(st, s.X)
			lp.bound = Ite(Lt(n, IntLit(0)), IntLit(0), n)
			lp.cond = func(b *State) *Term { return Lt(lp.k, n) }
			lp.facts = func(h *State) { h.assume(Or(Le(lp.k, n), Eq(lp.k, IntLit(0)))) }
			lp.bind = func(b *State) { def(b, s.Key, lp.k, t) }
			return -1
		}
		if u.Info()&types.IsString != 0 {
			x := ex.expr(st, s.X)
			n := Fn("runecount", SInt, x)
			lp.bound = n
			lp.cond = func(b *State) *Term { return Lt(lp.k, n) }
			lp.facts = func(h *State) { h.assume(Le(lp.k, n)); h.assume(Le(n, StrLen(x))) }
			lp.bind = func(b *State) {
				i := Fn("runepos", SInt, x, lp.k)
				r := Fn("runeat", SInt, x, lp.k)
				b.assume(And(Le(IntLit(0), i), Lt(i, StrLen(x)), inRange(r, types.Typ[types.Int32])))
				def(b, s.Key, i, intT)
				def(b, s.Value, r, types.Typ[types.Int32])
			}
			return -1
		}
	case *types.Map:
		m := ex.expr(st, s.X)
		// an arbitrary enumeration of the keys present at the start
		has, val, cnt := ex.gomap(st, t)
		n := Select(cnt, m)
		ks := sortOf(u.Key())
		enum := Fresh("enum", arrSort(SInt, ks))
		inv := Fresh("enumidx", arrSort(ks, SInt))
		hm := Select(has, m)
		n = Ite(Eq(m, IntLit(0)), IntLit(0), n)
		i := BVar("i", SInt)
		kk := BVar("key", ks)
		st.assume(Le(IntLit(0), n))
		st.assume(Forall([]*Term{i}, Implies(And(Le(IntLit(0), i), Lt(i, n)), And(Select(hm, Select(enum, i)), Eq(Select(inv, Select(enum, i)), i))), []*Term{Select(enum, i)}))
		st.assume(Implies(Neq(m, IntLit(0)), Forall([]*Term{kk}, Implies(Select(hm, kk), And(Le(IntLit(0), Select(inv, kk)), Lt(Select(inv, kk), n), Eq(Select(enum, Select(inv, kk)), kk))), []*Term{Select(hm, kk)})))
		lp.bound = n
		lp.rank = inv
		lp.cond = func(b *State) *Term { return Lt(lp.k, n) }
		lp.facts = func(h *State) { h.assume(Le(lp.k, n)) }
		lp.bind = func(b *State) {
			k := Select(enum, lp.k)
			// the map must not change while it is ranged over
			h2, _, _ := ex.gomap(b, t)
			if h2 != has {
				ex.oblige(b, "requires", "range-map-unchanged", Eq(Select(h2, m), hm), []string{"C23"}, s)
				b.assume(Eq(Select(h2, m), hm))
			}
			_, v2, _ := ex.gomap(b, t)
			_ = val
			v := Select(Select(v2, m), k)
			b.assume(ex.loaded(b, v, u.Elem()))
			def(b, s.Key, k, u.Key())
			def(b, s.Value, v, u.Elem())
		}
		return -1
	case *types.Signature:
		return ex.rangeFunc(st, s, lp, def)
	}
	panic(unsupported("range over " + typeStr(t)))
}

func (ex *Exec) rangeFunc(st *State, s *ast.RangeStmt, lp *loopParts, def func(b *State, e ast.Expr, v *Term, vt types.Type)) int64 {
	c, ok := ast.Unparen(s.X).(*ast.CallExpr)
	if !ok {
		panic(unsupported("range over function value"))
	}
	f := ex.calleeFunc(c)
	if f == nil {
		panic(unsupported("range over function value"))
	}
	anyT := types.Universe.Lookup("any").Type()
	strT := types.Typ[types.String]
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok && isOrderedMap(ex.typeOf(sel.X)) {
		m := ex.expr(st, sel.X)
		ex.safe(st, "nil-map", Neq(m, IntLit(0)), c)
		keys0, n0, _, _ := ex.om(st)
		keysM, nM := Select(keys0, m), Select(n0, m)
		lp.bound = nM
		lp.cond = func(b *State) *Term { return Lt(lp.k, nM) }
		lp.facts = func(h *State) { h.assume(Le(lp.k, nM)) }
		ex.uses["orderedmap iteration"] = true
		lp.bind = func(b *State) {
			// the iterated map must not gain or lose keys during the loop
			k2, n2, _, vals := ex.om(b)
			if k2 != keys0 || n2 != n0 {
				ex.oblige(b, "requires", "range-map-unchanged", And(Eq(Select(n2, m), nM), Eq(Select(k2, m), keysM)), []string{"C23"}, s)
				b.assume(And(Eq(Select(n2, m), nM), Eq(Select(k2, m), keysM)))
			}
			k := Select(keysM, lp.k)
			v := Select(Select(vals, m), k)
			b.assume(ex.loaded(b, v, anyT))
			switch f.Name() {
			case "AllFromFront":
				def(b, s.Key, k, strT)
				def(b, s.Value, v, anyT)
			case "Keys":
				def(b, s.Key, k, strT)
			case "Values":
				def(b, s.Key, v, anyT)
			default:
				panic(unsupported("orderedmap iterator " + f.Name()))
			}
		}
		return -1
	}
	panic(unsupported("range over " + f.FullName()))
}

var _ = constant.MakeBool
var _ = strings.TrimSpace

// extField: a field of a struct of an external package reached by pointer.
func (ex *Exec) extField(st *State, t types.Type, f *types.Var) (string, *Term) {
	n := "X:" + typeStr(t) + "." + f.Name()
	return n, ex.comp(st, n, arrSort(SInt, sortOf(f.Type())), f.Type())
}
