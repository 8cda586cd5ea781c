package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type Fact struct {
	t      *Term
	branch bool  // part of the path condition (as opposed to an assumption)
	cand   *Cand // assumed only while this loop-invariant candidate survives
	opt    bool  // left out in the first attempt (costly and rarely needed)
}

type FactList struct {
	f    Fact
	prev *FactList
	n    int
}

func (l *FactList) add(f Fact) *FactList {
	n := 1
	if l != nil {
		n = l.n + 1
	}
	return &FactList{f, l, n}
}

// since returns the facts added after mark, oldest first.
func (l *FactList) since(mark *FactList) []Fact {
	var out []Fact
	for x := l; x != mark; x = x.prev {
		if x == nil {
			panic("fact mark not an ancestor")
		}
		out = append(out, x.f)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type State struct {
	vars  map[types.Object]*Term
	heap  map[string]*Term
	next  *Term
	tn    *Term // number of trace events so far
	facts *FactList
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]*Term, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), next: s.next, tn: s.tn, facts: s.facts}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	s.facts = s.facts.add(Fact{t: t})
}
func (s *State) assumeBranch(t *Term) {
	if t.isTrue() {
		return
	}
	s.facts = s.facts.add(Fact{t: t, branch: true})
}

// ---- heap components

// compSort records the sort of every heap component used.
var compSort = map[string]Sort{}
var compElem = map[string]types.Type{} // static type of the values held, for validity

func (ex *Exec) comp(st *State, name string, sort Sort, elem types.Type) *Term {
	if _, ok := compSort[name]; !ok {
		compSort[name] = sort
		compElem[name] = elem
	}
	if t, ok := st.heap[name]; ok {
		return t
	}
	// first use: the value at function entry
	if strings.HasPrefix(name, "B:") {
		name = name[2:] // the scopes as of the last callback: at entry, the scopes at entry
	}
	if ex.concrete && strings.HasPrefix(name, "G:") {
		return zero(elem)
	}
	t := Sym("H0:"+name, sort)
	if T.symFacts[t.name] == nil {
		T.symFacts[t.name] = []*Term{ex.validComp(name, t, ex.entryNext)}
		if name == "OK" || name == "ON" || name == "OI" {
			// all three share one representation invariant
			k, n, i := Sym("H0:OK", arrSort(SInt, arrSort(SInt, SStr))), Sym("H0:ON", arrSort(SInt, SInt)), Sym("H0:OI", arrSort(SInt, arrSort(SStr, SInt)))
			T.symFacts[t.name] = append(T.symFacts[t.name], omWF(k, n, i))
		}
		if strings.HasPrefix(name, "MH:") {
			// the nil map is empty
			k := BVar("k", arrIdx(arrElem(sort)))
			has := Select(Select(t, IntLit(0)), k)
			T.symFacts[t.name] = append(T.symFacts[t.name], Forall([]*Term{k}, Not(has), []*Term{has}))
		}
		if strings.HasPrefix(name, "MV:") && elem != nil && neverNilElem(elem) {
			hs := arrSort(SInt, arrSort(arrIdx(arrElem(sort)), SBool))
			has := Sym("H0:MH:"+name[3:], hs)
			r, k := BVar("r", SInt), BVar("k", arrIdx(arrElem(sort)))
			v := Select(Select(t, r), k)
			T.symFacts[t.name] = append(T.symFacts[t.name], Forall([]*Term{r, k}, Implies(Select(Select(has, r), k), Neq(v, IntLit(0))), []*Term{v}))
		}
	}
	return t
}

func (ex *Exec) fieldComp(st *State, structType types.Type, f *types.Var) (string, *Term) {
	n := "F:" + typeStr(structType) + "." + f.Name()
	return n, ex.comp(st, n, arrSort(SInt, sortOf(f.Type())), f.Type())
}
func (ex *Exec) memComp(st *State, elem types.Type) (string, *Term) {
	n := "M:" + typeStr(elem)
	return n, ex.comp(st, n, arrSort(SInt, arrSort(SInt, sortOf(elem))), elem)
}
func (ex *Exec) cellComp(st *State, elem types.Type) (string, *Term) {
	n := "P:" + typeStr(elem)
	return n, ex.comp(st, n, arrSort(SInt, sortOf(elem)), elem)
}

// ordered maps: keys array, size, index, values
func (ex *Exec) om(st *State) (keys, n, idx, vals *Term) {
	anyT := types.Universe.Lookup("any").Type()
	strT := types.Typ[types.String]
	keys = ex.comp(st, "OK", arrSort(SInt, arrSort(SInt, SStr)), strT)
	n = ex.comp(st, "ON", arrSort(SInt, SInt), types.Typ[types.Int])
	idx = ex.comp(st, "OI", arrSort(SInt, arrSort(SStr, SInt)), types.Typ[types.Int])
	vals = ex.comp(st, "OV", arrSort(SInt, arrSort(SStr, SAny)), anyT)
	return
}

func mapCompNames(t types.Type) (string, string, string) {
	m := types.Unalias(t).Underlying().(*types.Map)
	k := typeStr(m.Key()) + "," + typeStr(m.Elem())
	return "MH:" + k, "MV:" + k, "MN:" + k
}
func (ex *Exec) gomap(st *State, t types.Type) (has, val, n *Term) {
	m := types.Unalias(t).Underlying().(*types.Map)
	hn, vn, nn := mapCompNames(t)
	has = ex.comp(st, hn, arrSort(SInt, arrSort(sortOf(m.Key()), SBool)), types.Typ[types.Bool])
	val = ex.comp(st, vn, arrSort(SInt, arrSort(sortOf(m.Key()), sortOf(m.Elem()))), m.Elem())
	n = ex.comp(st, nn, arrSort(SInt, SInt), types.Typ[types.Int])
	return
}

// validVal: a value of static type t that was reachable when the allocation
// counter was next. nil result means nothing to say.
func validVal(x *Term, t types.Type, next *Term) *Term {
	t = types.Unalias(t)
	switch sortOf(t) {
	case SSlice:
		return validSlice(x, next)
	case SAny:
		return And(Implies(Is("aptr", x), And(Lt(IntLit(0), Acc("aptr", "aptr_v", x)), Lt(Acc("aptr", "aptr_v", x), next))),
			Implies(Is("aslc", x), validSlice(Acc("aslc", "aslc_v", x), next)),
			Implies(Is("aint", x), inRange(Acc("aint", "aint_v", x), types.Typ[types.Int])))
	case SInt:
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			return And(Le(IntLit(0), x), Lt(x, next))
		case *types.Basic:
			return inRange(x, t)
		}
		return True()
	}
	if u, ok := t.Underlying().(*types.Struct); ok && isRepoStruct(t) {
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, validVal(structGet(x, u.Field(i).Name()), u.Field(i).Type(), next))
		}
		return And(cs...)
	}
	return True()
}

func inRange(x *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if lo == nil {
		return True()
	}
	return And(Le(BigLit(lo), x), Le(x, BigLit(hi)))
}

func validSlice(x, next *Term) *Term {
	return And(Le(IntLit(0), SBase(x)), Lt(SBase(x), next), Le(IntLit(0), SOff(x)), Le(IntLit(0), SLen(x)), Le(SLen(x), SCap(x)), Le(SCap(x), maxLen),
		Implies(Eq(SBase(x), IntLit(0)), Eq(SCap(x), IntLit(0))))
}

var maxLen = IntLit0(1 << 48)

func IntLit0(i int64) *Term {
	if T == nil {
		T = NewTerms()
	}
	return IntLit(i)
}

// validComp: everything stored in allocated objects is itself valid.
func (ex *Exec) validComp(name string, h, next *Term) *Term {
	if strings.HasPrefix(name, "T:") || strings.HasPrefix(name, "X:") || strings.HasPrefix(name, "B:") {
		return True()
	}
	el := compElem[name]
	r := BVar("r", SInt)
	alloc := And(Lt(IntLit(0), r), Lt(r, next))
	switch {
	case strings.HasPrefix(name, "F:"), strings.HasPrefix(name, "P:"):
		s := Select(h, r)
		v := validVal(s, el, next)
		if v.isTrue() {
			return v
		}
		return Forall([]*Term{r}, Implies(alloc, v), []*Term{s})
	case strings.HasPrefix(name, "M:"):
		i := BVar("i", SInt)
		s := Select(Select(h, r), i)
		v := validVal(s, el, next)
		if v.isTrue() {
			return v
		}
		return Forall([]*Term{r, i}, Implies(alloc, v), []*Term{s})
	case strings.HasPrefix(name, "MV:"):
		k := BVar("k", arrIdx(arrElem(h.sort)))
		s := Select(Select(h, r), k)
		v := validVal(s, el, next)
		if v.isTrue() {
			return v
		}
		return Forall([]*Term{r, k}, Implies(alloc, v), []*Term{s})
	case strings.HasPrefix(name, "MN:"):
		return Forall([]*Term{r}, And(Le(IntLit(0), Select(h, r)), Le(Select(h, r), maxLen)), []*Term{Select(h, r)})
	case name == "ON":
		return Forall([]*Term{r}, And(Le(IntLit(0), Select(h, r)), Le(Select(h, r), maxLen)), []*Term{Select(h, r)})
	case name == "OV":
		k := BVar("k", SStr)
		s := Select(Select(h, r), k)
		return Forall([]*Term{r, k}, Implies(alloc, validVal(s, el, next)), []*Term{s})
	case strings.HasPrefix(name, "G:"):
		return validVal(h, el, next)
	}
	return True()
}

// omWF: representation invariant of ordered maps (each key listed once, at the
// position the index gives). Stated for a base version of the components.
func omWF(keys, n, idx *Term) *Term {
	r, i := BVar("r", SInt), BVar("i", SInt)
	k := Select(Select(keys, r), i)
	return Forall([]*Term{r, i}, Implies(And(Le(IntLit(0), i), Lt(i, Select(n, r))), Eq(Select(Select(idx, r), k), i)), []*Term{k})
}

// ---- merging

type Exit struct {
	st    *State
	kind  string // "return", "break", "continue", "goto"
	label string
	res   []*Term
	pos   string
}

func pcOf(st *State, mark *FactList) *Term {
	var cs []*Term
	for _, f := range st.facts.since(mark) {
		if f.branch {
			cs = append(cs, f.t)
		}
	}
	return And(cs...)
}

// merge2 joins two states that split on c after mark.
func (ex *Exec) merge2(mark *FactList, c *Term, a, b *State) *State {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	m := &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, facts: mark}
	fa, fb := a.facts.since(mark), b.facts.since(mark)
	nc := Not(c)
	for _, f := range fa {
		if f.t == c {
			continue
		}
		if t := Implies(c, f.t); !t.isTrue() {
			m.facts = m.facts.add(Fact{t, f.branch, f.cand, f.opt})
		}
	}
	for _, f := range fb {
		if f.t == nc {
			continue
		}
		if t := Implies(nc, f.t); !t.isTrue() {
			m.facts = m.facts.add(Fact{t, f.branch, f.cand, f.opt})
		}
	}
	ex.mergeVals(m, []*Term{c}, []*State{a, b})
	return m
}

// mergeVals: states[i] selected by conds[i], last one otherwise.
func (ex *Exec) mergeVals(m *State, conds []*Term, states []*State) {
	n := len(states)
	sel := func(get func(s *State) *Term) *Term {
		acc := get(states[n-1])
		for i := n - 2; i >= 0; i-- {
			acc = Ite(conds[i], get(states[i]), acc)
		}
		return acc
	}
	for k := range states[0].vars {
		all := true
		for _, s := range states[1:] {
			if _, ok := s.vars[k]; !ok {
				all = false
				break
			}
		}
		if all {
			k := k
			m.vars[k] = sel(func(s *State) *Term { return s.vars[k] })
		}
	}
	keys := map[string]bool{}
	for _, s := range states {
		for k := range s.heap {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		k := k
		m.heap[k] = sel(func(s *State) *Term { return ex.comp(s, k, compSort[k], compElem[k]) })
	}
	m.next = sel(func(s *State) *Term { return s.next })
	m.tn = sel(func(s *State) *Term { return s.tn })
}

// mergeExits joins several exits (all of the same kind) that diverged after mark.
func (ex *Exec) mergeExits(mark *FactList, exits []*Exit) (*State, []*Term) {
	if len(exits) == 0 {
		return nil, nil
	}
	if len(exits) == 1 {
		return exits[0].st, exits[0].res
	}
	m := &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, facts: mark}
	var pcs []*Term
	var sts []*State
	for _, e := range exits {
		pcs = append(pcs, pcOf(e.st, mark))
		sts = append(sts, e.st)
	}
	for i, e := range exits {
		for _, f := range e.st.facts.since(mark) {
			if f.branch {
				continue
			}
			if t := Implies(pcs[i], f.t); !t.isTrue() {
				m.facts = m.facts.add(Fact{t, false, f.cand, f.opt})
			}
		}
	}
	m.facts = m.facts.add(Fact{t: Or(pcs...), branch: true})
	ex.mergeVals(m, pcs[:len(pcs)-1], sts)
	var res []*Term
	for j := range exits[0].res {
		acc := exits[len(exits)-1].res[j]
		for i := len(exits) - 2; i >= 0; i-- {
			acc = Ite(pcs[i], exits[i].res[j], acc)
		}
		res = append(res, acc)
	}
	return m, res
}

func objName(o types.Object) string { return o.Name() }

func sortObjs(m map[types.Object]*Term) []types.Object {
	var os []types.Object
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool {
		if os[i].Pos() != os[j].Pos() {
			return os[i].Pos() < os[j].Pos()
		}
		return os[i].Name() < os[j].Name()
	})
	return os
}

var _ = fmt.Sprint
