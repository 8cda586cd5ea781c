package main

import "go/types"

// Ghost sequences: the contents of a slice as a value. seq(s) in a contract
// denotes the elements of s, boxed; the executor relates the sequence of a
// slice to the one it was built from at every append and element store.

const SSeq = Sort("GSeq")

var seqT = types.NewNamed(types.NewTypeName(0, nil, "seq", nil), types.NewStruct(nil, nil), nil)

func seqEmpty() *Term          { return Ctr(SSeq, "sempty") }
func seqSnoc(q, v *Term) *Term { return Ctr(SSeq, "ssnoc", q, v) }

func seqFn(arr, off, n *Term, et types.Type) *Term {
	if n.n != nil && n.n.Sign() <= 0 {
		return seqEmpty()
	}
	name := "seqc$" + typeStr(et)
	if _, ok := fnAxioms[name]; !ok {
		A := BVar("A", arr.sort)
		o := BVar("o", SInt)
		l := BVar("l", SInt)
		i := BVar("i", SInt)
		v := BVar("v", arrElem(arr.sort))
		x := Fn(name, SSeq, A, o, l)
		AddFnAxiom(name, Forall([]*Term{A, o, l}, And(Implies(Le(l, IntLit(0)), Eq(x, seqEmpty())), Eq(Fn("seqlen", SInt, x), Ite(Le(l, IntLit(0)), IntLit(0), l))), []*Term{x}))
		y := Fn(name, SSeq, Store(A, i, v), o, l)
		AddFnAxiom(name, Forall([]*Term{A, o, l, i, v}, Implies(Or(Lt(i, o), Le(Add(o, l), i)), Eq(y, x)), []*Term{y}))
		seqLenAxioms()
	}
	return Fn(name, SSeq, arr, off, n)
}

func seqLenAxioms() {
	if _, ok := fnAxioms["seqlen"]; ok {
		return
	}
	q := BVar("q", SSeq)
	p := BVar("p", SSeq)
	v := BVar("v", SAny)
	ln := func(x *Term) *Term { return Fn("seqlen", SInt, x) }
	AddFnAxiom("seqlen", Eq(ln(seqEmpty()), IntLit(0)))
	AddFnAxiom("seqlen", Forall([]*Term{q, v}, Eq(ln(seqSnoc(q, v)), Add(ln(q), IntLit(1))), []*Term{ln(seqSnoc(q, v))}))
	AddFnAxiom("seqlen", Forall([]*Term{q}, Le(IntLit(0), ln(q)), []*Term{ln(q)}))
	cat := func(a, b *Term) *Term { return Fn("seqcat", SSeq, a, b) }
	AddFnAxiom("seqcat", Forall([]*Term{q}, Eq(cat(q, seqEmpty()), q), []*Term{cat(q, seqEmpty())}))
	AddFnAxiom("seqcat", Forall([]*Term{p, q, v}, Eq(cat(p, seqSnoc(q, v)), seqSnoc(cat(p, q), v)), []*Term{cat(p, seqSnoc(q, v))}))
}

func seqCat(a, b *Term) *Term {
	seqLenAxioms()
	return Fn("seqcat", SSeq, a, b)
}

// seqOf is the sequence of the first n elements of slice s in state st.
func (ex *Exec) seqOf(st *State, s *Term, et types.Type, n *Term) *Term {
	_, m := ex.memComp(st, et)
	return seqFn(Select(m, SBase(s)), SOff(s), n, et)
}

// Ghost maps: the content of an ordered map (its entries in order) as a value.
// content(m) is related to the content before at every Set.

const SGMap = Sort("GMap")

var gmapT = types.NewNamed(types.NewTypeName(0, nil, "omap", nil), types.NewStruct(nil, nil), nil)

func gmapEmpty() *Term            { return Fn("gmempty", SGMap) }
func gmapPut(q, k, v *Term) *Term { return Fn("gmput", SGMap, q, k, v) }

func (ex *Exec) gmapOf(st *State, m *Term) *Term {
	k, n, i, v := ex.om(st)
	return Fn("gmcontent", SGMap, Select(k, m), Select(n, m), Select(i, m), Select(v, m))
}

func (ex *Exec) useSeq() bool { return ex.contract != nil && ex.contract.Seqs }

func (ex *Exec) seqAppended(st *State, et types.Type, before *Term, s, v *Term) {
	if ex.useSeq() {
		st.assume(Eq(ex.seqOf(st, s, et, SLen(s)), seqSnoc(before, box(et, v))))
	}
}
