package main

import "fmt"

func bvarNamed(n string, s Sort) *Term {
	x := T.mk("sym", n, s)
	x.bound = true
	return x
}

// Quantifier preparation. Facts: bound variables are shifted so that array
// indices and function arguments are plain variables (clean triggers). Goals:
// universally quantified goals are skolemised.

// linIn writes x as v + rest (coefficient one) if possible.
func linIn(x, v *Term) (*Term, bool) {
	if x == v {
		return IntLit(0), true
	}
	if x.op != "app" || !mentions(x, v) {
		return nil, false
	}
	switch x.name {
	case "+":
		if r, ok := linIn(x.args[0], v); ok && !mentions(x.args[1], v) {
			return Add(r, x.args[1]), true
		}
		if r, ok := linIn(x.args[1], v); ok && !mentions(x.args[0], v) {
			return Add(x.args[0], r), true
		}
	case "-":
		if len(x.args) == 2 {
			if r, ok := linIn(x.args[0], v); ok && !mentions(x.args[1], v) {
				return Sub(r, x.args[1]), true
			}
		}
	}
	return nil, false
}

func mentions(x, v *Term) bool {
	if !x.bound {
		return false
	}
	if x == v {
		return true
	}
	for _, a := range x.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

type access struct {
	t    *Term
	rest *Term
}

// accesses finds uses of v as an array index or function argument.
func accesses(x, v *Term, out *[]access, seen map[*Term]bool) {
	if seen[x] || !x.bound {
		return
	}
	seen[x] = true
	if x.op == "app" {
		if x.name == "select" {
			if r, ok := linIn(x.args[1], v); ok && !mentions(x.args[0], v) && !r.bound {
				*out = append(*out, access{x, r})
			}
		} else if _, decl := T.decls[x.name]; decl {
			for i, a := range x.args {
				if a.sort != v.sort {
					continue
				}
				var r *Term
				ok := false
				if a.sort == SInt {
					r, ok = linIn(a, v)
				} else if a == v {
					r, ok = IntLit(0), true
				}
				if ok && !r.bound {
					others := true
					for j, b := range x.args {
						if j != i && mentions(b, v) {
							others = false
						}
					}
					if others {
						*out = append(*out, access{x, r})
					}
				}
			}
		}
	}
	for _, a := range x.args {
		accesses(a, v, out, seen)
	}
}

func prepFact(x *Term, memo map[*Term]*Term) *Term {
	if x.sort != SBool {
		return x
	}
	if r, ok := memo[x]; ok {
		return r
	}
	r := x
	switch {
	case x.op == "app" && x.name == "and":
		var as []*Term
		for _, a := range x.args {
			as = append(as, prepFact(a, memo))
		}
		r = And(as...)
	case x.op == "app" && x.name == "or":
		var as []*Term
		for _, a := range x.args {
			as = append(as, prepFact(a, memo))
		}
		r = Or(as...)
	case x.op == "app" && x.name == "=>":
		r = Implies(prepGoalSide(x.args[0], memo), prepFact(x.args[1], memo))
	case x.op == "app" && x.name == "not":
		r = Not(prepGoalSide(x.args[0], memo))
	case x.op == "app" && x.name == "ite":
		r = Ite(x.args[0], prepFact(x.args[1], memo), prepFact(x.args[2], memo))
	case x.op == "forall" && len(x.pats) == 0:
		r = prepForall(x, memo)
	case x.op == "exists" && !x.bound:
		m := map[*Term]*Term{}
		for _, v := range x.qv {
			m[v] = Sym(fmt.Sprintf("sk!%d!%s", x.id, v.name), v.sort)
		}
		r = prepFact(Subst(x.args[0], m, map[*Term]*Term{}), memo)
	}
	memo[x] = r
	return r
}

// prepGoalSide prepares a negatively occurring formula (its negation is a fact).
func prepGoalSide(x *Term, memo map[*Term]*Term) *Term {
	if x.sort != SBool {
		return x
	}
	switch {
	case x.op == "app" && (x.name == "and" || x.name == "or"):
		var as []*Term
		for _, a := range x.args {
			as = append(as, prepGoalSide(a, memo))
		}
		if x.name == "and" {
			return And(as...)
		}
		return Or(as...)
	case x.op == "app" && x.name == "=>":
		return Implies(prepFact(x.args[0], memo), prepGoalSide(x.args[1], memo))
	case x.op == "app" && x.name == "not":
		return Not(prepFact(x.args[0], memo))
	case x.op == "forall" && !x.bound:
		m := map[*Term]*Term{}
		for _, v := range x.qv {
			m[v] = Sym(fmt.Sprintf("sk!%d!%s", x.id, v.name), v.sort)
		}
		return prepGoalSide(Subst(x.args[0], m, map[*Term]*Term{}), memo)
	case x.op == "exists" && !x.bound && len(x.qv) == 1:
		// not exists v: p  ==  forall v: not p
		f := prepForall(Forall(x.qv, Not(x.args[0])), memo)
		return Not(f)
	}
	return x
}

func prepForall(x *Term, memo map[*Term]*Term) *Term {
	if len(x.qv) != 1 {
		return x
	}
	v := x.qv[0]
	body := x.args[0]
	var acc []access
	accesses(body, v, &acc, map[*Term]bool{})
	if len(acc) == 0 {
		return x
	}
	var rests []*Term
	by := map[*Term][]*Term{}
	for _, a := range acc {
		if by[a.rest] == nil {
			rests = append(rests, a.rest)
		}
		by[a.rest] = append(by[a.rest], a.t)
	}
	if len(rests) > 6 {
		rests = rests[:6]
	}
	var out []*Term
	for i, r := range rests {
		nv := bvarNamed(fmt.Sprintf("j?%d?%d", x.id, i), v.sort)
		val := nv
		if v.sort == SInt {
			val = Sub(nv, r)
		}
		m := map[*Term]*Term{v: val}
		mm := map[*Term]*Term{}
		nb := Subst(body, m, mm)
		var pats [][]*Term
		seen := map[*Term]bool{}
		for _, p := range by[r] {
			np := Subst(p, m, mm)
			if np.op == "app" && np.bound && !seen[np] && !hasIte(np) {
				seen[np] = true
				pats = append(pats, []*Term{np})
			}
		}
		nb = prepInner(nb)
		if len(pats) == 0 {
			out = append(out, Forall([]*Term{nv}, nb))
			continue
		}
		if len(pats) > 4 {
			pats = pats[:4]
		}
		out = append(out, Forall([]*Term{nv}, nb, pats...))
	}
	return And(out...)
}

// prepInner prepares quantifiers nested in a universally quantified body.
func prepInner(x *Term) *Term {
	if !x.bound || x.sort != SBool {
		return x
	}
	switch {
	case x.op == "app" && (x.name == "and" || x.name == "or"):
		var as []*Term
		for _, a := range x.args {
			as = append(as, prepInner(a))
		}
		if x.name == "and" {
			return And(as...)
		}
		return Or(as...)
	case x.op == "app" && x.name == "=>":
		return Implies(x.args[0], prepInner(x.args[1]))
	case x.op == "app" && x.name == "ite":
		return Ite(x.args[0], prepInner(x.args[1]), prepInner(x.args[2]))
	case x.op == "forall" && len(x.pats) == 0 && len(x.qv) == 1:
		v := x.qv[0]
		var acc []access
		accessesOpen(x.args[0], v, &acc, map[*Term]bool{})
		if len(acc) == 0 {
			return x
		}
		var rests []*Term
		by := map[*Term][]*Term{}
		for _, a := range acc {
			if by[a.rest] == nil {
				rests = append(rests, a.rest)
			}
			by[a.rest] = append(by[a.rest], a.t)
		}
		if len(rests) > 4 {
			rests = rests[:4]
		}
		var out []*Term
		for i, r := range rests {
			nv := bvarNamed(fmt.Sprintf("jj?%d?%d", x.id, i), v.sort)
			val := nv
			if v.sort == SInt {
				val = Sub(nv, r)
			}
			mm := map[*Term]*Term{}
			m := map[*Term]*Term{v: val}
			nb := prepInner(Subst(x.args[0], m, mm))
			var pats [][]*Term
			seen := map[*Term]bool{}
			for _, p := range by[r] {
				np := Subst(p, m, mm)
				if np.op == "app" && mentions(np, nv) && !seen[np] && !hasIte(np) && len(pats) < 4 {
					seen[np] = true
					pats = append(pats, []*Term{np})
				}
			}
			out = append(out, Forall([]*Term{nv}, nb, pats...))
		}
		return And(out...)
	}
	return x
}

func accessesOpen(x, v *Term, out *[]access, seen map[*Term]bool) {
	if seen[x] || !x.bound {
		return
	}
	seen[x] = true
	if x.op == "app" && x.name == "select" {
		if r, ok := linIn(x.args[1], v); ok && !mentions(x.args[0], v) {
			*out = append(*out, access{x, r})
		}
	}
	for _, a := range x.args {
		accessesOpen(a, v, out, seen)
	}
}

func hasIte(x *Term) bool {
	if x.op == "app" {
		switch x.name {
		case "ite", "and", "or", "not", "=", "=>", "<", "<=":
			return true
		}
	}
	for _, a := range x.args {
		if hasIte(a) {
			return true
		}
	}
	return false
}
