package main

import "os"

// specialise simplifies a query by what its facts say outright: an atom that
// is a fact is true wherever it occurs, and a term known to equal a literal is
// that literal. The antecedents of the goal become facts. The facts used are
// kept, so the result is equivalent to the query.
var noSpecialise = os.Getenv("GV_NOSPEC") != ""

func specialise(facts []*Term, goal *Term) ([]*Term, *Term) {
	if noSpecialise {
		return facts, goal
	}
	termMu.Lock()
	defer termMu.Unlock()
	var flat []*Term
	seen := map[*Term]bool{}
	var add func(f *Term)
	add = func(f *Term) {
		if f.op == "app" && f.name == "and" {
			for _, a := range f.args {
				add(a)
			}
			return
		}
		if !seen[f] && !f.isTrue() {
			seen[f] = true
			flat = append(flat, f)
		}
	}
	for _, f := range facts {
		add(f)
	}
	units := map[*Term]*Term{}
	isUnit := map[*Term]bool{}
	atom := func(x *Term) bool {
		if x.op == "sym" {
			return !x.bound
		}
		if x.op != "app" || x.bound {
			return false
		}
		switch x.name {
		case "and", "or", "=>", "ite", "not":
			return false
		}
		return true
	}
	lit := func(x *Term) bool {
		if x.n != nil || x.op == "lit" {
			return true
		}
		_, ok := strLitOf(x)
		return ok
	}
	unit := func(f *Term) bool {
		switch {
		case atom(f):
			units[f] = True()
			if f.name == "=" && len(f.args) == 2 {
				a, b := f.args[0], f.args[1]
				if lit(a) {
					a, b = b, a
				}
				if lit(b) && !lit(a) && atom(a) && a.sort != SBool {
					if _, ok := units[a]; !ok {
						units[a] = b
					}
				}
			}
			return true
		case f.op == "app" && f.name == "not" && atom(f.args[0]):
			units[f.args[0]] = False()
			return true
		}
		return false
	}
	for round := 0; round < 5; round++ {
		for goal.op == "app" && goal.name == "=>" {
			add(goal.args[0])
			goal = goal.args[1]
		}
		n := len(units)
		for _, f := range flat {
			if !isUnit[f] && unit(f) {
				isUnit[f] = true
			}
		}
		if len(units) == n {
			break
		}
		memo := map[*Term]*Term{}
		old := flat
		flat = nil
		seen = map[*Term]bool{}
		for _, f := range old {
			if isUnit[f] {
				add(f)
			}
		}
		for _, f := range old {
			if !isUnit[f] {
				add(Subst(f, units, memo))
			}
		}
		goal = Subst(goal, units, memo)
	}
	return flat, goal
}
