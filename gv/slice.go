package main

// A proof from some of the assumptions is a proof. When there are many
// quantified assumptions, those without a symbol in common with the goal are
// left out at first.

const sliceAt = 24 // quantified assumptions

// quantified reports a quantifier anywhere in the term.
func quantified(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	memo[t] = false
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		if r {
			break
		}
		r = quantified(a, memo)
	}
	memo[t] = r
	return r
}

func symsOf(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case "sym":
		if !t.bound {
			out[t.name] = true
		}
	case "app":
		switch t.name {
		case "and", "or", "=>", "ite", "not", "=", "select", "store", "+", "-", "<", "<=", ">", ">=", "distinct":
		default:
			out["f:"+t.name] = true
		}
	}
	for _, a := range t.args {
		symsOf(a, out, seen)
	}
}

// slices proposes smaller sets of assumptions, smallest first.
func slices(facts []*Term, goal *Term) [][]*Term {
	termMu.Lock()
	defer termMu.Unlock()
	memo := map[*Term]bool{}
	nq := 0
	isQ := make([]bool, len(facts))
	for i, f := range facts {
		if quantified(f, memo) {
			isQ[i] = true
			nq++
		}
	}
	if nq < sliceAt {
		return nil
	}
	fs := make([]map[string]bool, len(facts))
	freq := map[string]int{}
	for i, f := range facts {
		if !isQ[i] {
			continue
		}
		m := map[string]bool{}
		symsOf(f, m, map[*Term]bool{})
		fs[i] = m
		for s := range m {
			freq[s]++
		}
	}
	rare := func(s string) bool { return freq[s] <= nq/3 }
	goalSyms := map[string]bool{}
	symsOf(goal, goalSyms, map[*Term]bool{})
	cur := map[string]bool{}
	for s := range goalSyms {
		cur[s] = true
	}
	in := make([]bool, len(facts))
	var out [][]*Term
	prev := -1
	for round := 0; round < 2; round++ {
		next := map[string]bool{}
		n := 0
		for i := range facts {
			if !isQ[i] {
				continue
			}
			if !in[i] {
				for s := range fs[i] {
					if cur[s] && rare(s) {
						in[i] = true
						break
					}
				}
				if in[i] {
					for s := range fs[i] {
						next[s] = true
					}
				}
			}
			if in[i] {
				n++
			}
		}
		if n != prev && n < nq {
			var o []*Term
			for i, f := range facts {
				if !isQ[i] || in[i] {
					o = append(o, f)
				}
			}
			out = append(out, o)
			prev = n
		}
		for s := range next {
			cur[s] = true
		}
	}
	return out
}

// proveSliced tries the smaller sets with the first back end only.
func proveSliced(facts []*Term, goal *Term, sec int) (Result, bool) {
	for _, fs := range slices(facts, goal) {
		s := Script(fs, goal, false)
		r := runBackend(backends[0], s, min(sec, 3))
		if r.Status == "unsat" {
			r.Backend += " (relevant assumptions)"
			return r, true
		}
	}
	return Result{}, false
}
