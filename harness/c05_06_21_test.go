package verifharness

import (
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/lib"
)

// scripted is an evaluator that records every call and answers from a script.
type scripted struct {
	log   []string
	calls [][]*N
	res   func(i int, args []*N) (*N, error)
	opts  map[string]any
}

func (s *scripted) Run(io.Reader, *core.Env, string) (*N, error) { return nil, errors.New("run") }
func (s *scripted) Render(n *N) (string, error)                  { return "", errors.New("render") }
func (s *scripted) GetOption(k string) (any, bool)               { v, ok := s.opts[k]; return v, ok }
func (s *scripted) Eval(n *N, env *core.Env, mode core.EvalMode) (*N, error) {
	s.log = append(s.log, fmt.Sprintf("eval %p %p %v", n, env, mode))
	return s.res(len(s.log)-1, []*N{n})
}
func (s *scripted) Apply(f *N, args []*N, env *core.Env, mode core.EvalMode) (*N, error) {
	l := fmt.Sprintf("apply %p env=%p mode=%v", f, env, mode)
	for _, a := range args {
		l += " " + ident(a)
	}
	s.log = append(s.log, l)
	s.calls = append(s.calls, append([]*N(nil), args...))
	return s.res(len(s.log)-1, args)
}

func init() {
	props["C05"] = c05
	props["C06"] = c06
	props["C21"] = c21
}

func libOp(module, name string) func([]*N, *core.Env, core.EvalMode, core.Engine) (*N, error) {
	f, ok := lib.GetOperator(module, name)
	if !ok {
		return func([]*N, *core.Env, core.EvalMode, core.Engine) (*N, error) {
			return nil, fmt.Errorf("no operator %s.%s", module, name)
		}
	}
	return f
}

func truthy(n *N) bool {
	switch v := n.Value.(type) {
	case nil:
		return n.Kind != core.KindNull && n.Kind != core.KindBool
	case bool:
		return v
	case int:
		return v != 0
	case float64:
		return v != 0
	case string:
		return v != "" || n.Kind == core.KindSymbol
	case []any:
		return len(v) > 0
	case *core.YispMap:
		return v.Len() > 0
	}
	return true
}

func c05(c *C) {
	c.Rule = "map, filter, reduce against a scripted evaluator that records the calls; pipeline through real functions; distinct inputs counted"
	boom := core.NewEvaluationError(nil, "boom")
	for n := 0; c.more(&n, 3000); {
		name := []string{"map", "filter", "reduce"}[c.Intn(3)]
		var items []*N
		for i := c.Intn(6); i > 0; i-- {
			items = append(items, c.scalar())
		}
		failAt := c.Intn(9)
		var rets []*N
		for range items {
			rets = append(rets, c.value(1))
		}
		f := nStr("f")
		env := core.NewEnv()
		mode := core.EvalModeEval
		if c.Intn(2) == 0 {
			mode = core.EvalModeQuote
		}
		s := &scripted{}
		s.res = func(i int, args []*N) (*N, error) {
			if i == failAt {
				return nil, boom
			}
			if i >= len(rets) {
				return nNull(), nil
			}
			return rets[i], nil
		}
		lst := nList(items...)
		before := snapshot(lst, f)
		args := []*N{lst, f}
		if c.Intn(6) == 0 {
			args = append(args, c.scalar())
		}
		r := guard(func() (*N, error) { return libOp("lists", name)(args, env, mode, s) })
		in := fmt.Sprintf("lists.%s over %s, call %d fails, results %s", name, shows(items), failAt, shows(rets))
		var want []string
		wantRes := ""
		step := func(as ...*N) {
			l := fmt.Sprintf("apply %p env=%p mode=%v", f, env, mode)
			for _, a := range as {
				l += " " + ident(a)
			}
			want = append(want, l)
		}
		switch name {
		case "map", "filter":
			var out []any
			for i, it := range items {
				step(it)
				if i == failAt {
					wantRes = "ERR"
					break
				}
				if name == "map" {
					out = append(out, rets[i])
				} else if truthy(rets[i]) {
					out = append(out, it)
				}
			}
			if wantRes == "" {
				wantRes = idsOf(out)
			}
		case "reduce":
			if len(items) == 0 {
				wantRes = "ERR"
				break
			}
			acc := items[0]
			for i, it := range items[1:] {
				step(acc, it)
				if i == failAt {
					wantRes = "ERR"
					break
				}
				acc = rets[i]
			}
			if wantRes == "" {
				wantRes = ident(acc)
			}
		}
		got := r.String()
		if r.panic == "" && r.err == nil && r.v != nil {
			if name == "reduce" {
				got = ident(r.v)
			} else if a, ok := r.v.Value.([]any); ok && r.v.Kind == core.KindArray {
				got = idsOf(a)
			}
		}
		c.eq(name+"-result", in, wantRes, got)
		c.eq(name+"-calls", in, strings.Join(want, "; "), strings.Join(s.log, "; "))
		if wantRes == "ERR" && len(want) > 0 && r.err != nil {
			c.eq(name+"-cause", in, "carries boom", carries(r.err, boom))
		}
		if d := before.diff(snapshot(lst, f)); d != "" {
			c.fail(name+"-operands", in, "operands unchanged", d)
		}
	}
	// wrong shapes
	for _, name := range []string{"map", "filter", "reduce"} {
		for _, args := range [][]*N{{}, {nList(nInt(1))}, {nInt(3), nStr("f")}, {nNull(), nStr("f")}, {nMap(), nStr("f")}} {
			s := &scripted{res: func(int, []*N) (*N, error) { return nNull(), nil }}
			r := guard(func() (*N, error) { return libOp("lists", name)(args, core.NewEnv(), core.EvalModeEval, s) })
			c.eq(name+"-shape", call("lists."+name, args), "ERR after 0 calls", fmt.Sprintf("%v after %d calls", r, len(s.log)))
		}
	}
	// pipeline runs in the real evaluator: each function is a one-argument lambda
	// or an operator name, the value threads through them from the left
	for n := 0; c.more(&n, 600); {
		v := c.Intn(7)
		want := nInt(v)
		args := []*N{nInt(v)}
		bad := false
		k := c.Intn(5)
		for i := 0; i < k; i++ {
			switch c.Intn(5) {
			case 0, 1:
				d := c.Intn(9)
				body := nList(nStr("+"), nSym("x"), nInt(d))
				args = append(args, nLambda([]string{"x"}, body, core.NewEnv()))
				if !bad {
					want = nInt(want.Value.(int) + d)
				}
			case 2, 3:
				body := nList(nStr("*"), nSym("x"), nInt(2))
				args = append(args, nLambda([]string{"x"}, body, core.NewEnv()))
				if !bad {
					want = nInt(want.Value.(int) * 2)
				}
			case 4:
				if c.Intn(3) == 0 {
					args = append(args, nStr("no-such-function"))
					bad = true
				} else {
					args = append(args, nStr("+"))
				}
			}
		}
		w := show(want)
		if bad {
			w = "ERR"
		}
		c.eq("pipeline", call("pipeline", args), w, op("pipeline", args...).String())
	}
	c.eq("pipeline-none", "(pipeline)", "ERR", op("pipeline").String())
}

func carries(err error, cause *core.ErrorTypeEvaluation) string {
	if e, ok := err.(*core.ErrorTypeEvaluation); ok && e.GetRoot() == cause {
		return "carries boom"
	}
	return fmt.Sprintf("another cause: %T %v", err, err)
}

func idsOf(a []any) string {
	var p []string
	for _, x := range a {
		p = append(p, ident(x))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func mapIds(x any) string {
	m, ok := x.(*core.YispMap)
	if !ok {
		return fmt.Sprintf("%T", x)
	}
	var p []string
	for k, v := range m.AllFromFront() {
		p = append(p, fmt.Sprintf("%q=%s", k, ident(v)))
	}
	return "{" + strings.Join(p, " ") + "}"
}

type entries []kv

func (e *entries) set(k string, v *N) {
	for i := range *e {
		if (*e)[i].k == k {
			(*e)[i].v = v
			return
		}
	}
	*e = append(*e, kv{k, v})
}

func (e entries) String() string {
	var p []string
	for _, x := range e {
		p = append(p, fmt.Sprintf("%q=%s", x.k, ident(x.v)))
	}
	return "{" + strings.Join(p, " ") + "}"
}

func c06(c *C) {
	c.Rule = "map operators on random maps and entry lists with repeated keys, compared by value identity and order; distinct inputs counted"
	for n := 0; c.more(&n, 2500); {
		var es entries
		var given []kv
		for i := c.Intn(7); i > 0; i-- {
			e := kv{c.key(), c.data(1)}
			given = append(given, e)
			es.set(e.k, e.v)
		}
		// make
		var args []*N
		var pairs []*N
		for _, e := range given {
			args = append(args, nStr(e.k), e.v)
			pairs = append(pairs, nList(nStr(e.k), e.v))
		}
		gotMap := func(r res) string {
			if r.panic == "" && r.err == nil && r.v != nil && r.v.Kind == core.KindMap {
				return mapIds(r.v.Value)
			}
			return r.String()
		}
		gotList := func(r res) string {
			if r.panic == "" && r.err == nil && r.v != nil && r.v.Kind == core.KindArray {
				if a, ok := r.v.Value.([]any); ok {
					return idsOf(a)
				}
			}
			return r.String()
		}
		c.eq("make", call("maps.make", args), es.String(), gotMap(op("maps.make", args...)))
		c.eq("from-entries", call("maps.from-entries", []*N{nList(pairs...)}), es.String(), gotMap(op("maps.from-entries", nList(pairs...))))
		m := nMap(given...)
		in := show(m)
		var ks, vs, ent []string
		var vals []any
		for _, e := range es {
			ks = append(ks, show(nStr(e.k)))
			vs = append(vs, show(e.v))
			vals = append(vals, e.v)
			ent = append(ent, "["+show(nStr(e.k))+", "+show(e.v)+"]")
		}
		_ = vs
		c.eq("keys", "keys of "+in, "["+strings.Join(ks, ", ")+"]", op("maps.keys", m).String())
		c.eq("values", "values of "+in, idsOf(vals), gotList(op("maps.values", m)))
		te := op("maps.to-entries", m)
		c.eq("to-entries", "to-entries of "+in, "["+strings.Join(ent, ", ")+"]", te.String())
		if te.v != nil {
			c.eq("round-trip", "from-entries of to-entries of "+in, es.String(), gotMap(op("maps.from-entries", te.v)))
		}
		k := c.key()
		want := "ERR"
		for _, e := range es {
			if e.k == k {
				want = ident(e.v)
			}
		}
		g := op("maps.get", m, nStr(k))
		got := g.String()
		if g.v != nil && g.err == nil {
			got = ident(g.v)
		}
		c.eq("get", fmt.Sprintf("get %q of %s", k, in), want, got)
	}
	one := nMap(kv{"a", nInt(1)})
	bad := []struct {
		f    string
		args []*N
	}{{"maps.make", []*N{nStr("a")}}, {"maps.make", []*N{nInt(1), nInt(2)}}, {"maps.make", []*N{nStr("a"), nInt(1), nStr("b")}}, {"maps.from-entries", []*N{nInt(1)}}, {"maps.from-entries", nil},
		{"maps.from-entries", []*N{nList(nList(nStr("a")))}}, {"maps.from-entries", []*N{nList(nList(nStr("a"), nInt(1), nInt(2)))}}, {"maps.from-entries", []*N{nList(nInt(1))}}, {"maps.from-entries", []*N{nList(nList(nInt(1), nInt(2)))}},
		{"maps.keys", nil}, {"maps.keys", []*N{nInt(1)}}, {"maps.keys", []*N{one, one}}, {"maps.values", []*N{nList()}}, {"maps.values", nil}, {"maps.to-entries", []*N{nStr("x")}}, {"maps.to-entries", nil},
		{"maps.get", []*N{one}}, {"maps.get", []*N{one, nInt(1)}}, {"maps.get", []*N{nInt(1), nStr("a")}}, {"maps.get", []*N{one, nStr("A")}}, {"maps.get", []*N{one, nStr("a"), nStr("b")}}}
	for _, b := range bad {
		c.eq("error "+b.f, call(b.f, b.args), "ERR", op(b.f, b.args...).String())
	}
}

func c21(c *C) {
	c.Rule = "string operators against the Go functions they are documented as, on random strings; distinct inputs counted"
	for n := 0; c.more(&n, 2500); {
		var ss []string
		var ns []*N
		for i := c.Intn(5); i > 0; i-- {
			ss = append(ss, c.str())
			ns = append(ns, nStr(ss[len(ss)-1]))
		}
		c.eq("concat", call("strings.concat", ns), show(nStr(strings.Join(ss, ""))), op("strings.concat", ns...).String())
		sep := c.str()
		c.eq("join", call("strings.join", []*N{nList(ns...), nStr(sep)}), show(nStr(strings.Join(ss, sep))), op("strings.join", nList(ns...), nStr(sep)).String())
		a, b, d := c.str()+c.str()+c.str(), c.str(), c.str()
		var sp []*N
		for _, x := range strings.Split(a, b) {
			sp = append(sp, nStr(x))
		}
		r := op("strings.split", nStr(a), nStr(b))
		c.eq("split", call("strings.split", []*N{nStr(a), nStr(b)}), show(nList(sp...)), r.String())
		if r.v != nil {
			c.eq("split-join", fmt.Sprintf("join of split of %q at %q", a, b), show(nStr(a)), op("strings.join", r.v, nStr(b)).String())
		}
		k := c.Intn(6) - 2
		c.eq("replace", call("strings.replace", []*N{nStr(a), nStr(b), nStr(d)}), show(nStr(strings.Replace(a, b, d, -1))), op("strings.replace", nStr(a), nStr(b), nStr(d)).String())
		c.eq("replace-n", call("strings.replace", []*N{nStr(a), nStr(b), nStr(d), nInt(k)}), show(nStr(strings.Replace(a, b, d, k))), op("strings.replace", nStr(a), nStr(b), nStr(d), nInt(k)).String())
		c.eq("contains", call("strings.contains", []*N{nStr(a), nStr(b)}), show(nBool(strings.Contains(a, b))), op("strings.contains", nStr(a), nStr(b)).String())
		c.eq("toUpper", call("strings.toUpper", []*N{nStr(a)}), show(nStr(strings.ToUpper(a))), op("strings.toUpper", nStr(a)).String())
		c.eq("toLower", call("strings.toLower", []*N{nStr(a)}), show(nStr(strings.ToLower(a))), op("strings.toLower", nStr(a)).String())
		t := []string{" ", "\t", "\n", "", "\u00a0", "\u3000"}[c.Intn(6)] + a + []string{" ", "\t ", "\r\n", ""}[c.Intn(4)]
		c.eq("trim", call("strings.trim", []*N{nStr(t)}), show(nStr(strings.TrimSpace(t))), op("strings.trim", nStr(t)).String())
		h := sha256.Sum256([]byte(a))
		c.eq("sha256", call("strings.sha256", []*N{nStr(a)}), show(nStr(hex.EncodeToString(h[:]))), op("strings.sha256", nStr(a)).String())
		f := []string{"%s", "%d", "%v-%v", "x%05dy", "%q", "%%", "%s %d", "", "%[2]v%[1]v", "%6.2f"}[c.Intn(10)]
		fa := []*N{nStr(f)}
		var va []any
		for i := c.Intn(4); i > 0; i-- {
			v := c.scalar()
			fa = append(fa, v)
			va = append(va, v.Value)
		}
		c.eq("format", call("strings.format", fa), show(nStr(fmt.Sprintf(f, va...))), op("strings.format", fa...).String())
		// one non-string where a string is required
		x := []*N{nInt(1), nBool(true), nNull(), nFlt(1.5), nList(), nMap()}[c.Intn(6)]
		for _, t := range []struct {
			f string
			a []*N
		}{{"concat", []*N{nStr(a), x}}, {"concat", []*N{x}}, {"join", []*N{nList(nStr(a), x), nStr(b)}}, {"join", []*N{nList(nStr(a)), x}}, {"join", []*N{nStr(a), nStr(b)}}, {"split", []*N{x, nStr(b)}}, {"split", []*N{nStr(a), x}},
			{"replace", []*N{x, nStr(a), nStr(b)}}, {"replace", []*N{nStr(a), x, nStr(b)}}, {"replace", []*N{nStr(a), nStr(b), x}}, {"replace", []*N{nStr(a), nStr(b), nStr(d), nStr("1")}}, {"contains", []*N{nStr(a), x}}, {"contains", []*N{x, nStr(b)}},
			{"toUpper", []*N{x}}, {"toLower", []*N{x}}, {"trim", []*N{x}}, {"sha256", []*N{x}}, {"format", []*N{x}}, {"toUpper", nil}, {"toLower", []*N{nStr(a), nStr(b)}}, {"trim", nil}, {"sha256", nil}, {"format", nil}, {"join", nil}, {"split", []*N{nStr(a)}}, {"replace", []*N{nStr(a), nStr(b)}}, {"contains", []*N{nStr(a)}}} {
			c.eq("error "+t.f, call("strings."+t.f, t.a), "ERR", op("strings."+t.f, t.a...).String())
		}
	}
}
