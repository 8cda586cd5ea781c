package verifharness

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/lib"
)

func init() {
	props["C07"] = c07
	props["C10"] = c10
	props["C23"] = c23
	props["C25"] = c25
}

// ---------------------------------------------------------------- C07

// patchSchema is a random schema with patch strategies and merge keys.
func (c *C) patchSchema(depth int) *S {
	if depth <= 0 || c.Intn(7) == 0 {
		return nil
	}
	s := &S{Type: "object"}
	switch c.Intn(5) {
	case 0:
		s.PatchStrategy = "replace"
	case 1:
		s.PatchStrategy = "merge"
	case 2:
		s.K8sPatchStrategy = "merge"
	case 3:
		s.PatchStrategy, s.K8sPatchStrategy = "merge", "replace"
	}
	switch c.Intn(5) {
	case 0, 1:
		s.PatchMergeKey = "name"
	case 2:
		s.K8sPatchMergeKey = "name"
	case 3:
		s.PatchMergeKey, s.K8sPatchMergeKey = "name", "id"
	}
	if c.Intn(3) > 0 {
		s.Properties = map[string]*S{}
		for i := c.Intn(4); i > 0; i-- {
			if p := c.patchSchema(depth - 1); p != nil {
				s.Properties[c.mergeKeyName()] = p
			}
		}
	}
	if c.Intn(2) == 0 {
		s.Items = c.patchSchema(depth - 1)
	}
	return s
}

func (c *C) mergeKeyName() string {
	if s, is := c.oddStr(6); is {
		return s
	}
	return []string{"a", "b", "c", "d"}[c.Intn(4)]
}

// shaped is data with lists of named maps in it, so that merges meet.
func (c *C) shaped(depth int) *N {
	switch k := c.Intn(8); {
	case depth <= 0 || k == 0:
		return c.scalar()
	case k <= 3:
		var es []kv
		seen := map[string]bool{}
		for i := c.Intn(5); i > 0; i-- {
			key := c.mergeKeyName()
			if !seen[key] {
				seen[key] = true
				es = append(es, kv{key, c.shaped(depth - 1)})
			}
		}
		return nMap(es...)
	case k <= 6:
		var xs []*N
		for i := c.Intn(5); i > 0; i-- {
			es := []kv{{"name", nStr([]string{"x", "y", "z", "w"}[c.Intn(4)])}}
			if c.Intn(2) == 0 {
				es = append(es, kv{c.mergeKeyName(), c.shaped(depth - 2)})
			}
			if c.Intn(3) == 0 {
				es = append([]kv{{"d", c.scalar()}}, es...)
			}
			xs = append(xs, nMap(es...))
		}
		return c.roomy(nList(xs...))
	}
	var xs []*N
	for i := c.Intn(4); i > 0; i-- {
		xs = append(xs, c.scalar())
	}
	return c.roomy(nList(xs...))
}

var spares [][]any

// spare gives a list room after its end, where a stray append would show.
func (c *C) roomy(n *N) *N {
	xs, _ := n.Value.([]any)
	if c.Intn(2) == 0 || len(xs) == 0 {
		return n
	}
	full := append(append([]any{}, xs...), nStr("spare1"), nStr("spare2"), nStr("spare3"))
	spares = append(spares, full)
	n.Value = full[:len(xs)]
	return n
}

func patchOf(s *S) (strategy, key string) {
	strategy = "replace"
	if s == nil {
		return
	}
	if s.PatchStrategy != "" {
		strategy = s.PatchStrategy
	} else if s.K8sPatchStrategy != "" {
		strategy = s.K8sPatchStrategy
	}
	key = s.PatchMergeKey
	if key == "" {
		key = s.K8sPatchMergeKey
	}
	return
}

func mget(m *core.YispMap, k string) *N {
	v, ok := m.Get(k)
	if !ok {
		return nil
	}
	n, _ := v.(*N)
	return n
}

// merge is what merging gives; ok is false where it is an error.
func merge(d, s *N, sc *S) (*N, bool) {
	switch {
	case d.Kind == core.KindMap && s.Kind == core.KindMap:
		dm, sm := d.Value.(*core.YispMap), s.Value.(*core.YispMap)
		out := core.NewYispMap()
		for k, v := range dm.AllFromFront() {
			if o := mget(sm, k); o != nil {
				var sub *S
				if sc != nil {
					sub = sc.Properties[k]
				}
				x, ok := merge(v.(*N), o, sub)
				if !ok {
					return nil, false
				}
				out.Set(k, x)
			} else {
				out.Set(k, v)
			}
		}
		for k, v := range sm.AllFromFront() {
			if mget(dm, k) == nil {
				out.Set(k, v)
			}
		}
		return &N{Kind: core.KindMap, Value: out}, true
	case d.Kind == core.KindArray && s.Kind == core.KindArray:
		strategy, key := patchOf(sc)
		if strategy == "replace" {
			return &N{Kind: core.KindArray, Value: s.Value}, true
		}
		out := append([]any{}, d.Value.([]any)...)
		if key == "" {
			return &N{Kind: core.KindArray, Value: append(out, s.Value.([]any)...)}, true
		}
		var sub *S
		if sc != nil {
			sub = sc.Items
		}
		for _, x := range s.Value.([]any) {
			xm, ok := x.(*N).Value.(*core.YispMap)
			if !ok {
				return nil, false
			}
			name := mget(xm, key)
			if name == nil {
				return nil, false
			}
			text, ok := name.Value.(string)
			if !ok {
				return nil, false
			}
			found := false
			for i, y := range out {
				ym, ok := y.(*N).Value.(*core.YispMap)
				if !ok {
					return nil, false
				}
				other := mget(ym, key)
				if other == nil {
					continue
				}
				t, ok := other.Value.(string)
				if !ok {
					return nil, false
				}
				if t == text {
					m, ok := merge(y.(*N), x.(*N), sub)
					if !ok {
						return nil, false
					}
					out[i], found = m, true
					break
				}
			}
			if !found {
				out = append(out, x)
			}
		}
		return &N{Kind: core.KindArray, Value: out}, true
	}
	return s, true
}

func showMerge(n *N, ok bool) string {
	if !ok {
		return "ERR"
	}
	return show(n)
}

func schemaText(s *S) string {
	st, k := patchOf(s)
	t := st + "/" + k
	if s != nil {
		for _, p := range []string{"a", "b", "c", "d"} {
			if x := s.Properties[p]; x != nil {
				t += " " + p + ":{" + schemaText(x) + "}"
			}
		}
		if s.Items != nil {
			t += " items:{" + schemaText(s.Items) + "}"
		}
	}
	return t
}

func c07(c *C) {
	c.Rule = "merges of random trees under random patch schemas against a reference merge; operands compared before and after; distinct inputs counted"
	for n := 0; c.more(&n, 12000); {
		spares = nil
		d, s, sc := c.shaped(4), c.shaped(4), c.patchSchema(4)
		if c.Intn(4) == 0 {
			s = d
		}
		before := snapshot(d, s, spares)
		roots := []any{d, s}
		for _, x := range spares {
			roots = append(roots, x)
		}
		before = snapshot(roots...)
		in := fmt.Sprintf("merge %s with %s under {%s}", show(d), show(s), schemaText(sc))
		want, ok := merge(d, s, sc)
		w := showMerge(want, ok)
		r := guard(func() (*N, error) { return core.DeepMergeYispNode(d, s, sc) })
		c.rec(in, d.Kind == s.Kind)
		c.eq("merge", in, w, r.String())
		if x := before.diff(snapshot(roots...)); x != "" {
			c.fail("operands", in, "operands unchanged", x)
		}
		// a second merge from the same left side must not disturb the first result
		if r.v != nil && c.Intn(3) == 0 {
			s2 := c.shaped(4)
			guard(func() (*N, error) { return core.DeepMergeYispNode(d, s2, sc) })
			c.eq("later merge", in+" then with "+show(s2), w, show(r.v))
		}
	}
	for n := 0; c.more(&n, 3000); { // the operator: from the left, each under the type of its right side
		var args []*N
		for i := c.Intn(4); i > 0; i-- {
			a := c.shaped(3)
			a.Type = c.patchSchema(3)
			args = append(args, a)
		}
		acc, ok := nNull(), true
		for _, a := range args {
			if ok {
				acc, ok = merge(acc, a, a.Type)
			}
		}
		in := call("maps.merge", args)
		for _, a := range args {
			in += " {" + schemaText(a.Type) + "}"
		}
		f := libOp("maps", "merge")
		r := guard(func() (*N, error) { return f(args, core.NewEnv(), core.EvalModeEval, newEngine()) })
		c.rec(in, len(args) > 1)
		c.eq("maps.merge", in, showMerge(acc, ok), r.String())
	}
}

// ---------------------------------------------------------------- C10

func (c *C) manifest() *N {
	var es []kv
	id := func(k string, vs ...string) {
		switch c.Intn(10) {
		case 0:
		case 1:
			es = append(es, kv{k, []*N{nInt(1), nNull(), nBool(true)}[c.Intn(3)]})
		default:
			v := vs[c.Intn(len(vs))]
			if s, is := c.oddStr(3); is {
				v = s
			}
			es = append(es, kv{k, nStr(v)})
		}
	}
	id("apiVersion", "v1", "apps/v1", "apps")
	id("kind", "Pod", "v1/Pod", "pod", "")
	if c.Intn(7) > 0 {
		top := es
		es = nil
		id("namespace", "a", "b", "a/x", "", "default")
		id("name", "x", "y", "x/y", "", "X")
		if c.Intn(4) == 0 {
			es = append(es, kv{"labels", c.shaped(2)})
		}
		m := nMap(es...)
		if c.Intn(25) == 0 {
			m = c.scalar()
		}
		es = append(top, kv{"metadata", m})
	}
	for i := c.Intn(3); i > 0; i-- {
		es = append(es, kv{c.mergeKeyName(), c.shaped(3)})
	}
	n := nMap(es...)
	if c.Intn(40) == 0 {
		n = c.shaped(1)
	}
	return n
}

func idOf(n *N) (id [4]string, ok bool) {
	m, is := n.Value.(*core.YispMap)
	if n.Kind != core.KindMap || !is {
		return id, false
	}
	get := func(m *core.YispMap, k string) string {
		if x := mget(m, k); x != nil {
			s, _ := x.Value.(string)
			return s
		}
		return ""
	}
	id[0], id[1] = get(m, "apiVersion"), get(m, "kind")
	if x := mget(m, "metadata"); x != nil {
		mm, is := x.Value.(*core.YispMap)
		if x.Kind != core.KindMap || !is {
			return id, false
		}
		id[2], id[3] = get(mm, "namespace"), get(mm, "name")
	}
	return id, true
}

func c10(c *C) {
	c.Rule = "k8s.patch on lists of manifests with near-miss identities against a reference; distinct inputs counted"
	f := libOp("k8s", "patch")
	for n := 0; c.more(&n, 12000); {
		var ts, ps []*N
		for i := c.Intn(5); i > 0; i-- {
			t := c.manifest()
			t.Type = c.patchSchema(3)
			ts = append(ts, t)
		}
		for i := c.Intn(4); i > 0; i-- {
			p := c.manifest()
			if len(ts) > 0 && c.Intn(3) > 0 { // take over (nearly) the identity of a target
				if m, is := ts[c.Intn(len(ts))].Value.(*core.YispMap); is {
					var es []kv
					for k, v := range m.AllFromFront() {
						if k == "apiVersion" || k == "kind" || k == "metadata" {
							es = append(es, kv{k, v.(*N)})
						}
					}
					p = nMap(append(es, kv{c.mergeKeyName(), c.shaped(3)})...)
				}
			}
			ps = append(ps, p)
		}
		args := []*N{nList(ts...), nList(ps...)}
		in := call("k8s.patch", args)
		for _, t := range ts {
			in += " {" + schemaText(t.Type) + "}"
		}
		out := append([]*N{}, ts...)
		types := map[*N]*S{}
		for _, t := range ts {
			types[t] = t.Type
		}
		ok := true
	patches:
		for _, p := range ps {
			pid, is := idOf(p)
			if ok = is; !ok {
				break
			}
			for i, t := range out {
				tid, is := idOf(t)
				if ok = is; !ok {
					break patches
				}
				if tid == pid {
					// the merged manifest has the type of its right side
					m, is := merge(t, p, t.Type)
					if ok = is; !ok {
						break patches
					}
					m.Type = p.Type
					out[i] = m
				}
			}
		}
		want := "ERR"
		if ok {
			want = show(nList(out...))
		}
		same := append([]*N{}, ts...)
		r := guard(func() (*N, error) { return f(args, core.NewEnv(), core.EvalModeEval, newEngine()) })
		c.rec(in, len(ts) > 0 && len(ps) > 0)
		c.eq("k8s.patch", in, want, r.String())
		if r.v != nil && ok {
			xs, _ := r.v.Value.([]any)
			for i := range same {
				if i < len(xs) && out[i] == same[i] && xs[i] != any(same[i]) {
					c.fail("others", in, fmt.Sprintf("manifest %d left as it is", i), show(xs[i]))
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C25, C23

// the arguments the operators take: l list, m map, s string, i integer, n
// number, b boolean, v any, f function of one, g of two, t type, p pairs,
// k keys, e entries; the last letter repeats after a +.
var shapes = map[string]string{
	"+": "n+", "add": "n+", "-": "n+", "*": "n+", "/": "n+", "mul": "n+", "div": "n+", "sub": "n+",
	"==": "vv", "!=": "vv", "<": "nn", "<=": "nn", ">": "nn", ">=": "nn", "??": "v+", "&&": "v+", "||": "v+", "!": "v",
	"progn": "v+", "pipeline": "vf+", "schema": "m",
	"lists.car": "l", "lists.cdr": "l", "lists.cons": "vl", "lists.contains": "lv", "lists.filter": "lf", "lists.flatten": "l+", "lists.map": "lf",
	"lists.reduce": "lg", "lists.iota": "k+", "lists.length": "l", "lists.at": "li", "lists.as-toplevel": "l",
	"types.assert": "tv", "types.get": "v", "types.of": "v",
	"strings.concat": "s+", "strings.contains": "ss", "strings.quote": "s", "strings.format": "sv+", "strings.join": "ls", "strings.replace": "sss",
	"strings.sha256": "s", "strings.split": "ss", "strings.toUpper": "s", "strings.toLower": "s", "strings.trim": "s",
	"maps.from-entries": "p", "maps.get": "ms", "maps.keys": "m", "maps.merge": "m+", "maps.to-entries": "m", "maps.values": "m", "maps.make": "sv+", "maps.patch": "mo",
	"yaml.marshal": "v", "yaml.unmarshal": "s", "k8s.patch": "ll",
}

// any value of the kind, from a pool of shared values
func (c *C) arg(k byte, pool *[]*N) *N {
	var n *N
	switch k {
	case 'l':
		n = c.roomy(c.list(2))
	case 'm':
		n = c.mapv(2)
	case 's':
		n = nStr(c.str())
	case 'i':
		n = nInt(c.Intn(6) - 1)
	case 'k':
		n = nInt(c.Intn(12) - 2)
	case 'n':
		n = nInt(c.int())
		if c.Intn(3) == 0 {
			n = nFlt(c.flt())
		}
	case 'b':
		n = nBool(c.Intn(2) == 0)
	case 'f':
		n = nLambda([]string{"x"}, []*N{nSym("x"), nNull(), nList(nStr("lists.cons"), nSym("x"), nSym("l"))}[c.Intn(3)], core.NewEnv())
	case 'g':
		n = nLambda([]string{"x", "y"}, []*N{nSym("x"), nSym("y"), nInt(1)}[c.Intn(3)], core.NewEnv())
	case 't':
		n = &N{Kind: core.KindType, Value: c.patchSchema(2)}
		if n.Value.(*S) == nil || c.Intn(2) == 0 {
			n.Value = &S{Type: []string{"integer", "string", "array", "object", "any"}[c.Intn(5)]}
		}
	case 'p':
		var xs []*N
		for i := c.Intn(4); i > 0; i-- {
			xs = append(xs, nList(nStr(c.key()), c.data(1)))
		}
		n = c.roomy(nList(xs...))
	case 'o':
		var xs []*N
		for i := c.Intn(4); i > 0; i-- {
			xs = append(xs, c.patchOp())
		}
		n = nList(xs...)
	default:
		n = c.value(2)
	}
	if len(*pool) > 0 && c.Intn(6) == 0 {
		n = (*pool)[c.Intn(len(*pool))]
	}
	if c.Intn(5) == 0 {
		n.Type = c.patchSchema(2)
	}
	if c.Intn(6) == 0 {
		n.Anchor, n.Tag = "anchor", "!tag"
	}
	*pool = append(*pool, n)
	return n
}

func (c *C) patchOp() *N {
	ptr := ""
	for i := c.Intn(3); i >= 0; i-- {
		ptr += "/" + []string{"a", "b", "0", "1", "-", "*", "", "x~1y", "5", "name"}[c.Intn(10)]
	}
	es := []kv{{"op", nStr([]string{"add", "remove", "replace", "move", "copy", "test", "other"}[c.Intn(7)])}, {"path", nStr(ptr)}, {"value", c.data(1)}, {"from", nStr([]string{"/a", "/0", "/b/a", ""}[c.Intn(4)])}}
	var out []kv
	for _, e := range es {
		if c.Intn(12) > 0 {
			if c.Intn(20) == 0 {
				e.v = c.value(1)
			}
			out = append(out, e)
		}
	}
	return nMap(out...)
}

// application is an operator with arguments that mostly suit it.
func (c *C) application(names []string) (string, []*N) {
	name := names[c.Intn(len(names))]
	sh := shapes[name]
	rep := strings.HasSuffix(sh, "+")
	sh = strings.TrimSuffix(sh, "+")
	kinds := sh
	if rep {
		for i := c.Intn(4); i > 0; i-- {
			kinds += sh[len(sh)-1:]
		}
	}
	if c.Intn(4) == 0 { // any number of anything
		kinds = ""
		for i := c.Intn(5); i > 0; i-- {
			kinds += string("lmsinbvfgtpo"[c.Intn(12)])
		}
	} else if c.Intn(6) == 0 && len(kinds) > 0 {
		i := c.Intn(len(kinds))
		kinds = kinds[:i] + string("lmsinbvfgt"[c.Intn(10)]) + kinds[i+1:]
	}
	var pool, args []*N
	for i := range kinds {
		args = append(args, c.arg(kinds[i], &pool))
	}
	if name == "lists.iota" && len(args) > 0 { // what fits in memory
		if n, ok := args[0].Value.(int); ok && n > 3000 {
			args[0] = nInt(n % 3000)
		}
	}
	return name, args
}

func c25(c *C) {
	c.Rule = "every operator but the two patch operators on random shared arguments, lists with room behind them; everything reachable from the arguments and the scope compared before and after; distinct inputs counted"
	var names []string
	for _, k := range sortedNames(shapes) {
		if k != "maps.patch" && k != "k8s.patch" {
			names = append(names, k)
		}
	}
	for n := 0; c.more(&n, 4000); { // the merge behind maps.merge, on lists with room behind them
		spares = nil
		d, s, sc := c.shaped(3), c.shaped(3), c.patchSchema(3)
		if c.Intn(2) == 0 {
			d, s = c.roomy(c.list(2)), c.roomy(c.list(2))
			sc = &S{Type: "array", PatchStrategy: []string{"merge", "replace", ""}[c.Intn(3)]}
		}
		roots := []any{d, s}
		for _, x := range spares {
			roots = append(roots, x)
		}
		in := "merge " + show(d) + " " + show(s)
		before := snapshot(roots...)
		r := guard(func() (*N, error) { return core.DeepMergeYispNode(d, s, sc) })
		c.rec(in, r.err == nil)
		if x := before.diff(snapshot(roots...)); x != "" {
			c.fail("operands:merge", in, "operands unchanged", x)
		}
	}
	for n := 0; c.more(&n, 40000); {
		spares = nil
		name, args := c.application(names)
		env := core.NewEnv()
		env.Vars["l"] = c.roomy(c.list(1))
		roots := []any{env}
		for _, a := range args {
			roots = append(roots, a)
		}
		for _, s := range spares {
			roots = append(roots, s)
		}
		mode := core.EvalModeEval
		if c.Intn(4) == 0 {
			mode = core.EvalModeQuote
		}
		in := call(name, args)
		before := snapshot(roots...)
		e := newEngine()
		r := guard(func() (*N, error) { return e.Apply(nStr(name), args, env, mode) })
		c.rec(in, r.err == nil)
		if x := before.diff(snapshot(roots...)); x != "" {
			c.fail("operands:"+name, in, "operands unchanged", x)
		}
		// the first result must survive a second application to the same operands
		if r.v != nil && c.Intn(3) == 0 {
			first := show(r.v)
			name2, more := c.application(names)
			if k := shapes[name2]; len(more) > 0 && len(k) > 0 && r.v.Kind == core.KindArray {
				for i := range more {
					if more[i].Kind == core.KindArray {
						more[i] = r.v
					}
				}
			}
			guard(func() (*N, error) { return e.Apply(nStr(name2), more, env, mode) })
			c.eq("result:"+name2, in+" then "+call(name2, more), first, show(r.v))
			name3, more3 := c.application(names)
			for i := range more3 {
				if more3[i].Kind == core.KindArray {
					more3[i] = r.v
				}
			}
			a := guard(func() (*N, error) { return e.Apply(nStr(name2), more, env, mode) })
			if a.v != nil {
				second := show(a.v)
				guard(func() (*N, error) { return e.Apply(nStr(name3), more3, env, mode) })
				c.eq("result:"+name3, in+" then "+call(name2, more)+" then "+call(name3, more3), second, show(a.v))
			}
		}
	}
}

func sortedNames(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// either is a value or an error, exactly one, and no crash.
func either(r res) string {
	switch {
	case r.panic != "":
		return "a crash: " + r.panic
	case r.err == nil && r.v == nil:
		return "neither a value nor an error"
	case r.err != nil && r.v != nil:
		return "a value and an error"
	}
	return ""
}

func c23(c *C) {
	c.Rule = "every operator and the functions behind the evaluator on any number of arguments of any kind; a value or an error, exactly one of the two; distinct inputs counted"
	names := sortedNames(shapes)
	dir := c.tmp()
	os.WriteFile(filepath.Join(dir, "in.yisp"), []byte("a: 1\n---\n[1, 2]\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "data.json"), []byte("{\"a\": [1, null]}"), 0o644)
	for n := 0; c.more(&n, 40000); {
		name, args := c.application(names)
		if c.Intn(40) == 0 {
			name = []string{"files.glob", "files.read", "include"}[c.Intn(3)]
			args = nil
			for i := c.Intn(3); i > 0; i-- {
				a := nStr([]string{"*.json", "in.yisp", "data.json", "none", "[", "", "./in.yisp", "{a,b"}[c.Intn(8)])
				if c.Intn(5) == 0 {
					a = c.value(1)
				}
				a.Attr.Sources = []core.FilePos{{File: filepath.Join(dir, "main.yisp")}}
				args = append(args, a)
			}
		}
		mode := core.EvalModeEval
		if c.Intn(4) == 0 {
			mode = core.EvalModeQuote
		}
		in := call(name, args)
		e := newEngine()
		env := core.NewEnv()
		env.Vars["l"] = nList(nInt(1))
		var r res
		quiet(func() { r = guard(func() (*N, error) { return e.Apply(nStr(name), args, env, mode) }) })
		c.rec(in, r.err == nil)
		if x := either(r); x != "" {
			c.fail("apply:"+name, in, "a value or an error", x)
			continue
		}
		if r.v != nil && c.Intn(4) == 0 {
			var o res
			var text string
			quiet(func() {
				o = guard(func() (*N, error) { s, err := e.Render(r.v); text = s; return nil, err })
			})
			if o.panic != "" {
				c.fail("render", show(r.v), "text or an error", "a crash: "+o.panic+text)
			}
			o = guard(func() (*N, error) { _, err := r.v.ToNative(); return nil, err })
			if o.panic != "" {
				c.fail("native", show(r.v), "a value or an error", "a crash: "+o.panic)
			}
			o = guard(func() (*N, error) { return nil, core.VerifyTypes(r.v, c.Intn(2) == 0) })
			if o.panic != "" {
				c.fail("verify", show(r.v), "a decision", "a crash: "+o.panic)
			}
		}
	}
	for n := 0; c.more(&n, 8000); { // schemas and values of any kind
		s, v := c.schema(2, false), c.value(2)
		if c.Intn(2) == 0 {
			v = c.fit(s, 3)
		}
		o := guard(func() (*N, error) { return nil, s.Validate(v) })
		if o.panic != "" {
			c.fail("validate", show(v), "a decision", "a crash: "+o.panic)
		}
		o = guard(func() (*N, error) { return s.Cast(v) })
		if x := either(o); x != "" {
			c.fail("cast", show(v), "a value or an error", x)
		}
		d := c.value(2)
		o = guard(func() (*N, error) { return core.DeepMergeYispNode(d, v, s) })
		if x := either(o); x != "" {
			c.fail("merge", show(d)+" "+show(v), "a value or an error", x)
		}
		o = guard(func() (*N, error) { _, err := core.IsTruthy(v); return nil, err })
		if o.panic != "" {
			c.fail("truthy", show(v), "a decision", "a crash: "+o.panic)
		}
	}
	for n := 0; c.more(&n, 8000); { // evaluation of any tree as a program
		name, args := c.application(names)
		items := append([]*N{nSym(name)}, args...)
		switch c.Intn(6) {
		case 0:
			items[0] = c.value(1)
		case 1:
			items = append([]*N{nSym([]string{"if", "lambda", "import", "quote", "let", "cond", "cast"}[c.Intn(7)])}, args...)
		}
		v := nList(items...)
		if c.Intn(8) > 0 {
			v.Tag = []string{"!yisp", "!eval", "!custom", "!quote"}[c.Intn(4)]
		}
		if c.Intn(4) == 0 {
			v = nMap(kv{"k", v}, kv{"__YISP_MERGE_KEY__1", c.value(1)})
		}
		e, env := newEngine(), core.NewEnv()
		mode := core.EvalModeEval
		if c.Intn(2) == 0 {
			mode = core.EvalModeQuote
		}
		var r res
		quiet(func() { r = guard(func() (*N, error) { return e.Eval(v, env, mode) }) })
		c.rec("eval "+show(v), r.err == nil)
		if x := either(r); x != "" {
			c.fail("eval", show(v), "a value or an error", x)
		}
	}
	_ = lib.GetOperator
}
