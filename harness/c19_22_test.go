package verifharness

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	yamlv3 "gopkg.in/yaml.v3"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/lib"
)

func init() {
	props["C19"] = c19
	props["C22"] = c22
}

// ---------------------------------------------------------------- C19

// shownData is a random value with the odd function, type or symbol in it.
func (c *C) shownData(depth int) *N {
	if c.Intn(14) == 0 {
		switch c.Intn(4) {
		case 0:
			return nLambda([]string{"x"}, nSym("x"), core.NewEnv())
		case 1:
			return &N{Kind: core.KindType, Value: &S{Type: "integer"}}
		case 2:
			return nSym("sym")
		}
		return &N{Kind: core.KindParameter, Value: "p"}
	}
	k := c.Intn(4)
	if depth <= 0 || k == 0 {
		return c.scalar()
	}
	if k == 1 {
		var xs []*N
		for i := c.Intn(5); i > 0; i-- {
			xs = append(xs, c.shownData(depth-1))
		}
		return nList(xs...)
	}
	var es []kv
	for i := c.Intn(5); i > 0; i-- {
		es = append(es, kv{c.key() + []string{"", "1", "é"}[c.Intn(3)], c.shownData(depth - 1)})
	}
	return nMap(es...)
}

func noForm(n *N) bool { return n.Kind == core.KindLambda || n.Kind == core.KindType || n.Kind == core.KindSymbol || n.Kind == core.KindParameter }

// reads says where a document that was read back differs from the value.
func reads(n *N, y *yamlv3.Node) string {
	if y.Kind == yamlv3.DocumentNode {
		y = y.Content[0]
	}
	bad := func() string { return fmt.Sprintf("%s reads back as %s %q (kind %d)", show(n), y.ShortTag(), y.Value, y.Kind) }
	scalar := func(tag string) bool { return y.Kind == yamlv3.ScalarNode && y.ShortTag() == tag }
	switch n.Kind {
	case core.KindNull:
		if !scalar("!!null") {
			return bad()
		}
	case core.KindBool:
		var b bool
		if !scalar("!!bool") || y.Decode(&b) != nil || b != n.Value.(bool) {
			return bad()
		}
	case core.KindInt:
		if v, err := strconv.Atoi(y.Value); !scalar("!!int") || err != nil || v != n.Value.(int) {
			return bad()
		}
	case core.KindFloat:
		var f float64
		w := n.Value.(float64)
		if !scalar("!!float") || y.Decode(&f) != nil || f != w && !(math.IsNaN(f) && math.IsNaN(w)) {
			return bad()
		}
	case core.KindString:
		if !scalar("!!str") || y.Value != n.Value.(string) {
			return bad()
		}
	case core.KindArray:
		var xs []*N
		for _, x := range n.Value.([]any) {
			if !noForm(x.(*N)) {
				xs = append(xs, x.(*N))
			}
		}
		if y.Kind != yamlv3.SequenceNode || len(y.Content) != len(xs) {
			return bad()
		}
		for i, x := range xs {
			if d := reads(x, y.Content[i]); d != "" {
				return d
			}
		}
	case core.KindMap:
		i := 0
		if y.Kind != yamlv3.MappingNode {
			return bad()
		}
		for k, x := range n.Value.(*core.YispMap).AllFromFront() {
			if noForm(x.(*N)) {
				continue
			}
			if i+1 >= len(y.Content) || y.Content[i].Value != k {
				return fmt.Sprintf("key %q of %s is missing or out of place", k, show(n))
			}
			if d := reads(x.(*N), y.Content[i+1]); d != "" {
				return d
			}
			i += 2
		}
		if i != len(y.Content) {
			return "more keys than in " + show(n)
		}
	}
	return ""
}

// natively is the oracle of the conversion to native data.
func natively(n *N) any {
	switch n.Kind {
	case core.KindArray:
		xs := []any{}
		for _, x := range n.Value.([]any) {
			xs = append(xs, natively(x.(*N)))
		}
		return xs
	case core.KindMap:
		m := map[string]any{}
		for k, x := range n.Value.(*core.YispMap).AllFromFront() {
			m[k] = natively(x.(*N))
		}
		return m
	case core.KindLambda:
		return "(lambda)"
	case core.KindType:
		return "(type)"
	case core.KindSymbol:
		return "*" + n.Value.(string)
	case core.KindParameter:
		return "(parameter)"
	}
	return n.Value
}

func showNative(x any) string {
	switch v := x.(type) {
	case []any:
		s := "["
		for _, e := range v {
			s += showNative(e) + ", "
		}
		return s + "]"
	case map[string]any:
		s := "{"
		for _, k := range keysOf(v) {
			s += fmt.Sprintf("%q: %s, ", k, showNative(v[k]))
		}
		return s + "}"
	}
	return show(x)
}

func c19(c *C) {
	c.Rule = "random trees with functions, types and symbols in them, rendered and read back with an independent YAML reader, and converted to native data, against the tree; distinct trees counted"
	for n := 0; c.more(&n, 8000); {
		v := c.shownData(4)
		docs := []*N{v}
		if c.Intn(3) == 0 {
			docs = append(docs, c.shownData(2), c.shownData(1))
		}
		root := nList()
		root.IsDocumentRoot = true
		for _, d := range docs {
			root.Value = append(root.Value.([]any), d)
		}
		in := "render " + show(root)
		before := snapshot(root)
		e := engine.NewEngine(engine.Options{RenderSpecialObjects: false})
		out := ""
		r := guard(func() (*N, error) {
			var err error
			out, err = e.Render(root)
			return nNull(), err
		})
		c.rec(in, true)
		if r.panic != "" || r.err != nil {
			c.fail("render", in, "output", r.String())
			continue
		}
		dec := yamlv3.NewDecoder(strings.NewReader(out))
		for _, d := range docs {
			if noForm(d) {
				continue
			}
			var y yamlv3.Node
			if err := dec.Decode(&y); err != nil {
				c.fail("read-back", in, "output that reads back", fmt.Sprintf("%v: %q", err, out))
				break
			}
			if d := reads(d, &y); d != "" {
				c.fail("read-back", in, "the same tree", d+fmt.Sprintf(" in %q", out))
				break
			}
		}
		nat := ""
		r = guard(func() (*N, error) {
			x, err := v.ToNative()
			nat = showNative(x)
			return nNull(), err
		})
		if r.panic != "" || r.err != nil {
			nat = r.String()
		}
		c.eq("native", "convert "+show(v), showNative(natively(v)), nat)
		// special objects are shown on request, without disturbing their neighbours
		r = guard(func() (*N, error) {
			_, err := engine.NewEngine(engine.Options{RenderSpecialObjects: true}).Render(root)
			return nNull(), err
		})
		if r.panic != "" || r.err != nil {
			c.fail("render-special", in, "output", r.String())
		}
		if d := before.diff(snapshot(root)); d != "" {
			c.fail("render-changes", in, "the value is not changed", d)
		}
	}
}

// ---------------------------------------------------------------- C22

type probe struct {
	names string
	args  []*N
	want  *N // nil: an error
}

func probes() []probe {
	i, s := nInt, nStr
	abc := func() *N { return nList(s("a"), s("b"), s("c")) }
	m := func() *N { return nMap(kv{"x", i(1)}, kv{"y", i(2)}) }
	inc := func() *N { return nLambda([]string{"v"}, nList(s("+"), nSym("v"), i(1)), core.NewEnv()) }
	big := func() *N { return nLambda([]string{"v"}, nList(s(">"), nSym("v"), i(2)), core.NewEnv()) }
	sub := func() *N { return nLambda([]string{"p", "q"}, nList(s("-"), nSym("p"), nSym("q")), core.NewEnv()) }
	t, f := nBool(true), nBool(false)
	p := []probe{
		{"+ add", []*N{i(7), i(2), i(3)}, i(12)},
		{"- sub", []*N{i(7), i(2), i(3)}, i(2)},
		{"* mul", []*N{i(7), i(2), i(3)}, i(42)},
		{"/ div", []*N{i(42), i(3), i(2)}, i(7)},
		{"== eq", []*N{i(3), i(3)}, t}, {"== eq", []*N{i(3), i(4)}, f}, {"== eq", []*N{i(4), i(3)}, f},
		{"!= neq", []*N{i(3), i(3)}, f}, {"!= neq", []*N{i(3), i(4)}, t}, {"!= neq", []*N{i(4), i(3)}, t},
		{"< lt", []*N{i(3), i(3)}, f}, {"< lt", []*N{i(3), i(4)}, t}, {"< lt", []*N{i(4), i(3)}, f},
		{"<= lte", []*N{i(3), i(3)}, t}, {"<= lte", []*N{i(3), i(4)}, t}, {"<= lte", []*N{i(4), i(3)}, f},
		{"> gt", []*N{i(3), i(3)}, f}, {"> gt", []*N{i(3), i(4)}, f}, {"> gt", []*N{i(4), i(3)}, t},
		{">= gte", []*N{i(3), i(3)}, t}, {">= gte", []*N{i(3), i(4)}, f}, {">= gte", []*N{i(4), i(3)}, t},
		{"< lt", []*N{s("a"), i(4)}, nil},
		{"?? default", []*N{nNull(), i(4)}, i(4)}, {"?? default", []*N{i(0), i(4)}, i(0)},
		{"&& and", []*N{t, f}, f}, {"&& and", []*N{t, t}, t}, {"&& and", []*N{f, f}, f},
		{"|| or", []*N{t, f}, t}, {"|| or", []*N{f, f}, f}, {"|| or", []*N{t, t}, t},
		{"! not", []*N{t}, f}, {"! not", []*N{i(0)}, t},
		{"progn", []*N{i(1), i(2)}, i(2)},
		{"pipeline", []*N{i(1), inc(), inc()}, i(3)},
		{"lists.car", []*N{abc()}, s("a")},
		{"lists.cdr", []*N{abc()}, nList(s("b"), s("c"))},
		{"lists.cons", []*N{i(1), abc()}, nList(i(1), s("a"), s("b"), s("c"))},
		{"lists.contains", []*N{abc(), s("b")}, t}, {"lists.contains", []*N{abc(), s("z")}, f},
		{"lists.filter", []*N{nList(i(1), i(5), i(2), i(3)), big()}, nList(i(5), i(3))},
		{"lists.flatten", []*N{nList(nList(i(1)), nList(nList(i(2)), i(3)))}, nil},
		{"lists.map", []*N{nList(i(1), i(5)), inc()}, nList(i(2), i(6))},
		{"lists.reduce", []*N{nList(i(9), i(5), i(1)), sub()}, i(3)},
		{"lists.iota", []*N{i(3)}, nList(i(0), i(1), i(2))},
		{"lists.length", []*N{abc()}, i(3)},
		{"lists.at", []*N{abc(), i(1)}, s("b")},
		{"lists.as-toplevel", []*N{abc()}, abc()},
		{"maps.get", []*N{m(), s("y")}, i(2)},
		{"maps.keys", []*N{m()}, nList(s("x"), s("y"))},
		{"maps.values", []*N{m()}, nList(i(1), i(2))},
		{"maps.to-entries", []*N{m()}, nil},
		{"maps.merge", []*N{m(), nMap(kv{"y", i(3)}, kv{"z", i(4)})}, nMap(kv{"x", i(1)}, kv{"y", i(3)}, kv{"z", i(4)})},
		{"maps.make", []*N{s("k"), i(1)}, nil},
		{"maps.from-entries", []*N{nList(nList(s("k"), i(1)), nList(s("j"), i(2)))}, nMap(kv{"k", i(1)}, kv{"j", i(2)})},
		{"strings.concat", []*N{s("a"), s("b")}, s("ab")},
		{"strings.contains", []*N{s("abc"), s("bc")}, t}, {"strings.contains", []*N{s("abc"), s("cb")}, f},
		{"strings.join", []*N{abc(), s("-")}, nil},
		{"strings.split", []*N{s("a-b"), s("-")}, nList(s("a"), s("b"))},
		{"strings.replace", []*N{s("abcb"), s("b"), s("x")}, nil},
		{"strings.sha256", []*N{s("")}, s("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")},
		{"strings.toUpper", []*N{s("aBc")}, s("ABC")},
		{"strings.toLower", []*N{s("aBc")}, s("abc")},
		{"strings.trim", []*N{s(" a ")}, s("a")},
		{"strings.format", []*N{s("%s=%d"), s("a"), i(3)}, s("a=3")},
		{"types.of", []*N{i(3)}, s("int")},
		{"types.get", []*N{i(3)}, nNull()},
		{"types.assert", []*N{{Kind: core.KindType, Value: &S{Type: "integer"}}, i(3)}, i(3)},
		{"types.assert", []*N{{Kind: core.KindType, Value: &S{Type: "string"}}, i(3)}, nil},
	}
	return p
}

var documented = strings.Fields("+ add - sub * mul / div == eq != neq < lt <= lte > gt >= gte ?? default && and || or ! not include progn pipeline schema")
var aliases = [][2]string{{"+", "add"}, {"-", "sub"}, {"*", "mul"}, {"/", "div"}, {"==", "eq"}, {"!=", "neq"}, {"<", "lt"}, {"<=", "lte"}, {">", "gt"}, {">=", "gte"}, {"??", "default"}, {"&&", "and"}, {"||", "or"}, {"!", "not"}}
var modules = map[string]string{
	"lists": "car cdr cons contains filter flatten map reduce iota length at as-toplevel", "types": "assert get of",
	"strings": "concat contains quote format join replace sha256 split toUpper toLower trim", "maps": "from-entries get keys merge to-entries values make patch",
	"yaml": "marshal unmarshal", "files": "glob read", "exec": "cmd go", "k8s": "patch",
}

func c22(c *C) {
	c.Rule = "a table of calls that tell the operators apart, random arguments through both names of every aliased operator, unknown names and callees that are no functions; what reaches the operation is observed through a recording evaluator where it calls back; distinct calls counted"
	for _, p := range probes() {
		for _, name := range strings.Fields(p.names) {
			for _, mode := range []core.EvalMode{core.EvalModeEval, core.EvalModeQuote} {
				if mode == core.EvalModeQuote && (strings.HasSuffix(name, "map") || strings.HasSuffix(name, "filter") || strings.HasSuffix(name, "reduce") || name == "pipeline") {
					continue // the body of a function is data there
				}
				e := newEngine()
				r := guard(func() (*N, error) { return e.Apply(nStr(name), p.args, core.NewEnv(), mode) })
				want := "ERR"
				if p.want != nil {
					want = show(p.want)
				} else if alone := directly(name, p.args, mode, e); alone != "" {
					want = alone
				}
				c.eq("probe:"+name, call(name, p.args), want, r.String())
			}
		}
	}
	// an operator of a module is the one registered under its name
	for mod, ops := range modules {
		for _, o := range strings.Fields(ops) {
			if _, ok := lib.GetOperator(mod, o); !ok {
				c.fail("registered", mod+"."+o, "an operator", "none")
			}
		}
	}
	dir := c.t.TempDir()
	inc := filepath.Join(dir, "in.yisp")
	os.WriteFile(inc, []byte("a: 1\n"), 0o644)
	path := nStr("in.yisp")
	path.Attr.Sources = []core.FilePos{{File: filepath.Join(dir, "main.yisp")}}
	c.eq("include", "(include in.yisp)", `[{"a": int:1(int)}]`, op("include", path).String())
	sch := op("schema", nMap(kv{"type", nStr("integer")}))
	g := sch.String()
	if sch.v != nil && sch.v.Kind == core.KindType {
		b, _ := json.Marshal(sch.v.Value)
		g = string(b)
	}
	c.eq("schema", "(schema {type: integer})", `{"type":"integer"}`, g)
	names := append([]string{}, documented...)
	for mod, ops := range modules {
		for _, o := range strings.Fields(ops) {
			names = append(names, mod+"."+o)
		}
	}
	known := map[string]bool{}
	for _, n := range names {
		known[n] = true
	}
	for n := 0; c.more(&n, 6000); {
		a := aliases[c.Intn(len(aliases))]
		var args []*N
		for i := c.Intn(4); i > 0; i-- {
			if c.Intn(3) > 0 {
				args = append(args, nInt(c.Intn(9)-3))
			} else {
				args = append(args, c.value(1))
			}
		}
		c.eq("alias:"+a[1], call(a[0], args)+" by its other name", op(a[0], args...).String(), op(a[1], args...).String())
		// names that are no operators
		base := names[c.Intn(len(names))]
		odd := []string{base + ".x", "x." + base, strings.ToUpper(base), base + " ", strings.Replace(base, ".", "..", 1), base + "s", strings.Replace(base, ".", "", 1), "." + base, base + ".", "lists.concat", "strings.car", "", ".", "if", "lambda"}[c.Intn(15)]
		if !known[odd] {
			c.eq("unknown", call(odd, args), "ERR", op(odd, args...).String())
		}
		f := c.data(1)
		if f.Kind != core.KindString {
			r := guard(func() (*N, error) { return newEngine().Apply(f, args, core.NewEnv(), core.EvalModeEval) })
			c.eq("callee", "apply "+show(f)+" to "+shows(args), "ERR", r.String())
		}
	}
}

// directly runs the registered operation of a module.
func directly(name string, args []*N, mode core.EvalMode, e core.Engine) string {
	mod, o, ok := strings.Cut(name, ".")
	if !ok {
		return ""
	}
	return guard(func() (*N, error) { return libOp(mod, o)(args, core.NewEnv().CreateChild(), mode, e) }).String()
}
