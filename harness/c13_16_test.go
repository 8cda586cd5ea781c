package verifharness

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	props["C13"] = c13
	props["C14"] = c14
	props["C15"] = c15
	props["C16"] = c16
}

// ---------------------------------------------------------------- C13

// typedTree is a random tree with typed values in it, and whether all conform.
func (c *C) typedTree(depth int) (*N, bool) {
	var n *N
	ok := true
	switch k := c.Intn(5); {
	case depth <= 0 || k == 0:
		n = []*N{nInt(c.Intn(5)), nStr("s"), nNull(), nBool(true), nFlt(1.5)}[c.Intn(5)]
	case k < 3:
		var xs []*N
		for i := c.Intn(4); i > 0; i-- {
			x, o := c.typedTree(depth - 1)
			xs = append(xs, x)
			ok = ok && o
		}
		n = nList(xs...)
	default:
		var es []kv
		for i := c.Intn(4); i > 0; i-- {
			x, o := c.typedTree(depth - 1)
			es = append(es, kv{fmt.Sprint("k", i), x})
			ok = ok && o
		}
		n = nMap(es...)
	}
	if c.Intn(3) == 0 {
		switch c.Intn(3) {
		case 0:
			n.Type = &S{Type: "any"}
		case 1:
			n.Type = &S{Type: map[core.Kind]string{core.KindInt: "integer", core.KindString: "string", core.KindNull: "null", core.KindBool: "boolean", core.KindFloat: "float", core.KindArray: "array", core.KindMap: "any"}[n.Kind]}
		case 2:
			if c.Intn(3) == 0 {
				n.Type = &S{Type: []string{"integer", "string", "array", "object", "boolean"}[c.Intn(5)]}
			}
		}
		ok = ok && (n.Type == nil || conforms(n.Type, n))
	}
	return n, ok
}

func c13(c *C) {
	c.Rule = "result trees with typed values at any depth, through every public entry point and option; an error and no output is expected exactly when one of them does not conform; distinct inputs counted"
	c.cacheHome(map[string]*S{"io.thing": {Type: "object", Properties: map[string]*S{"apiVersion": {Type: "string"}, "kind": {Type: "string"}, "size": {Type: "integer"}}}}, map[string]string{"ex_v1_Thing": "io.thing", "_v1_Thing": "io.thing"})
	dir := c.t.TempDir()
	check := func(key, in string, wantErr bool, out any, err error) {
		got, want := "output", "output"
		if err != nil {
			got = "error"
			if s, ok := out.(string); ok && s != "" || !ok && out != nil {
				got = "error and output"
			}
		}
		if wantErr {
			want = "error"
		}
		c.eq(key, in, want, got)
	}
	try := func(f func() (any, error)) (out any, err error) {
		defer func() {
			if x := recover(); x != nil {
				out, err = nil, fmt.Errorf("crash %v", x)
			}
		}()
		return f()
	}
	quiet(func() {
		for n := 0; c.more(&n, 1500); {
			opts := engine.Options{AllowUntypedManifest: c.Intn(4) == 0, DisableTypeCheck: c.Intn(4) == 0}
			e := engine.NewEngine(opts)
			skip := opts.AllowUntypedManifest || opts.DisableTypeCheck
			v, ok := c.typedTree(4)
			doc := []string{"- *x\n", "a: *x\n", "a: [1, {b: *x}]\n", "---\na: 1\n---\n- - *x\n", "*x\n"}[c.Intn(5)]
			in := fmt.Sprintf("%q with x = %s, conforming: %v, options %+v", doc, show(v), ok, opts)
			env := core.NewEnv()
			env.Set("x", v)
			out, err := try(func() (any, error) {
				return e.EvaluateReaderToYamlWithEnv(strings.NewReader(doc), env, "t.yisp")
			})
			check("reader-env", in, !ok && !skip, out, err)
			file := filepath.Join(dir, "t.yisp")
			os.WriteFile(file, []byte(doc), 0o644)
			out, err = try(func() (any, error) { return e.EvaluateFileToYamlWithEnv(file, env) })
			check("file-env", in, !ok && !skip, out, err)

			// manifests get their type from what they say they are
			bad := c.Intn(2) == 0
			m := "{apiVersion: ex/v1, kind: Thing, size: 3}"
			if bad {
				m = []string{"{apiVersion: ex/v1, kind: Thing, size: big}", "{apiVersion: v1, kind: Thing, other: 3}", "{apiVersion: ex/v1, kind: Thing, size: {a: 1}}"}[c.Intn(3)]
			}
			doc = fmt.Sprintf([]string{"%s\n", "- %s\n", "a: %s\n", "a: [1, {b: [%s]}]\n", "---\na: 1\n---\n%s\n", "!yisp\n- lists.car\n- !quote [%s, 2]\n", "!yisp [if, true, %s, 1]\n"}[c.Intn(7)], m)
			os.WriteFile(file, []byte(doc), 0o644)
			in = fmt.Sprintf("%q, options %+v", doc, opts)
			for _, ep := range []struct {
				name string
				f    func() (any, error)
			}{
				{"EvaluateFileToYaml", func() (any, error) { return e.EvaluateFileToYaml(file) }},
				{"EvaluateReaderToYaml", func() (any, error) { return e.EvaluateReaderToYaml(strings.NewReader(doc), "t.yaml") }},
				{"EvaluateFileToAny", func() (any, error) { return e.EvaluateFileToAny(file) }},
				{"EvaluateBytesToYaml", func() (any, error) { return e.EvaluateBytesToYaml([]byte(doc), map[string]any{"g": 1}) }},
			} {
				out, err := try(ep.f)
				check(ep.name, ep.name+" of "+in, bad && !skip, out, err)
			}
		}
	})
}

// ---------------------------------------------------------------- C14

func (c *C) attr() core.Attribute {
	a := core.Attribute{Sources: []core.FilePos{{File: "f.yaml", Line: 1 + c.Intn(90), Column: 1 + c.Intn(9)}}}
	if c.Intn(3) == 0 {
		a.HeadComment, a.LineComment, a.FootComment = c.str(), c.str(), c.str()
		a.KeyHeadComment, a.KeyLineComment, a.KeyFootComment = c.str(), c.str(), c.str()
	}
	return a
}

// source is a random data tree as the parser makes it; src is its value.
func (c *C) source(depth int, anchors *int) *N {
	n := c.sourceOf(depth, anchors)
	n.Attr = c.attr()
	if n.Tag == "" && c.Intn(7) == 0 {
		n.Tag = []string{"!other", "!quote", "!!thing"}[c.Intn(3)]
	}
	if c.Intn(5) == 0 {
		*anchors++
		n.Anchor = fmt.Sprint("an", *anchors)
	}
	return n
}

func (c *C) sourceOf(depth int, anchors *int) *N {
	k := c.Intn(10)
	if depth <= 0 {
		k = c.Intn(6)
	}
	switch k {
	case 0:
		return &N{Kind: core.KindNull, Value: []any{nil, "null", "~", ""}[c.Intn(4)], Tag: "!!null"}
	case 1:
		return &N{Kind: core.KindBool, Value: []any{true, false, "true", "false", "True", "FALSE"}[c.Intn(6)], Tag: "!!bool"}
	case 2:
		return &N{Kind: core.KindInt, Value: []any{c.int(), "7", "-12", "0x1F", "1_000", "0o17", "007"}[c.Intn(7)], Tag: "!!int"}
	case 3:
		return &N{Kind: core.KindFloat, Value: []any{c.flt(), "1.5", ".inf", "-.Inf", ".NaN", "1_0.5", "1e3"}[c.Intn(7)], Tag: "!!float"}
	case 4, 5:
		return nStr(c.str())
	case 6, 7:
		var xs []*N
		for i := c.Intn(5); i > 0; i-- {
			xs = append(xs, c.source(depth-1, anchors))
		}
		return nList(xs...)
	}
	var es []kv
	for i := c.Intn(5); i > 0; i-- {
		if c.Intn(4) == 0 {
			var v *N
			switch c.Intn(4) {
			case 0:
				v = c.source(0, anchors)
				if c.Intn(2) == 0 {
					v = &N{Kind: core.KindNull}
				}
			case 1:
				var xs []*N
				for j := c.Intn(4); j > 0; j-- {
					if c.Intn(5) == 0 {
						xs = append(xs, &N{Kind: core.KindNull})
					} else {
						xs = append(xs, c.sourceMap(depth-1, anchors))
					}
				}
				v = nList(xs...)
			default:
				v = c.sourceMap(depth-1, anchors)
			}
			es = append(es, kv{fmt.Sprint(core.YISP_SPECIAL_MERGE_KEY, i), v})
		} else {
			es = append(es, kv{[]string{"a", "b", "c", "d", "x.y", "<<", ""}[c.Intn(7)], c.source(depth-1, anchors)})
		}
	}
	return nMap(es...)
}

func (c *C) sourceMap(depth int, anchors *int) *N {
	var es []kv
	for i := c.Intn(4); i > 0; i-- {
		es = append(es, kv{[]string{"a", "b", "c", "d"}[c.Intn(4)], c.source(depth-1, anchors)})
	}
	n := nMap(es...)
	n.Attr = c.attr()
	return n
}

// quoted is the oracle: what a tree evaluates to in quote mode, and the names it binds.
func quoted(n *N, bound map[string]*N) (r *N, err error) {
	bad := errors.New("not data")
	r = &N{Kind: n.Kind, Tag: n.Tag, Attr: n.Attr, Value: n.Value}
	text, isText := n.Value.(string)
	switch n.Kind {
	case core.KindNull:
		r.Value = nil
	case core.KindBool:
		if isText {
			switch text {
			case "true", "True", "TRUE":
				r.Value = true
			case "false", "False", "FALSE":
				r.Value = false
			default:
				return nil, bad
			}
		}
	case core.KindInt:
		if isText {
			v, ok := map[string]int{"7": 7, "-12": -12, "0x1F": 31, "1_000": 1000, "0o17": 15, "007": 7}[text]
			if !ok {
				return nil, bad
			}
			r.Value = v
		}
	case core.KindFloat:
		if isText {
			v, ok := map[string]float64{"1.5": 1.5, ".inf": math.Inf(1), "-.Inf": math.Inf(-1), ".NaN": math.NaN(), "1_0.5": 10.5, "1e3": 1000}[text]
			if !ok {
				return nil, bad
			}
			r.Value = v
		}
	case core.KindArray:
		xs := []any{}
		for _, x := range n.Value.([]any) {
			y, err := quoted(x.(*N), bound)
			if err != nil {
				return nil, err
			}
			xs = append(xs, y)
		}
		r.Value = xs
	case core.KindMap:
		m := core.NewYispMap()
		add := func(n *N) {
			for k, v := range n.Value.(*core.YispMap).AllFromFront() {
				m.Set(k, v)
			}
		}
		for k, x := range n.Value.(*core.YispMap).AllFromFront() {
			y, err := quoted(x.(*N), bound)
			if err != nil {
				return nil, err
			}
			if !strings.HasPrefix(k, core.YISP_SPECIAL_MERGE_KEY) {
				m.Set(k, y)
				continue
			}
			switch y.Kind {
			case core.KindNull:
			case core.KindMap:
				add(y)
			case core.KindArray:
				for _, z := range y.Value.([]any) {
					switch z := z.(*N); z.Kind {
					case core.KindNull:
					case core.KindMap:
						add(z)
					default:
						return nil, bad
					}
				}
			default:
				return nil, bad
			}
		}
		r.Value = m
	}
	if n.Anchor != "" {
		bound[n.Anchor] = r
	}
	return r, nil
}

// meta is the rendering of a tree with tags and positions.
func meta(n *N) string {
	switch v := n.Value.(type) {
	case []any:
		s := ""
		for _, x := range v {
			s += meta(x.(*N)) + ", "
		}
		return fmt.Sprintf("%s<%s %v>[%s]", n.Kind, n.Tag, n.Attr, s)
	case *core.YispMap:
		s := ""
		for k, x := range v.AllFromFront() {
			s += fmt.Sprintf("%q: %s, ", k, meta(x.(*N)))
		}
		return fmt.Sprintf("%s<%s %v>{%s}", n.Kind, n.Tag, n.Attr, s)
	}
	return fmt.Sprintf("%s<%s %v>%s", n.Kind, n.Tag, n.Attr, show(n.Value))
}

func c14(c *C) {
	c.Rule = "random data trees with tags, comments, anchors and merge keys, evaluated in quote mode and compared, with positions, with an independent oracle; also the names bound and the unchanged source; distinct inputs counted"
	for n := 0; c.more(&n, 12000); {
		k := 0
		t := c.source(4, &k)
		env := core.NewEnv()
		scope := env
		if c.Intn(2) == 0 {
			scope = env.CreateChild()
		}
		before := snapshot(t)
		shown := meta(t)
		r := guard(func() (*N, error) { return newEngine().Eval(t, scope, core.EvalModeQuote) })
		bound := map[string]*N{}
		w, err := quoted(t, bound)
		want, got := "ERR", r.String()
		if err == nil {
			want = meta(w)
		}
		if r.v != nil && r.err == nil && r.panic == "" {
			got = meta(r.v)
		}
		c.eq("quote", "evaluate "+shown, want, got)
		if d := before.diff(snapshot(t)); d != "" {
			c.fail("quote-changes", "evaluate "+shown, "the source tree is not changed", d)
		}
		if err == nil && r.err == nil {
			for a, v := range bound {
				x, ok := env.Vars[a]
				if !ok || meta(x) != meta(v) {
					g := "not bound"
					if ok {
						g = meta(x)
					}
					c.fail("anchor", "evaluate "+shown+", then "+a, meta(v), g)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C15

// traced evaluates with the engine's own trace and returns what was evaluated, in order.
func (c *C) traced(t *N, env *core.Env, mode core.EvalMode) (r res, log []string) {
	f, err := os.CreateTemp(c.tmp(), "trace")
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = f
	func() {
		defer func() { os.Stdout = old }()
		e := engine.NewEngine(engine.Options{ShowTrace: true, AllowUntypedManifest: true})
		r = guard(func() (*N, error) { return e.Eval(t, env, mode) })
	}()
	f.Close()
	b, _ := os.ReadFile(f.Name())
	os.Remove(f.Name())
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			log = append(log, l)
		}
	}
	return r, log
}

// model is the oracle of evaluation for the operators used here.
type model struct{ log []string }

type scope struct {
	up   *scope
	vars map[string]*N
}

func (s *scope) root() *scope {
	for s.up != nil {
		s = s.up
	}
	return s
}

type fun struct {
	params []string
	body   *N
	env    *scope
}

var errModel = errors.New("error")

func (m *model) eval(n *N, env *scope, quote bool) (r *N, err error) {
	nat, _ := n.ToNative()
	m.log = append(m.log, strings.TrimSpace(fmt.Sprintf("EVAL: %v", nat)))
	switch n.Tag {
	case "!yisp":
		quote = false
	case "!quote":
		quote = true
	}
	r = &N{Kind: n.Kind, Value: n.Value}
	switch n.Kind {
	case core.KindSymbol:
		r = nil
		for s := env; s != nil && r == nil; s = s.up {
			r = s.vars[n.Value.(string)]
		}
		if r == nil {
			return nil, errModel
		}
	case core.KindMap:
		o := core.NewYispMap()
		for k, x := range n.Value.(*core.YispMap).AllFromFront() {
			y, err := m.eval(x.(*N), env, quote)
			if err != nil {
				return nil, err
			}
			o.Set(k, y)
		}
		r.Value = o
	case core.KindArray:
		xs := n.Value.([]any)
		if quote || len(xs) == 0 {
			o := []any{}
			for _, x := range xs {
				y, err := m.eval(x.(*N), env, quote)
				if err != nil {
					return nil, err
				}
				o = append(o, y)
			}
			r.Value = o
			break
		}
		switch head, _ := xs[0].(*N).Value.(string); head {
		case "if":
			if len(xs) != 4 {
				return nil, errModel
			}
			cond, err := m.eval(xs[1].(*N), env, quote)
			if err != nil {
				return nil, err
			}
			k := 3
			if truthy(cond) {
				k = 2
			}
			if r, err = m.eval(xs[k].(*N), env, quote); err != nil {
				return nil, err
			}
		case "lambda":
			f := &fun{body: xs[2].(*N)}
			for _, p := range xs[1].(*N).Value.([]any) {
				f.params = append(f.params, p.(*N).Value.(string))
			}
			f.env = &scope{env.up, map[string]*N{}}
			for k, v := range env.vars {
				f.env.vars[k] = v
			}
			r = &N{Kind: core.KindLambda, Value: f}
		default:
			var vs []*N
			for _, x := range xs {
				v, err := m.eval(x.(*N), env, quote)
				if err != nil {
					return nil, err
				}
				vs = append(vs, v)
			}
			if r, err = m.apply(vs[0], vs[1:], env, quote); err != nil {
				return nil, err
			}
		}
	}
	if n.Anchor != "" {
		env.root().vars[n.Anchor] = r
		if f, ok := r.Value.(*fun); ok {
			f.env.vars[n.Anchor] = r
		}
	}
	return r, nil
}

func (m *model) apply(f *N, args []*N, env *scope, quote bool) (*N, error) {
	if l, ok := f.Value.(*fun); ok {
		if len(args) != len(l.params) {
			return nil, errModel
		}
		s := &scope{l.env, map[string]*N{}}
		for i, p := range l.params {
			s.vars[p] = args[i]
		}
		return m.eval(l.body, s, quote)
	}
	if f.Kind != core.KindString {
		return nil, errModel
	}
	switch f.Value {
	case "+":
		t := 0
		for _, a := range args {
			i, ok := a.Value.(int)
			if !ok {
				return nil, errModel
			}
			t += i
		}
		return nInt(t), nil
	case "progn":
		if len(args) == 0 {
			return nil, errModel
		}
		return args[len(args)-1], nil
	case "lists.cons":
		if len(args) != 2 || args[1].Kind != core.KindArray {
			return nil, errModel
		}
		return &N{Kind: core.KindArray, Value: append([]any{args[0]}, args[1].Value.([]any)...)}, nil
	}
	return nil, errModel
}

// expr is a random expression; names are those in scope.
func (c *C) expr(depth int, names []string, anchors *[]string) *N {
	var n *N
	k := c.Intn(16)
	if depth <= 0 {
		k = c.Intn(6)
	}
	sub := func() *N { return c.expr(depth-1, names, anchors) }
	switch k {
	case 0, 1:
		n = nInt(c.Intn(1000))
	case 2:
		n = []*N{nBool(true), nBool(false), nNull(), nStr("text"), nStr(""), nInt(0)}[c.Intn(6)]
	case 3, 4:
		if all := append(append([]string{}, names...), *anchors...); len(all) > 0 && c.Intn(12) > 0 {
			n = nSym(all[c.Intn(len(all))])
		} else {
			n = nSym("nowhere")
			if c.Intn(3) > 0 {
				n = nInt(c.Intn(1000))
			}
		}
	case 5:
		n = nList()
	case 6, 7:
		n = nList(nStr("if"), sub(), sub(), sub())
		if c.Intn(20) == 0 {
			n = nList(nStr("if"), sub(), sub())
		}
	case 8, 9:
		var xs []*N
		for i := c.Intn(4); i > 0; i-- {
			xs = append(xs, sub())
		}
		n = nList(append([]*N{nStr([]string{"+", "progn", "progn", "nothing"}[c.Intn(4)])}, xs...)...)
		if c.Intn(8) > 0 {
			n.Value.([]any)[0] = nStr("progn")
			if len(xs) == 0 {
				n = nList(nStr("+"))
			}
		}
	case 10, 11, 12: // a function, applied
		var ps, as []*N
		inner := append([]string{}, names...)
		for i := c.Intn(3); i > 0; i-- {
			p := []string{"p", "q", "r"}[i-1]
			ps = append(ps, nStr(p))
			as = append(as, sub())
			inner = append(inner, p)
		}
		if c.Intn(15) == 0 {
			as = append(as, nInt(1))
		}
		body := c.expr(depth-1, inner, anchors)
		if c.Intn(4) == 0 { // a name bound again and again
			a := []string{"an0", "p", "q"}[c.Intn(3)]
			block := []*N{nStr("progn")}
			for i := c.Intn(3); i >= 0; i-- {
				b := nInt(c.Intn(1000))
				if c.Intn(2) == 0 {
					b = nList(nStr("lambda"), nList(nStr("q")), c.expr(1, append(append([]string{}, inner...), "q"), anchors))
				}
				b.Anchor = a
				block = append(block, b)
			}
			*anchors = append(*anchors, a)
			body = nList(append(block, nMap(kv{"a", nSym(a)}, kv{"b", body}))...)
		}
		n = nList(append([]*N{nList(nStr("lambda"), nList(ps...), body)}, as...)...)
	case 13:
		n = nList(nStr("lambda"), nList(nStr("p")), c.expr(depth-1, append(append([]string{}, names...), "p"), anchors))
	case 14:
		var es []kv
		for i := c.Intn(4); i > 0; i-- {
			es = append(es, kv{fmt.Sprint("k", i), sub()})
		}
		n = nMap(es...)
	default:
		n = sub()
		if n.Tag == "" && n.Kind != core.KindSymbol {
			n.Tag = []string{"!quote", "!yisp"}[c.Intn(2)]
		}
	}
	if n.Anchor == "" && n.Kind != core.KindSymbol && c.Intn(4) == 0 {
		n.Anchor = []string{"an0", "an1", "an2", "p", "q"}[c.Intn(5)]
		*anchors = append(*anchors, n.Anchor)
	}
	return n
}

// same compares results; functions of the oracle are functions of the engine.
func same(want *N, err error) string {
	if err != nil {
		return "ERR"
	}
	return show(want)
}

// resAnchor renders expressions with tags and anchors.
func code(n *N) string {
	s := ""
	if n.Anchor != "" {
		s += "&" + n.Anchor + " "
	}
	if n.Tag != "" {
		s += n.Tag + " "
	}
	switch v := n.Value.(type) {
	case []any:
		var p []string
		for _, x := range v {
			p = append(p, code(x.(*N)))
		}
		return s + "[" + strings.Join(p, ", ") + "]"
	case *core.YispMap:
		var p []string
		for k, x := range v.AllFromFront() {
			p = append(p, k+": "+code(x.(*N)))
		}
		return s + "{" + strings.Join(p, ", ") + "}"
	case string:
		if n.Kind == core.KindSymbol {
			return s + "*" + v
		}
		return s + fmt.Sprintf("%q", v)
	case nil:
		return s + "null"
	default:
		return s + fmt.Sprint(v)
	}
}

func c15(c *C) {
	c.Rule = "random programs of if, lambda, progn, +, maps, quoting and anchors, evaluated with the engine's trace on: what is evaluated, how often and in which order, and the result, are compared with an independent evaluator; distinct programs counted"
	for n := 0; c.more(&n, 6000); {
		c.program()
	}
}

func (c *C) program() {
	var an []string
	t := c.expr(5, nil, &an)
	quote := c.Intn(6) == 0
	mode := core.EvalModeEval
	if quote {
		mode = core.EvalModeQuote
	}
	m := &model{}
	env := core.NewEnv()
	top := &scope{nil, map[string]*N{}}
	for k, v := range env.Vars {
		top.vars[k] = v
	}
	in := fmt.Sprintf("evaluate %s, quoted: %v", code(t), quote)
	before := snapshot(t)
	w, err := m.eval(t, top, quote)
	if len(m.log) > 3000 {
		return
	}
	r, log := c.traced(t, env, mode)
	c.eq("result", in, same(w, err), r.String())
	c.eq("trace", in, strings.Join(m.log, "\n"), strings.Join(log, "\n"))
	if d := before.diff(snapshot(t)); d != "" {
		c.fail("source-changes", in, "the program is not changed", d)
	}
	if err == nil {
		for k, v := range top.vars {
			if x, ok := env.Vars[k]; !ok || show(x) != show(v) {
				c.fail("bindings", in+", then *"+k, show(v), fmt.Sprint(show(env.Vars[k]), ok))
			}
		}
		for k := range env.Vars {
			if _, ok := top.vars[k]; !ok {
				c.fail("bindings", in, k+" is not bound", show(env.Vars[k]))
			}
		}
	}
}

// ---------------------------------------------------------------- C16

// lookup is the oracle of name lookup.
func lookup(chain []map[string]*N, key string) (*N, bool) {
	segs := strings.Split(key, ".")
	trim := func(s string) (string, bool) {
		if strings.HasSuffix(s, "?") {
			return s[:len(s)-1], true
		}
		return s, false
	}
	first, opt := trim(segs[0])
	for _, vars := range chain {
		v, ok := vars[first]
		if !ok {
			continue
		}
		for _, s := range segs[1:] {
			name, opt := trim(s)
			var next *N
			found := false
			switch m := v.Value.(type) {
			case *core.YispMap:
				if x, ok := m.Get(name); ok {
					next, found = x.(*N), true
				}
			case map[string]*N:
				next, found = m[name]
			default:
				return nil, false
			}
			if !found {
				if opt {
					return nNull(), true
				}
				return nil, false
			}
			v = next
		}
		return v, true
	}
	if opt {
		return nNull(), true
	}
	return nil, false
}

func envState(envs []*core.Env) string {
	s := ""
	for i, e := range envs {
		s += fmt.Sprintf("scope %d parent %p:", i, e.Parent)
		for _, k := range keysOf(e.Vars) {
			s += fmt.Sprintf(" %s=%p", k, e.Vars[k])
		}
		s += "\n"
	}
	return s
}

func c16(c *C) {
	c.Rule = "lookups of random dotted and optional names in random scope chains, applications of functions with typed parameters, and random programs, against an independent oracle; distinct inputs counted"
	names := []string{"a", "b", "c", "m", "n"}
	for n := 0; c.more(&n, 12000); {
		var env *core.Env
		var envs []*core.Env
		var chain []map[string]*N
		for d := c.Intn(4); d >= 0; d-- {
			if env == nil {
				env = &core.Env{Vars: map[string]*N{}}
			} else {
				env = env.CreateChild()
			}
			for i := c.Intn(4); i > 0; i-- {
				var v *N
				switch c.Intn(3) {
				case 0:
					v = nInt(c.Intn(100))
				case 1:
					v = nMap(kv{"a", nInt(c.Intn(100))}, kv{"m", nMap(kv{"b", nStr("deep")}, kv{"c", nMap(kv{"a", nNull()})})}, kv{"b?", nInt(5)})
				case 2:
					v = &N{Kind: core.KindMap, Value: map[string]*N{"a": nInt(c.Intn(100)), "n": nMap(kv{"b", nStr("imported")})}}
				}
				env.Set(names[c.Intn(len(names))], v)
			}
			envs = append(envs, env)
			chain = append([]map[string]*N{env.Vars}, chain...)
		}
		var segs []string
		for i := c.Intn(4); i >= 0; i-- {
			s := names[c.Intn(len(names))]
			if c.Intn(4) == 0 {
				s += "?"
			}
			segs = append(segs, s)
		}
		key := strings.Join(segs, ".")
		st := envState(envs)
		in := "look up " + key + " in"
		for _, v := range chain {
			in += " {"
			for _, k := range keysOf(v) {
				if m, ok := v[k].Value.(map[string]*N); ok {
					in += fmt.Sprintf("%s: import %v, ", k, keysOf(m))
				} else {
					in += k + ": " + show(v[k]) + ", "
				}
			}
			in += "}"
		}
		w, ok := lookup(chain, key)
		want := "missing"
		if ok {
			want = ident(w)
			if w.Kind == core.KindNull {
				want = "null"
			}
		}
		got := "missing"
		r := guard(func() (*N, error) {
			v, ok := env.Get(key)
			if !ok {
				return nil, errModel
			}
			return v, nil
		})
		if r.panic != "" {
			got = r.String()
		} else if r.err == nil {
			got = ident(r.v)
			if r.v != nil && r.v.Kind == core.KindNull {
				got = "null"
			}
		}
		c.eq("lookup", in, want, got)
		if s := envState(envs); s != st {
			c.fail("lookup-changes", in, st, s)
		}
		c.applied(envs)
		if n%4 == 0 {
			c.program()
		}
	}
}

func (c *C) applied(envs []*core.Env) {
	def := envs[c.Intn(len(envs))]
	caller := envs[c.Intn(len(envs))]
	var ps []string
	var as []*N
	l := &core.Lambda{Clojure: def}
	bad := false
	for i := c.Intn(4); i > 0; i-- {
		p := []string{"p", "q", "a"}[i-1]
		ps = append(ps, p)
		ts := core.TypedSymbol{Name: p}
		a := c.data(1)
		if c.Intn(2) == 0 {
			ts.Schema = &S{Type: []string{"integer", "string", "any", "array"}[c.Intn(4)]}
			bad = bad || !conforms(ts.Schema, a)
		}
		l.Arguments = append(l.Arguments, ts)
		as = append(as, a)
	}
	if c.Intn(6) == 0 {
		as = append(as, nInt(1))
		bad = true
	} else if c.Intn(6) == 0 && len(as) > 0 {
		as = as[1:]
		bad = true
	}
	// the body shows what the parameters are bound to
	var items []*N
	for _, p := range ps {
		items = append(items, nSym(p))
	}
	outer := "n?"
	items = append(items, nSym(outer))
	l.Body = nList(items...)
	l.Body.Tag = "!quote"
	f := &N{Kind: core.KindLambda, Value: l}
	in := fmt.Sprintf("apply a function of %v (types %v) to %s", ps, l.Arguments, shows(as))
	st := envState(envs)
	argList := nList(as...)
	before := snapshot(f, argList)
	r := guard(func() (*N, error) { return newEngine().Apply(f, as, caller, core.EvalModeEval) })
	want := "ERR"
	if !bad {
		o, ok := def.Get(outer)
		if !ok {
			o = nNull()
		}
		want = show(nList(append(append([]*N{}, as...), o)...))
	}
	c.eq("apply", in, want, r.String())
	if s := envState(envs); s != st {
		c.fail("apply-scopes", in, "scopes as before: "+st, s)
	}
	if d := before.diff(snapshot(f, argList)); d != "" {
		c.fail("apply-changes", in, "function and arguments are not changed", d)
	}
}
