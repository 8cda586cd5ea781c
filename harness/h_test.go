// Package verifharness is the bounded side of the checks: it drives the real
// code with generated inputs against independent oracles. It is laid over the
// repository as internal/verifharness by the check.
package verifharness

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

type N = core.YispNode

type failure struct{ Key, Input, Expected, Got string }

type C struct {
	*rand.Rand
	t           *testing.T
	tier        string
	deadline    time.Time
	max         int
	Evaluations int
	Distinct    int
	Rule        string
	Samples     []any
	Failures    []failure
	Error       string
	seen        map[string]bool
	failed      map[string]bool
	dir         string
}

// tmp is a scratch directory.
func (c *C) tmp() string {
	if c.dir == "" {
		c.dir = c.t.TempDir()
	}
	return c.dir
}

// more reports whether another case should be generated.
func (c *C) more(n *int, limit int) bool {
	if c.tier == "thorough" {
		limit *= 20
	}
	*n++
	return *n <= limit && time.Now().Before(c.deadline)
}

// rec counts a case; nontrivial says whether it exercises the property.
func (c *C) rec(in string, nontrivial bool) {
	c.Evaluations++
	if nontrivial && !c.seen[in] {
		c.seen[in] = true
		c.Distinct++
		if len(c.Samples) < 5 {
			c.Samples = append(c.Samples, clip(in, 300))
		}
	}
}

func (c *C) fail(key, in, want, got string) {
	if c.failed[key] || len(c.Failures) >= 12 {
		return
	}
	c.failed[key] = true
	c.Failures = append(c.Failures, failure{key, clip(in, 4000), clip(want, 2000), clip(got, 2000)})
}

// eq checks a result against its oracle.
func (c *C) eq(key, in, want, got string) {
	c.rec(in, true)
	if want != got {
		c.fail(key, in, want, got)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var props = map[string]func(c *C){}

func TestVerif(t *testing.T) {
	p := os.Getenv("VERIF_PROP")
	f := props[p]
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sec, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if sec == 0 {
		sec = 30
	}
	json.Unmarshal([]byte(os.Getenv("VERIF_ODD")), &odd)
	c := &C{Rand: rand.New(rand.NewSource(seed*7919 + 13)), t: t, tier: os.Getenv("VERIF_TIER"), deadline: time.Now().Add(time.Duration(sec) * time.Second), seen: map[string]bool{}, failed: map[string]bool{}}
	if f == nil {
		c.Error = "no bounded harness for " + p
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Error = fmt.Sprint("harness: ", r)
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(r)
					}
				}
			}()
			f(c)
		}()
	}
	b, _ := json.MarshalIndent(map[string]any{"Evaluations": c.Evaluations, "Distinct": c.Distinct, "Rule": c.Rule, "Samples": c.Samples, "Failures": c.Failures, "Error": c.Error}, "", " ")
	if o := os.Getenv("VERIF_OUT"); o != "" {
		os.WriteFile(o, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}

// ---------------------------------------------------------------- values

func nInt(i int) *N     { return &N{Kind: core.KindInt, Value: i} }
func nFlt(f float64) *N { return &N{Kind: core.KindFloat, Value: f} }
func nStr(s string) *N  { return &N{Kind: core.KindString, Value: s} }
func nBool(b bool) *N   { return &N{Kind: core.KindBool, Value: b} }
func nNull() *N         { return &N{Kind: core.KindNull} }
func nList(xs ...*N) *N {
	a := make([]any, len(xs))
	for i, x := range xs {
		a[i] = x
	}
	return &N{Kind: core.KindArray, Value: a}
}

type kv struct {
	k string
	v *N
}

func nMap(kvs ...kv) *N {
	m := core.NewYispMap()
	for _, e := range kvs {
		m.Set(e.k, e.v)
	}
	return &N{Kind: core.KindMap, Value: m}
}

func nSym(s string) *N { return &N{Kind: core.KindSymbol, Value: s} }

func nLambda(params []string, body *N, env *core.Env) *N {
	l := &core.Lambda{Body: body, Clojure: env}
	for _, p := range params {
		l.Arguments = append(l.Arguments, core.TypedSymbol{Name: p})
	}
	return &N{Kind: core.KindLambda, Value: l}
}

var edgeInts = []int{0, 1, -1, 2, 3, 7, -5, 10, 100, math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, 1 << 53, 1<<53 + 1, 1 << 62, 1 << 31, -(1 << 53) - 1}
var edgeFlts = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, 2, 3, 1e300, -1e300, 1 << 53, 9007199254740993, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1e-9}
var edgeStrs = []string{"", "a", "b", "ab", "aba", "foo", "name", "x/y", "a.b", "~", "1", "true", "null", "é日", " pad ", "%d%s", "aXbXc", "-", "*", "*x", "0", "if"}
var edgeKeys = []string{"a", "b", "c", "name", "key", "", "x/y", "m~n", "0", "1", "-", "a.b", "kind"}

// odd holds the literals of the source that the recorded tree does not have:
// values its new code may treat in a special way.
var odd struct {
	Strings []string
	Ints    []int
	Floats  []float64
}

func (c *C) oddInt() (int, bool) {
	if len(odd.Ints) == 0 || c.Intn(5) > 0 {
		return 0, false
	}
	return odd.Ints[c.Intn(len(odd.Ints))] + c.Intn(3) - 1, true
}

func (c *C) oddStr(often int) (string, bool) {
	if len(odd.Strings) == 0 || c.Intn(often) > 0 {
		return "", false
	}
	return odd.Strings[c.Intn(len(odd.Strings))], true
}

// oddLen is a length the new code may treat in a special way.
func (c *C) oddLen() (int, bool) {
	if n, is := c.oddInt(); is && n >= 0 && n <= 150 && c.Intn(4) == 0 {
		return n, true
	}
	return 0, false
}

func (c *C) int() int {
	if n, is := c.oddInt(); is {
		return n
	}
	if c.Intn(3) > 0 {
		return edgeInts[c.Intn(len(edgeInts))]
	}
	return c.Intn(41) - 20
}
func (c *C) flt() float64 {
	if len(odd.Floats) > 0 && c.Intn(5) == 0 {
		return odd.Floats[c.Intn(len(odd.Floats))]
	}
	if n, is := c.oddInt(); is {
		return float64(n) + float64(c.Intn(3)-1)/2
	}
	if c.Intn(2) > 0 {
		return edgeFlts[c.Intn(len(edgeFlts))]
	}
	return math.Round(c.NormFloat64()*1000) / 8
}
func (c *C) str() string {
	if s, is := c.oddStr(5); is {
		switch c.Intn(6) {
		case 0:
			return "a" + s
		case 1:
			return s + "a"
		case 2:
			return "a" + s + "b" + s
		}
		return s
	}
	if n, is := c.oddLen(); is {
		return strings.Repeat("a", n)
	}
	if c.Intn(4) > 0 {
		return edgeStrs[c.Intn(len(edgeStrs))]
	}
	n := c.Intn(6)
	b := ""
	for i := 0; i < n; i++ {
		b += string(rune("abcXé~/"[c.Intn(7)]))
	}
	return b
}
func (c *C) key() string {
	if s, is := c.oddStr(6); is {
		return s
	}
	return edgeKeys[c.Intn(len(edgeKeys))]
}

// scalar is a random null, bool, int, float or string.
func (c *C) scalar() *N {
	switch c.Intn(6) {
	case 0:
		return nNull()
	case 1:
		return nBool(c.Intn(2) == 0)
	case 2, 3:
		return nInt(c.int())
	case 4:
		return nFlt(c.flt())
	}
	return nStr(c.str())
}

// data is a random plain value.
func (c *C) data(depth int) *N {
	if depth <= 0 || c.Intn(3) == 0 {
		return c.scalar()
	}
	if c.Intn(2) == 0 {
		return c.list(depth)
	}
	return c.mapv(depth)
}
func (c *C) list(depth int) *N {
	var xs []*N
	i := c.Intn(5)
	if n, is := c.oddLen(); is {
		i, depth = n, 1
	}
	for ; i > 0; i-- {
		xs = append(xs, c.data(depth-1))
	}
	return nList(xs...)
}
func (c *C) mapv(depth int) *N {
	var es []kv
	for i := c.Intn(5); i > 0; i-- {
		es = append(es, kv{c.key(), c.data(depth - 1)})
	}
	return nMap(es...)
}

// value is data, or occasionally a function, a type, a symbol or a parameter.
func (c *C) value(depth int) *N {
	switch c.Intn(14) {
	case 0:
		return nLambda([]string{"x"}, nSym("x"), core.NewEnv())
	case 1:
		return &N{Kind: core.KindType, Value: &core.Schema{Type: "integer"}}
	case 2:
		return nSym("sym")
	}
	return c.data(depth)
}

// ---------------------------------------------------------------- printing

// show is a canonical rendering of a value: kinds, scalars, order.
func show(x any) string {
	var b strings.Builder
	showTo(&b, x, 0)
	return b.String()
}

func showTo(b *strings.Builder, x any, d int) {
	if d > 60 {
		b.WriteString("<deep>")
		return
	}
	switch v := x.(type) {
	case nil:
		b.WriteString("nil")
	case *N:
		if v == nil {
			b.WriteString("<nil node>")
			return
		}
		switch v.Kind {
		case core.KindArray, core.KindMap:
			showTo(b, v.Value, d+1)
		case core.KindLambda:
			b.WriteString("lambda")
		case core.KindType:
			b.WriteString("type")
		default:
			fmt.Fprintf(b, "%s:", v.Kind)
			showTo(b, v.Value, d+1)
		}
	case []any:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			showTo(b, e, d+1)
		}
		b.WriteByte(']')
	case *core.YispMap:
		b.WriteByte('{')
		i := 0
		for k, e := range v.AllFromFront() {
			if i > 0 {
				b.WriteString(", ")
			}
			i++
			fmt.Fprintf(b, "%q: ", k)
			showTo(b, e, d+1)
		}
		b.WriteByte('}')
	case float64:
		fmt.Fprintf(b, "%g/%x", v, math.Float64bits(v))
	case string:
		fmt.Fprintf(b, "%q", v)
	default:
		fmt.Fprintf(b, "%v(%T)", v, v)
	}
}

func shows(xs []*N) string {
	var p []string
	for _, x := range xs {
		p = append(p, show(x))
	}
	return strings.Join(p, " ")
}

// id of a node: lists of identities are compared where "the very value" matters.
func ident(x any) string {
	if n, ok := x.(*N); ok {
		return fmt.Sprintf("%p", n)
	}
	return fmt.Sprintf("?%v", x)
}

// ---------------------------------------------------------------- running

type res struct {
	v     *N
	err   error
	panic string
}

// String: a result is an error (ERR), a crash, or a value.
func (r res) String() string {
	switch {
	case r.panic != "":
		return "CRASH " + r.panic
	case r.err != nil:
		if r.v != nil {
			return "ERR and a value"
		}
		return "ERR"
	case r.v == nil:
		return "neither value nor error"
	}
	return show(r.v)
}

func guard(f func() (*N, error)) (r res) {
	defer func() {
		if x := recover(); x != nil {
			r = res{panic: fmt.Sprint(x)}
		}
	}()
	v, err := f()
	if err != nil && reflect.ValueOf(err).Kind() == reflect.Ptr && reflect.ValueOf(err).IsNil() {
		return res{panic: "typed nil error"}
	}
	return res{v: v, err: err}
}

func newEngine() core.Engine {
	return engine.NewEngine(engine.Options{AllowUntypedManifest: true})
}

// op applies a named operator through the engine.
func op(name string, args ...*N) res {
	return opIn(newEngine(), core.NewEnv(), core.EvalModeEval, name, args...)
}

func opIn(e core.Engine, env *core.Env, mode core.EvalMode, name string, args ...*N) res {
	return guard(func() (*N, error) { return e.Apply(nStr(name), args, env, mode) })
}

func call(name string, args []*N) string { return "(" + name + " " + shows(args) + ")" }

// run evaluates a document.
func run(src string) res { return runIn(newEngine(), core.NewEnv(), src, "test.yaml") }

func runIn(e core.Engine, env *core.Env, src, loc string) res {
	return guard(func() (*N, error) { return e.Run(strings.NewReader(src), env, loc) })
}

// ---------------------------------------------------------------- snapshots

// snap records everything reachable from the roots, by identity and content.
type snap struct {
	lines map[string]string
	seen  map[any]bool
}

func snapshot(roots ...any) *snap {
	s := &snap{map[string]string{}, map[any]bool{}}
	for _, r := range roots {
		s.visit(r)
	}
	return s
}

func (s *snap) visit(x any) {
	switch v := x.(type) {
	case *N:
		if v == nil || s.seen[v] {
			return
		}
		s.seen[v] = true
		s.lines[fmt.Sprintf("node %p", v)] = fmt.Sprintf("%v %q %s anchor=%q attr=%v root=%v type=%p", v.Kind, v.Tag, s.ref(v.Value), v.Anchor, v.Attr, v.IsDocumentRoot, v.Type)
		s.visit(v.Value)
		if v.Type != nil {
			s.visit(v.Type)
		}
	case []any:
		if len(v) == 0 {
			return
		}
		slice := [2]any{&v[0], len(v)}
		if s.seen[slice] {
			return
		}
		s.seen[slice] = true
		var p []string
		for _, e := range v {
			p = append(p, s.ref(e))
		}
		s.lines[fmt.Sprintf("list %p %d", &v[0], len(v))] = strings.Join(p, ",")
		for _, e := range v {
			s.visit(e)
		}
	case *core.YispMap:
		if v == nil || s.seen[v] {
			return
		}
		s.seen[v] = true
		var p []string
		for k, e := range v.AllFromFront() {
			p = append(p, fmt.Sprintf("%q=%s", k, s.ref(e)))
		}
		s.lines[fmt.Sprintf("map %p", v)] = strings.Join(p, ",")
		for _, e := range v.AllFromFront() {
			s.visit(e)
		}
	case map[string]*N:
		var p []string
		for k, e := range v {
			p = append(p, fmt.Sprintf("%q=%p", k, e))
		}
		sort.Strings(p)
		s.lines[fmt.Sprintf("vars %x", reflect.ValueOf(v).Pointer())] = strings.Join(p, ",")
		for _, e := range v {
			s.visit(e)
		}
	case *core.Lambda:
		if v == nil || s.seen[v] {
			return
		}
		s.seen[v] = true
		s.lines[fmt.Sprintf("lambda %p", v)] = fmt.Sprintf("%v %p %p %p", v.Arguments, v.Returns, v.Body, v.Clojure)
		s.visit(v.Body)
		s.visit(v.Clojure)
	case *core.Env:
		if v == nil || s.seen[v] {
			return
		}
		s.seen[v] = true
		s.visit(v.Vars)
		if v.Parent != nil {
			s.visit(v.Parent)
		}
	case *core.Schema:
		if v == nil || s.seen[v] {
			return
		}
		s.seen[v] = true
		b, _ := json.Marshal(v)
		s.lines[fmt.Sprintf("schema %p", v)] = string(b)
	}
}

func (s *snap) ref(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case *N:
		return fmt.Sprintf("node %p", v)
	case []any:
		if len(v) == 0 {
			return "list empty"
		}
		return fmt.Sprintf("list %p %d", &v[0], len(v))
	case *core.YispMap, *core.Lambda, *core.Schema:
		return fmt.Sprintf("%T %p", v, v)
	case map[string]*N:
		return fmt.Sprintf("vars %x", reflect.ValueOf(v).Pointer())
	case float64:
		return fmt.Sprintf("%x", math.Float64bits(v))
	}
	return fmt.Sprintf("%#v", x)
}

// diff reports the first object of the earlier snapshot that changed.
func (s *snap) diff(later *snap) string {
	var ks []string
	for k := range s.lines {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if l, ok := later.lines[k]; !ok {
			return k + " (" + s.lines[k] + ") is no longer there"
		} else if l != s.lines[k] {
			return k + ": " + s.lines[k] + "  became  " + l
		}
	}
	return ""
}
