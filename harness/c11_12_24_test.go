package verifharness

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/totegamma/yisp/core"
)

type S = core.Schema

func init() {
	props["C11"] = c11
	props["C12"] = c12
	props["C24"] = c24
}

// quiet runs f with standard output thrown away.
func quiet(f func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

// cacheHome makes a home directory with cached schemas, and returns it.
func (c *C) cacheHome(schemas map[string]*S, gvk map[string]string) string {
	home := c.t.TempDir()
	os.Setenv("HOME", home)
	base := filepath.Join(home, ".cache", "yisp")
	os.MkdirAll(filepath.Join(base, "schemas"), 0o755)
	os.MkdirAll(filepath.Join(base, "gvk"), 0o755)
	for id, s := range schemas {
		b, _ := json.Marshal(s)
		os.WriteFile(filepath.Join(base, "schemas", id+".json"), b, 0o644)
	}
	for k, id := range gvk {
		os.WriteFile(filepath.Join(base, "gvk", k+".txt"), []byte(id), 0o644)
	}
	return home
}

func ip(i int) *int         { return &i }
func fp(f float64) *float64 { return &f }

var refs = map[string]*S{
	"small": {Type: "integer", Minimum: fp(0), Maximum: fp(9)},
	"point": {Type: "object", Required: []string{"a"}, Properties: map[string]*S{"a": {Type: "integer"}, "b": {Type: "string"}}},
}

// schema is a random schema.
func (c *C) schema(depth int, allowRef bool) *S {
	if allowRef && c.Intn(9) == 0 {
		return &S{Ref: []string{"#/definitions/small", "#/definitions/point", "small", "point"}[c.Intn(4)]}
	}
	kinds := []string{"any", "null", "boolean", "integer", "integer", "float", "string", "string", "array", "object", "object", "object", "function", "oneOf"}
	if depth <= 0 {
		kinds = kinds[:8]
	}
	k := kinds[c.Intn(len(kinds))]
	s := &S{Type: k}
	switch k {
	case "integer", "float":
		b := func() *float64 {
			if c.Intn(3) > 0 {
				return nil
			}
			return fp(float64(c.Intn(13)-6) / 2)
		}
		s.Minimum, s.ExclusiveMinimum = b(), b()
		if c.Intn(2) == 0 {
			s.Maximum, s.ExclusiveMaximum = b(), b()
		}
		if c.Intn(5) == 0 {
			s.MultipleOf = ip([]int{0, 1, 2, 3, -2}[c.Intn(5)])
		}
	case "string":
		if c.Intn(3) == 0 {
			s.MinLength = ip(c.Intn(4))
		}
		if c.Intn(3) == 0 {
			s.MaxLength = ip(c.Intn(5))
		}
		if c.Intn(4) == 0 {
			s.Format = "int-or-string"
		}
	case "array":
		if c.Intn(5) > 0 {
			s.Items = c.schema(depth-1, allowRef)
		}
	case "object":
		s.Properties = map[string]*S{}
		for i := c.Intn(4); i > 0; i-- {
			s.Properties[c.key()] = c.schema(depth-1, allowRef)
		}
		for k := range s.Properties {
			if c.Intn(3) == 0 {
				s.Required = append(s.Required, k)
			}
		}
		sort.Strings(s.Required)
		if c.Intn(8) == 0 {
			s.Required = append(s.Required, c.key())
		}
		switch c.Intn(4) {
		case 0:
			s.AdditionalProperties = c.Intn(2) == 0
		case 1:
			a := c.schema(depth-1, allowRef)
			s.AdditionalProperties = a
			if c.Intn(2) == 0 { // as it comes out of a cached document
				b, _ := json.Marshal(a)
				var x any
				json.Unmarshal(b, &x)
				s.AdditionalProperties = x
			}
		}
	case "function":
		for i := c.Intn(3); i > 0; i-- {
			s.Arguments = append(s.Arguments, c.schema(depth-1, false))
		}
		if c.Intn(2) == 0 {
			s.Returns = c.schema(depth-1, false)
		}
	case "oneOf":
		s.Type = ""
		for i := c.Intn(3); i >= 0; i-- {
			s.OneOf = append(s.OneOf, c.schema(depth-1, false))
		}
	}
	return s
}

func deref(s *S) *S {
	if s != nil && s.Ref != "" {
		p := strings.Split(s.Ref, "/")
		return refs[p[len(p)-1]]
	}
	return s
}

func extra(s *S) *S {
	switch a := s.AdditionalProperties.(type) {
	case *S:
		return deref(a)
	case map[string]any:
		b, _ := json.Marshal(a)
		t := &S{}
		json.Unmarshal(b, t)
		return deref(t)
	}
	return nil
}

// conforms is the oracle of validation.
func conforms(s *S, v *N) bool {
	if s == nil {
		return false
	}
	if s.OneOf != nil {
		for _, o := range s.OneOf {
			if conforms(o, v) {
				return true
			}
		}
		return false
	}
	bounds := func(x float64) bool {
		return !(s.Minimum != nil && x < *s.Minimum || s.Maximum != nil && x > *s.Maximum ||
			s.ExclusiveMinimum != nil && x <= *s.ExclusiveMinimum || s.ExclusiveMaximum != nil && x >= *s.ExclusiveMaximum)
	}
	switch s.Type {
	case "any":
		return true
	case "null":
		return v.Kind == core.KindNull
	case "boolean":
		return v.Kind == core.KindBool
	case "integer":
		i, ok := v.Value.(int)
		return ok && v.Kind == core.KindInt && bounds(float64(i)) && (s.MultipleOf == nil || *s.MultipleOf != 0 && i%*s.MultipleOf == 0)
	case "float":
		f, ok := v.Value.(float64)
		return ok && v.Kind == core.KindFloat && bounds(f) && (s.MultipleOf == nil || math.Mod(f, float64(*s.MultipleOf)) == 0)
	case "string":
		if v.Kind == core.KindInt {
			return s.Format == "int-or-string"
		}
		t, ok := v.Value.(string)
		return ok && v.Kind == core.KindString && !(s.MinLength != nil && len(t) < *s.MinLength || s.MaxLength != nil && len(t) > *s.MaxLength)
	case "array":
		if v.Kind != core.KindArray {
			return false
		}
		if s.Items != nil {
			for _, x := range v.Value.([]any) {
				if !conforms(deref(s.Items), x.(*N)) {
					return false
				}
			}
		}
		return true
	case "object":
		if v.Kind != core.KindMap {
			return false
		}
		m := v.Value.(*core.YispMap)
		for _, k := range s.Required {
			if _, ok := m.Get(k); !ok {
				return false
			}
		}
		for k, x := range m.AllFromFront() {
			if p, ok := s.Properties[k]; ok {
				if !conforms(deref(p), x.(*N)) {
					return false
				}
			} else if k != "$schema" {
				if b, ok := s.AdditionalProperties.(bool); ok {
					if !b {
						return false
					}
				} else if !conforms(extra(s), x.(*N)) {
					return false
				}
			}
		}
		return true
	case "function":
		l, ok := v.Value.(*core.Lambda)
		if !ok || v.Kind != core.KindLambda || len(l.Arguments) != len(s.Arguments) {
			return false
		}
		for i, a := range s.Arguments {
			if l.Arguments[i].Schema != nil && !sameType(a, l.Arguments[i].Schema) {
				return false
			}
		}
		return s.Returns == nil || l.Returns == nil || sameType(s.Returns, l.Returns)
	}
	return false
}

// sameType is the oracle of type equality, for types that have a name.
func sameType(a, b *S) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Type != b.Type {
		return false
	}
	switch a.Type {
	case "any", "null", "boolean", "integer", "float", "string":
		return true
	case "array":
		return sameType(a.Items, b.Items)
	case "object":
		if len(a.Properties) != len(b.Properties) {
			return false
		}
		for k, x := range a.Properties {
			if y, ok := b.Properties[k]; !ok || !sameType(x, y) {
				return false
			}
		}
		return true
	case "function":
		if len(a.Arguments) != len(b.Arguments) {
			return false
		}
		for i := range a.Arguments {
			if !sameType(a.Arguments[i], b.Arguments[i]) {
				return false
			}
		}
		return sameType(a.Returns, b.Returns)
	}
	return false
}

// fit is a random value that mostly conforms to the schema.
func (c *C) fit(s *S, depth int) *N {
	s = deref(s)
	if s == nil || depth < 0 || c.Intn(18) == 0 {
		return c.value(1)
	}
	if s.OneOf != nil {
		return c.fit(s.OneOf[c.Intn(len(s.OneOf))], depth-1)
	}
	switch s.Type {
	case "null":
		return nNull()
	case "boolean":
		return nBool(c.Intn(2) == 0)
	case "integer":
		if c.Intn(2) == 0 {
			return nInt(c.Intn(9) - 4)
		}
		return nInt(c.int())
	case "float":
		if c.Intn(2) == 0 {
			return nFlt(float64(c.Intn(17)-8) / 2)
		}
		return nFlt(c.flt())
	case "string":
		if s.Format != "" && c.Intn(2) == 0 {
			return nInt(c.int())
		}
		return nStr(c.str())
	case "array":
		var xs []*N
		for i := c.Intn(4); i > 0; i-- {
			xs = append(xs, c.fit(s.Items, depth-1))
		}
		return nList(xs...)
	case "object":
		var es []kv
		ks := keysOf(s.Properties)
		c.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			req := false
			for _, r := range s.Required {
				req = req || r == k
			}
			if req && c.Intn(12) > 0 || c.Intn(2) == 0 {
				es = append(es, kv{k, c.fit(s.Properties[k], depth-1)})
			}
		}
		for i := c.Intn(3); i > 0 && s.AdditionalProperties != nil; i-- {
			k := c.key()
			if _, ok := s.Properties[k]; !ok {
				if x := extra(s); x != nil {
					es = append(es, kv{k, c.fit(x, depth-1)})
				} else {
					es = append(es, kv{k, c.data(1)})
				}
			}
		}
		if c.Intn(9) == 0 {
			es = append(es, kv{"$schema", nStr("x")})
		}
		return nMap(es...)
	case "function":
		var ps []string
		for i := range s.Arguments {
			ps = append(ps, fmt.Sprint("p", i))
		}
		if c.Intn(6) == 0 {
			ps = append(ps, "more")
		}
		n := nLambda(ps, nInt(1), core.NewEnv())
		l := n.Value.(*core.Lambda)
		for i := range s.Arguments {
			if c.Intn(2) == 0 {
				l.Arguments[i].Schema = c.variant(s.Arguments[i])
			}
		}
		if c.Intn(2) == 0 {
			l.Returns = c.variant(s.Returns)
		}
		return n
	}
	return c.value(1)
}

// variant is a copy of the schema, now and then changed.
func (c *C) variant(s *S) *S {
	if s == nil {
		return nil
	}
	t := *s
	if c.Intn(7) == 0 {
		t.Type = []string{"integer", "string", "array", "object"}[c.Intn(4)]
	}
	if s.Properties != nil {
		t.Properties = map[string]*S{}
		for k, v := range s.Properties {
			if c.Intn(9) == 0 {
				k += "2"
			}
			if c.Intn(9) == 0 {
				continue
			}
			t.Properties[k] = c.variant(v)
		}
	}
	t.Items = c.variant(s.Items)
	if c.Intn(12) == 0 {
		t.Items = nil
	}
	t.Returns = c.variant(s.Returns)
	t.Arguments = nil
	for _, a := range s.Arguments {
		t.Arguments = append(t.Arguments, c.variant(a))
	}
	if c.Intn(12) == 0 && len(t.Arguments) > 0 {
		t.Arguments = t.Arguments[1:]
	}
	return &t
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func showSchema(s *S) string {
	b, err := json.Marshal(s)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func c11(c *C) {
	c.Rule = "random schemas up to three levels deep, with references, and values that mostly conform to them; the answer is compared with an independent validator and the value with itself before; distinct pairs counted"
	c.cacheHome(refs, nil)
	quiet(func() {
		for n := 0; c.more(&n, 40000); {
			s := c.schema(3, true)
			if s.Ref != "" {
				s = deref(s)
			}
			v := c.fit(s, 5)
			in := "validate " + show(v) + " against " + showSchema(s)
			before := snapshot(v)
			r := guard(func() (*N, error) { return nNull(), s.Validate(v) })
			got, want := "conforms", "conforms"
			if r.panic != "" {
				got = r.String()
			} else if r.err != nil {
				got = "error"
			}
			if !conforms(s, v) {
				want = "error"
			}
			c.eq("validate:"+s.Type+":"+want, in, want, got)
			if d := before.diff(snapshot(v)); d != "" {
				c.fail("validate-changes", in, "the value is not changed", d)
			}
		}
	})
}

// filled is the oracle of filling in defaults; nil when it cannot be done.
func filled(s *S, v *N) *N {
	switch s.Type {
	case "array":
		if v.Kind != core.KindArray {
			return nil
		}
		if s.Items == nil {
			return v
		}
		var xs []*N
		for _, x := range v.Value.([]any) {
			y := filled(s.Items, x.(*N))
			if y == nil {
				return nil
			}
			xs = append(xs, y)
		}
		return nList(xs...)
	case "object":
		if v.Kind != core.KindMap {
			return nil
		}
		r := core.NewYispMap()
		for k, x := range v.Value.(*core.YispMap).AllFromFront() {
			if p := s.Properties[k]; p != nil {
				y := filled(p, x.(*N))
				if y == nil {
					return nil
				}
				x = y
			}
			r.Set(k, x)
		}
		for _, k := range keysOf(s.Properties) {
			if _, ok := r.Get(k); ok {
				continue
			}
			for _, q := range s.Required {
				if q == k {
					return nil
				}
			}
			if d := deflt(s.Properties[k]); d != nil {
				r.Set(k, d)
			}
		}
		return &N{Kind: core.KindMap, Value: r}
	}
	return v
}

func deflt(s *S) *N {
	if s == nil {
		return nil
	}
	if s.Default == nil {
		if s.Type == "object" {
			if f := filled(s, nMap()); f != nil && f.Value.(*core.YispMap).Len() > 0 {
				return f
			}
		}
		return nil
	}
	return nodeOf(s.Default, s.Type)
}

func nodeOf(x any, typ string) *N {
	switch v := x.(type) {
	case float64:
		if typ == "integer" {
			return nInt(int(v))
		}
		return nFlt(v)
	case int:
		return nInt(v)
	case string:
		return nStr(v)
	case bool:
		return nBool(v)
	case []any:
		var xs []*N
		for _, e := range v {
			xs = append(xs, nodeOf(e, ""))
		}
		return nList(xs...)
	case map[string]any:
		var es []kv
		for _, k := range keysOf(v) {
			es = append(es, kv{k, nodeOf(v[k], "")})
		}
		return nMap(es...)
	}
	return nNull()
}

// defaults gives some of the properties a default, mostly of their type.
func (c *C) defaults(s *S) {
	if s == nil {
		return
	}
	c.defaults(s.Items)
	for _, k := range keysOf(s.Properties) {
		p := s.Properties[k]
		c.defaults(p)
		if c.Intn(2) == 0 {
			switch p.Type {
			case "integer":
				p.Default = float64(c.Intn(7) - 3)
			case "float":
				p.Default = float64(c.Intn(7)-3) / 2
			case "string":
				p.Default = c.str()
			case "boolean":
				p.Default = c.Intn(2) == 0
			case "array":
				p.Default = []any{"x", true}
			case "object":
				if c.Intn(3) == 0 {
					p.Default = map[string]any{"b": "y", "a": "x"}
				}
			}
			if c.Intn(15) == 0 {
				p.Default = "odd"
			}
		}
	}
}

func c12(c *C) {
	c.Rule = "random schemas with defaults and values to cast; result, type and the unchanged input compared with an independent oracle; type equality against a structural one and its mirror; distinct inputs counted"
	c.cacheHome(refs, nil)
	quiet(func() {
		for n := 0; c.more(&n, 40000); {
			s := c.schema(3, false)
			for c.Intn(6) == 0 {
				s = &S{Type: "array", Items: s}
			}
			c.defaults(s)
			v := c.fit(s, 5)
			if s.Type == "object" && v.Kind == core.KindMap {
				v.Tag, v.Attr = "!t", core.Attribute{HeadComment: "# c", Sources: []core.FilePos{{File: "f", Line: 3, Column: 4}}}
			}
			in := "cast " + show(v) + " to " + showSchema(s)
			before := snapshot(v)
			r := guard(func() (*N, error) { return s.Cast(v) })
			want := "ERR"
			if f := filled(s, v); f != nil && conforms(s, f) {
				want = show(f)
			}
			c.eq("cast:"+s.Type, in, want, r.String())
			if r.v != nil && r.err == nil {
				if r.v.Type != s {
					c.fail("cast-type", in, "the result carries the type", fmt.Sprint(r.v.Type))
				}
				if r.v.Tag != v.Tag || fmt.Sprint(r.v.Attr) != fmt.Sprint(v.Attr) {
					c.fail("cast-meta", in, "tag and position are kept", fmt.Sprint(r.v.Tag, r.v.Attr))
				}
			}
			if d := before.diff(snapshot(v)); d != "" {
				c.fail("cast-changes", in, "the given value is not changed", d)
			}
			a := c.schema(3, false)
			b := c.variant(a)
			if c.Intn(3) == 0 {
				b = c.schema(2, false)
			}
			x, y := a.Equals(b), b.Equals(a)
			w := sameType(a, b)
			c.eq("type-equality", showSchema(a)+" = "+showSchema(b), fmt.Sprint(w, w), fmt.Sprint(x, y))
		}
	})
}

// native is random decoded data.
func (c *C) native(depth int) any {
	k := c.Intn(9)
	if depth <= 0 {
		k = c.Intn(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return c.Intn(2) == 0
	case 2:
		return c.int()
	case 3:
		return c.flt()
	case 4, 5:
		return c.str()
	case 6:
		xs := []any{}
		for i := c.Intn(5); i > 0; i-- {
			xs = append(xs, c.native(depth-1))
		}
		return xs
	}
	m := map[string]any{}
	for i := c.Intn(7); i > 0; i-- {
		m[c.key()] = c.native(depth - 1)
	}
	return m
}

// mirrors says where a node differs from the data it was converted from.
func mirrors(file string, x any, n *N) string {
	if n == nil {
		return "no node"
	}
	if len(n.Attr.Sources) != 1 || n.Attr.Sources[0].File != file {
		return fmt.Sprintf("%s does not name the file: %v", show(n), n.Attr.Sources)
	}
	kind := func(k core.Kind, v any) string {
		if n.Kind != k || show(n.Value) != show(v) {
			return fmt.Sprintf("%s became %s", show(v), show(n))
		}
		return ""
	}
	switch v := x.(type) {
	case nil:
		return kind(core.KindNull, nil)
	case bool:
		return kind(core.KindBool, v)
	case int:
		return kind(core.KindInt, v)
	case float64:
		return kind(core.KindFloat, v)
	case string:
		return kind(core.KindString, v)
	case []any:
		a, ok := n.Value.([]any)
		if !ok || n.Kind != core.KindArray || len(a) != len(v) {
			return "a list of " + fmt.Sprint(len(v)) + " became " + show(n)
		}
		for i := range v {
			e, _ := a[i].(*N)
			if d := mirrors(file, v[i], e); d != "" {
				return d
			}
		}
		return ""
	case map[string]any:
		m, ok := n.Value.(*core.YispMap)
		if !ok || n.Kind != core.KindMap || m.Len() != len(v) {
			return "a map of " + fmt.Sprint(len(v)) + " became " + show(n)
		}
		for k, e := range m.AllFromFront() {
			y, ok := v[k]
			if !ok {
				return "unknown key " + k
			}
			en, _ := e.(*N)
			if d := mirrors(file, y, en); d != "" {
				return d
			}
		}
		return ""
	}
	return fmt.Sprintf("unexpected %T", x)
}

func c24(c *C) {
	c.Rule = "random decoded data converted, compared item by item, and converted again several times; the same through JSON and YAML text; distinct inputs counted"
	for n := 0; c.more(&n, 4000); {
		x := c.native(3)
		file := []string{"", "a.yaml", "dir/b.json"}[c.Intn(3)]
		r := guard(func() (*N, error) { return core.ParseAny(file, x) })
		in := fmt.Sprintf("ParseAny(%q, %s)", file, clip(fmt.Sprintf("%#v", x), 1500))
		c.rec(in, true)
		if r.v == nil || r.err != nil {
			c.fail("convert", in, "a value", r.String())
			continue
		}
		if d := mirrors(file, x, r.v); d != "" {
			c.fail("convert", in, "the same tree", d)
		}
		for i := 0; i < 4; i++ {
			if s := guard(func() (*N, error) { return core.ParseAny(file, x) }); s.String() != r.String() {
				c.fail("deterministic", in, r.String(), s.String())
			}
		}
		for _, bad := range []any{struct{}{}, []any{1, func() {}}, map[string]any{"a": make(chan int)}, map[int]any{1: 2}, []int{1}} {
			if b := guard(func() (*N, error) { return core.ParseAny(file, bad) }); b.String() != "ERR" {
				c.fail("unconvertible", fmt.Sprintf("ParseAny(%T)", bad), "ERR", b.String())
			}
		}
		text, err := json.Marshal(x)
		if err != nil {
			continue
		}
		var back any
		json.Unmarshal(text, &back)
		j := guard(func() (*N, error) { return core.ParseJson(file, strings.NewReader(string(text))) })
		if j.v == nil || j.err != nil {
			c.fail("json", string(text), "a value", j.String())
		} else if d := mirrors(file, back, j.v); d != "" {
			c.fail("json", string(text), "the same tree", d)
		}
		y := guard(func() (*N, error) { return core.ParseYaml(file, strings.NewReader("k:\n  - 1\n  - 2.5\n  - {b: x, a: true, c: ~}\n")) })
		c.eq("yaml", "a small YAML document", `{"k": [int:1(int), float:2.5/4004000000000000, {"a": bool:true(bool), "b": string:"x", "c": null:nil}]}`, y.String())
	}
}
