package verifharness

import (
	"fmt"
	"strings"

	yamlv3 "github.com/totegamma/yisp/internal/yaml"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

func init() {
	props["C20"] = c20
}

// ---------------------------------------------------------------- C20

func (c *C) yamlMeta(y *yamlv3.Node, line *int) *yamlv3.Node {
	*line += c.Intn(3)
	y.Line, y.Column = *line, 1+c.Intn(40)
	if c.Intn(3) == 0 {
		y.HeadComment = "# h" + c.key()
	}
	if c.Intn(3) == 0 {
		y.LineComment = "# l" + c.key()
	}
	if c.Intn(3) == 0 {
		y.FootComment = "# f" + c.key()
	}
	switch y.Kind {
	case yamlv3.ScalarNode:
		y.Style = []yamlv3.Style{0, yamlv3.DoubleQuotedStyle, yamlv3.SingleQuotedStyle, yamlv3.LiteralStyle, yamlv3.FoldedStyle, yamlv3.TaggedStyle}[c.Intn(6)]
	case yamlv3.MappingNode, yamlv3.SequenceNode:
		y.Style = []yamlv3.Style{0, yamlv3.FlowStyle, yamlv3.TaggedStyle}[c.Intn(3)]
	}
	if c.Intn(5) == 0 && y.Kind != yamlv3.AliasNode && y.Kind != yamlv3.DocumentNode {
		y.Anchor = "a" + c.key()
	}
	return y
}

var yamlTags = []string{"!!str", "!!int", "!!float", "!!bool", "!!null", "!string", "!int", "!float", "!bool", "!null", "!custom", "", "!!timestamp"}

func (c *C) yamlTree(depth int, line *int) *yamlv3.Node {
	k := c.Intn(7)
	if depth <= 0 && k < 4 {
		k = 4 + c.Intn(3)
	}
	switch k {
	case 0, 1:
		y := c.yamlMeta(&yamlv3.Node{Kind: yamlv3.SequenceNode, Tag: []string{"!!seq", "!quote", "!x", "!yisp"}[c.Intn(4)]}, line)
		for i := c.Intn(5); i > 0; i-- {
			y.Content = append(y.Content, c.yamlTree(depth-1, line))
		}
		return y
	case 2, 3:
		y := c.yamlMeta(&yamlv3.Node{Kind: yamlv3.MappingNode, Tag: []string{"!!map", "!quote", "!x"}[c.Intn(3)]}, line)
		seen := map[string]bool{}
		for i := c.Intn(6); i > 0; i-- {
			key := c.key()
			if c.Intn(4) == 0 {
				key = "<<"
			}
			if key != "<<" && (seen[key] || strings.HasPrefix(key, "__")) {
				continue
			}
			seen[key] = true
			kn := c.yamlMeta(&yamlv3.Node{Kind: yamlv3.ScalarNode, Tag: yamlTags[c.Intn(3)], Value: key}, line)
			kn.Anchor = ""
			y.Content = append(y.Content, kn, c.yamlTree(depth-1, line))
		}
		return y
	case 4:
		return c.yamlMeta(&yamlv3.Node{Kind: yamlv3.AliasNode, Value: "a" + c.key()}, line)
	}
	return c.yamlMeta(&yamlv3.Node{Kind: yamlv3.ScalarNode, Tag: yamlTags[c.Intn(len(yamlTags))], Value: []string{c.str(), "1", "1.5", "true", "null", "~", "", "0x10", "1e3"}[c.Intn(9)]}, line)
}

func yamlText(y *yamlv3.Node) string {
	var b strings.Builder
	var walk func(y *yamlv3.Node)
	walk = func(y *yamlv3.Node) {
		fmt.Fprintf(&b, "%d:%s%q", y.Kind, y.Tag, clip(y.Value, 20))
		if y.Anchor != "" {
			b.WriteString("&" + y.Anchor)
		}
		if len(y.Content) > 0 {
			b.WriteString("[")
			for i, x := range y.Content {
				if i > 0 {
					b.WriteString(" ")
				}
				walk(x)
			}
			b.WriteString("]")
		}
	}
	walk(y)
	return b.String()
}

func metaOf(file string, y *yamlv3.Node) string {
	return fmt.Sprintf("[%s:%d:%d] %q %q %q style=%d", file, y.Line, y.Column, y.HeadComment, y.LineComment, y.FootComment, y.Style)
}

func metaGot(n *N) string {
	at := ""
	for _, s := range n.Attr.Sources {
		at += fmt.Sprintf("[%s:%d:%d]", s.File, s.Line, s.Column)
	}
	return fmt.Sprintf("%s %q %q %q style=%d", at, n.Attr.HeadComment, n.Attr.LineComment, n.Attr.FootComment, n.Attr.Style)
}

// parsed says where a value differs from the YAML node it was parsed from.
func parsed(file string, y *yamlv3.Node, x any, root *yamlv3.Node) (where, want, got string) {
	n, ok := x.(*N)
	if !ok || n == nil {
		return "", "a node", show(x)
	}
	at := func(s string) string { return fmt.Sprintf("%s of the node at %d:%d (%s %q)", s, y.Line, y.Column, y.Tag, clip(y.Value, 20)) }
	meta := y
	if root != nil {
		meta = root
	}
	if w, g := metaOf(file, meta), metaGot(n); w != g {
		return at("position, comments and style"), w, g
	}
	if n.Tag != y.Tag {
		return at("tag"), y.Tag, n.Tag
	}
	if n.Anchor != y.Anchor {
		return at("anchor"), y.Anchor, n.Anchor
	}
	kind := core.KindString
	switch y.Kind {
	case yamlv3.SequenceNode:
		kind = core.KindArray
	case yamlv3.MappingNode:
		kind = core.KindMap
	case yamlv3.AliasNode:
		kind = core.KindSymbol
	default:
		switch strings.TrimLeft(y.Tag, "!") {
		case "int":
			kind = core.KindInt
		case "float":
			kind = core.KindFloat
		case "bool":
			kind = core.KindBool
		case "null":
			kind = core.KindNull
		}
	}
	if n.Kind != kind {
		return at("kind"), kind.String(), n.Kind.String()
	}
	switch y.Kind {
	case yamlv3.SequenceNode:
		xs, ok := n.Value.([]any)
		if !ok || len(xs) != len(y.Content) {
			return at("number of items"), fmt.Sprint(len(y.Content)), show(n)
		}
		for i, k := range y.Content {
			if w, a, b := parsed(file, k, xs[i], nil); w != "" {
				return w, a, b
			}
		}
	case yamlv3.MappingNode:
		m, ok := n.Value.(*core.YispMap)
		if !ok || m.Len() != len(y.Content)/2 {
			return at("number of entries"), fmt.Sprint(len(y.Content) / 2), show(n)
		}
		i := 0
		for key, v := range m.AllFromFront() {
			kn := y.Content[i]
			if kn.Value == "<<" && !strings.HasPrefix(key, core.YISP_SPECIAL_MERGE_KEY) || kn.Value != "<<" && key != kn.Value {
				return at(fmt.Sprintf("key %d", i/2)), kn.Value, key
			}
			if w, a, b := parsed(file, y.Content[i+1], v, nil); w != "" {
				return w, a, b
			}
			a := v.(*N).Attr
			w := fmt.Sprintf("%q %q %q style=%d", kn.HeadComment, kn.LineComment, kn.FootComment, kn.Style)
			if g := fmt.Sprintf("%q %q %q style=%d", a.KeyHeadComment, a.KeyLineComment, a.KeyFootComment, a.KeyStyle); w != g {
				return at(fmt.Sprintf("comments and style of key %q", kn.Value)), w, g
			}
			i += 2
		}
	default:
		if s, ok := n.Value.(string); !ok || s != y.Value {
			return at("text"), fmt.Sprintf("%q", y.Value), fmt.Sprintf("%#v", n.Value)
		}
	}
	return "", "", ""
}

func c20(c *C) {
	c.Rule = "the tree of values has the shape, kinds, text, tags, anchors, styles, comments and positions of the YAML nodes"
	for n := 0; c.more(&n, 30000); {
		line := 1
		y := c.yamlTree(1+c.Intn(4), &line)
		file := c.key() + ".yaml"
		root := y
		if c.Intn(4) == 0 {
			l := 0
			root = c.yamlMeta(&yamlv3.Node{Kind: yamlv3.DocumentNode, Content: []*yamlv3.Node{y}}, &l)
		}
		in := "Parse " + yamlText(root)
		var v *N
		r := guard(func() (*N, error) { x, err := engine.Parse(file, root); v = x; return x, err })
		c.rec(in, len(y.Content) > 0)
		if v == nil {
			c.fail("parse", in, "a value", r.String())
			continue
		}
		var doc *yamlv3.Node
		if root != y {
			doc = root
		}
		if w, a, b := parsed(file, y, v, doc); w != "" {
			c.fail("parse", in, w+": "+a, b)
		}
	}
	if c.more(new(int), 1) { // merge keys keep their place, as the decoder gives them
		var y yamlv3.Node
		src := "a: 1\n<<: *x\nb: 2\n<<: *y\n<<: *z\nc: 3\n"
		src = "p: [&x {}, &y {}, &z {}]\nq:\n  " + strings.ReplaceAll(strings.TrimSpace(src), "\n", "\n  ") + "\n"
		if err := yamlv3.Unmarshal([]byte(src), &y); err == nil {
			v, _ := engine.Parse("m.yaml", &y)
			if w, a, b := parsed("m.yaml", y.Content[0], v, &y); w != "" {
				c.fail("merge keys", src, w+": "+a, b)
			}
		}
	}
}
