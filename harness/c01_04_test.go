package verifharness

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/totegamma/yisp/core"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
}

func wrap64(z *big.Int) int {
	m := new(big.Int).And(z, new(big.Int).SetUint64(math.MaxUint64))
	return int(m.Uint64())
}

func c01(c *C) {
	c.Rule = "argument lists of length 0 to 6 of edge integers, one in four with a non-integer; oracle: big-integer fold reduced modulo 2^64; non-trivial: every list"
	names := [][]string{{"+", "add"}, {"-", "sub"}, {"*", "mul"}, {"/", "div"}}
	n := 0
	for c.more(&n, 30000) {
		k := c.Intn(4)
		name := names[k][c.Intn(2)]
		var args []*N
		bad := false
		for i := c.Intn(7); i > 0; i-- {
			if c.Intn(12) == 0 {
				args = append(args, c.value(1))
			} else {
				args = append(args, nInt(c.int()))
			}
			if _, ok := args[len(args)-1].Value.(int); !ok {
				bad = true
			}
		}
		acc := big.NewInt(0)
		if k == 2 {
			acc = big.NewInt(1)
		}
		if !bad {
			for i, a := range args {
				v := big.NewInt(int64(a.Value.(int)))
				if i == 0 {
					acc = v
					continue
				}
				switch k {
				case 0:
					acc = new(big.Int).Add(acc, v)
				case 1:
					acc = new(big.Int).Sub(acc, v)
				case 2:
					acc = new(big.Int).Mul(acc, v)
				case 3:
					if v.Sign() == 0 {
						bad = true
					} else {
						acc = new(big.Int).Quo(acc, v)
					}
				}
				if bad {
					break
				}
				acc = big.NewInt(int64(wrap64(acc)))
			}
		}
		want := "ERR"
		if !bad {
			want = show(nInt(wrap64(acc)))
		}
		c.eq("arith "+name, call(name, args), want, op(name, args...).String())
	}
}

// cmpNum: -1, 0, 1, or 2 when unordered.
func cmpNum(a, b any) int {
	ai, aok := a.(int)
	bi, bok := b.(int)
	if aok && bok {
		switch {
		case ai < bi:
			return -1
		case ai > bi:
			return 1
		}
		return 0
	}
	f := func(x any) float64 {
		if i, ok := x.(int); ok {
			return float64(i)
		}
		return x.(float64)
	}
	x, y := f(a), f(b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	case x == y:
		return 0
	}
	return 2
}

func isNum(x any) bool {
	switch x.(type) {
	case int, float64:
		return true
	}
	return false
}

func c02(c *C) {
	c.Rule = "pairs (and wrong-length lists) of edge integers, floats, strings, booleans, nulls, lists and maps; oracle: exact integer comparison, IEEE comparison otherwise; non-trivial: every pair"
	ops := map[string][]string{"==": {"==", "eq"}, "!=": {"!=", "neq"}, "<": {"<", "lt"}, "<=": {"<=", "lte"}, ">": {">", "gt"}, ">=": {">=", "gte"}}
	keys := []string{"==", "!=", "<", "<=", ">", ">="}
	n := 0
	for c.more(&n, 30000) {
		var args []*N
		k := 2
		if c.Intn(15) == 0 {
			k = c.Intn(5)
		}
		for i := 0; i < k; i++ {
			if c.Intn(3) > 0 {
				if c.Intn(2) == 0 {
					args = append(args, nInt(c.int()))
				} else {
					args = append(args, nFlt(c.flt()))
				}
			} else {
				args = append(args, c.value(1))
			}
		}
		if k == 2 && c.Intn(4) == 0 {
			args[1] = args[0]
		}
		o := keys[c.Intn(6)]
		name := ops[o][c.Intn(2)]
		got := op(name, args...).String()
		want := ""
		if len(args) != 2 {
			want = "ERR"
		} else {
			a, b := args[0].Value, args[1].Value
			var v bool
			if isNum(a) && isNum(b) {
				r := cmpNum(a, b)
				v = map[string]bool{"==": r == 0, "!=": r != 0, "<": r == -1, "<=": r == -1 || r == 0, ">": r == 1, ">=": r == 1 || r == 0}[o]
			} else if o != "==" && o != "!=" {
				want = "ERR"
			} else {
				sc := func(x *N) bool { return x.Kind >= core.KindNull && x.Kind <= core.KindString }
				if !sc(args[0]) && !sc(args[1]) || args[0].Kind == core.KindSymbol || args[1].Kind == core.KindSymbol {
					c.rec(call(name, args), false)
					if strings.HasPrefix(got, "CRASH") {
						c.fail("compare crash "+name, call(name, args), "no crash", got)
					}
					continue // containers: outside the statement
				}
				v = args[0].Kind == args[1].Kind && a == b
				if o == "!=" {
					v = !v
				}
			}
			if want == "" {
				want = show(nBool(v))
			}
		}
		c.eq("compare "+name, call(name, args), want, got)
	}
}

func oracleFalsy(n *N) bool {
	switch n.Kind {
	case core.KindNull:
		return true
	case core.KindBool:
		return n.Value == false
	case core.KindInt:
		return n.Value == 0
	case core.KindFloat:
		return n.Value.(float64) == 0
	case core.KindString:
		return n.Value == ""
	case core.KindArray:
		return len(n.Value.([]any)) == 0
	case core.KindMap:
		return n.Value.(*core.YispMap).Len() == 0
	}
	return false
}

func c03(c *C) {
	c.Rule = "argument lists of length 0 to 5 of plain values of every kind; oracle: the falsy table; non-trivial: every list"
	n := 0
	for c.more(&n, 30000) {
		var args []*N
		for i := c.Intn(6); i > 0; i-- {
			switch c.Intn(4) {
			case 0:
				args = append(args, []*N{nNull(), nBool(false), nInt(0), nFlt(0), nStr(""), nList(), nMap()}[c.Intn(7)])
			case 1:
				args = append(args, nNull())
			default:
				args = append(args, c.data(1))
			}
		}
		var name, want string
		switch c.Intn(4) {
		case 0:
			name = []string{"&&", "and"}[c.Intn(2)]
			v := true
			for _, a := range args {
				v = v && !oracleFalsy(a)
			}
			want = show(nBool(v))
		case 1:
			name = []string{"||", "or"}[c.Intn(2)]
			v := false
			for _, a := range args {
				v = v || !oracleFalsy(a)
			}
			want = show(nBool(v))
		case 2:
			name = []string{"!", "not"}[c.Intn(2)]
			if c.Intn(4) > 0 {
				args = []*N{c.data(1)}
			}
			want = "ERR"
			if len(args) == 1 {
				want = show(nBool(oracleFalsy(args[0])))
			}
		case 3:
			name = []string{"??", "default"}[c.Intn(2)]
			r := op(name, args...)
			want := nNull()
			same := false
			for _, a := range args {
				if a.Kind != core.KindNull {
					want, same = a, true
					break
				}
			}
			c.eq("logic "+name, call(name, args), show(want), r.String())
			if same && r.v != want {
				c.fail("logic identity "+name, call(name, args), "the argument itself", "another node")
			}
			continue
		}
		c.eq("logic "+name, call(name, args), want, op(name, args...).String())
	}
}

func ids(n *N) string {
	if n == nil || n.Kind != core.KindArray {
		return "not a list"
	}
	a, ok := n.Value.([]any)
	if !ok {
		return "not a list"
	}
	var p []string
	for _, x := range a {
		p = append(p, ident(x)+"="+clip(show(x), 40))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func idList(xs []*N) string {
	var p []string
	for _, x := range xs {
		p = append(p, ident(x)+"="+clip(show(x), 40))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func items(n *N) []*N {
	var out []*N
	for _, x := range n.Value.([]any) {
		out = append(out, x.(*N))
	}
	return out
}

// spare gives a list whose slice has spare capacity holding other nodes, as
// a sublist has; appending to it in place would be visible.
func (c *C) spare(depth int) *N {
	l := c.list(depth)
	if c.Intn(2) == 0 {
		a := l.Value.([]any)
		b := append(append(make([]any, 0, len(a)+3), a...), nStr("behind"))
		l.Value = b[:len(a)]
	}
	return l
}

func c04(c *C) {
	c.Rule = "argument lists of every length 0 to 4 for each list operator, mostly well-formed; oracle: slices of node identities; non-trivial: every application"
	names := []string{"lists.car", "lists.cdr", "lists.cons", "lists.at", "lists.length", "lists.iota", "lists.flatten", "lists.contains", "lists.as-toplevel"}
	n := 0
	for c.more(&n, 40000) {
		name := names[c.Intn(len(names))]
		var args []*N
		shape := c.Intn(8)
		switch {
		case shape == 0:
			for i := c.Intn(5); i > 0; i-- {
				args = append(args, c.value(2))
			}
		case name == "lists.cons":
			args = []*N{c.value(2), c.spare(2)}
		case name == "lists.at":
			l := c.spare(2)
			args = []*N{l, nInt(c.Intn(len(l.Value.([]any))+3) - 1)}
			if c.Intn(6) == 0 {
				args[1] = c.value(1)
			}
		case name == "lists.iota":
			args = []*N{nInt(c.Intn(9) - 1)}
			for c.Intn(2) == 0 {
				args = append(args, nInt(c.int()))
			}
		case name == "lists.contains":
			l := c.spare(2)
			args = []*N{l, c.value(1)}
			if its := items(l); len(its) > 0 && c.Intn(2) == 0 {
				x := *its[c.Intn(len(its))]
				args[1] = &x
			}
		case name == "lists.flatten" || name == "lists.as-toplevel":
			for i := c.Intn(4); i > 0; i-- {
				if c.Intn(3) == 0 {
					args = append(args, c.scalar())
				} else {
					args = append(args, c.spare(3))
				}
			}
		default:
			args = []*N{c.spare(2)}
		}
		in := call(name, args)
		if name == "lists.iota" && len(args) > 0 {
			if v, is := args[0].Value.(int); is && v > 1000 {
				continue // only asks for memory
			}
		}
		before := snapshot(anys(args)...)
		r := op(name, args...)
		if d := before.diff(snapshot(anys(args)...)); d != "" {
			c.fail("operand changed by "+name, in, "operands unchanged", d)
		}
		isL := func(i int) bool { return i < len(args) && args[i].Kind == core.KindArray }
		bad := "ERR"
		okIds := func(want []*N) {
			got := r.String()
			if r.err == nil && r.panic == "" && r.v != nil {
				got = ids(r.v)
			}
			c.eq(name, in, idList(want), got)
		}
		switch name {
		case "lists.car":
			if len(args) != 1 || !isL(0) || len(items(args[0])) == 0 {
				c.eq(name, in, bad, r.String())
			} else {
				c.eq(name, in, ident(items(args[0])[0])+" "+show(items(args[0])[0]), ident(r.v)+" "+r.String())
			}
		case "lists.cdr":
			if len(args) != 1 || !isL(0) || len(items(args[0])) == 0 {
				c.eq(name, in, bad, r.String())
			} else {
				okIds(items(args[0])[1:])
			}
		case "lists.cons":
			if len(args) != 2 || !isL(1) {
				c.eq(name, in, bad, r.String())
			} else {
				okIds(append([]*N{args[0]}, items(args[1])...))
			}
		case "lists.at":
			if len(args) != 2 || !isL(0) || args[1].Kind != core.KindInt || args[1].Value.(int) < 0 || args[1].Value.(int) >= len(items(args[0])) {
				c.eq(name, in, bad, r.String())
			} else {
				w := items(args[0])[args[1].Value.(int)]
				c.eq(name, in, ident(w), ident(r.v))
			}
		case "lists.length":
			if len(args) != 1 || !isL(0) {
				c.eq(name, in, bad, r.String())
			} else {
				c.eq(name, in, show(nInt(len(items(args[0])))), r.String())
			}
		case "lists.iota":
			ok := len(args) >= 1
			for i := 0; i < len(args) && i < 2; i++ {
				v, is := args[i].Value.(int)
				ok = ok && is && v >= 0
			}
			if !ok {
				c.eq(name, in, bad, r.String())
			} else {
				var w []*N
				b := 0
				if len(args) > 1 {
					b = args[1].Value.(int)
				}
				for i := 0; i < args[0].Value.(int); i++ {
					w = append(w, nInt(b+i))
				}
				c.eq(name, in, show(nList(w...)), r.String())
			}
		case "lists.contains":
			if len(args) != 2 || !isL(0) {
				c.eq(name, in, bad, r.String())
				continue
			}
			if k := args[1].Kind; k == core.KindArray {
				c.rec(in, false)
				continue
			}
			f := false
			for _, x := range items(args[0]) {
				if x.Kind == core.KindArray {
					continue
				}
				f = f || x.Value == args[1].Value
			}
			c.eq(name, in, show(nBool(f)), r.String())
		case "lists.flatten", "lists.as-toplevel":
			var w []*N
			for _, a := range args {
				if a.Kind != core.KindArray {
					w = append(w, a)
					continue
				}
				for _, x := range items(a) {
					if x.Kind == core.KindArray && name == "lists.flatten" {
						w = append(w, items(x)...)
					} else {
						w = append(w, x)
					}
				}
			}
			okIds(w)
			if name == "lists.as-toplevel" && r.v != nil && !r.v.IsDocumentRoot {
				c.fail(name+" root", in, "a document root", "not marked")
			}
		}
	}
}

func anys(xs []*N) []any {
	var out []any
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

var _ = fmt.Sprint
