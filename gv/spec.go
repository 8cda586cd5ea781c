package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- syntax

type SNode struct {
	op   string // "id", "int", "str", "meta", "call", "sel", "idx", "as", "is", "bin", "un", "ite", "let", "forall", "exists", "rforall", "rexists"
	name string
	kids []*SNode
	ty   string
	pos  string
}

func (n *SNode) String() string {
	switch n.op {
	case "id", "int", "meta":
		return n.name
	case "str":
		return strconv.Quote(n.name)
	case "call":
		return n.name + "(" + joinS(n.kids) + ")"
	case "sel":
		return n.kids[0].String() + "." + n.name
	case "idx":
		return n.kids[0].String() + "[" + n.kids[1].String() + "]"
	case "as":
		return n.kids[0].String() + ".(" + n.ty + ")"
	case "is":
		return "is(" + n.kids[0].String() + ", " + n.ty + ")"
	case "bin":
		return "(" + n.kids[0].String() + " " + n.name + " " + n.kids[1].String() + ")"
	case "un":
		return n.name + n.kids[0].String()
	case "ite":
		return "if " + n.kids[0].String() + " then " + n.kids[1].String() + " else " + n.kids[2].String()
	case "let":
		return "let " + n.name + " = " + n.kids[0].String() + " in " + n.kids[1].String()
	case "rforall", "rexists":
		return n.op[1:] + " " + n.name + " in " + n.kids[0].String() + ".." + n.kids[1].String() + ": " + n.kids[2].String()
	case "forall", "exists":
		return n.op + " " + n.name + " " + n.ty + ": " + n.kids[0].String()
	}
	return "?"
}

func joinS(ns []*SNode) string {
	var s []string
	for _, n := range ns {
		s = append(s, n.String())
	}
	return strings.Join(s, ", ")
}

type tok struct {
	k    string // "id", "int", "str", "meta", "op", "eof"
	s    string
	pos  int
	line int
}

type parser_ struct {
	file string
	src  string
	toks []tok
	i    int
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isIdStart(c):
			j := i
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], i, line})
			i = j
		case c == '?' && i+1 < len(src) && isIdStart(src[i+1]):
			j := i + 1
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"meta", src[i:j], i, line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j], i, line})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			out = append(out, tok{"str", s, i, line})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "..", "<", ">", "+", "-", "*", "(", ")", "[", "]", "{", "}", ",", ":", ".", "!", "=", ";", "|"}
			found := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					found = o
					break
				}
			}
			if found == "" {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
			}
			out = append(out, tok{"op", found, i, line})
			i += len(found)
		}
	}
	out = append(out, tok{"eof", "", len(src), line})
	return out
}

func isIdStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

func (p *parser_) cur() tok  { return p.toks[p.i] }
func (p *parser_) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser_) at(s string) bool {
	return p.cur().k != "str" && p.cur().s == s && p.cur().k != "eof"
}
func (p *parser_) fail(m string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, m, p.cur().s))
}
func (p *parser_) expect(s string) tok {
	if !p.at(s) {
		p.fail("expected " + s)
	}
	return p.next()
}
func (p *parser_) ident() string {
	if p.cur().k != "id" {
		p.fail("expected identifier")
	}
	return p.next().s
}

// rawType reads a Go type up to a closing delimiter at depth zero.
func (p *parser_) rawType(stop ...string) string {
	start := p.cur().pos
	depth := 0
	for {
		t := p.cur()
		if t.k == "eof" {
			p.fail("unterminated type")
		}
		if depth == 0 {
			for _, s := range stop {
				if t.k != "str" && t.s == s {
					return strings.TrimSpace(p.src[start:t.pos])
				}
			}
		}
		switch t.s {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
		}
		p.next()
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7}

func (p *parser_) expr(min int) *SNode {
	l := p.unary()
	for {
		t := p.cur()
		if t.k != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *SNode
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &SNode{op: "bin", name: t.s, kids: []*SNode{l, r}}
	}
}

func (p *parser_) unary() *SNode {
	t := p.cur()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &SNode{op: "un", name: t.s, kids: []*SNode{p.unary()}}
	}
	if t.k == "id" {
		switch t.s {
		case "forall", "exists":
			p.next()
			v := p.ident()
			if p.at("in") {
				p.next()
				lo := p.expr(6)
				p.expect("..")
				hi := p.expr(6)
				p.expect(":")
				b := p.expr(1)
				return &SNode{op: "r" + t.s, name: v, kids: []*SNode{lo, hi, b}}
			}
			ty := p.rawType(":")
			p.expect(":")
			return &SNode{op: t.s, name: v, ty: ty, kids: []*SNode{p.expr(1)}}
		case "if":
			p.next()
			c := p.expr(1)
			p.expect("then")
			a := p.expr(1)
			p.expect("else")
			return &SNode{op: "ite", kids: []*SNode{c, a, p.expr(1)}}
		case "let":
			p.next()
			v := p.ident()
			p.expect("=")
			e := p.expr(1)
			p.expect("in")
			return &SNode{op: "let", name: v, kids: []*SNode{e, p.expr(1)}}
		}
	}
	return p.postfix(p.primary())
}

func (p *parser_) primary() *SNode {
	t := p.next()
	switch t.k {
	case "int", "str", "meta":
		return &SNode{op: t.k, name: t.s}
	case "id":
		if p.at("(") {
			p.next()
			if t.s == "is" {
				x := p.expr(1)
				p.expect(",")
				ty := p.rawType(")")
				p.expect(")")
				return &SNode{op: "is", ty: ty, kids: []*SNode{x}}
			}
			n := &SNode{op: "call", name: t.s}
			for !p.at(")") {
				n.kids = append(n.kids, p.expr(1))
				if p.at(",") {
					p.next()
				}
			}
			p.expect(")")
			return n
		}
		return &SNode{op: "id", name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(1)
			p.expect(")")
			return e
		}
	}
	p.i--
	p.fail("unexpected token")
	return nil
}

func (p *parser_) postfix(x *SNode) *SNode {
	for {
		switch {
		case p.at("."):
			p.next()
			if p.at("(") {
				p.next()
				ty := p.rawType(")")
				p.expect(")")
				x = &SNode{op: "as", ty: ty, kids: []*SNode{x}}
				continue
			}
			x = &SNode{op: "sel", name: p.ident(), kids: []*SNode{x}}
		case p.at("["):
			p.next()
			i := p.expr(1)
			p.expect("]")
			x = &SNode{op: "idx", kids: []*SNode{x, i}}
		default:
			return x
		}
	}
}

// ---------------------------------------------------------------- contracts

type Clause struct {
	Label string
	Props []string
	E     *SNode
	Depth int
}

type FoldDef struct {
	Name       string
	Ks         []string // the last one is the folding index
	Ty         string
	Init, Step *SNode
}

type Contract struct {
	Key        string // function key, or "op:<name>"
	Ops        []string
	Params     []string
	Results    []string
	Props      []string
	Requires   []Clause
	Ensures    []Clause
	Defines    map[string]bool // relations whose definition the postconditions use
	Given      []Clause        // relations over the parameters whose definition is used
	Assumes    []Clause        // what callers may assume and no check proves
	Invs       []Clause
	Folds      []*FoldDef
	Modifies   []string
	Allows     []*SNode
	Unrecorded []string // kinds of (pure) events left out of this function's trace
	Paths      bool     // follow the cases of top-level switch statements separately to the end
	Splits     []*SNode // cases an obligation at a return is split into when it is not proved whole
	Nullable   map[string]bool
	Modular    bool // callers use the contract
	Trusted    string
	Events     bool // the function may call back into the evaluator
	File       string
	NoFrame    bool
	Seqs       bool // facts about slice contents as sequences are generated
	MaybeNil   bool // results do not follow the value-or-error convention
}

type MacroDef struct {
	name   string
	params []string
	body   *SNode
}

type RelDef struct {
	name   string
	params []string
	ptys   []string
	ret    string
	body   *SNode // may be nil
}

type Book struct {
	prog   *Program
	funcs  map[string]*Contract // by function key
	ops    map[string]*Contract // by operator name
	list   []*Contract
	macros map[string]*MacroDef
	rels   map[string]*RelDef
	fns    map[string]*RelDef
	events map[string]*EventDef
	types  map[string]types.Type
	opDocs []string
}

func NewBook(p *Program) *Book {
	return &Book{prog: p, funcs: map[string]*Contract{}, ops: map[string]*Contract{}, macros: map[string]*MacroDef{}, rels: map[string]*RelDef{}, fns: map[string]*RelDef{},
		events: map[string]*EventDef{}, types: map[string]types.Type{}}
}

func (b *Book) Load(dir string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		p := &parser_{file: filepath.Base(f), src: string(src)}
		p.toks = lex(p.file, p.src)
		b.parseFile(p)
	}
	return nil
}

func (b *Book) parseFile(p *parser_) {
	for p.cur().k != "eof" {
		switch p.ident() {
		case "event":
			key := p.dotted()
			d := &EventDef{kind: p.ident()}
			if p.cur().k == "id" && p.cur().s == "quiet" {
				p.next()
				d.quiet = true
			}
			b.events[key] = d
		case "def":
			m := &MacroDef{name: p.ident()}
			p.expect("(")
			for !p.at(")") {
				m.params = append(m.params, p.ident())
				if p.at(",") {
					p.next()
				}
			}
			p.expect(")")
			p.expect("=")
			m.body = p.expr(1)
			b.macros[m.name] = m
		case "fn", "rel":
			kw := p.toks[p.i-1].s
			r := &RelDef{name: p.ident()}
			p.expect("(")
			for !p.at(")") {
				if kw == "rel" {
					r.params = append(r.params, p.ident())
				}
				r.ptys = append(r.ptys, p.rawType(",", ")"))
				if p.at(",") {
					p.next()
				}
			}
			p.expect(")")
			if kw == "rel" {
				r.ret = p.rawType("=", ";")
				if p.at("=") {
					p.next()
					r.body = p.expr(1)
				} else {
					p.expect(";")
				}
				b.rels[r.name] = r
			} else {
				r.ret = p.rawType(";")
				p.expect(";")
				b.fns[r.name] = r
			}
		case "contract":
			b.parseContract(p)
		default:
			p.i--
			p.fail("expected a declaration")
		}
	}
}

func (p *parser_) dotted() string {
	s := p.ident()
	for p.at(".") {
		p.next()
		s += "." + p.ident()
	}
	return s
}

func (b *Book) parseContract(p *parser_) {
	c := &Contract{Nullable: map[string]bool{}, Defines: map[string]bool{}, File: p.file}
	if p.at("op") {
		p.next()
		for p.cur().k == "str" {
			c.Ops = append(c.Ops, p.next().s)
		}
		c.Key = "op:" + c.Ops[0]
		c.Params = []string{"cdr", "env", "mode", "e"}
		c.Results = []string{"r", "err"}
		for _, o := range c.Ops {
			b.ops[o] = c
			b.opDocs = append(b.opDocs, o)
		}
	} else {
		c.Key = p.dotted()
		p.expect("(")
		for !p.at(")") {
			c.Params = append(c.Params, p.ident())
			if p.at(",") {
				p.next()
			}
		}
		p.expect(")")
		p.expect("(")
		for !p.at(")") {
			c.Results = append(c.Results, p.ident())
			if p.at(",") {
				p.next()
			}
		}
		p.expect(")")
		b.funcs[c.Key] = c
	}
	b.list = append(b.list, c)
	p.expect("{")
	for !p.at("}") {
		kw := p.ident()
		switch kw {
		case "prop":
			for p.cur().k == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
				c.Props = append(c.Props, p.next().s)
			}
		case "requires", "ensures", "inv", "assumes", "given":
			cl := Clause{Props: c.Props}
			if p.at("[") {
				p.next()
				cl.Props = nil
				for !p.at("]") {
					cl.Props = append(cl.Props, p.ident())
				}
				p.next()
			}
			if kw == "inv" && p.at("{") {
				// only for loops at this nesting depth
				p.next()
				cl.Depth, _ = strconv.Atoi(p.next().s)
				p.expect("}")
			}
			if p.cur().k == "id" && p.toks[p.i+1].s == ":" && p.toks[p.i+1].k == "op" {
				cl.Label = p.next().s
				p.next()
			}
			start := p.cur().pos
			cl.E = p.expr(1)
			end := p.toks[p.i-1]
			if cl.Label == "" {
				cl.Label = strings.Join(strings.Fields(p.src[start:end.pos+len(end.s)]), " ")
			}
			switch kw {
			case "requires":
				c.Requires = append(c.Requires, cl)
			case "ensures":
				c.Ensures = append(c.Ensures, cl)
			case "given":
				c.Given = append(c.Given, cl)
			case "assumes":
				c.Assumes = append(c.Assumes, cl)
				c.Modular = true
			default:
				c.Invs = append(c.Invs, cl)
			}
		case "fold":
			f := &FoldDef{Name: p.ident()}
			p.expect("(")
			f.Ks = append(f.Ks, p.ident())
			for p.cur().s == "," {
				p.next()
				f.Ks = append(f.Ks, p.ident())
			}
			p.expect(")")
			f.Ty = p.rawType("=")
			p.expect("=")
			f.Init = p.expr(1)
			p.expect(";")
			f.Step = p.expr(1)
			c.Folds = append(c.Folds, f)
		case "modifies":
			for p.cur().k == "str" {
				c.Modifies = append(c.Modifies, p.next().s)
			}
		case "unrecorded":
			for p.cur().k == "str" {
				c.Unrecorded = append(c.Unrecorded, p.next().s)
			}
		case "paths":
			c.Paths = true
		case "split":
			c.Splits = append(c.Splits, p.expr(1))
		case "allows":
			c.Allows = append(c.Allows, p.expr(1))
		case "nullable":
			c.Nullable[p.ident()] = true
		case "defines":
			c.Defines[p.ident()] = true
		case "modular":
			c.Modular = true
		case "events":
			c.Events = true
		case "noframe":
			c.NoFrame = true
		case "sequences":
			c.Seqs = true
		case "maybenil":
			c.MaybeNil = true
		case "trusted":
			c.Trusted = p.next().s
			c.Modular = true
		default:
			p.i--
			p.fail("unknown clause " + kw)
		}
	}
	p.expect("}")
}

func (b *Book) callContract(fi *FuncInfo) *Contract {
	if c := b.funcs[fi.Key]; c != nil && c.Modular {
		return c
	}
	return nil
}

func (b *Book) nodeAxiom(ex *Exec, st *State, n *Term) *Term { return nil }

func (b *Book) typ(s string) types.Type {
	if t, ok := b.types[s]; ok {
		return t
	}
	if strings.TrimSpace(s) == "seq" {
		return seqT
	}
	if strings.TrimSpace(s) == "omap" {
		return gmapT
	}
	var t types.Type
	core := b.prog.Pkgs[modPath+"/core"].Types
	if strings.Contains(s, "yaml.") || strings.Contains(s, "engine.") {
		t = b.foreignType(s)
	} else {
		tv, err := types.Eval(b.prog.Fset, core, token.NoPos, s)
		if err != nil {
			panic(specErr{"type " + s + ": " + err.Error()})
		}
		t = tv.Type
	}
	b.types[s] = t
	return t
}

func (b *Book) foreignType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(b.foreignType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(b.foreignType(s[2:]))
	}
	if strings.HasPrefix(s, "engine.") {
		o := b.prog.Pkgs[modPath+"/engine"].Types.Scope().Lookup(s[7:])
		if o != nil {
			return o.Type()
		}
	}
	if strings.HasPrefix(s, "yaml.") {
		for _, imp := range b.prog.Pkgs[modPath+"/core"].Types.Imports() {
			if strings.HasSuffix(imp.Path(), "internal/yaml") {
				if o := imp.Scope().Lookup(s[5:]); o != nil {
					return o.Type()
				}
			}
		}
	}
	panic(specErr{"unknown type " + s})
}

type specErr struct{ msg string }

func (e specErr) Error() string { return "spec: " + e.msg }

// ---------------------------------------------------------------- evaluation

type Val struct {
	t  *Term
	ty types.Type
}

type sctx struct {
	ex       *Exec
	st       *State
	old      *State
	vars     map[string]Val
	metas    map[string]Val
	ks       []*Term
	rank     *Term
	over     Val
	ct       *Contract
	unfold   int
	explicit bool // unfold(e): whatever the relation
	depth    int
}

func (c *sctx) with(name string, v Val) *sctx {
	n := *c
	n.vars = make(map[string]Val, len(c.vars)+1)
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (c *sctx) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (c *sctx) boolE(n *SNode) *Term {
	v := c.eval(n)
	if v.t.sort != SBool {
		c.fail("%s is not a proposition", n)
	}
	return v.t
}

func (c *sctx) intE(n *SNode) *Term {
	v := c.eval(n)
	if v.t.sort != SInt {
		c.fail("%s is not an integer (%s)", n, v.t.sort)
	}
	return v.t
}

var boolT = types.Typ[types.Bool]

func (c *sctx) toAny(v Val) *Term {
	if v.t.sort == SAny {
		return v.t
	}
	return box(v.ty, v.t)
}

func (c *sctx) eval(n *SNode) Val {
	ex := c.ex
	switch n.op {
	case "int":
		x, _ := strconv.ParseInt(n.name, 10, 64)
		return Val{IntLit(x), tInt}
	case "str":
		return Val{StrLit(n.name), strT}
	case "meta":
		if v, ok := c.metas[n.name]; ok {
			return c.cur(v)
		}
		c.fail("unbound %s", n.name)
	case "id":
		if v, ok := c.vars[n.name]; ok {
			return v
		}
		switch n.name {
		case "true":
			return Val{True(), boolT}
		case "false":
			return Val{False(), boolT}
		case "nil":
			return Val{Nil(), types.Typ[types.UntypedNil]}
		case "tn":
			return Val{c.st.tn, tInt}
		case "tn0":
			return Val{c.old.tn, tInt}
		case "nev":
			return Val{Sub(c.st.tn, c.old.tn), tInt}
		case "$k":
			if len(c.ks) > 0 {
				return Val{c.ks[len(c.ks)-1], tInt}
			}
			c.fail("$k outside a loop")
		case "$k1":
			if len(c.ks) > 1 {
				return Val{c.ks[len(c.ks)-2], tInt}
			}
			c.fail("no outer loop")
		case "$k2":
			if len(c.ks) > 2 {
				return Val{c.ks[len(c.ks)-3], tInt}
			}
			c.fail("no outer loop")
		}
		core := ex.prog.Pkgs[modPath+"/core"].Types.Scope()
		if k, ok := core.Lookup(n.name).(*types.Const); ok {
			if k.Val().Kind() == constant.String {
				return Val{StrLit(constant.StringVal(k.Val())), strT}
			}
			i, _ := constant.Int64Val(constant.ToInt(k.Val()))
			return Val{IntLit(i), k.Type()}
		}
		c.fail("unknown name %s", n.name)
	case "sel":
		if b := n.kids[0]; b.op == "id" && b.name == "yaml" {
			for _, imp := range ex.prog.Pkgs[modPath+"/core"].Types.Imports() {
				if strings.HasSuffix(imp.Path(), "internal/yaml") {
					if k, ok := imp.Scope().Lookup(n.name).(*types.Const); ok {
						i, _ := constant.Int64Val(constant.ToInt(k.Val()))
						return Val{IntLit(i), k.Type()}
					}
				}
			}
		}
		x := c.eval(n.kids[0])
		return c.field(x, n.name, n)
	case "idx":
		x := c.eval(n.kids[0])
		return c.index(x, n.kids[1], n)
	case "as":
		x := c.eval(n.kids[0])
		t := ex.book.typ(n.ty)
		if x.t.sort != SAny {
			c.fail("%s is not an interface value", n.kids[0])
		}
		return Val{unbox(x.t, t), t}
	case "is":
		x := c.eval(n.kids[0])
		if x.t.sort != SAny {
			c.fail("%s is not an interface value", n.kids[0])
		}
		return Val{isType(x.t, ex.book.typ(n.ty)), boolT}
	case "un":
		if n.name == "!" {
			return Val{Not(c.boolE(n.kids[0])), boolT}
		}
		if n.name == "*" {
			x := c.eval(n.kids[0])
			p, ok := x.ty.Underlying().(*types.Pointer)
			if !ok {
				c.fail("%s is not a pointer", n.kids[0])
			}
			_, m := ex.cellComp(c.st, p.Elem())
			return Val{Select(m, x.t), p.Elem()}
		}
		return Val{Sub(IntLit(0), c.intE(n.kids[0])), tInt}
	case "ite":
		q := c.boolE(n.kids[0])
		a, b := c.eval(n.kids[1]), c.eval(n.kids[2])
		if a.t.sort != b.t.sort {
			if a.t.sort == SAny {
				b = Val{c.toAny(b), a.ty}
			} else if b.t.sort == SAny {
				if b.t == Nil() {
					b = Val{zero(a.ty), a.ty}
				} else {
					a = Val{c.toAny(a), b.ty}
				}
			}
		}
		return Val{Ite(q, a.t, b.t), a.ty}
	case "let":
		return c.with(n.name, c.eval(n.kids[0])).eval(n.kids[1])
	case "rforall", "rexists":
		lo, hi := c.intE(n.kids[0]), c.intE(n.kids[1])
		v := bvarFor(n, c)
		body := c.with(n.name, Val{v, tInt}).boolE(n.kids[2])
		in := And(Le(lo, v), Lt(v, hi))
		if n.op == "rforall" {
			return Val{Forall([]*Term{v}, Implies(in, body)), boolT}
		}
		return Val{Exists([]*Term{v}, And(in, body)), boolT}
	case "forall", "exists":
		t := ex.book.typ(n.ty)
		v := bvarFor2(n, c, sortOf(t))
		body := c.with(n.name, Val{v, t}).boolE(n.kids[0])
		if n.op == "forall" {
			return Val{Forall([]*Term{v}, body), boolT}
		}
		return Val{Exists([]*Term{v}, body), boolT}
	case "bin":
		return c.binary(n)
	case "call":
		return c.call(n)
	}
	c.fail("cannot evaluate %s", n)
	return Val{}
}

// bound variables are named by syntax node and nesting depth, so equal
// formulas are equal terms
func bvarFor(n *SNode, c *sctx) *Term { return bvarFor2(n, c, SInt) }

var bvarIDs = map[*SNode]int{}

func bvarFor2(n *SNode, c *sctx, s Sort) *Term {
	id, ok := bvarIDs[n]
	if !ok {
		id = len(bvarIDs) + 1
		bvarIDs[n] = id
	}
	c.depth++
	return bvarNamed(fmt.Sprintf("%s?s%d_%d", n.name, id, c.depth), s)
}

func (c *sctx) cur(v Val) Val { return v }

func (c *sctx) field(x Val, f string, n *SNode) Val {
	t := types.Unalias(x.ty)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		bt := types.Unalias(p.Elem())
		u, ok := bt.Underlying().(*types.Struct)
		if !ok {
			c.fail("%s: no fields", n)
		}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				if !isRepoStruct(bt) {
					_, h := c.ex.extField(c.st, bt, u.Field(i))
					return Val{Select(h, x.t), u.Field(i).Type()}
				}
				_, h := c.ex.fieldComp(c.st, bt, u.Field(i))
				return Val{Select(h, x.t), u.Field(i).Type()}
			}
		}
		c.fail("%s: no field %s in %s", n, f, typeStr(bt))
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.fail("%s: not a struct (%s)", n, typeStr(t))
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			return Val{structGet(x.t, f), u.Field(i).Type()}
		}
	}
	c.fail("%s: no field", n)
	return Val{}
}

func (c *sctx) index(x Val, in *SNode, n *SNode) Val {
	switch u := types.Unalias(x.ty).Underlying().(type) {
	case *types.Slice:
		i := c.intE(in)
		_, m := c.ex.memComp(c.st, u.Elem())
		return Val{Select(Select(m, SBase(x.t)), Add(SOff(x.t), i)), u.Elem()}
	case *types.Map:
		k := c.eval(in)
		_, val, _ := c.ex.gomap(c.st, x.ty)
		return Val{Select(Select(val, x.t), k.t), u.Elem()}
	case *types.Basic:
		return Val{Fn("strat", SInt, x.t, c.intE(in)), types.Typ[types.Uint8]}
	}
	if strings.HasPrefix(x.t.sort, "(Array ") {
		k := c.eval(in)
		return Val{Select(x.t, k.t), x.ty}
	}
	c.fail("%s: cannot index %s", n, typeStr(x.ty))
	return Val{}
}

func (c *sctx) binary(n *SNode) Val {
	b := func(t *Term) Val { return Val{t, boolT} }
	switch n.name {
	case "==>":
		p := c.boolE(n.kids[0])
		if p.isFalse() {
			return b(True())
		}
		return b(Implies(p, c.boolE(n.kids[1])))
	case "<==>":
		return b(Eq(c.boolE(n.kids[0]), c.boolE(n.kids[1])))
	case "&&":
		p := c.boolE(n.kids[0])
		if p.isFalse() {
			return b(p)
		}
		return b(And(p, c.boolE(n.kids[1])))
	case "||":
		p := c.boolE(n.kids[0])
		if p.isTrue() {
			return b(p)
		}
		return b(Or(p, c.boolE(n.kids[1])))
	case "==", "!=":
		x, y := c.eval(n.kids[0]), c.eval(n.kids[1])
		var r *Term
		isNil := func(v Val) bool {
			bt, ok := v.ty.(*types.Basic)
			return ok && bt.Kind() == types.UntypedNil
		}
		switch {
		case isNil(y):
			r = isNilTerm(x.t)
		case isNil(x):
			r = isNilTerm(y.t)
		case x.t.sort == y.t.sort:
			r = Eq(x.t, y.t)
		case x.t.sort == SAny:
			r = Eq(x.t, box(y.ty, y.t))
		case y.t.sort == SAny:
			r = Eq(box(x.ty, x.t), y.t)
		default:
			c.fail("%s: cannot compare %s and %s", n, x.t.sort, y.t.sort)
		}
		if n.name == "!=" {
			r = Not(r)
		}
		return b(r)
	}
	x, y := c.eval(n.kids[0]), c.eval(n.kids[1])
	if x.t.sort != SInt || y.t.sort != SInt {
		c.fail("%s: integers expected", n)
	}
	switch n.name {
	case "<":
		return b(Lt(x.t, y.t))
	case "<=":
		return b(Le(x.t, y.t))
	case ">":
		return b(Lt(y.t, x.t))
	case ">=":
		return b(Le(y.t, x.t))
	case "+":
		return Val{Add(x.t, y.t), tInt}
	case "-":
		return Val{Sub(x.t, y.t), tInt}
	case "*":
		if x.t.n != nil && y.t.n != nil {
			return Val{BigLit(bigMul(x.t, y.t)), tInt}
		}
		return Val{T.mk("app", "*", SInt, x.t, y.t), tInt}
	}
	c.fail("operator %s", n.name)
	return Val{}
}

func (c *sctx) nodeT() types.Type { return c.ex.book.typ("*YispNode") }

// evResult gives the type of result i of an event kind.
func (c *sctx) evResType(kind string, i int) types.Type {
	if i == 1 {
		return errT
	}
	if sig := c.ex.book.eventSig(kind); sig != nil && i < sig.Results().Len() {
		return sig.Results().At(i).Type()
	}
	switch kind {
	case "Render":
		return strT
	case "Process":
		return errT
	case "Confirm":
		return boolT
	}
	return c.nodeT()
}

func (c *sctx) strArg(n *SNode) string {
	if n.op != "str" {
		c.fail("string literal expected")
	}
	return n.name
}

func (c *sctx) call(n *SNode) Val {
	ex := c.ex
	st := c.st
	bv := func(t *Term) Val { return Val{t, boolT} }
	iv := func(t *Term) Val { return Val{t, tInt} }
	a := n.kids
	need := func(k int) {
		if len(a) != k {
			c.fail("%s: %d arguments expected", n, k)
		}
	}
	if m := ex.book.macros[n.name]; m != nil {
		need(len(m.params))
		nc := *c
		nc.vars = map[string]Val{}
		for k, v := range c.vars {
			if strings.HasPrefix(k, "@") {
				nc.vars[k] = v
			}
		}
		for i, p := range m.params {
			nc.vars[p] = c.eval(a[i])
		}
		nc.depth = c.depth + 1
		r := nc.eval(m.body)
		c.depth = nc.depth
		return r
	}
	if r := ex.book.rels[n.name]; r != nil {
		need(len(r.ptys))
		return c.rel(r, a)
	}
	if f := ex.book.fns[n.name]; f != nil {
		need(len(f.ptys))
		var ts []*Term
		for i, x := range a {
			v := c.eval(x)
			pt := ex.book.typ(f.ptys[i])
			ts = append(ts, c.coerce(v, pt, x))
		}
		rt := ex.book.typ(f.ret)
		return Val{Fn(f.name, sortOf(rt), ts...), rt}
	}
	if c.ct != nil {
		for _, f := range c.ct.Folds {
			if f.Name == n.name {
				need(len(f.Ks))
				t := ex.book.typ(f.Ty)
				var ts []*Term
				for _, x := range a {
					ts = append(ts, c.intE(x))
				}
				return Val{Fn(c.foldName(f), sortOf(t), ts...), t}
			}
		}
	}
	switch n.name {
	case "old":
		need(1)
		nc := *c
		nc.st = c.old
		return nc.eval(a[0])
	case "len":
		need(1)
		x := c.eval(a[0])
		switch x.t.sort {
		case SSeq:
			return iv(Fn("seqlen", SInt, x.t))
		case SSlice:
			return iv(SLen(x.t))
		case SStr:
			return iv(StrLen(x.t))
		}
		if _, ok := types.Unalias(x.ty).Underlying().(*types.Map); ok {
			_, _, cnt := ex.gomap(st, x.ty)
			return iv(Ite(Eq(x.t, IntLit(0)), IntLit(0), Select(cnt, x.t)))
		}
		if isOrderedMap(x.ty) {
			_, on, _, _ := ex.om(st)
			return iv(Select(on, x.t))
		}
		c.fail("len of %s", typeStr(x.ty))
	case "ranged":
		if c.over.t == nil {
			c.fail("ranged outside a loop over a slice")
		}
		return c.over
	case "rank":
		if c.rank == nil {
			c.fail("rank outside a loop over a map")
		}
		return Val{Select(c.rank, c.eval(a[0]).t), tInt}
	case "empty":
		need(0)
		return Val{seqEmpty(), seqT}
	case "nothing":
		return Val{gmapEmpty(), gmapT}
	case "put":
		need(3)
		return Val{gmapPut(c.eval(a[0]).t, c.eval(a[1]).t, c.toAny(c.eval(a[2]))), gmapT}
	case "content":
		need(1)
		return Val{ex.gmapOf(st, c.eval(a[0]).t), gmapT}
	case "snoc":
		need(2)
		return Val{seqSnoc(c.eval(a[0]).t, c.toAny(c.eval(a[1]))), seqT}
	case "concat":
		need(2)
		return Val{seqCat(c.eval(a[0]).t, c.eval(a[1]).t), seqT}
	case "seq", "seqn":
		x := c.eval(a[0])
		if x.t.sort != SSlice {
			c.fail("seq of %s", typeStr(x.ty))
		}
		n2 := SLen(x.t)
		if n.name == "seqn" {
			need(2)
			n2 = c.intE(a[1])
		}
		return Val{ex.seqOf(st, x.t, types.Unalias(x.ty).Underlying().(*types.Slice).Elem(), n2), seqT}
	case "cap":
		return iv(SCap(c.eval(a[0]).t))
	case "base":
		return iv(SBase(c.eval(a[0]).t))
	case "off":
		return iv(SOff(c.eval(a[0]).t))
	case "ref":
		// identity of a reference held in an interface
		x := c.eval(a[0])
		if x.t.sort == SInt {
			return iv(x.t)
		}
		return iv(Acc("aptr", "aptr_v", x.t))
	case "fresh":
		x := c.eval(a[0])
		var r *Term
		switch x.t.sort {
		case SSlice:
			r = SBase(x.t)
		case SInt:
			r = x.t
		case SAny:
			r = Acc("aptr", "aptr_v", x.t)
		}
		return bv(And(Le(c.old.next, r), Lt(r, c.st.next)))
	case "next":
		return iv(c.st.next)
	case "omlen":
		_, on, _, _ := ex.om(st)
		return iv(Select(on, c.intE(a[0])))
	case "omkey":
		ks, _, _, _ := ex.om(st)
		return Val{Select(Select(ks, c.intE(a[0])), c.intE(a[1])), strT}
	case "omidx":
		_, _, ix, _ := ex.om(st)
		return iv(Select(Select(ix, c.intE(a[0])), c.strE(a[1])))
	case "omget":
		_, _, _, vs := ex.om(st)
		return Val{Select(Select(vs, c.intE(a[0])), c.strE(a[1])), anyT}
	case "omhas":
		ks, on, ix, _ := ex.om(st)
		return bv(omHas(ks, on, ix, c.intE(a[0]), c.strE(a[1])))
	case "mhas":
		m := c.eval(a[0])
		has, _, _ := ex.gomap(st, m.ty)
		return bv(Select(Select(has, m.t), c.eval(a[1]).t))
	case "mset":
		// the whole key set of a Go map
		m := c.eval(a[0])
		has, _, _ := ex.gomap(st, m.ty)
		return Val{Select(has, m.t), boolT}
	case "mvals":
		m := c.eval(a[0])
		_, val, _ := ex.gomap(st, m.ty)
		return Val{Select(val, m.t), types.Unalias(m.ty).Underlying().(*types.Map).Elem()}
	case "wadd", "wsub", "wmul", "wdiv", "wrem":
		need(2)
		x, y := c.intE(a[0]), c.intE(a[1])
		switch n.name {
		case "wadd":
			return iv(WAdd(x, y))
		case "wsub":
			return iv(WSub(x, y))
		case "wmul":
			return iv(WMul(x, y))
		}
		return iv(Fn(n.name, SInt, x, y))
	case "i2f":
		return Val{Fn("i2f", SFlt, c.intE(a[0])), types.Typ[types.Float64]}
	case "goeq":
		need(2)
		x, y := c.eval(a[0]), c.eval(a[1])
		return bv(ifaceEq(x.t, y.t))
	case "flt":
		return bv(FLt(c.eval(a[0]).t, c.eval(a[1]).t))
	case "feq":
		return bv(FEq(c.eval(a[0]).t, c.eval(a[1]).t))
	case "fle":
		return bv(FLe(c.eval(a[0]).t, c.eval(a[1]).t))
	case "fzero":
		return Val{FltLit("0"), types.Typ[types.Float64]}
	case "strlt":
		return bv(Fn("strlt", SBool, c.eval(a[0]).t, c.eval(a[1]).t))
	case "cat":
		r := c.eval(a[0]).t
		for _, x := range a[1:] {
			r = StrCat(r, c.eval(x).t)
		}
		return Val{r, strT}
	case "substr":
		return Val{Substr(c.eval(a[0]).t, c.intE(a[1]), c.intE(a[2])), strT}
	case "itoa":
		return Val{Itoa(c.intE(a[0])), strT}
	case "sha256hex":
		b := Fn("str2bytes$byte", arrSort(SInt, SInt), c.eval(a[0]).t)
		return Val{Fn("fmt%x", SStr, box(types.NewArray(types.Universe.Lookup("byte").Type(), 32), Fn("sha256sum", SInt, b, IntLit(0), StrLen(c.eval(a[0]).t)))), strT}
	case "splitpart":
		need(3)
		return Val{Select(Fn("split_arr", arrSort(SInt, SStr), c.eval(a[0]).t, c.eval(a[1]).t), c.intE(a[2])), strT}
	case "uncomparable":
		x := c.eval(a[0])
		return bv(uncomparableVal(x.t))
	case "any":
		return Val{c.toAny(c.eval(a[0])), anyT}
	case "func":
		// the function value of a named function
		k := c.strArg(a[0])
		return Val{Sym("fn$"+k, SInt), tInt}
	case "global":
		k := c.strArg(a[0])
		i := strings.IndexByte(k, '.')
		for _, p := range ex.prog.Pkgs {
			if p.Types.Name() == k[:i] {
				if v, ok := p.Types.Scope().Lookup(k[i+1:]).(*types.Var); ok {
					return Val{ex.comp(st, "G:"+k, sortOf(v.Type()), v.Type()), v.Type()}
				}
			}
		}
		c.fail("no package variable %s", k)
	case "key2":
		// key2("pkg.table", a, b): the two-part key of a table
		k := c.strArg(a[0])
		i := strings.IndexByte(k, '.')
		for _, p := range ex.prog.Pkgs {
			if p.Types.Name() == k[:i] {
				if v, ok := p.Types.Scope().Lookup(k[i+1:]).(*types.Var); ok {
					if m, ok := v.Type().Underlying().(*types.Map); ok {
						if u, ok := m.Key().Underlying().(*types.Struct); ok && u.NumFields() == 2 {
							s := structSort(m.Key(), u)
							return Val{Ctr(s, "mk_"+s, c.eval(a[1]).t, c.eval(a[2]).t), m.Key()}
						}
					}
				}
			}
		}
		c.fail("%s is not a table with two-part keys", k)
	case "errtext":
		return Val{Fn("errtext", SStr, c.eval(a[0]).t), strT}
	case "implements":
		return bv(Implements(c.eval(a[0]).t, errT))
	// --- trace of calls back into the evaluator
	case "evis":
		kc := ex.comp(st, "T:kind", arrSort(SInt, SInt), tInt)
		return bv(Eq(Select(kc, Add(c.old.tn, c.intE(a[0]))), eventCode(c.strArg(a[1]))))
	case "evarg":
		kind := c.strArg(a[1])
		nm := fmt.Sprintf("T:%s.%s", kind, a[2].name)
		t := ex.evArgType(kind, a[2].name)
		h := ex.comp(st, nm, arrSort(SInt, sortOf(t)), t)
		return Val{Select(h, Add(c.old.tn, c.intE(a[0]))), t}
	case "evelem":
		// element j of the slice argument as it was at the call
		kind := c.strArg(a[1])
		t := ex.evArgType(kind, a[2].name)
		el := t.Underlying().(*types.Slice).Elem()
		pos := Add(c.old.tn, c.intE(a[0]))
		h := ex.comp(st, fmt.Sprintf("T:%s.%s", kind, a[2].name), arrSort(SInt, sortOf(t)), t)
		hc := ex.comp(st, fmt.Sprintf("T:%s.%s.content", kind, a[2].name), arrSort(SInt, arrSort(SInt, sortOf(el))), el)
		return Val{Select(Select(hc, pos), Add(SOff(Select(h, pos)), c.intE(a[3]))), el}
	case "evenv":
		// evenv(i, kind, argno, "Parent"|"Vars"): the scope as it was at the call
		kind := c.strArg(a[1])
		f := c.strArg(a[3])
		nm := fmt.Sprintf("T:%s.%s.%s", kind, a[2].name, f)
		t := ex.book.typ("*Env")
		if f == "Vars" {
			t = ex.book.typ("map[string]*YispNode")
		}
		h := ex.comp(st, nm, arrSort(SInt, SInt), t)
		return Val{Select(h, Add(c.old.tn, c.intE(a[0]))), t}
	case "evenvhas", "evenvval":
		kind := c.strArg(a[1])
		key := c.eval(a[3]).t
		pos := Add(c.old.tn, c.intE(a[0]))
		if n.name == "evenvhas" {
			h := ex.comp(st, fmt.Sprintf("T:%s.%s.has", kind, a[2].name), arrSort(SInt, arrSort(SStr, SBool)), boolT)
			return bv(Select(Select(h, pos), key))
		}
		h := ex.comp(st, fmt.Sprintf("T:%s.%s.val", kind, a[2].name), arrSort(SInt, arrSort(SStr, SInt)), c.nodeT())
		return Val{Select(Select(h, pos), key), c.nodeT()}
	case "evrecv":
		h := ex.comp(st, "T:"+c.strArg(a[1])+".recv", arrSort(SInt, ex.evRecvSort(c.strArg(a[1]))), tInt)
		return Val{Select(h, Add(c.old.tn, c.intE(a[0]))), tInt}
	case "evres":
		t := c.nodeT()
		if len(a) > 1 {
			t = c.evResType(c.strArg(a[1]), 0)
		}
		return Val{Fn("evres0$"+sortOf(t), sortOf(t), Add(c.old.tn, c.intE(a[0]))), t}
	case "everr":
		if len(a) > 1 && c.strArg(a[1]) == "Process" {
			return Val{Fn("evres0$Any", SAny, Add(c.old.tn, c.intE(a[0]))), errT}
		}
		if len(a) > 1 {
			if sig := ex.book.eventSig(c.strArg(a[1])); sig != nil {
				return Val{Fn(fmt.Sprintf("evres%d$Any", sig.Results().Len()-1), SAny, Add(c.old.tn, c.intE(a[0]))), errT}
			}
		}
		return Val{Fn("evres1$Any", SAny, Add(c.old.tn, c.intE(a[0]))), errT}
	case "evok":
		return Val{Fn("evres1$Bool", SBool, Add(c.old.tn, c.intE(a[0]))), boolT}
	case "procstdin":
		h := ex.comp(st, "T:Process.stdin", arrSort(SInt, SAny), anyT)
		return Val{Select(h, Add(c.old.tn, c.intE(a[0]))), anyT}
	case "procname":
		h := ex.comp(st, "X:cmd.name", arrSort(SInt, SStr), strT)
		return Val{Select(h, c.intE(a[0])), strT}
	case "procargs":
		t := types.NewSlice(strT)
		h := ex.comp(st, "X:cmd.args", arrSort(SInt, SSlice), t)
		return Val{Select(h, c.intE(a[0])), t}
	case "procarg":
		t := types.NewSlice(strT)
		h := ex.comp(st, "X:cmd.args", arrSort(SInt, SSlice), t)
		hc := ex.comp(st, "X:cmd.argv", arrSort(SInt, arrSort(SInt, SStr)), strT)
		x := c.intE(a[0])
		return Val{Select(Select(hc, x), Add(SOff(Select(h, x)), c.intE(a[1]))), strT}
	case "unfold":
		need(1)
		nc := *c
		nc.unfold = 1
		nc.explicit = true
		return nc.eval(a[0])
	}
	c.fail("unknown function %s", n.name)
	return Val{}
}

func (c *sctx) strE(n *SNode) *Term {
	v := c.eval(n)
	if v.t.sort != SStr {
		c.fail("%s: %s where a string is expected", n, v.t.sort)
	}
	return v.t
}

func (c *sctx) coerce(v Val, t types.Type, n *SNode) *Term {
	s := sortOf(t)
	if v.t.sort == s {
		return v.t
	}
	if s == SAny {
		return box(v.ty, v.t)
	}
	if b, ok := v.ty.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zero(t)
	}
	c.fail("%s: %s where %s is expected", n, v.t.sort, s)
	return nil
}

func (c *sctx) rel(r *RelDef, a []*SNode) Val {
	ex := c.ex
	var ts []*Term
	var vals []Val
	for i, x := range a {
		pt := ex.book.typ(r.ptys[i])
		t := c.coerce(c.eval(x), pt, x)
		ts = append(ts, t)
		vals = append(vals, Val{t, pt})
	}
	rt := ex.book.typ(r.ret)
	if c.unfold > 0 && r.body != nil && (c.explicit || isPtr(rt) || c.ct != nil && c.ct.Defines[r.name]) {
		nc := *c
		nc.unfold = c.unfold - 1
		nc.vars = map[string]Val{}
		for i, p := range r.params {
			nc.vars[p] = vals[i]
		}
		nc.depth = c.depth + 1
		v := nc.eval(r.body)
		c.depth = nc.depth
		return Val{v.t, rt}
	}
	return Val{Fn("rel$"+r.name, sortOf(rt), ts...), rt}
}

// EventDef: calls of a function that are recorded on the trace. A quiet event
// does not let the scopes change.
type EventDef struct {
	kind  string
	quiet bool
	fn    *types.Func
}

func (b *Book) eventDef(kind string) *EventDef {
	for _, d := range b.events {
		if d.kind == kind {
			return d
		}
	}
	return nil
}

func (b *Book) quietKind(kind string) bool {
	d := b.eventDef(kind)
	return d != nil && d.quiet
}

func (b *Book) eventSig(kind string) *types.Signature {
	for k, d := range b.events {
		if d.kind == kind {
			if fi := b.prog.ByKey[k]; fi != nil {
				return fi.Obj.Type().(*types.Signature)
			}
		}
	}
	return nil
}

func (c *sctx) foldName(f *FoldDef) string { return "fold$" + c.ct.Key + "$" + f.Name }

func (ex *Exec) evRecvSort(kind string) Sort {
	if kind == "Op" || kind == "Process" || ex.book.eventDef(kind) != nil {
		return SInt
	}
	return SAny
}

// evArgType: parameter types of the traced calls.
func (ex *Exec) evArgType(kind, idx string) types.Type {
	n := "T:" + kind + "." + idx
	tb := map[string][]string{
		"Apply":  {"*YispNode", "[]*YispNode", "*Env", "EvalMode"},
		"Op":     {"[]*YispNode", "*Env", "EvalMode", "Engine"},
		"Eval":   {"*YispNode", "*Env", "EvalMode"},
		"Run":    {"any", "*Env", "string"},
		"Load":   {"string", "string", "*Env", "Engine"},
		"Render": {"*YispNode"},
	}
	if l, ok := tb[kind]; ok {
		i, _ := strconv.Atoi(idx)
		if i < len(l) {
			return ex.book.typ(l[i])
		}
	}
	if sig := ex.book.eventSig(kind); sig != nil {
		if i, _ := strconv.Atoi(idx); i < sig.Params().Len() {
			return sig.Params().At(i).Type()
		}
	}
	if t := compElem[n]; t != nil {
		return t
	}
	panic(specErr{"unknown event argument " + n})
}
