package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed first-order terms. Every Go value of the verified program is a
// term of one of a few SMT sorts; see sorts.go for the mapping.

type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SFlt   Sort = "Flt"
	SAny   Sort = "Any"
	SSlice Sort = "Slice"
)

type Term struct {
	op    string // "lit", "sym", "app", "forall", "exists"
	name  string // literal text, symbol or function name
	args  []*Term
	sort  Sort
	id    int
	bound bool // contains a bound variable
	qv    []*Term
	pats  [][]*Term
	n     *big.Int // integer literal
}

type Terms struct {
	tab    map[string]*Term
	nextID int
	fresh  map[string]int
	// declarations
	decls    map[string]string // symbol -> declaration line
	declOrd  []string
	dts      map[string]*Datatype
	dtOrd    []string
	strLits  map[string]*Term // string literal -> symbol
	strOrd   []string
	fltLits  map[string]*Term
	fltOrd   []string
	axioms   map[string]*Term // named global axioms
	axOrd    []string
	symFacts map[string][]*Term // facts attached to a symbol (sent whenever the symbol occurs)
	disj     map[string]bool    // declared distinct pairs helper
}

type Datatype struct {
	Name  string
	Ctors []Ctor
}
type Ctor struct {
	Name   string
	Fields []Field
}
type Field struct {
	Name string
	Sort Sort
}

var T *Terms

func NewTerms() *Terms {
	t := &Terms{tab: map[string]*Term{}, fresh: map[string]int{}, decls: map[string]string{}, dts: map[string]*Datatype{},
		strLits: map[string]*Term{}, fltLits: map[string]*Term{}, axioms: map[string]*Term{}, symFacts: map[string][]*Term{}}
	t.AddDT(&Datatype{"Slice", []Ctor{{"mks", []Field{{"sbase", SInt}, {"soff", SInt}, {"slen", SInt}, {"scap", SInt}}}}})
	t.AddDT(&Datatype{"Any", []Ctor{
		{"anil", nil},
		{"aint", []Field{{"aint_v", SInt}}},
		{"abool", []Field{{"abool_v", SBool}}},
		{"astr", []Field{{"astr_v", SStr}}},
		{"aflt", []Field{{"aflt_v", SFlt}}},
		{"anum", []Field{{"anum_t", SInt}, {"anum_v", SInt}}},
		{"aptr", []Field{{"aptr_t", SInt}, {"aptr_v", SInt}}},
		{"aslc", []Field{{"aslc_t", SInt}, {"aslc_v", SSlice}}},
		{"aoth", []Field{{"aoth_t", SInt}, {"aoth_v", SInt}}},
	}})
	t.AddDT(&Datatype{"GSeq", []Ctor{
		{"sempty", nil},
		{"ssnoc", []Field{{"sinit", SSeq}, {"slast", SAny}}},
	}})
	return t
}

func (t *Terms) AddDT(d *Datatype) {
	if t.dts[d.Name] == nil {
		t.dts[d.Name] = d
		t.dtOrd = append(t.dtOrd, d.Name)
	}
}

func (t *Terms) mk(op, name string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	bound := false
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		bound = bound || a.bound
	}
	k := b.String()
	if x := t.tab[k]; x != nil {
		return x
	}
	t.nextID++
	x := &Term{op: op, name: name, args: args, sort: sort, id: t.nextID, bound: bound}
	t.tab[k] = x
	return x
}

func Sym(name string, sort Sort) *Term {
	x := T.mk("sym", name, sort)
	if _, ok := T.decls[name]; !ok {
		T.decls[name] = fmt.Sprintf("(declare-fun %s () %s)", q(name), sort)
		T.declOrd = append(T.declOrd, name)
	}
	return x
}

func Fresh(prefix string, sort Sort) *Term {
	T.fresh[prefix]++
	return Sym(fmt.Sprintf("%s!%d", prefix, T.fresh[prefix]), sort)
}

// Bound variable for quantifiers.
func BVar(prefix string, sort Sort) *Term {
	T.fresh["q"]++
	x := T.mk("sym", fmt.Sprintf("%s?%d", prefix, T.fresh["q"]), sort)
	x.bound = true
	return x
}

func DeclFun(name string, in []Sort, out Sort) {
	if _, ok := T.decls[name]; ok {
		return
	}
	T.decls[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", q(name), strings.Join(in, " "), out)
	T.declOrd = append(T.declOrd, name)
}

// Fn applies an uninterpreted function, declaring it on first use.
func Fn(name string, out Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Sym(name, out)
	}
	in := make([]Sort, len(args))
	for i, a := range args {
		in[i] = a.sort
	}
	DeclFun(name, in, out)
	return T.mk("app", name, out, args...)
}

func q(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '-' || c == '+' || c == '*' || c == '/' || c == '=' || c == '<' || c == '>') {
			return "|" + s + "|"
		}
	}
	return s
}

func IntLit(i int64) *Term { return BigLit(big.NewInt(i)) }
func BigLit(b *big.Int) *Term {
	x := T.mk("lit", b.String(), SInt)
	x.n = b
	return x
}

var (
	tTrue, tFalse *Term
)

func True() *Term {
	return T.mk("lit", "true", SBool)
}
func False() *Term {
	return T.mk("lit", "false", SBool)
}
func BoolLit(b bool) *Term {
	if b {
		return True()
	}
	return False()
}

func StrLit(s string) *Term {
	if x, ok := T.strLits[s]; ok {
		return x
	}
	n := fmt.Sprintf("str$%d", len(T.strOrd))
	x := Sym(n, SStr)
	T.strLits[s] = x
	T.strOrd = append(T.strOrd, s)
	return x
}
func strLitOf(x *Term) (string, bool) {
	if x.op == "sym" && strings.HasPrefix(x.name, "str$") {
		i, _ := strconv.Atoi(x.name[4:])
		return T.strOrd[i], true
	}
	return "", false
}
func FltLit(s string) *Term {
	if v, err := strconv.ParseFloat(s, 64); err == nil {
		s = strconv.FormatFloat(v, 'g', -1, 64)
	}
	if x, ok := T.fltLits[s]; ok {
		return x
	}
	n := fmt.Sprintf("flt$%d", len(T.fltOrd))
	x := Sym(n, SFlt)
	T.fltLits[s] = x
	T.fltOrd = append(T.fltOrd, s)
	return x
}

func (x *Term) isTrue() bool  { return x.op == "lit" && x.name == "true" }
func (x *Term) isFalse() bool { return x.op == "lit" && x.name == "false" }

func Not(a *Term) *Term {
	if a.isTrue() {
		return False()
	}
	if a.isFalse() {
		return True()
	}
	if a.op == "app" && a.name == "not" {
		return a.args[0]
	}
	return T.mk("app", "not", SBool, a)
}
func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() {
			return False()
		}
		if a.isTrue() || seen[a.id] {
			continue
		}
		if a.op == "app" && a.name == "and" {
			for _, b := range a.args {
				if !seen[b.id] {
					seen[b.id] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a).id] {
			return False()
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk("app", "and", SBool, out...)
}
func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() {
			return True()
		}
		if a.isFalse() || seen[a.id] {
			continue
		}
		if a.op == "app" && a.name == "or" {
			for _, b := range a.args {
				if !seen[b.id] {
					seen[b.id] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a).id] {
			return True()
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk("app", "or", SBool, out...)
}
func Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return True()
	}
	if b.isFalse() {
		return Not(a)
	}
	if a == b {
		return True()
	}
	return T.mk("app", "=>", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return Not(c)
		}
		if a.isTrue() {
			return Or(c, b)
		}
		if b.isFalse() {
			return And(c, a)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
	}
	if c.op == "app" && c.name == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.op == "app" && a.name == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "app" && b.name == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return T.mk("app", "ite", a.sort, c, a, b)
}

// linear decomposition: base + const
func linBase(x *Term) (*Term, *big.Int) {
	if x.n != nil {
		return nil, x.n
	}
	if x.op == "app" && x.name == "+" && len(x.args) == 2 && x.args[1].n != nil {
		return x.args[0], x.args[1].n
	}
	return x, big.NewInt(0)
}

var ctorOf = map[string]bool{"anil": true, "aint": true, "abool": true, "astr": true, "aflt": true, "anum": true, "aptr": true, "aslc": true, "aoth": true}

func isCtor(x *Term) bool {
	if x.sort == SAny {
		return (x.op == "app" || x.op == "sym" || x.op == "lit") && ctorOf[x.name]
	}
	if x.op != "app" {
		return false
	}
	if d := T.dts[x.sort]; d != nil {
		for _, c := range d.Ctors {
			if c.Name == x.name {
				return true
			}
		}
	}
	return false
}

func definitelyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		ba, ca := linBase(a)
		bb, cb := linBase(b)
		return ba == bb && ca.Cmp(cb) != 0
	case SStr:
		_, o1 := strLitOf(a)
		_, o2 := strLitOf(b)
		return o1 && o2
	case SBool:
		return a.op == "lit" && b.op == "lit"
	default:
		if isCtor(a) && isCtor(b) {
			if a.name != b.name {
				return true
			}
			for i := range a.args {
				if definitelyDistinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if definitelyDistinct(a, b) {
		return False()
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// ite against constants
	if a.op == "app" && a.name == "ite" && (isCtor(b) || b.op == "lit") && (isCtorOrLit(a.args[1]) || isCtorOrLit(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "app" && b.name == "ite" && (isCtor(a) || a.op == "lit") && (isCtorOrLit(b.args[1]) || isCtorOrLit(b.args[2])) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk("app", "=", SBool, a, b)
}

func isCtorOrLit(x *Term) bool { return x.op == "lit" || isCtor(x) }

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// Linear sums are kept in a canonical form: terms in order of creation, the
// negative ones last, then the constant.
func Add(a, b *Term) *Term { return linSum(a, b, 1) }
func Sub(a, b *Term) *Term { return linSum(a, b, -1) }

type monomial struct {
	t *Term
	c int64
}

func linParts(x *Term, c int64, ms *[]monomial, k *big.Int) {
	if x.n != nil {
		k.Add(k, new(big.Int).Mul(x.n, big.NewInt(c)))
		return
	}
	if x.op == "app" && len(x.args) == 2 {
		switch x.name {
		case "+":
			linParts(x.args[0], c, ms, k)
			linParts(x.args[1], c, ms, k)
			return
		case "-":
			linParts(x.args[0], c, ms, k)
			linParts(x.args[1], -c, ms, k)
			return
		}
	}
	for i := range *ms {
		if (*ms)[i].t == x {
			(*ms)[i].c += c
			return
		}
	}
	*ms = append(*ms, monomial{x, c})
}

func linSum(a, b *Term, sign int64) *Term {
	var ms []monomial
	k := new(big.Int)
	linParts(a, 1, &ms, k)
	linParts(b, sign, &ms, k)
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].t.id < ms[j].t.id })
	var r *Term
	for _, m := range ms {
		for i := int64(0); i < m.c; i++ {
			if r == nil {
				r = m.t
			} else {
				r = T.mk("app", "+", SInt, r, m.t)
			}
		}
	}
	for _, m := range ms {
		for i := int64(0); i < -m.c; i++ {
			if r == nil {
				r = BigLit(k)
				k = new(big.Int)
			}
			r = T.mk("app", "-", SInt, r, m.t)
		}
	}
	if r == nil {
		return BigLit(k)
	}
	if k.Sign() != 0 {
		r = T.mk("app", "+", SInt, r, BigLit(k))
	}
	return r
}
func Le(a, b *Term) *Term {
	if a == b {
		return True()
	}
	ba, ca := linBase(a)
	bb, cb := linBase(b)
	if ba == bb {
		return BoolLit(ca.Cmp(cb) <= 0)
	}
	return T.mk("app", "<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False()
	}
	ba, ca := linBase(a)
	bb, cb := linBase(b)
	if ba == bb {
		return BoolLit(ca.Cmp(cb) < 0)
	}
	return T.mk("app", "<", SBool, a, b)
}

func arrSort(i, e Sort) Sort { return "(Array " + i + " " + e + ")" }
func arrElem(s Sort) Sort {
	// "(Array I E)" with I simple or nested
	in := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[i+1:]
			}
		}
	}
	panic("arrElem " + s)
}
func arrIdx(s Sort) Sort {
	in := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i]
			}
		}
	}
	panic("arrIdx " + s)
}

func Select(a, i *Term) *Term {
	for a.op == "app" && a.name == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if definitelyDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "app" && a.name == "constarr" {
		return a.args[0]
	}
	if a.op == "app" && a.name == "ite" {
		x, y := a.args[1], a.args[2]
		// push select through when one side resolves syntactically
		sx, sy := Select(x, i), Select(y, i)
		if !(sx.op == "app" && sx.name == "select" && sx.args[0] == x) || !(sy.op == "app" && sy.name == "select" && sy.args[0] == y) {
			return Ite(a.args[0], sx, sy)
		}
	}
	return T.mk("app", "select", arrElem(a.sort), a, i)
}
func Store(a, i, v *Term) *Term {
	if v.sort != arrElem(a.sort) {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.sort, a.sort))
	}
	if a.op == "app" && a.name == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "app" && v.name == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return T.mk("app", "store", a.sort, a, i, v)
}
func ConstArr(sort Sort, v *Term) *Term {
	return T.mk("app", "constarr", sort, v)
}

// datatype constructor / accessor / tester
func Ctr(dt, ctor string, args ...*Term) *Term {
	if len(args) == 0 {
		return T.mk("lit", ctor, dt)
	}
	// eta: mk(acc1 x, acc2 x...) = x
	d := T.dts[dt]
	for _, c := range d.Ctors {
		if c.Name != ctor {
			continue
		}
		if len(c.Fields) != len(args) {
			panic("ctor arity " + ctor)
		}
		for i, f := range c.Fields {
			if args[i].sort != f.Sort {
				panic(fmt.Sprintf("ctor %s field %s: sort %s want %s (%s)", ctor, f.Name, args[i].sort, f.Sort, args[i]))
			}
		}
		if len(d.Ctors) == 1 && args[0].op == "app" && args[0].name == c.Fields[0].Name {
			x := args[0].args[0]
			ok := true
			for i, f := range c.Fields {
				if !(args[i].op == "app" && args[i].name == f.Name && args[i].args[0] == x) {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	return T.mk("app", ctor, dt, args...)
}
func Acc(ctor, field string, x *Term) *Term {
	d := T.dts[x.sort]
	if d == nil {
		panic("Acc on non-datatype " + x.sort + " " + field)
	}
	for _, c := range d.Ctors {
		if c.Name != ctor {
			continue
		}
		for i, f := range c.Fields {
			if f.Name == field {
				if x.name == ctor && x.op == "app" {
					return x.args[i]
				}
				if x.op == "app" && x.name == "ite" && (isCtor(x.args[1]) || isCtor(x.args[2])) {
					a, b := x.args[1], x.args[2]
					return Ite(x.args[0], Acc(ctor, field, a), Acc(ctor, field, b))
				}
				return T.mk("app", field, f.Sort, x)
			}
		}
	}
	panic("no field " + ctor + "." + field + " in " + x.sort)
}
func Is(ctor string, x *Term) *Term {
	if isCtor(x) {
		return BoolLit(x.name == ctor)
	}
	if x.op == "app" && x.name == "ite" {
		return Ite(x.args[0], Is(ctor, x.args[1]), Is(ctor, x.args[2]))
	}
	return T.mk("app", "(_ is "+ctor+")", SBool, x)
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }

func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.op == "lit" {
		return body
	}
	var b strings.Builder
	for _, v := range vars {
		b.WriteString(v.name + ":" + v.sort + " ")
	}
	for _, p := range pats {
		for _, x := range p {
			b.WriteString(strconv.Itoa(x.id) + ",")
		}
		b.WriteString(";")
	}
	x := T.mk(op, b.String(), SBool, body)
	x.qv = vars
	x.pats = pats
	// closed iff free bound vars are only vars
	fv := freeBound(body, map[int]map[string]bool{})
	x.bound = false
	for n := range fv {
		mine := false
		for _, v := range vars {
			if v.name == n {
				mine = true
			}
		}
		if !mine {
			x.bound = true
		}
	}
	return x
}

func freeBound(x *Term, memo map[int]map[string]bool) map[string]bool {
	if !x.bound {
		return nil
	}
	if m, ok := memo[x.id]; ok {
		return m
	}
	m := map[string]bool{}
	if x.op == "sym" {
		m[x.name] = true
	}
	for _, a := range x.args {
		for k := range freeBound(a, memo) {
			m[k] = true
		}
	}
	for _, v := range x.qv {
		delete(m, v.name)
	}
	memo[x.id] = m
	return m
}

// Subst replaces symbols by terms (capture is impossible: bound names are unique).
func Subst(x *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[x]; ok {
		return r
	}
	if len(x.args) == 0 {
		return x
	}
	if r, ok := memo[x]; ok {
		return r
	}
	args := make([]*Term, len(x.args))
	ch := false
	for i, a := range x.args {
		args[i] = Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := x
	if ch {
		r = rebuild(x, args, m, memo)
	}
	memo[x] = r
	return r
}

func rebuild(x *Term, args []*Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	switch x.op {
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range x.pats {
			var np []*Term
			for _, y := range p {
				np = append(np, Subst(y, m, memo))
			}
			pats = append(pats, np)
		}
		return quant(x.op, x.qv, args[0], pats)
	}
	switch x.name {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	if strings.HasPrefix(x.name, "(_ is ") {
		return Is(x.name[6:len(x.name)-1], args[0])
	}
	// accessor?
	if len(args) == 1 {
		if d := T.dts[args[0].sort]; d != nil {
			for _, c := range d.Ctors {
				for _, f := range c.Fields {
					if f.Name == x.name {
						return Acc(c.Name, f.Name, args[0])
					}
				}
			}
		}
	}
	return T.mk(x.op, x.name, x.sort, args...)
}

func (x *Term) String() string {
	s := termStr(x, 6)
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}
func termStr(x *Term, d int) string {
	if x.op == "sym" || x.op == "lit" {
		if s, ok := strLitOf(x); ok {
			return strconv.Quote(s)
		}
		return x.name
	}
	if d == 0 {
		return "…"
	}
	var a []string
	for _, y := range x.args {
		a = append(a, termStr(y, d-1))
	}
	if x.op == "forall" || x.op == "exists" {
		var vs []string
		for _, v := range x.qv {
			vs = append(vs, v.name)
		}
		return "(" + x.op + " " + strings.Join(vs, " ") + ": " + a[0] + ")"
	}
	return "(" + x.name + " " + strings.Join(a, " ") + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
