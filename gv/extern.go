package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

var anyT = types.Universe.Lookup("any").Type()
var strT = types.Typ[types.String]
var errT = types.Universe.Lookup("error").Type()

func isStdlibNoEval(f *types.Func) bool {
	switch f.FullName() {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln", "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"slices.Sorted", "slices.Collect", "maps.Keys", "maps.Values", "slices.SortFunc", "sort.Slice", "sort.SliceStable", "slices.SortStableFunc",
		"slices.IndexFunc", "slices.ContainsFunc":
		return true
	}
	return false
}

func (ex *Exec) newError(st *State, kind string, msg *Term) *Term {
	r := ex.alloc(st)
	e := Ctr("Any", "aptr", tagOfName("*"+kind), r)
	if msg != nil {
		st.assume(Eq(Fn("errtext", SStr, e), msg))
	}
	st.assume(Implements(e, errT))
	return e
}

// sprintf: a function of the format and the argument values.
func (ex *Exec) sprintf(st *State, name string, c *ast.CallExpr, from int) *Term {
	var args []*Term
	if from > 0 && name == "sprintf" {
		f := ex.expr(st, c.Args[from-1])
		args = append(args, f)
	}
	if c.Ellipsis != token.NoPos {
		for _, a := range c.Args[from:] {
			s := ex.expr(st, a)
			if s.sort == SSlice {
				_, m := ex.memComp(st, anyT)
				if ex.useSeq() {
					return Fn("sprintfq", SStr, args[0], ex.seqOf(st, s, anyT, SLen(s)))
				}
				return Fn("sprintf*", SStr, args[0], Select(m, SBase(s)), SOff(s), SLen(s))
			}
		}
		panic(unsupported("variadic format"))
	}
	for _, a := range c.Args[from:] {
		v := ex.exprAs(st, a, anyT)
		args = append(args, v)
	}
	if name == "sprintf" && len(args) == 1 {
		if l, ok := strLitOf(args[0]); ok && !strings.Contains(l, "%") {
			return args[0]
		}
	}
	if name == "sprintf" {
		if l, ok := strLitOf(args[0]); ok {
			if t := ex.quotedFormat(st, l, args[1:]); t != nil {
				return t
			}
			if t := simpleFormat(l, args[1:]); t != nil {
				return t
			}
		}
		name = fmt.Sprintf("sprintf%d", len(args)-1)
	} else {
		name = fmt.Sprintf("%s%d", name, len(args))
	}
	if len(args) == 0 {
		return StrLit("")
	}
	return Fn(name, SStr, args...)
}

// simpleFormat expands formats made only of literal text, %s of strings, %d of
// ints and %v/%s/%d of those: the parts are then visible to the prover.
// quotedFormat: text made of several quoted strings tells them apart.
func (ex *Exec) quotedFormat(st *State, f string, args []*Term) *Term {
	if strings.Count(f, "%") != len(args) || strings.Count(f, "%q") != len(args) || len(args) < 2 || strings.ContainsAny(strings.ReplaceAll(f, "%q", ""), "\"\\`") {
		return nil
	}
	var ts []*Term
	for _, a := range args {
		if a.op != "app" || a.name != "astr" {
			return nil
		}
		ts = append(ts, a.args[0])
	}
	ts = append(ts, StrLit(f))
	r := Fn(fmt.Sprintf("quoted%d", len(args)), SStr, ts...)
	for i := range args {
		st.assume(Eq(Fn(fmt.Sprintf("unquoted%d_%d", len(args), i), SStr, r), ts[i]))
	}
	return r
}

func simpleFormat(f string, args []*Term) *Term {
	out := StrLit("")
	i := 0
	for len(f) > 0 {
		j := strings.IndexByte(f, '%')
		if j < 0 {
			return fin(StrCat(out, StrLit(f)), i == len(args))
		}
		out = StrCat(out, StrLit(f[:j]))
		f = f[j:]
		if len(f) < 2 {
			return nil
		}
		if f[1] == '%' {
			out = StrCat(out, StrLit("%"))
			f = f[2:]
			continue
		}
		if i >= len(args) {
			return nil
		}
		a := args[i]
		i++
		switch {
		case (f[1] == 's' || f[1] == 'v') && a.op == "app" && a.name == "astr":
			out = StrCat(out, a.args[0])
		case (f[1] == 'd' || f[1] == 'v') && a.op == "app" && a.name == "aint":
			out = StrCat(out, Itoa(a.args[0]))
		case f[1] == 'v' && a.op == "app" && a.name == "abool":
			out = StrCat(out, Ite(a.args[0], StrLit("true"), StrLit("false")))
		case f[1] == 't' && a.op == "app" && a.name == "abool":
			out = StrCat(out, Ite(a.args[0], StrLit("true"), StrLit("false")))
		case f[1] == 's' && !isCtor(a):
			out = StrCat(out, Ite(Is("astr", a), Acc("astr", "astr_v", a), Fn("fmt%s", SStr, a)))
		case f[1] == 'd' && !isCtor(a):
			out = StrCat(out, Ite(Is("aint", a), Itoa(Acc("aint", "aint_v", a)), Fn("fmt%d", SStr, a)))
		case f[1] == 't' && !isCtor(a):
			out = StrCat(out, Ite(Is("abool", a), Ite(Acc("abool", "abool_v", a), StrLit("true"), StrLit("false")), Fn("fmt%t", SStr, a)))
		default:
			if !(f[1] >= 'a' && f[1] <= 'z' || f[1] >= 'A' && f[1] <= 'Z') {
				return nil
			}
			out = StrCat(out, Fn("fmt%"+f[1:2], SStr, a))
		}
		f = f[2:]
	}
	return fin(out, i == len(args))
}

func fin(t *Term, ok bool) *Term {
	if !ok {
		return nil
	}
	return t
}

func Itoa(x *Term) *Term { return Fn("itoa", SStr, x) }

func (ex *Exec) externSpecial(st *State, c *ast.CallExpr, f *types.Func, recv *Term, recvT types.Type, sig *types.Signature) []*Term {
	ex.uses[f.FullName()] = true
	switch f.FullName() {
	case "fmt.Sprintf":
		return []*Term{ex.sprintf(st, "sprintf", c, 1)}
	case "fmt.Sprint":
		return []*Term{ex.sprintf(st, "sprint", c, 0)}
	case "fmt.Sprintln":
		return []*Term{ex.sprintf(st, "sprintln", c, 0)}
	case "fmt.Errorf":
		return []*Term{ex.newError(st, "fmt.wrapError", ex.sprintf(st, "sprintf", c, 1))}
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		for _, a := range c.Args {
			ex.expr(st, a)
		}
		return []*Term{IntLit(0), Nil()}
	case "slices.Sorted":
		if k, ok := ast.Unparen(c.Args[0]).(*ast.CallExpr); ok {
			if kf := ex.calleeFunc(k); kf != nil && kf.FullName() == "maps.Keys" {
				mt := ex.typeOf(k.Args[0])
				m := ex.expr(st, k.Args[0])
				return []*Term{ex.sortedKeys(st, mt, m)}
			}
		}
	case "slices.Collect":
		if k, ok := ast.Unparen(c.Args[0]).(*ast.CallExpr); ok {
			if kf := ex.calleeFunc(k); kf != nil && kf.FullName() == "maps.Keys" {
				mt := ex.typeOf(k.Args[0])
				m := ex.expr(st, k.Args[0])
				return []*Term{ex.anyOrderKeys(st, mt, m)}
			}
		}
	}
	panic(unsupported("call of " + f.FullName() + " at " + ex.posOf(c)))
}

// keysSlice: a fresh slice holding each key of the map exactly once.
func (ex *Exec) keysSlice(st *State, mt types.Type, m *Term, arr, inv *Term) *Term {
	u := mt.Underlying().(*types.Map)
	has, _, cnt := ex.gomap(st, mt)
	n := Ite(Eq(m, IntLit(0)), IntLit(0), Select(cnt, m))
	hm := Select(has, m)
	i := BVar("i", SInt)
	kk := BVar("key", sortOf(u.Key()))
	st.assume(And(Le(IntLit(0), n), Le(n, maxLen)))
	st.assume(Forall([]*Term{i}, Implies(And(Le(IntLit(0), i), Lt(i, n)), And(Select(hm, Select(arr, i)), Eq(Select(inv, Select(arr, i)), i))), []*Term{Select(arr, i)}))
	st.assume(Implies(Neq(m, IntLit(0)), Forall([]*Term{kk}, Implies(Select(hm, kk), And(Le(IntLit(0), Select(inv, kk)), Lt(Select(inv, kk), n), Eq(Select(arr, Select(inv, kk)), kk))), []*Term{Select(hm, kk)})))
	r := ex.alloc(st)
	nm, mem := ex.memComp(st, u.Key())
	st.heap[nm] = Store(mem, r, arr)
	return MkSlice(r, IntLit(0), n, n)
}

func (ex *Exec) anyOrderKeys(st *State, mt types.Type, m *Term) *Term {
	ks := sortOf(mt.Underlying().(*types.Map).Key())
	return ex.keysSlice(st, mt, m, Fresh("enum", arrSort(SInt, ks)), Fresh("enumidx", arrSort(ks, SInt)))
}

func (ex *Exec) sortedKeys(st *State, mt types.Type, m *Term) *Term {
	has, _, _ := ex.gomap(st, mt)
	ks := sortOf(mt.Underlying().(*types.Map).Key())
	if ks != SStr {
		panic(unsupported("sorted keys of non-string map"))
	}
	hm := Select(has, m)
	arr := Fn("sortedkeys", arrSort(SInt, SStr), hm)
	inv := Fn("sortedidx", arrSort(SStr, SInt), hm)
	s := ex.keysSlice(st, mt, m, arr, inv)
	i, j := BVar("i", SInt), BVar("j", SInt)
	st.assume(Forall([]*Term{i, j}, Implies(And(Le(IntLit(0), i), Lt(i, j), Lt(j, SLen(s))), Fn("strlt", SBool, Select(arr, i), Select(arr, j))), []*Term{Select(arr, i), Select(arr, j)}))
	return s
}

// pureFns: library functions that are total and deterministic functions of
// their scalar arguments; the verifier knows them by name only.
var pureFns = map[string]string{
	"strings.ToUpper": "toupper", "strings.ToLower": "tolower", "strings.TrimSpace": "trimspace", "strings.Trim": "strtrim", "strings.TrimLeft": "strtriml", "strings.TrimRight": "strtrimr",
	"strings.ReplaceAll": "replaceall", "strings.Replace": "replacen", "strings.Contains": "strcontains", "strings.HasPrefix": "hasprefix", "strings.HasSuffix": "hassuffix",
	"strings.Index": "strindex", "strings.LastIndex": "strlastindex", "strings.Count": "strcount", "strings.Repeat": "strrepeat", "strings.EqualFold": "equalfold", "strings.Title": "strtitle",
	"strconv.Itoa": "itoa", "strconv.Quote": "strquote", "strconv.FormatFloat": "formatfloat", "strconv.FormatBool": "formatbool", "strconv.FormatInt": "formatint",
	"path/filepath.Clean": "pathclean", "path/filepath.Dir": "pathdir", "path/filepath.Base": "pathbase", "path/filepath.Ext": "pathext", "path.Clean": "pclean", "path.Base": "pbase", "path.Ext": "pext",
	"regexp.QuoteMeta": "quotemeta", "math.IsNaN": "isnan", "math.IsInf": "isinf", "math.Mod": "fmod", "math.Floor": "ffloor", "math.Abs": "fabs", "math.Trunc": "ftrunc",
	"crypto/sha256.Sum256": "sha256sum", "encoding/hex.EncodeToString": "hexencode", "unicode.IsDigit": "isdigit", "unicode.IsLetter": "isletter", "unicode.IsUpper": "isupper", "unicode/utf8.RuneCountInString": "runecount",
	"strings.Compare": "strcompare", "strings.ContainsAny": "containsany", "math.Round": "fround", "math.Ceil": "fceil", "math.Remainder": "fremainder", "math.Inf": "finf", "math.NaN": "fnan",
}

func (ex *Exec) contentArgs(st *State, args []*Term, sig *types.Signature) []*Term {
	var out []*Term
	for i, a := range args {
		if a.sort == SSlice {
			el := sig.Params().At(i).Type().Underlying().(*types.Slice).Elem()
			_, m := ex.memComp(st, el)
			out = append(out, Select(m, SBase(a)), SOff(a), SLen(a))
			continue
		}
		out = append(out, a)
	}
	return out
}

func (ex *Exec) externCall(st *State, c *ast.CallExpr, f *types.Func, recv *Term, recvT types.Type, args []*Term, sig *types.Signature) []*Term {
	name := f.FullName()
	ex.uses[name] = true
	one := func(t *Term) []*Term { return []*Term{t} }
	if recv != nil && isOrderedMapMethod(f) {
		return ex.omCall(st, c, f.Name(), recv, args)
	}
	if o := f.Origin(); o != nil && o.Pkg() != nil && strings.Contains(o.Pkg().Path(), "orderedmap") && o.Name() == "NewOrderedMap" {
		r := ex.alloc(st)
		_, n, _, _ := ex.om(st)
		st.heap["ON"] = Store(n, r, IntLit(0))
		if ex.useSeq() {
			st.assume(Eq(ex.gmapOf(st, r), gmapEmpty()))
		}
		return one(r)
	}
	switch name {
	case "reflect.TypeOf":
		t := Fn("rtypeof", SAny, args[0])
		st.assume(Eq(Eq(t, Nil()), Eq(args[0], Nil())))
		st.assume(reflectKinds(Fn("rkind", SInt, t), args[0]))
		return one(t)
	case "(reflect.Type).Kind":
		k := Fn("rkind", SInt, recv)
		st.assume(And(Le(IntLit(0), k), Le(k, IntLit(26))))
		return one(k)
	case "reflect.ValueOf":
		r := Fn("reflect.ValueOf", SInt, args[0])
		st.assume(Eq(Fn("reflect.Comparable", SBool, r), And(Neq(args[0], Nil()), Not(uncomparableVal(args[0])))))
		return one(r)
	case "(reflect.Value).Comparable":
		return one(Fn("reflect.Comparable", SBool, recv))
	}
	if sym, ok := pureFns[name]; ok {
		as := ex.contentArgs(st, args, sig)
		rt := sig.Results().At(0).Type()
		if sym == "itoa" {
			return one(Itoa(as[0]))
		}
		r := Fn(sym, sortOf(rt), as...)
		st.assume(validVal(r, rt, st.next))
		if sym == "hasprefix" || sym == "hassuffix" {
			st.assume(Implies(r, Le(StrLen(as[1]), StrLen(as[0]))))
			if l, ok := strLitOf(as[1]); ok && l == "" {
				return one(True())
			}
			if l, ok := strLitOf(as[1]); ok && len(l) == 1 {
				at := IntLit(0)
				if sym == "hassuffix" {
					at = Sub(StrLen(as[0]), IntLit(1))
				}
				st.assume(Eq(r, And(Lt(IntLit(0), StrLen(as[0])), Eq(Fn("strat", SInt, as[0], at), IntLit(int64(l[0]))))))
			}
			if l, ok := strLitOf(as[0]); ok {
				if p, ok := strLitOf(as[1]); ok {
					return one(BoolLit(sym == "hasprefix" && strings.HasPrefix(l, p) || sym == "hassuffix" && strings.HasSuffix(l, p)))
				}
			}
		}
		return one(r)
	}
	switch name {
	case "strings.Split":
		arr := Fn("split_arr", arrSort(SInt, SStr), args[0], args[1])
		n := Fn("split_len", SInt, args[0], args[1])
		st.assume(And(Le(IntLit(0), n), Le(n, Add(StrLen(args[0]), IntLit(1)))))
		st.assume(Implies(Neq(args[1], StrLit("")), Le(IntLit(1), n)))
		r := ex.alloc(st)
		nm, m := ex.memComp(st, strT)
		st.heap[nm] = Store(m, r, arr)
		return one(MkSlice(r, IntLit(0), n, n))
	case "strings.Join":
		_, m := ex.memComp(st, strT)
		s := args[0]
		if ex.useSeq() {
			return one(Fn("strjoinq", SStr, ex.seqOf(st, s, strT, SLen(s)), args[1]))
		}
		return one(Fn("strjoin", SStr, Select(m, SBase(s)), SOff(s), SLen(s), args[1]))
	case "strings.CutPrefix", "strings.TrimPrefix":
		has := Fn("hasprefix", SBool, args[0], args[1])
		st.assume(Implies(has, Le(StrLen(args[1]), StrLen(args[0]))))
		r := Ite(has, Substr(args[0], StrLen(args[1]), StrLen(args[0])), args[0])
		if name == "strings.TrimPrefix" {
			return one(r)
		}
		return []*Term{r, has}
	case "strings.CutSuffix", "strings.TrimSuffix":
		has := Fn("hassuffix", SBool, args[0], args[1])
		st.assume(Implies(has, Le(StrLen(args[1]), StrLen(args[0]))))
		r := Ite(has, Substr(args[0], IntLit(0), Sub(StrLen(args[0]), StrLen(args[1]))), args[0])
		if name == "strings.TrimSuffix" {
			return one(r)
		}
		return []*Term{r, has}
	case "strings.Cut":
		fnd := Fn("strcontains", SBool, args[0], args[1])
		return []*Term{Ite(fnd, Fn("cutbefore", SStr, args[0], args[1]), args[0]), Ite(fnd, Fn("cutafter", SStr, args[0], args[1]), StrLit("")), fnd}
	case "strconv.Atoi":
		ok := Fn("atoi_ok", SBool, args[0])
		v := Fn("atoi", SInt, args[0])
		st.assume(inRange(v, tInt))
		e := ex.newError(st, "strconv.NumError", nil)
		return []*Term{v, Ite(ok, Nil(), e)}
	case "strconv.ParseInt":
		ok := Fn("parseint_ok", SBool, args...)
		v := Fn("parseint", SInt, args...)
		st.assume(inRange(v, tInt))
		e := ex.newError(st, "strconv.NumError", nil)
		return []*Term{v, Ite(ok, Nil(), e)}
	case "strconv.ParseFloat":
		ok := Fn("parsefloat_ok", SBool, args[0])
		e := ex.newError(st, "strconv.NumError", nil)
		return []*Term{Fn("parsefloat", SFlt, args[0]), Ite(ok, Nil(), e)}
	case "strconv.ParseBool":
		ok := Fn("parsebool_ok", SBool, args[0])
		e := ex.newError(st, "strconv.NumError", nil)
		return []*Term{Fn("parsebool", SBool, args[0]), Ite(ok, Nil(), e)}
	case "errors.New":
		return one(ex.newError(st, "errors.errorString", args[0]))
	case "(error).Error":
		ex.safe(st, "nil-error", Neq(recv, Nil()), c)
		return one(Fn("errtext", SStr, recv))
	case "slices.Contains":
		return one(ex.slicesContains(st, args[0], args[1], sig))
	case "slices.Index":
		b := ex.slicesContains(st, args[0], args[1], sig)
		el := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		el = ex.subst(el)
		_, m := ex.memComp(st, el)
		w := Fresh("sidx", SInt)
		s := args[0]
		j := BVar("j", SInt)
		at := func(i *Term) *Term { return Select(Select(m, SBase(s)), Add(SOff(s), i)) }
		st.assume(Implies(b, And(Le(IntLit(0), w), Lt(w, SLen(s)), Eq(at(w), args[1]))))
		st.assume(Implies(b, Forall([]*Term{j}, Implies(And(Le(IntLit(0), j), Lt(j, w)), Neq(at(j), args[1])), []*Term{at(j)})))
		return one(Ite(b, w, IntLit(-1)))
	case "slices.Sort", "sort.Strings":
		s := args[0]
		nm, m := ex.memComp(st, strT)
		if sortOf(sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()) != SStr {
			panic(unsupported("sort of non-strings"))
		}
		src := Select(m, SBase(s))
		arr := Fresh("sorted", arrSort(SInt, SStr))
		perm := Fresh("perm", arrSort(SInt, SInt))
		inv := Fresh("perminv", arrSort(SInt, SInt))
		i, j := BVar("i", SInt), BVar("j", SInt)
		in := func(t *Term) *Term { return And(Le(IntLit(0), t), Lt(t, SLen(s))) }
		st.assume(Forall([]*Term{i}, Implies(in(i), And(in(Select(perm, i)), Eq(Select(inv, Select(perm, i)), i), Eq(Select(arr, Add(SOff(s), i)), Select(src, Add(SOff(s), Select(perm, i)))))), []*Term{Select(arr, Add(SOff(s), i))}, []*Term{Select(perm, i)}))
		st.assume(Forall([]*Term{i}, Implies(in(i), And(in(Select(inv, i)), Eq(Select(perm, Select(inv, i)), i))), []*Term{Select(inv, i)}, []*Term{Select(src, Add(SOff(s), i))}))
		st.assume(Forall([]*Term{i}, Implies(Not(And(Le(SOff(s), i), Lt(i, Add(SOff(s), SLen(s))))), Eq(Select(arr, i), Select(src, i))), []*Term{Select(arr, i)}))
		st.assume(Forall([]*Term{i, j}, Implies(And(Le(IntLit(0), i), Lt(i, j), Lt(j, SLen(s))), Not(Fn("strlt", SBool, Select(arr, Add(SOff(s), j)), Select(arr, Add(SOff(s), i))))), []*Term{Select(arr, Add(SOff(s), i)), Select(arr, Add(SOff(s), j))}))
		// sorting is determined by the set of strings when they are distinct: the
		// keys of one map sorted twice give the same sequence
		st.heap[nm] = Store(m, SBase(s), arr)
		return nil
	case "slices.Clone":
		el := ex.subst(ex.typeOf(c).Underlying().(*types.Slice).Elem())
		return one(ex.appendMany(st, el, NilSlice(), args[0]))
	case "slices.Concat":
		panic(unsupported("slices.Concat"))
	case "maps.Copy":
		return ex.mapsCopy(st, ex.typeOf(c.Args[0]), args[0], args[1])
	case "maps.Clone":
		mt := ex.typeOf(c.Args[0])
		m := ex.newMap(st, mt)
		ex.mapsCopy(st, mt, m, args[0])
		return one(Ite(Eq(args[0], IntLit(0)), IntLit(0), m))
	case "path/filepath.Join":
		return one(ex.variadicPure(st, "pathjoin", args[0], strT, SStr))
	case "os.Exit":
		st.facts = st.facts.add(Fact{t: False()})
		return nil
	case "(github.com/rs/xid.ID).String":
		// globally unique: no key of an existing map ends with it
		s := Fresh("xid", SStr)
		keys, n, idx, _ := ex.om(st)
		r, p := BVar("r", SInt), BVar("p", SStr)
		k := StrCat(p, s)
		i := Select(Select(idx, r), k)
		st.assume(Forall([]*Term{r, p}, Not(And(Le(IntLit(0), i), Lt(i, Select(n, r)), Eq(Select(Select(keys, r), i), k))), []*Term{i}))
		st.assume(Forall([]*Term{p}, Fn("hasprefix", SBool, k, p), []*Term{k})) // what a prefix is
		return one(s)
	case "os/exec.Command":
		r := ex.alloc(st)
		put := func(n string, v *Term, t types.Type) {
			h := ex.comp(st, n, arrSort(SInt, v.sort), t)
			st.heap[n] = Store(h, r, v)
		}
		put("X:cmd.name", args[0], strT)
		put("X:cmd.args", args[1], sig.Params().At(1).Type())
		_, m := ex.memComp(st, strT)
		put("X:cmd.argv", Select(m, SBase(args[1])), strT)
		put("X:exec.Cmd.Stdin", Nil(), anyT)
		return one(r)
	case "encoding/json.Unmarshal":
		return ex.decodeInto(st, "jsondec", ex.contentArgs(st, args[:1], sig), args[1], c.Args[1], c)
	case "(*encoding/json.Decoder).Decode":
		return ex.decodeInto(st, "", nil, args[0], c.Args[0], c)
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		r := ex.alloc(st)
		nm, m := ex.memComp(st, types.Universe.Lookup("byte").Type())
		n := Fresh("jsonlen", SInt)
		st.heap[nm] = Store(m, r, Fresh("json", arrElem(m.sort)))
		e := Fresh("err", SAny)
		st.assume(validVal(e, errT, st.next))
		st.assume(And(Le(IntLit(0), n), Le(n, maxLen)))
		return []*Term{MkSlice(r, IntLit(0), n, n), e}
	}
	if strings.HasSuffix(name, "yaml.Decoder).Decode") {
		return ex.decodeInto(st, "", nil, args[0], c.Args[0], c)
	}
	if recv != nil && recv.sort == SAny && isInterfaceMethod(f) {
		ex.safe(st, "nil-interface", Neq(recv, Nil()), c)
	}
	// anything else: arbitrary well-formed results, program memory untouched
	for i, a := range args {
		if a.sort == SAny && a.op == "app" && a.name == "aptr" && i < len(c.Args) {
			// a pointer handed to a library may be written through
			ex.havocPointee(st, ex.typeOf(c.Args[i]), a.args[1])
		}
	}
	var rs []*Term
	old := st.next
	st.next = Fresh("next", SInt)
	st.assume(Le(old, st.next))
	for i := 0; i < sig.Results().Len(); i++ {
		t := ex.subst(sig.Results().At(i).Type())
		r := Fresh("ext."+f.Name(), sortOf(t))
		st.assume(validVal(r, t, st.next))
		rs = append(rs, r)
	}
	nr := len(rs)
	if nr > 0 && types.Identical(sig.Results().At(nr-1).Type(), errT) {
		st.assume(Or(Eq(rs[nr-1], Nil()), Implements(rs[nr-1], errT)))
		for i := 0; i < nr-1; i++ {
			switch sig.Results().At(i).Type().Underlying().(type) {
			case *types.Pointer:
				st.assume(Implies(Eq(rs[nr-1], Nil()), Neq(rs[i], IntLit(0))))
			case *types.Interface:
				st.assume(Implies(Eq(rs[nr-1], Nil()), Neq(rs[i], Nil())))
			}
		}
	} else {
		for i := 0; i < nr; i++ {
			if nonNilResult(name) {
				switch sig.Results().At(i).Type().Underlying().(type) {
				case *types.Pointer:
					st.assume(Neq(rs[i], IntLit(0)))
				case *types.Interface:
					st.assume(Neq(rs[i], Nil()))
				}
			}
		}
	}
	return rs
}

// uncomparableVal: comparing this value with one of its own type panics.
func uncomparableVal(x *Term) *Term {
	return Or(Is("aslc", x), And(Is("aptr", x), Fn("uncomparable", SBool, Acc("aptr", "aptr_t", x))))
}

func nonNilResult(name string) bool {
	for _, p := range []string{"New", "ResolveReference", "DirFS", "NopCloser"} {
		if strings.Contains(name, p) {
			return true
		}
	}
	return false
}

func (ex *Exec) variadicPure(st *State, name string, s *Term, el types.Type, out Sort) *Term {
	_, m := ex.memComp(st, el)
	arr := Select(m, SBase(s))
	if n := SLen(s); n.n != nil && n.n.Int64() <= 8 {
		var as []*Term
		for i := int64(0); i < n.n.Int64(); i++ {
			as = append(as, Select(arr, Add(SOff(s), IntLit(i))))
		}
		return Fn(fmt.Sprintf("%s%d", name, len(as)), out, as...)
	}
	return Fn(name+"*", out, arr, SOff(s), SLen(s))
}

func (ex *Exec) havocPointee(st *State, t types.Type, r *Term) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	bt := p.Elem()
	if u, ok := bt.Underlying().(*types.Struct); ok && isRepoStruct(bt) {
		for i := 0; i < u.NumFields(); i++ {
			n, h := ex.fieldComp(st, bt, u.Field(i))
			v := Fresh("dec."+u.Field(i).Name(), sortOf(u.Field(i).Type()))
			st.heap[n] = Store(h, r, v)
			st.assume(validVal(v, u.Field(i).Type(), st.next))
		}
		return
	}
	if _, ok := bt.Underlying().(*types.Struct); ok {
		return
	}
	n, h := ex.cellComp(st, bt)
	v := Fresh("dec", sortOf(bt))
	st.heap[n] = Store(h, r, v)
	st.assume(validVal(v, bt, st.next))
}

func (ex *Exec) decodeInto(st *State, fn string, data []*Term, ptr *Term, pe ast.Expr, c *ast.CallExpr) []*Term {
	old := st.next
	st.next = Fresh("next", SInt)
	st.assume(Le(old, st.next))
	r := Acc("aptr", "aptr_v", ptr)
	ex.havocPointee(st, ex.typeOf(pe), r)
	e := Fresh("err", SAny)
	st.assume(validVal(e, errT, st.next))
	st.assume(Or(Eq(e, Nil()), Implements(e, errT)))
	return []*Term{e}
}

func (ex *Exec) slicesContains(st *State, s, v *Term, sig *types.Signature) *Term {
	el := types.Type(strT)
	if v.sort == SAny {
		el = anyT
	}
	if v.sort == SInt {
		panic(unsupported("slices.Contains of non-strings"))
	}
	_, m := ex.memComp(st, el)
	b := Fresh("contains", SBool)
	w := Fresh("cwit", SInt)
	at := func(i *Term) *Term { return Select(Select(m, SBase(s)), Add(SOff(s), i)) }
	j := BVar("j", SInt)
	st.assume(Implies(b, And(Le(IntLit(0), w), Lt(w, SLen(s)), Eq(at(w), v))))
	st.assume(Implies(Not(b), Forall([]*Term{j}, Implies(And(Le(IntLit(0), j), Lt(j, SLen(s))), Neq(at(j), v)), []*Term{at(j)})))
	return b
}

func (ex *Exec) mapsCopy(st *State, mt types.Type, dst, src *Term) []*Term {
	hn, vn, nn := mapCompNames(mt)
	has, val, cnt := ex.gomap(st, mt)
	nh := Fresh("mc.has", arrElem(has.sort))
	nv := Fresh("mc.val", arrElem(val.sort))
	nc := Fresh("mc.n", SInt)
	k := BVar("k", arrIdx(nh.sort))
	srcHas := func(k *Term) *Term { return And(Neq(src, IntLit(0)), Select(Select(has, src), k)) }
	st.assume(Forall([]*Term{k}, Eq(Select(nh, k), Or(Select(Select(has, dst), k), srcHas(k))), []*Term{Select(nh, k)}))
	st.assume(Forall([]*Term{k}, Eq(Select(nv, k), Ite(srcHas(k), Select(Select(val, src), k), Select(Select(val, dst), k))), []*Term{Select(nv, k)}))
	st.assume(And(Le(IntLit(0), nc), Le(nc, maxLen)))
	st.heap[hn] = Store(has, dst, nh)
	st.heap[vn] = Store(val, dst, nv)
	st.heap[nn] = Store(cnt, dst, nc)
	return nil
}

// ---------------------------------------------------------------- ordered maps

func isOrderedMapMethod(f *types.Func) bool {
	r := f.Type().(*types.Signature).Recv()
	return r != nil && isOrderedMap(r.Type())
}

func omHas(keys, n, idx, m, k *Term) *Term {
	i := Select(Select(idx, m), k)
	return And(Le(IntLit(0), i), Lt(i, Select(n, m)), Eq(Select(Select(keys, m), i), k))
}

func (ex *Exec) omCall(st *State, c ast.Node, name string, m *Term, args []*Term) []*Term {
	ex.safe(st, "nil-map", Neq(m, IntLit(0)), c)
	keys, n, idx, vals := ex.om(st)
	cnt := Select(n, m)
	st.assume(And(Le(IntLit(0), cnt), Le(cnt, maxLen)))
	switch name {
	case "Len":
		return []*Term{cnt}
	case "Get":
		has := omHas(keys, n, idx, m, args[0])
		v := Select(Select(vals, m), args[0])
		st.assume(Implies(has, ex.loaded(st, v, anyT)))
		return []*Term{Ite(has, v, Nil()), has}
	case "Has":
		return []*Term{omHas(keys, n, idx, m, args[0])}
	case "GetOrDefault":
		has := omHas(keys, n, idx, m, args[0])
		v := Select(Select(vals, m), args[0])
		st.assume(Implies(has, ex.loaded(st, v, anyT)))
		return []*Term{Ite(has, v, args[1])}
	case "Set":
		has := omHas(keys, n, idx, m, args[0])
		k := args[0]
		var before *Term
		if ex.useSeq() {
			before = ex.gmapOf(st, m)
		}
		st.heap["OV"] = Store(vals, m, Store(Select(vals, m), k, args[1]))
		st.heap["OK"] = Store(keys, m, Ite(has, Select(keys, m), Store(Select(keys, m), cnt, k)))
		st.heap["OI"] = Store(idx, m, Ite(has, Select(idx, m), Store(Select(idx, m), k, cnt)))
		st.heap["ON"] = Store(n, m, Ite(has, cnt, Add(cnt, IntLit(1))))
		if before != nil {
			st.assume(Eq(ex.gmapOf(st, m), gmapPut(before, k, args[1])))
		}
		return []*Term{Not(has)}
	case "Delete":
		has := omHas(keys, n, idx, m, args[0])
		k := args[0]
		pos := Select(Select(idx, m), k)
		nk := Fresh("delkeys", arrSort(SInt, SStr))
		ni := Fresh("delidx", arrSort(SStr, SInt))
		i := BVar("i", SInt)
		kk := BVar("key", SStr)
		st.assume(Forall([]*Term{i}, Eq(Select(nk, i), Select(Select(keys, m), Ite(Lt(i, pos), i, Add(i, IntLit(1))))), []*Term{Select(nk, i)}))
		old := Select(Select(idx, m), kk)
		st.assume(Forall([]*Term{kk}, Eq(Select(ni, kk), Ite(Eq(kk, k), IntLit(-1), Ite(Lt(pos, old), Sub(old, IntLit(1)), old))), []*Term{Select(ni, kk)}))
		st.heap["OK"] = Ite(has, Store(keys, m, nk), keys)
		st.heap["OI"] = Ite(has, Store(idx, m, ni), idx)
		st.heap["ON"] = Ite(has, Store(n, m, Sub(cnt, IntLit(1))), n)
		return []*Term{has}
	}
	panic(unsupported("orderedmap method " + name))
}

// reflectKinds: what reflection reports for the types decoded data is made of.
func reflectKinds(k, v *Term) *Term {
	anyT := types.Universe.Lookup("any").Type()
	out := True()
	for i, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr, types.Float32, types.Float64} {
		out = And(out, Implies(isType(v, types.Typ[b]), Eq(k, IntLit(int64(i+1)))))
	}
	out = And(out, Implies(isType(v, types.Typ[types.String]), Eq(k, IntLit(24))))
	out = And(out, Implies(isType(v, types.NewMap(types.Typ[types.String], anyT)), Eq(k, IntLit(21))))
	return And(out, Implies(isType(v, types.NewSlice(anyT)), Eq(k, IntLit(23))))
}
