package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func qual(p *types.Package) string { return p.Name() }

func typeStr(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

var (
	typeTags   = map[string]int64{}
	structDT   = map[string]string{} // type string -> datatype name
	structFlds = map[string]*types.Struct{}
)

func tagOf(t types.Type) *Term {
	s := typeStr(t)
	if _, ok := typeTags[s]; !ok {
		typeTags[s] = int64(len(typeTags) + 1)
		switch types.Unalias(t).Underlying().(type) {
		case *types.Map, *types.Signature:
			AddFnAxiom("uncomparable", Fn("uncomparable", SBool, IntLit(typeTags[s])))
		case *types.Pointer:
			AddFnAxiom("uncomparable", Not(Fn("uncomparable", SBool, IntLit(typeTags[s]))))
		}
	}
	return IntLit(typeTags[s])
}

func isRepoStruct(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return true // anonymous struct
	}
	p := n.Obj().Pkg()
	if p == nil {
		return true
	}
	return strings.HasPrefix(p.Path(), modPath) && !isOpaqueYaml(n)
}

// yaml.Encoder/Decoder internals are opaque; yaml.Node is transparent data.
func isOpaqueYaml(n *types.Named) bool {
	p := n.Obj().Pkg()
	return strings.HasSuffix(p.Path(), "internal/yaml") && n.Obj().Name() != "Node"
}

func isOrderedMap(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "OrderedMap" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "orderedmap")
}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if t == types.Type(seqT) {
		return SSeq
	}
	if t == gmapT {
		return SGMap
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UntypedNil:
			return SAny
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Array:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Struct:
		if !isRepoStruct(t) {
			return SInt
		}
		return structSort(t, u)
	}
	panic(unsupported("type " + typeStr(t)))
}

func structSort(t types.Type, u *types.Struct) Sort {
	s := typeStr(t)
	if n, ok := structDT[s]; ok {
		return n
	}
	n := "S_" + strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
	if len(n) > 60 {
		n = fmt.Sprintf("%s_%d", n[:50], len(structDT))
	}
	structDT[s] = n
	structFlds[n] = u
	c := Ctor{Name: "mk_" + n}
	for i := 0; i < u.NumFields(); i++ {
		c.Fields = append(c.Fields, Field{n + "." + u.Field(i).Name(), sortOf(u.Field(i).Type())})
	}
	if len(c.Fields) == 0 {
		c.Fields = append(c.Fields, Field{n + "._", SInt})
	}
	T.AddDT(&Datatype{n, []Ctor{c}})
	return n
}

func structGet(x *Term, field string) *Term { return Acc("mk_"+x.sort, x.sort+"."+field, x) }
func structSet(x *Term, field string, v *Term) *Term {
	d := T.dts[x.sort]
	var args []*Term
	for _, f := range d.Ctors[0].Fields {
		if f.Name == x.sort+"."+field {
			args = append(args, v)
		} else {
			args = append(args, Acc(d.Ctors[0].Name, f.Name, x))
		}
	}
	return Ctr(x.sort, d.Ctors[0].Name, args...)
}
func structMk(s Sort, u *types.Struct, f func(i int) *Term) *Term {
	var args []*Term
	for i := 0; i < u.NumFields(); i++ {
		args = append(args, f(i))
	}
	if len(args) == 0 {
		args = append(args, IntLit(0))
	}
	return Ctr(s, "mk_"+s, args...)
}

func Nil() *Term      { return Ctr("Any", "anil") }
func NilSlice() *Term { return Ctr("Slice", "mks", IntLit(0), IntLit(0), IntLit(0), IntLit(0)) }

func MkSlice(b, o, l, c *Term) *Term { return Ctr("Slice", "mks", b, o, l, c) }
func SBase(s *Term) *Term            { return Acc("mks", "sbase", s) }
func SOff(s *Term) *Term             { return Acc("mks", "soff", s) }
func SLen(s *Term) *Term             { return Acc("mks", "slen", s) }
func SCap(s *Term) *Term             { return Acc("mks", "scap", s) }

func zero(t types.Type) *Term {
	t = types.Unalias(t)
	switch sortOf(t) {
	case SInt:
		return IntLit(0)
	case SBool:
		return False()
	case SStr:
		return StrLit("")
	case SFlt:
		return FltLit("0")
	case SAny:
		return Nil()
	case SSlice:
		return NilSlice()
	}
	u := t.Underlying().(*types.Struct)
	return structMk(sortOf(t), u, func(i int) *Term { return zero(u.Field(i).Type()) })
}

func isInterface(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok
}

// box converts a value of static type t to the dynamic-value sort.
func box(t types.Type, x *Term) *Term {
	t = types.Unalias(t)
	if isInterface(t) {
		return x
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Int, types.UntypedInt:
			return Ctr("Any", "aint", x)
		case types.Bool, types.UntypedBool:
			return Ctr("Any", "abool", x)
		case types.String, types.UntypedString:
			return Ctr("Any", "astr", x)
		case types.Float64, types.UntypedFloat:
			return Ctr("Any", "aflt", x)
		case types.UntypedNil:
			return Nil()
		}
	}
	switch sortOf(t) {
	case SInt:
		switch t.Underlying().(type) {
		case *types.Basic:
			return Ctr("Any", "anum", tagOf(t), x)
		}
		return Ctr("Any", "aptr", tagOf(t), x)
	case SSlice:
		return Ctr("Any", "aslc", tagOf(t), x)
	default:
		f := "box$" + sortOf(t)
		g := "unbox$" + sortOf(t)
		y := Fn(f, SInt, x)
		if _, ok := fnAxioms[f]; !ok {
			v := BVar("v", sortOf(t))
			AddFnAxiom(f, Forall([]*Term{v}, Eq(Fn(g, sortOf(t), Fn(f, SInt, v)), v), []*Term{Fn(f, SInt, v)}))
		}
		return Ctr("Any", "aoth", tagOf(t), y)
	}
}

// isType is the dynamic type test a.(t).
func isType(a *Term, t types.Type) *Term {
	t = types.Unalias(t)
	if isInterface(t) {
		it := t.Underlying().(*types.Interface)
		if it.Empty() {
			return Not(Eq(a, Nil()))
		}
		return And(Not(Eq(a, Nil())), Fn("implements$"+typeStr(t), SBool, a))
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Int:
			return Is("aint", a)
		case types.Bool:
			return Is("abool", a)
		case types.String:
			return Is("astr", a)
		case types.Float64:
			return Is("aflt", a)
		}
	}
	switch sortOf(t) {
	case SInt:
		switch t.Underlying().(type) {
		case *types.Basic:
			return And(Is("anum", a), Eq(Acc("anum", "anum_t", a), tagOf(t)))
		}
		return And(Is("aptr", a), Eq(Acc("aptr", "aptr_t", a), tagOf(t)))
	case SSlice:
		return And(Is("aslc", a), Eq(Acc("aslc", "aslc_t", a), tagOf(t)))
	}
	return And(Is("aoth", a), Eq(Acc("aoth", "aoth_t", a), tagOf(t)))
}

func unbox(a *Term, t types.Type) *Term {
	t = types.Unalias(t)
	if isInterface(t) {
		return a
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Int:
			return Acc("aint", "aint_v", a)
		case types.Bool:
			return Acc("abool", "abool_v", a)
		case types.String:
			return Acc("astr", "astr_v", a)
		case types.Float64:
			return Acc("aflt", "aflt_v", a)
		}
	}
	switch sortOf(t) {
	case SInt:
		switch t.Underlying().(type) {
		case *types.Basic:
			return Acc("anum", "anum_v", a)
		}
		return Acc("aptr", "aptr_v", a)
	case SSlice:
		return Acc("aslc", "aslc_v", a)
	}
	return Fn("unbox$"+sortOf(t), sortOf(t), Acc("aoth", "aoth_v", a))
}

var (
	maxInt = new(big.Int).SetInt64(1<<63 - 1)
	minInt = new(big.Int).SetInt64(-1 << 63)
	two64  = new(big.Int).Lsh(big.NewInt(1), 64)
)

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	bits := 64
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	}
	if b.Info()&types.IsInteger != 0 {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return nil, nil
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }
