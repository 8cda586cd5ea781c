package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

// Registry: which function every operator name is bound to, obtained by
// executing the packages' own initialisation code symbolically (it has no
// inputs, so the result is concrete).
type Registry struct {
	Bind  map[string]string // operator name -> function key
	Errs  []string
	ByFn  map[string][]string
	Notes []string
}

func (p *Program) initFuncs(pkg string) []*FuncInfo {
	var fs []*FuncInfo
	for k, f := range p.ByKey {
		if strings.HasPrefix(k, pkg+".init#") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool {
		a, b := p.Fset.Position(fs[i].Decl.Pos()), p.Fset.Position(fs[j].Decl.Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Line < b.Line
	})
	return fs
}

func mentionsOperator(t types.Type, depth int) bool {
	if depth > 4 || t == nil {
		return false
	}
	if strings.Contains(typeStr(t), "YispOperator") {
		return true
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Map:
		return mentionsOperator(u.Elem(), depth+1) || mentionsOperator(u.Key(), depth+1)
	case *types.Slice:
		return mentionsOperator(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mentionsOperator(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// ResolveOperators runs the initialisation of one package and reads its
// operator table.
func (p *Program) resolveOperators(reg *Registry, book *Book, pkgName, varName string, keyName func(k *Term) (string, bool)) {
	defer func() {
		if r := recover(); r != nil {
			if debugPanics {
				panic(r)
			}
			reg.Errs = append(reg.Errs, fmt.Sprintf("initialisation of package %s: %v", pkgName, r))
		}
	}()
	pkg := p.Pkgs[modPath+"/"+pkgName]
	fs := p.initFuncs(pkgName)
	ex := NewExec(p, &FuncInfo{Key: pkgName + ".init", Pkg: pkg}, book)
	ex.concrete = true
	ex.noPanic = 1
	ex.dry = 1 // no obligations
	st := &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, next: IntLit(1000), tn: IntLit(0)}
	ex.entryNext = IntLit(1000)
	ex.entry = st.clone()
	ex.frames = []*Frame{{key: pkgName + ".init", pkg: pkg, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}}
	for _, in := range pkg.Info.InitOrder {
		if len(in.Lhs) != 1 || !mentionsOperator(in.Lhs[0].Type(), 0) {
			continue
		}
		v := ex.exprAs(st, in.Rhs, in.Lhs[0].Type())
		ex.storeVar(st, in.Lhs[0], v)
	}
	for _, f := range fs {
		sig := f.Obj.Type().(*types.Signature)
		ex.frames = []*Frame{{key: f.Key, pkg: f.Pkg, sig: sig}}
		ex.findAddr(f.Pkg, f.Decl)
		out := ex.block(st, f.Decl.Body.List)
		if out == nil {
			panic("init does not return")
		}
		st = out
	}
	o, _ := pkg.Types.Scope().Lookup(varName).(*types.Var)
	if o == nil {
		panic("no variable " + varName)
	}
	m, ok := o.Type().Underlying().(*types.Map)
	if !ok {
		panic(varName + " is not a map")
	}
	_ = m
	ref := ex.loadVar(st, o)
	has, val, _ := ex.gomap(st, o.Type())
	row := Select(has, ref)
	var keys []*Term
	for row.op == "app" && row.name == "store" {
		keys = append(keys, row.args[1])
		row = row.args[0]
	}
	if !(row.op == "app" && row.name == "const") && !strings.HasPrefix(row.name, "(as const") && !strings.Contains(row.String(), "const") {
		panic("operator table is not a literal table: " + row.String())
	}
	for _, k := range keys {
		if !Select(Select(has, ref), k).isTrue() {
			continue
		}
		n, ok := keyName(k)
		if !ok {
			panic("operator name is not a literal: " + k.String())
		}
		f := Select(Select(val, ref), k)
		if cl := ex.closures[f]; cl != nil && cl.fi != nil {
			reg.Bind[n] = cl.fi.Key
		} else if cl != nil && cl.lit != nil {
			reg.Bind[n] = p.litFunc(cl.lit, cl.pkg, n)
		} else {
			reg.Bind[n] = "?" + f.String()
		}
	}
}

// litFunc gives a function literal bound to an operator name a FuncInfo of its own.
func (p *Program) litFunc(lit *ast.FuncLit, pkg *Pkg, name string) string {
	key := pkg.Types.Name() + ".literal:" + name
	sig := pkg.Info.TypeOf(lit).(*types.Signature)
	obj := types.NewFunc(lit.Pos(), pkg.Types, "literal_"+name, sig)
	fi := &FuncInfo{Key: key, Obj: obj, Pkg: pkg, Decl: &ast.FuncDecl{Name: ast.NewIdent("literal_" + name), Type: lit.Type, Body: lit.Body}}
	p.ByKey[key] = fi
	p.Funcs[obj] = fi
	return key
}

func ResolveRegistry(p *Program, book *Book) *Registry {
	reg := &Registry{Bind: map[string]string{}, ByFn: map[string][]string{}}
	p.resolveOperators(reg, book, "engine", "operators", func(k *Term) (string, bool) { return strLitOf(k) })
	p.resolveOperators(reg, book, "lib", "operators", func(k *Term) (string, bool) {
		if len(k.args) != 2 {
			return "", false
		}
		a, ok := strLitOf(k.args[0])
		b, ok2 := strLitOf(k.args[1])
		return a + "." + b, ok && ok2
	})
	for n, f := range reg.Bind {
		reg.ByFn[f] = append(reg.ByFn[f], n)
	}
	for _, l := range reg.ByFn {
		sort.Strings(l)
	}
	return reg
}
