package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Program is the typed syntax of the repository's own packages, re-read from
// the working tree on every run.
type Program struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg // by import path
	Funcs map[*types.Func]*FuncInfo
	ByKey map[string]*FuncInfo // "core.IsTruthy", "core.Env.Get", ...
}

type Pkg struct {
	Path  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

type FuncInfo struct {
	Key  string
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *Pkg
}

const modPath = "github.com/totegamma/yisp"

var repoPkgs = []string{modPath + "/core", modPath + "/lib", modPath + "/engine", modPath + "/cmd"}

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Error      *struct{ Err string }
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOFLAGS", "-mod=mod")
	set("GOMODCACHE", "/root/go/pkg/mod")
	if os.Getenv("GOCACHE") == "" {
		set("GOCACHE", "/root/.cache/go-build")
	}
	return env
}

func LoadProgram(root string) (*Program, error) {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Error"}, repoPkgs...)...)
	cmd.Dir = root
	cmd.Env = goEnv()
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	pk := map[string]*listPkg{}
	dec := json.NewDecoder(&out)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		pp := p
		pk[p.ImportPath] = &pp
	}
	prog := &Program{Root: root, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncInfo{}, ByKey: map[string]*FuncInfo{}}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &mixImporter{gc: gc, prog: prog}
	for _, path := range repoPkgs {
		lp := pk[path]
		if lp == nil {
			return nil, fmt.Errorf("package %s not found", path)
		}
		p := &Pkg{Path: path, Info: &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{},
		}}
		sort.Strings(lp.GoFiles)
		for _, gf := range lp.GoFiles {
			f, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, gf), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, f)
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(path, prog.Fset, p.Files, p.Info)
		if err != nil {
			return nil, err
		}
		p.Types = tp
		prog.Pkgs[path] = p
		for _, f := range p.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj, _ := p.Info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				key := tp.Name() + "." + fd.Name.Name
				if r := obj.Type().(*types.Signature).Recv(); r != nil {
					t := r.Type()
					if pt, ok := t.(*types.Pointer); ok {
						t = pt.Elem()
					}
					key = tp.Name() + "." + t.(*types.Named).Obj().Name() + "." + fd.Name.Name
				}
				if fd.Name.Name == "init" {
					key = fmt.Sprintf("%s#%s:%d", key, filepath.Base(prog.Fset.Position(fd.Pos()).Filename), prog.Fset.Position(fd.Pos()).Line)
				}
				fi := &FuncInfo{Key: key, Obj: obj, Decl: fd, Pkg: p}
				prog.Funcs[obj] = fi
				prog.ByKey[key] = fi
			}
		}
	}
	return prog, nil
}

type mixImporter struct {
	gc   types.Importer
	prog *Program
}

func (m *mixImporter) Import(path string) (*types.Package, error) {
	if p := m.prog.Pkgs[path]; p != nil {
		return p.Types, nil
	}
	return m.gc.Import(path)
}

func (p *Program) Pos(n ast.Node) string {
	ps := p.Fset.Position(n.Pos())
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
