package main

// Loading and type-checking /repo's current source, offline.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

const modPath = "github.com/google/codesearch"

type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	Decls map[*types.Func]*ast.FuncDecl
	Src   map[string][]byte
}

type Loader struct {
	repo string
	fset *token.FileSet
	pkgs map[string]*Pkg
	std  types.Importer
}

func NewLoader(repo string) *Loader {
	fset := token.NewFileSet()
	build.Default.CgoEnabled = false
	return &Loader{repo: repo, fset: fset, pkgs: map[string]*Pkg{}, std: importer.ForCompiler(fset, "source", nil)}
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		p, err := l.Load(path)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	return l.std.Import(path)
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	dir := filepath.Join(l.repo, strings.TrimPrefix(path, modPath))
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	p := &Pkg{Path: path, Dir: dir, Decls: map[*types.Func]*ast.FuncDecl{}, Src: map[string][]byte{}}
	for _, e := range ents {
		name := e.Name()
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, name); err != nil || !ok {
			continue
		}
		fn := filepath.Join(dir, name)
		src, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(l.fset, fn, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.Src[fn] = src
		p.Files = append(p.Files, f)
	}
	p.Info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: l, FakeImportC: true}
	tp, err := conf.Check(path, l.fset, p.Files, p.Info)
	if err != nil {
		return nil, fmt.Errorf("type-check %s: %v", path, err)
	}
	p.Types = tp
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
					p.Decls[o] = fd
				}
			}
		}
	}
	l.pkgs[path] = p
	return p, nil
}

// funcKey names a function the way contracts do: "F", "(T).M", "(*T).M".
func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return "(*" + n.Obj().Name() + ")." + f.Name()
			}
		}
		if n, ok := t.(*types.Named); ok {
			return "(" + n.Obj().Name() + ")." + f.Name()
		}
	}
	return f.Name()
}

func (l *Loader) findFunc(key string) (*Pkg, *types.Func) {
	for _, p := range l.pkgs {
		for f := range p.Decls {
			if f.Pkg().Name()+"."+funcKey(f) == key {
				return p, f
			}
		}
	}
	return nil, nil
}
