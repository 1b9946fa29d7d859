package main

// Loading of the repository's current source: parse + type-check every
// package of the module; dependencies come from compiler export data.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Pkg struct {
	path  string
	name  string
	types *types.Package
	info  *types.Info
	files []*ast.File
}

type FuncInfo struct {
	key  string // pkg.Recv.Name or pkg.Name
	obj  *types.Func
	decl *ast.FuncDecl
	pkg  *Pkg
}

type Prog struct {
	fset  *token.FileSet
	root  string
	pkgs  []*Pkg
	byPth map[string]*Pkg
	funcs map[*types.Func]*FuncInfo
	byKey map[string]*FuncInfo
	vars  map[*types.Var]ast.Expr // package-level variable initialisers
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return env
}

func Load(root string) (*Prog, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = root
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	var mine []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			q := p
			mine = append(mine, &q)
		}
	}
	pr := &Prog{fset: token.NewFileSet(), root: root, byPth: map[string]*Pkg{}, funcs: map[*types.Func]*FuncInfo{}, byKey: map[string]*FuncInfo{}, vars: map[*types.Var]ast.Expr{}}
	gc := importer.ForCompiler(pr.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &srcImporter{pr: pr, gc: gc}
	for _, lp := range mine { // -deps lists dependencies first
		if lp.Name == "main" {
			continue
		}
		if lp.Error != nil {
			return nil, fmt.Errorf("%s: %s", lp.ImportPath, lp.Error.Err)
		}
		p := &Pkg{path: lp.ImportPath, name: lp.Name}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(pr.fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, af)
		}
		p.info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Implicits:  map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Scopes:     map[ast.Node]*types.Scope{},
			Instances:  map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(lp.ImportPath, pr.fset, p.files, p.info)
		if err != nil {
			return nil, err
		}
		p.types = tp
		pr.pkgs = append(pr.pkgs, p)
		pr.byPth[p.path] = p
		for _, f := range p.files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					obj := p.info.Defs[d.Name].(*types.Func)
					fi := &FuncInfo{obj: obj, decl: d, pkg: p, key: funcKey(p, obj)}
					pr.funcs[obj] = fi
					pr.byKey[fi.key] = fi
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR && len(vs.Values) == len(vs.Names) {
							for i, n := range vs.Names {
								if v, ok := p.info.Defs[n].(*types.Var); ok {
									pr.vars[v] = vs.Values[i]
								}
							}
						}
					}
				}
			}
		}
	}
	return pr, nil
}

type srcImporter struct {
	pr *Prog
	gc types.Importer
}

func (s *srcImporter) Import(path string) (*types.Package, error) {
	if p, ok := s.pr.byPth[path]; ok {
		return p.types, nil
	}
	return s.gc.Import(path)
}

func recvName(obj *types.Func) string {
	sig := obj.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

func funcKey(p *Pkg, obj *types.Func) string {
	if r := recvName(obj); r != "" {
		return p.name + "." + r + "." + obj.Name()
	}
	return p.name + "." + obj.Name()
}

func (pr *Prog) pos(p token.Pos) string {
	ps := pr.fset.Position(p)
	r, err := filepath.Rel(pr.root, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

func (pr *Prog) pkgByName(n string) *Pkg {
	for _, p := range pr.pkgs {
		if p.name == n {
			return p
		}
	}
	return nil
}

func shortPkg(path string) string {
	i := strings.LastIndex(path, "/")
	return path[i+1:]
}
