package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Pkg struct {
	path  string
	name  string
	files []*ast.File
	types *types.Package
	info  *types.Info
}

type Program struct {
	fset  *token.FileSet
	pkgs  map[string]*Pkg // by import path
	order []*Pkg
	funcs map[string]*FuncInfo // key "pkgname.Recv.Func" or "pkgname.Func"
	byObj map[*types.Func]*FuncInfo
	all   map[string]*types.Package

	assigned map[*types.Var]bool
}

type FuncInfo struct {
	key  string
	pkg  *Pkg
	decl *ast.FuncDecl
	obj  *types.Func
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

const modPath = "github.com/patrickhuang888/goorc"

func goEnv(repo string) []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
	return env
}

func Load(repo string) (*Program, error) {
	// -modfile keeps /repo's go.mod and go.sum untouched
	tmp, err := os.MkdirTemp("", "vcgmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(tmp, "go.mod"), "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Error", "./orc/...")
	cmd.Dir = repo
	cmd.Env = goEnv(repo)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	prog := &Program{fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, funcs: map[string]*FuncInfo{}, byObj: map[*types.Func]*FuncInfo{}, all: map[string]*types.Package{}}
	var mods []listPkg
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if lp.Export != "" {
			exports[lp.ImportPath] = lp.Export
		}
		if lp.Module != nil && lp.Module.Path == modPath {
			if lp.Error != nil {
				return nil, fmt.Errorf("package %s: %s", lp.ImportPath, lp.Error.Err)
			}
			mods = append(mods, lp)
		}
	}
	gc := importer.ForCompiler(prog.fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &mixImporter{prog: prog, gc: gc}
	for _, lp := range mods { // -deps order: dependencies first
		pk := &Pkg{path: lp.ImportPath}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(prog.fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pk.files = append(pk.files, af)
		}
		pk.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(lp.ImportPath, prog.fset, pk.files, pk.info)
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, err)
		}
		pk.types = tp
		pk.name = tp.Name()
		if lp.ImportPath == modPath+"/orc/io" {
			pk.name = "orcio"
		}
		prog.pkgs[lp.ImportPath] = pk
		prog.order = append(prog.order, pk)
		for _, af := range pk.files {
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj := pk.info.Defs[fd.Name].(*types.Func)
				fi := &FuncInfo{pkg: pk, decl: fd, obj: obj}
				fi.key = funcKey(obj)
				prog.funcs[fi.key] = fi
				prog.byObj[obj] = fi
			}
		}
	}
	return prog, nil
}

// fn: the function a contract speaks of
func (p *Program) fn(key string) *FuncInfo {
	if i := strings.IndexByte(key, '@'); i >= 0 {
		key = key[:i]
	}
	return p.funcs[key]
}

func pkgAlias(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == modPath+"/orc/io" {
		return "orcio"
	}
	if p.Path() == "github.com/klauspost/compress/flate" {
		return "kflate"
	}
	return p.Name()
}

// funcKey: "encoding.byteRunLength.Encode", "encoding.findRepeats"
func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pk := pkgAlias(f.Pkg())
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = pkgAlias(n.Obj().Pkg())
			} else {
				pk = ""
			}
			if pk == "" {
				return n.Obj().Name() + "." + f.Name()
			}
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
		return pk + ".?." + f.Name()
	}
	return pk + "." + f.Name()
}

type mixImporter struct {
	prog *Program
	gc   types.Importer
}

func (m *mixImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.prog.pkgs[path]; ok {
		return p.types, nil
	}
	p, err := m.gc.Import(path)
	if err == nil {
		m.prog.all[path] = p
	}
	return p, err
}
