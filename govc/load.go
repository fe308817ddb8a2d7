package main

// Loading /repo: go/parser + go/types with compiler export data for imports.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type FuncInfo struct {
	Key  string
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
}

type Pkg struct {
	Path  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*Pkg{}
	funcs   = map[string]*FuncInfo{} // key -> func (root package unqualified)
	byObj   = map[*types.Func]*FuncInfo{}
	repoDir = "/repo"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path, Dir string }
	Standard   bool
	Error      *struct{ Err string }
}

const rootPath = "github.com/neilotoole/jsoncolor"

func loadRepo() error {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Module,Standard,Error", "./...")
	cmd.Dir = repoDir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	exports := map[string]string{}
	var mine []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, rootPath) {
			if p.Error != nil {
				return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
			}
			mine = append(mine, p)
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, lp := range mine { // -deps order: dependencies first
		p := &Pkg{Path: lp.ImportPath, Info: &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				return err
			}
			p.Files = append(p.Files, af)
		}
		imp := importerFunc(func(path string) (*types.Package, error) {
			if q, ok := pkgs[path]; ok {
				return q.Types, nil
			}
			return gc.Import(path)
		})
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, fset, p.Files, p.Info)
		if err != nil {
			return err
		}
		p.Types = tp
		pkgs[lp.ImportPath] = p
		short := strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, rootPath), "/")
		for _, af := range p.Files {
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj, _ := p.Info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				k := funcKey(obj)
				if short != "" {
					k = short + ":" + k
				}
				fi := &FuncInfo{k, p, fd, obj}
				funcs[k] = fi
				byObj[obj] = fi
			}
		}
	}
	return nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// funcKey names a function: f, T.m (pointer receivers not distinguished).
func funcKey(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + o.Name()
		}
		return t.String() + "." + o.Name()
	}
	return o.Name()
}

// extKey names an external function: pkg.F or pkg.T.m.
func extKey(o *types.Func) string {
	if o.Pkg() == nil {
		return funcKey(o)
	}
	return o.Pkg().Path() + "." + funcKey(o)
}

func posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
