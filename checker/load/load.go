// Package load reads /repo (and in-memory packages) into SSA form.
package load

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const ModPath = "github.com/goccmack/gogll/v3"

// Repo is the loaded program.
type Repo struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by import path
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Extra map[string]*Extra
	Files int
}

// Extra is a package made from in-memory files.
type Extra struct {
	Path  string
	Types *types.Package
	Files []*ast.File
	Info  *types.Info
}

// Dirs lists the package directories of the tool itself.
func Dirs(root string) ([]string, error) {
	var out []string
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if rel != "." {
			top := strings.Split(rel, string(filepath.Separator))[0]
			if top == "examples" || top == "test" || strings.HasPrefix(top, ".") || top == "doc" || top == "testdata" {
				return filepath.SkipDir
			}
		}
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				out = append(out, "./"+rel)
				break
			}
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

// Load loads and type-checks the tool's packages.
func Load(root string, fset *token.FileSet) (*Repo, error) {
	return LoadOverlay(root, fset, nil)
}

// LoadOverlay loads the tree with some files replaced.
func LoadOverlay(root string, fset *token.FileSet, overlay map[string][]byte) (*Repo, error) {
	dirs, err := Dirs(root)
	if err != nil {
		return nil, err
	}
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Env: env, Fset: fset, Overlay: overlay}
	// what generated code may come to import
	dirs = append(dirs, "bufio", "cmp", "container/heap", "container/list", "log", "maps", "math/bits", "math/rand", "slices", "sync/atomic", "text/tabwriter", "unicode/utf16")
	pkgs, err := packages.Load(cfg, dirs...)
	if err != nil {
		return nil, err
	}
	r := &Repo{Dir: root, Fset: cfg.Fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, Extra: map[string]*Extra{}}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		r.Pkgs[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, ModPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
			r.Files += len(p.Syntax)
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	r.Prog = ssa.NewProgram(r.Fset, ssa.InstantiateGenerics)
	created := map[*packages.Package]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && !p.IllTyped && !created[p] {
			created[p] = true
			own := strings.HasPrefix(p.PkgPath, ModPath) || strings.HasPrefix(p.PkgPath, "github.com/goccmack/") || strings.HasPrefix(p.PkgPath, "github.com/iancoleman/")
			if own {
				r.SSA[p.PkgPath] = r.Prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			} else {
				r.Prog.CreatePackage(p.Types, nil, nil, true)
			}
		}
	})
	for _, sp := range r.SSA {
		sp.Build()
	}
	return r, nil
}

// AddPackage type-checks in-memory files as one more package. Imports are
// resolved through mapping (import path as written -> loaded path).
func (r *Repo) AddPackage(path string, files map[string]string, mapping func(string) string) (*ssa.Package, error) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var fs []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(r.Fset, path+"/"+n, files[n], parser.ParseComments)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: &imp{r, mapping}, GoVersion: "go1.21"}
	tp, err := conf.Check(path, r.Fset, fs, info)
	if err != nil {
		return nil, err
	}
	r.Extra[path] = &Extra{path, tp, fs, info}
	sp := r.Prog.CreatePackage(tp, fs, info, true)
	sp.Build()
	r.SSA[path] = sp
	return sp, nil
}

type imp struct {
	r *Repo
	m func(string) string
}

func (i *imp) Import(path string) (*types.Package, error) {
	if i.m != nil {
		path = i.m(path)
	}
	if e, ok := i.r.Extra[path]; ok {
		return e.Types, nil
	}
	if p, ok := i.r.Pkgs[path]; ok {
		return p.Types, nil
	}
	return nil, fmt.Errorf("package %s is not part of the analysed program", path)
}

// Pos renders a position relative to the repository.
func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := r.Fset.Position(p)
	f := q.Filename
	if rel, err := filepath.Rel(r.Dir, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
