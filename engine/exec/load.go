package exec

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const tokLSS = token.LSS

// LoadConfig says what to load.
type LoadConfig struct {
	Dir      string            // module root of the code under test
	Module   string            // its module path
	Overlay  map[string]string // file in Dir -> file with the contents
	Patterns []string
	Env      []string
}

// Load parses and type-checks the packages and everything they import, from source.
func Load(c LoadConfig) (*Program, error) {
	ov := map[string][]byte{}
	for k, v := range c.Overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     c.Dir,
		Env:     append(os.Environ(), append([]string{"CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"}, c.Env...)...),
		Fset:    fset,
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, c.Patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 5 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Program{
		SSA: prog, Module: c.Module, Pkgs: map[string]*ssa.Package{},
		Sizes: types.SizesFor("gc", "amd64"),
		strs:  map[string]int32{}, pkgIdx: map[*ssa.Package]int{},
		links: map[string]string{},
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		pr.Pkgs[p.PkgPath] = sp
		for _, f := range p.Syntax {
			pr.scanLinks(p.PkgPath, f)
		}
	})
	// packages of the module are initialised before the harness starts
	var eager []string
	for path := range pr.Pkgs {
		if (path == c.Module || strings.HasPrefix(path, c.Module+"/")) && !strings.Contains(path, "zzverif") {
			eager = append(eager, path)
		}
	}
	sort.Strings(eager)
	for _, p := range eager {
		pr.eager = append(pr.eager, pr.Pkgs[p])
	}
	return pr, nil
}

// scanLinks records //go:linkname directives.
func (pr *Program) scanLinks(path string, f *ast.File) {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if !strings.HasPrefix(c.Text, "//go:linkname ") {
				continue
			}
			w := strings.Fields(c.Text)
			if len(w) == 3 {
				pr.links[path+"."+w[1]] = w[2]
			}
		}
	}
}

// linkname gives the target of a function declared without a body.
func (pr *Program) linkname(f *ssa.Function) (string, bool) {
	d, ok := f.Syntax().(*ast.FuncDecl)
	if f.Pkg == nil || f.Signature.Recv() != nil || ok && d.Body != nil {
		return "", false
	}
	name := f.Pkg.Pkg.Path() + "." + f.Name()
	if t, ok := pr.links[name]; ok {
		return t, true
	}
	return name, true
}

// Files lists the source files of the module that were loaded.
func (pr *Program) Files() []string {
	seen := map[string]bool{}
	pr.SSA.Fset.Iterate(func(f *token.File) bool {
		seen[filepath.Clean(f.Name())] = true
		return true
	})
	var out []string
	for f := range seen {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// FnNames lists the module functions that were executed symbolically.
func (pr *Program) FnNames() (module, other []string) {
	pr.Covered.Range(func(k, _ interface{}) bool {
		fn := k.(*Fn)
		if strings.Contains(fn.Pkg, "zzverif") {
			return true
		}
		if fn.module {
			module = append(module, trimMod(fn.F.String()))
		} else {
			other = append(other, fn.F.String())
		}
		return true
	})
	sort.Strings(module)
	sort.Strings(other)
	return
}

var _ sync.Mutex
