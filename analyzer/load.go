package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Target is the loaded, type-checked program under analysis.
type Target struct {
	Dir  string
	Fset *token.FileSet
	Prog *ssa.Program
	Pkg  *ssa.Package
	// Funcs are all functions of the package with a body, methods and closures included.
	Funcs  []*ssa.Function
	byName map[string]*ssa.Function
	canon  map[*ssa.Function]string // names in the specification of functions renamed since
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadTarget() (*Target, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule,
		Dir:  repoDir(),
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, got %d", repoDir(), len(pkgs))
	}
	var errs []string
	for _, e := range pkgs[0].Errors {
		errs = append(errs, e.Error())
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if spkgs[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", pkgs[0].PkgPath)
	}
	prog.Build()
	t := &Target{Dir: repoDir(), Fset: prog.Fset, Prog: prog, Pkg: spkgs[0], byName: map[string]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Package() != t.Pkg {
			// wrappers and thunks of the package's own methods have no package
			if root.Package() != nil || root.Object() == nil || root.Object().Pkg() != t.Pkg.Pkg {
				continue
			}
		}
		t.Funcs = append(t.Funcs, fn)
		t.byName[fn.RelString(t.Pkg.Pkg)] = fn
	}
	// methods nothing in the program reaches
	scope := t.Pkg.Pkg.Scope()
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for m := range n.Methods() {
			if fn := prog.FuncValue(m); fn != nil && fn.Blocks != nil {
				if k := fn.RelString(t.Pkg.Pkg); t.byName[k] == nil {
					t.byName[k] = fn
				}
			}
		}
	}
	resolveRenames(t)
	return t, nil
}

// Func finds a function or method by its name relative to the package, e.g.
// "clamp" or "(*terminal).Resize".
func (t *Target) Func(name string) *ssa.Function { return t.byName[name] }

func (t *Target) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := t.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}
