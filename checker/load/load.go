// Package load type-checks the repository under analysis and builds its SSA
// form.
package load

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config says what to load.
type Config struct {
	Dir      string
	Patterns []string
	Env      []string // in addition to the standard offline settings
	Files    bool     // load the packages' files even if they are build-ignored
}

// Program is a loaded program.
type Program struct {
	Pkgs  []*packages.Package
	All   map[string]*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Roots []*ssa.Package
}

// Env returns the environment for go commands run by the checker.
func Env(extra ...string) []string {
	var out []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GOSUMDB", "GO111MODULE", "GOOS", "GOARCH", "GOEXPERIMENT", "CGO_ENABLED", "GOROOT", "GOENV":
			continue
		}
		out = append(out, e)
	}
	out = append(out, "GOFLAGS=", "GOENV=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
	return append(out, extra...)
}

// Load loads packages and builds the SSA program.
func Load(c Config) (*Program, error) {
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles,
		Dir: c.Dir,
		Env: Env(c.Env...),
	}
	pkgs, err := packages.Load(pc, c.Patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{Pkgs: pkgs, All: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.All[q.PkgPath] = q
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, errors.New(strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages match %v", c.Patterns)
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.Prog, p.Roots = prog, roots
	for _, sp := range prog.AllPackages() {
		p.SSA[sp.Pkg.Path()] = sp
	}
	return p, nil
}
