package rules

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// words32 are the architectures on which int has 32 bits.
var words32 = map[string]bool{
	"386": true, "amd64p32": true, "arm": true, "armbe": true, "mips": true, "mipsle": true, "mips64p32": true, "mips64p32le": true,
	"ppc": true, "riscv": true, "s390": true, "sparc": true,
}

// wordSensitive reports whether the analysis that was just done may have come
// out differently on a platform with the other word size: whether a value of
// type int, uint or uintptr arose that 32 bits do not hold, or a constant in
// the code that was looked at depends on the word size.
//
// It also reports whether the module builds for the other platform at all.
func (c *Ctx) wordSensitive(twin *mainVariant) (sensitive, builds bool) {
	if c.main == nil {
		return false, true
	}
	p, err := load.Load(load.Config{Dir: c.Repo, Patterns: []string{"./..."}, Env: twin.env()})
	if err != nil {
		return false, false
	}
	return c.sensitiveTo(p), true
}

func (c *Ctx) sensitiveTo(p *load.Program) bool {
	for _, in := range c.interps {
		if in.WordSensitive {
			return true
		}
	}
	own := map[string]bool{}
	for _, q := range c.runtimePkgs(c.main) {
		own[q.PkgPath] = c.own(q.PkgPath)
	}
	for path, o := range own {
		if o && len(wordConstants(c.main.All[path], p.All[path], nil)) > 0 {
			return true
		}
	}
	bodies := map[string]map[string]bool{}
	for _, in := range c.interps {
		for fn := range in.Analysed {
			for fn.Parent() != nil {
				fn = fn.Parent()
			}
			if o := fn.Origin(); o != nil {
				fn = o
			}
			if fn.Syntax() == nil || fn.Pkg == nil || own[fn.Pkg.Pkg.Path()] {
				continue
			}
			path := fn.Pkg.Pkg.Path()
			if bodies[path] == nil {
				bodies[path] = map[string]bool{}
			}
			bodies[path][funcName(fn)] = true
		}
	}
	for path, names := range bodies {
		if len(wordConstants(c.main.All[path], p.All[path], names)) > 0 {
			return true
		}
	}
	return false
}

func funcName(fn *ssa.Function) string {
	if d, ok := fn.Syntax().(*ast.FuncDecl); ok {
		return declName(d)
	}
	return ""
}

func declName(d *ast.FuncDecl) string {
	if d.Recv != nil && len(d.Recv.List) > 0 {
		return types.ExprString(d.Recv.List[0].Type) + "." + d.Name.Name
	}
	return d.Name.Name
}

// packageVars stands for the declarations of package variables.
const packageVars = "var"

// wordConstants lists the constant expressions of a package, or of the named
// functions in it, that have another value in another build of the package.
func wordConstants(a, b *packages.Package, names map[string]bool) []ast.Expr {
	if a == nil {
		return nil
	}
	values := func(q *packages.Package) (map[string]constant.Value, map[string]ast.Expr) {
		out, at := map[string]constant.Value{}, map[string]ast.Expr{}
		if q == nil {
			return out, at
		}
		for _, f := range q.Syntax {
			base := q.Fset.Position(f.Pos()).Filename
			for _, d := range f.Decls {
				fd, isFunc := d.(*ast.FuncDecl)
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.CONST {
					continue // seen where they are used
				}
				if names != nil && !(isFunc && names[declName(fd)]) && (isFunc || !names[packageVars]) {
					continue
				}
				ast.Inspect(d, func(n ast.Node) bool {
					e, ok := n.(ast.Expr)
					if !ok {
						return true
					}
					if tv, ok := q.TypesInfo.Types[e]; ok && tv.Value != nil {
						// Only the outermost constant expression counts.
						k := fmt.Sprintf("%s:%d", base, q.Fset.Position(e.Pos()).Offset)
						out[k], at[k] = tv.Value, e
						return false
					}
					return true
				})
			}
		}
		return out, at
	}
	va, at := values(a)
	vb, _ := values(b)
	var out []ast.Expr
	for k, x := range va {
		y, ok := vb[k]
		if !ok || x.Kind() != y.Kind() || !constant.Compare(x, token.EQL, y) {
			out = append(out, at[k])
		}
	}
	return out
}

// extreme reports whether v is the least or greatest value of a word-sized
// type.
func extreme(v constant.Value) bool {
	switch v.ExactString() {
	case "9223372036854775807", "-9223372036854775808", "18446744073709551615", "2147483647", "-2147483648", "4294967295":
		return true
	}
	return false
}
