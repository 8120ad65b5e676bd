package rules

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// pureExt reports whether a function outside the analysed code has no effects
// and depends only on its arguments.
func pureExt(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if byteOrder(fn) {
		return true
	}
	path := fnPkgPath(fn)
	switch path {
	case "strconv", "math", "unicode", "unicode/utf8", "math/bits", "internal/bytealg", "internal/stringslite", "internal/byteorder", "internal/race", "internal/asan", "internal/msan", "internal/goarch", "internal/cpu", "unicode/utf16", "math/cmplx":
		return true
	case "fmt":
		switch fn.Name() {
		case "Sprintf", "Sprint", "Sprintln", "Errorf":
			return true
		}
	case "errors":
		return true
	}
	if bodyStd[path] {
		// Bodyless or linknamed helpers of the allowed packages.
		return true
	}
	return false
}

// byteOrder reports whether a function of encoding/binary only puts a number
// together from bytes, in an order that is the same on every platform.
func byteOrder(fn *ssa.Function) bool {
	if fnPkgPath(fn) != "encoding/binary" || fn.Signature.Recv() == nil {
		return false
	}
	n, ok := types.Unalias(fn.Signature.Recv().Type()).(*types.Named)
	if !ok || n.Obj().Name() != "bigEndian" && n.Obj().Name() != "littleEndian" {
		return false
	}
	return fn.Name() == "Uint16" || fn.Name() == "Uint32" || fn.Name() == "Uint64"
}

// extKind classifies a call that leaves the analysed code.
func extKind(x Ext) string {
	if x.Fn == nil {
		if strings.HasPrefix(x.Name, "builtin print") {
			return "writes to standard error"
		}
		return "calls " + x.Name
	}
	path := fnPkgPath(x.Fn)
	first, _, _ := strings.Cut(path, "/")
	switch first {
	case "os", "net", "syscall", "io", "log", "bufio", "plugin", "embed":
		return "performs I/O or reads the environment"
	case "time":
		return "reads the clock"
	case "math", "crypto":
		if strings.Contains(path, "rand") {
			return "reads a random source"
		}
		return "uses " + path
	case "sync":
		return "uses shared synchronised state"
	case "runtime":
		return "depends on the runtime environment"
	case "fmt":
		return "performs I/O"
	}
	return "calls a function that is not known to be pure"
}

func init() {
	register("C07", "Points-to and effect analysis (SSA, inclusion-based, over every function reachable from the exported API): every store, append, copy, map update and call leaving the analysed code is an obligation; none may write the caller's buffer or memory reachable from a package variable, read state that others can change, or call code that is not known to be pure.", func(c *Ctx, r *Report) {
		p := c.Main()
		e := c.Effects(p, c.apiRoots(p))
		c.purity(r, e, p)
	})
	register("C22", "Who-may-call and who-may-import analysis of the segmentation packages and the wrapper (under each supported Go release): every call leaving the analysed code from exported functions or package initialisers, every go statement, every import in the transitive closure, every file's directives.", func(c *Ctx, r *Report) {
		c.selfContained(r)
	})
}

func (c *Ctx) purity(r *Report, e *Effects, p *load.Program) {
	r.Rules = append(r.Rules,
		"No reachable instruction writes memory that may belong to the input or to a package variable.",
		"No reachable call leaves the analysed code except to functions known to be pure.",
		"No reachable code reads an exported variable of a public package, ranges over a map, starts goroutines or communicates.")
	inp, glob := e.protected()
	n := 0
	var live []string
	for fn := range e.Live {
		if c.own(fnPkgPath(fn)) {
			live = append(live, fn.String())
		}
		r.Count("functions", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					r.Fail("concurrency", fn.String(), e.at(ins.Pos()), "%s starts or communicates with another goroutine", fn)
				case *ssa.Range:
					if _, ok := v.X.Type().Underlying().(*types.Map); ok {
						r.Fail("map-order", fn.String(), e.at(ins.Pos()), "%s depends on map iteration order", fn)
					}
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
						n++
						_ = g
					}
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !c.own(g.Pkg.Pkg.Path()) {
						continue
					}
					n++
					if token.IsExported(g.Name()) && !strings.Contains(g.Pkg.Pkg.Path(), "/internal/") {
						r.Fail("shared-state", g.String(), e.at(ins.Pos()), "%s uses the exported variable %s, which any importer can change", fn, g.Name())
					}
				}
				if ws, ok := e.Writes[ins]; ok {
					n++
					r.Count("writes", 1)
					for o := range ws {
						if o.size == 0 {
							continue
						}
						if inp[o] {
							r.Fail("input-write", fn.String(), e.at(ins.Pos()), "%s may write to %s (%s)", fn, o, e.path(fn))
						}
						if glob[o] {
							r.Fail("global-write", fn.String(), e.at(ins.Pos()), "%s may write to %s, which is reachable from a package variable (%s)", fn, o, e.path(fn))
						}
					}
				}
			}
		}
	}
	for _, x := range e.Exts {
		if !e.Live[x.From] {
			continue
		}
		n++
		r.Count("calls_out", 1)
		if pureExt(x.Fn) {
			continue
		}
		r.Fail("impure-call", x.From.String()+"|"+x.Name, e.at(x.At.Pos()), "%s calls %s: %s (%s)", x.From, x.Name, extKind(x), e.path(x.From))
	}
	unsafeUses(c, r, p)
	r.Ob(n)
	m := map[string]bool{}
	for _, f := range live {
		m[f] = true
	}
	r.Note("live_functions", sortedKeys(m))
	r.Assume = append(r.Assume, "Functions of fmt.Sprint*, errors, strconv, unicode, utf8, math and bits are pure; nobody reassigns exported variables of the standard library.")
}

// runtimePkgs are the repository's packages in the closure of its public ones.
func (c *Ctx) runtimePkgs(p *load.Program) []*packages.Package {
	seen := map[string]bool{}
	var out []*packages.Package
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q.PkgPath] {
			return
		}
		seen[q.PkgPath] = true
		out = append(out, q)
		for _, k := range sortedKeys(q.Imports) {
			visit(q.Imports[k])
		}
	}
	for _, q := range p.Pkgs {
		if !strings.Contains(q.PkgPath, "/internal/") && q.Name != "main" {
			visit(q)
		}
	}
	return out
}

func unsafeUses(c *Ctx, r *Report, p *load.Program) {
	for _, q := range c.runtimePkgs(p) {
		if !c.own(q.PkgPath) {
			continue
		}
		for path := range q.Imports {
			if path == "unsafe" || path == "C" {
				r.Fail("unsafe", q.PkgPath, "", "package %s imports %q", q.PkgPath, path)
			}
		}
	}
}

// generatorPkgs lists the repository's packages that exist for regenerating
// the tables: what the generator program imports and the API does not need.
func (c *Ctx) generatorPkgs() map[string]bool {
	out := map[string]bool{}
	g := c.Generator()
	api := map[string]bool{}
	for path, q := range g.All {
		_ = q
		if c.own(path) {
			out[path] = true
		}
	}
	// The property definitions are shared by generator and library; the
	// packages that import them directly or are imported only by the
	// generator are not.
	for path := range out {
		if strings.HasSuffix(path, "/charprops") {
			api[path] = true
		}
	}
	for path := range api {
		delete(out, path)
	}
	return out
}

func (c *Ctx) selfContained(r *Report) {
	r.Rules = append(r.Rules,
		"Calls from exported functions and package initialisers leave the analysed code only to functions known to be pure (in the wrapper also to bufio.Scanner, bytes.Reader and the caller's split function).",
		"The import closure consists of the standard library and this project's modules; the repository's own packages in it import no unsafe, C, os, net, syscall, plugin and are not part of the generator.",
		"No assembly, C or linkname in the packages' directories.")
	gen := c.generatorPkgs()
	type unit struct {
		name string
		p    *load.Program
		wrap bool
	}
	units := []unit{{"main module", c.Main(), false}}
	for _, t := range c.toolchains() {
		units = append(units, unit{"wrapper under Go 1." + t.minorString(), c.Wrapper(t), true})
	}
	for _, u := range units {
		for _, q := range c.runtimePkgs(u.p) {
			r.Ob(1)
			r.Count("packages", 1)
			std := q.Module == nil && isStd(q.PkgPath)
			if std {
				continue
			}
			if !c.own(q.PkgPath) {
				r.Fail("imports", q.PkgPath, "", "%s depends on %s", u.name, q.PkgPath)
				continue
			}
			if gen[q.PkgPath] {
				r.Fail("imports", q.PkgPath, "", "%s pulls in the generator or data reader %s", u.name, q.PkgPath)
			}
			for path := range q.Imports {
				first, _, _ := strings.Cut(path, "/")
				switch {
				case path == "unsafe", path == "C", path == "plugin", first == "os", first == "net", first == "syscall", path == "io/ioutil", path == "runtime/cgo", path == "log", path == "time", strings.HasSuffix(path, "/rand"), path == "math/rand/v2":
					r.Fail("imports", q.PkgPath+"|"+path, "", "package %s imports %q", q.PkgPath, path)
				}
			}
			c.scanDir(r, q)
		}
		var roots []*ssa.Function
		if u.wrap {
			for _, q := range u.p.Pkgs {
				if sp := u.p.SSA[q.PkgPath]; sp != nil && q.Name != "main" {
					roots = append(roots, exportedFuncs(u.p.Prog, sp)...)
				}
			}
			// Initialisers of everything that is linked in.
		} else {
			roots = c.apiRoots(u.p)
		}
		e := c.Effects(u.p, roots)
		extra := c.initEffects(u.p)
		executed := extra.called()
		for _, ee := range []*Effects{e, extra} {
			for fn := range ee.Fns {
				if !c.own(fnPkgPath(fn)) || ee == extra && !executed[fn] {
					continue
				}
				r.Ob(1)
				r.Count("functions", 1)
				initOnly := !ee.Live[fn] || ee == extra
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						switch ins.(type) {
						case *ssa.Go:
							r.Fail("goroutine", fn.String(), ee.at(ins.Pos()), "%s starts a goroutine (%s)", fn, ee.path(fn))
						case *ssa.Panic:
							if initOnly && ee == extra {
								r.Fail("init-code", fn.String(), ee.at(ins.Pos()), "%s, which runs at import time, may panic (%s)", fn, ee.path(fn))
							}
						}
					}
				}
				if ee == extra && isInitFunc(fn) && !setsUp(ee, fn) {
					r.Fail("init-code", fn.String(), ee.at(fn.Pos()), "%s runs at import time and is not data set-up", fn)
				}
			}
			for _, x := range ee.Exts {
				if !c.own(fnPkgPath(x.From)) || ee == extra && !executed[x.From] {
					continue
				}
				r.Ob(1)
				r.Count("calls_out", 1)
				if pureExt(x.Fn) || (u.wrap && ee == e && wrapperExt(x)) {
					continue
				}
				r.Fail("impure-call", x.From.String()+"|"+x.Name, ee.at(x.At.Pos()), "%s: %s calls %s: %s (%s)", u.name, x.From, x.Name, extKind(x), ee.path(x.From))
			}
		}
	}
}

// initEffects analyses the initialisers of the repository's packages.
func (c *Ctx) initEffects(p *load.Program) *Effects {
	var roots []*ssa.Function
	for _, q := range c.runtimePkgs(p) {
		if sp := p.SSA[q.PkgPath]; sp != nil && c.own(q.PkgPath) {
			sp.Build()
			if i := sp.Func("init"); i != nil {
				roots = append(roots, i)
			}
		}
	}
	return c.Effects(p, roots)
}

func isInitFunc(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "init#") && fn.Signature.Recv() == nil
}

// setsUp reports whether an explicit init function stores into package
// variables of the package.
func setsUp(e *Effects, fn *ssa.Function) bool {
	_, glob := e.protected()
	var seen = map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for o := range e.Writes[ins] {
					if glob[o] {
						return true
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range e.Calls[call] {
						if rec(t) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// wrapperExt are the calls that the wrapper's helpers exist to make.
func wrapperExt(x Ext) bool {
	if x.Fn == nil {
		// The caller's split function.
		if call := x.At.Common(); !call.IsInvoke() {
			if prm, ok := call.Value.(*ssa.Parameter); ok {
				_ = prm
				return true
			}
		}
		return false
	}
	switch fnName(x.Fn) {
	case "bufio.NewScanner", "(*bufio.Scanner).Split", "(*bufio.Scanner).Scan", "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text", "(*bufio.Scanner).Err", "(*bufio.Scanner).Buffer",
		"bytes.NewReader", "(*bytes.Reader).Read", "bytes.NewBuffer":
		return true
	}
	return false
}

func isStd(path string) bool {
	first, _, _ := strings.Cut(path, "/")
	return !strings.Contains(first, ".")
}

// scanDir looks at every file in a package's directory, built or not.
func (c *Ctx) scanDir(r *Report, q *packages.Package) {
	if len(q.GoFiles) == 0 {
		return
	}
	dir := filepath.Dir(q.GoFiles[0])
	ents, err := os.ReadDir(dir)
	if err != nil {
		r.Fail("load", dir, dir, "%v", err)
		return
	}
	for _, en := range ents {
		name := en.Name()
		full := filepath.Join(dir, name)
		switch filepath.Ext(name) {
		case ".s", ".S", ".c", ".cc", ".cpp", ".h", ".syso", ".m", ".f", ".swig":
			if !en.IsDir() {
				r.Fail("asm", full, c.rel(full), "package %s contains the file %s", q.PkgPath, name)
			}
		case ".go":
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), full, nil, parser.ParseComments)
			if err != nil {
				r.Fail("load", full, c.rel(full), "%v", err)
				continue
			}
			if f.Name.Name != q.Name {
				continue // a separate program, such as the generator
			}
			r.Ob(1)
			r.Count("files", 1)
			for _, im := range f.Imports {
				switch strings.Trim(im.Path.Value, "\"`") {
				case "unsafe", "C":
					r.Fail("unsafe", full, c.rel(full), "%s imports %s", name, im.Path.Value)
				}
			}
			for _, cg := range f.Comments {
				for _, cm := range cg.List {
					if strings.HasPrefix(cm.Text, "//go:linkname") || strings.HasPrefix(cm.Text, "//go:cgo") {
						r.Fail("linkname", full, c.rel(full), "%s uses %s", name, strings.Fields(cm.Text)[0])
					}
				}
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
					r.Fail("asm", full, c.rel(full), "%s declares %s without a body", name, fd.Name.Name)
				}
			}
		}
	}
}
