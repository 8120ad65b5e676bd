package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/load"
)

func init() {
	register("C20", "Source-of-nondeterminism analysis over every function reachable from the generator's main (SSA, call graph with points-to resolution): each map iteration must be shown independent of its order; values of clocks, random sources, environment, arguments, process and runtime state may only be printed as diagnostics; no goroutines; paths never flow into the output; the previous output is not read.", checkRepro)
}

// genUnit is the generator program with its call graph.
type genUnit struct {
	p    *load.Program
	e    *Effects
	main *ssa.Function
	fns  []*ssa.Function // the repository's live functions, sorted
}

var genMemo *genUnit

func (c *Ctx) genUnit() *genUnit {
	if genMemo != nil {
		return genMemo
	}
	p := c.Generator()
	var mainFn *ssa.Function
	var roots []*ssa.Function
	for _, sp := range p.Roots {
		if sp == nil {
			continue
		}
		sp.Build()
		if m := sp.Func("main"); m != nil && sp.Pkg.Name() == "main" {
			mainFn = m
			roots = append(roots, m)
			if i := sp.Func("init"); i != nil {
				roots = append(roots, i)
			}
		}
	}
	if mainFn == nil {
		fatalf("anchor", "the generator has no main function")
	}
	e := c.Effects(p, roots)
	u := &genUnit{p: p, e: e, main: mainFn}
	for fn := range e.Live {
		if c.own(fnPkgPath(fn)) && len(fn.Blocks) > 0 {
			u.fns = append(u.fns, fn)
		}
	}
	sort.Slice(u.fns, func(i, j int) bool {
		a, b := u.fns[i], u.fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	genMemo = u
	return u
}

// unstable names what makes a call's result differ between runs, or "".
func unstable(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	path, name := fnPkgPath(fn), fn.Name()
	switch path {
	case "time":
		switch name {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
			return "the clock"
		}
		return ""
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "a random source"
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv":
			return "the environment"
		case "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getegid", "Hostname", "Getwd", "UserHomeDir", "UserCacheDir", "UserConfigDir", "TempDir", "Executable", "Getpagesize", "MkdirTemp", "CreateTemp":
			return "the process's surroundings"
		case "Stat", "Lstat":
			return "file metadata"
		case "ReadDir", "Readdir", "Readdirnames":
			return "the contents of a directory"
		}
	case "path/filepath", "io/fs", "io/ioutil":
		switch name {
		case "Glob", "Walk", "WalkDir", "ReadDir":
			return "the contents of a directory"
		case "Abs", "EvalSymlinks":
			return "the process's surroundings"
		}
	case "os/user", "os/exec", "net", "net/http":
		return "the system"
	case "runtime", "runtime/debug":
		switch name {
		case "GC", "KeepAlive", "Gosched", "SetFinalizer", "PrintStack", "Stack", "FreeOSMemory", "SetGCPercent":
			return ""
		}
		return "the runtime"
	case "flag":
		return "the command line"
	case "maps":
		return ""
	case "sync":
		if strings.Contains(fn.String(), "sync.Map).Range") {
			return "map order"
		}
	case "reflect":
		switch name {
		case "MapKeys", "MapRange", "Pointer", "UnsafePointer", "UnsafeAddr":
			return "map order or addresses"
		}
	}
	return ""
}

// diagnostic reports whether a call only prints to standard error or output,
// or computes something from its arguments alone.
func diagnosticSink(call ssa.CallInstruction) bool {
	com := call.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return b.Name() == "print" || b.Name() == "println"
	}
	fn := com.StaticCallee()
	if fn == nil {
		return false
	}
	switch fnPkgPath(fn) {
	case "log", "log/slog":
		return true
	case "fmt":
		switch fn.Name() {
		case "Print", "Printf", "Println":
			return true
		case "Fprint", "Fprintf", "Fprintln":
			return isStdStream(com.Args[0])
		}
	}
	return false
}

// isStdStream reports whether v is os.Stderr or os.Stdout.
func isStdStream(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
				return g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stderr" || g.Name() == "Stdout")
			}
		}
		return false
	}
}

// onlyDiagnostic reports whether v's value is used for nothing but messages.
func onlyDiagnostic(v ssa.Value, seen map[ssa.Value]bool) (bool, ssa.Instruction) {
	if seen[v] {
		return true, nil
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true, nil
	}
	for _, ins := range *refs {
		switch x := ins.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			// Into the argument array of a variadic call, or a local.
			if x.Val != v {
				continue
			}
			root := x.Addr
			for {
				if ia, ok := root.(*ssa.IndexAddr); ok {
					root = ia.X
					continue
				}
				if fa, ok := root.(*ssa.FieldAddr); ok {
					root = fa.X
					continue
				}
				break
			}
			if al, ok := root.(*ssa.Alloc); ok {
				if ok, at := onlyDiagnostic(al, seen); !ok {
					return false, at
				}
				continue
			}
			return false, ins
		case ssa.CallInstruction:
			if diagnosticSink(x) {
				continue
			}
			fn := x.Common().StaticCallee()
			if fn != nil && (fnPkgPath(fn) == "time" || fnPkgPath(fn) == "fmt" && strings.HasPrefix(fn.Name(), "Sprint") || fnPkgPath(fn) == "strings" || fnPkgPath(fn) == "strconv") {
				if val, ok := ins.(ssa.Value); ok {
					if ok, at := onlyDiagnostic(val, seen); !ok {
						return false, at
					}
					continue
				}
				continue
			}
			return false, ins
		case *ssa.If, *ssa.Return, *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
			return false, ins
		case ssa.Value:
			if ok, at := onlyDiagnostic(x, seen); !ok {
				return false, at
			}
		default:
			return false, ins
		}
	}
	return true, nil
}

func checkRepro(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"A map iteration only inserts into other maps under the same key, accumulates with a commutative integer operation, or collects elements that are sorted by their whole value before anything else uses them.",
		"A value that can differ between runs or platforms is used in messages only.",
		"No goroutine, channel or select.",
		"No path name is written to the output; the tables being generated are not an input.")
	u := c.genUnit()
	at := u.e.at
	n := 0
	outVars := c.outputVars(u)
	initial := &initRanges{c: c, u: u}
	temps := u.tempFiles()
	for _, fn := range u.fns {
		r.Count("functions", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					n++
					r.Fail("concurrency", fn.String(), at(ins.Pos()), "%s starts or communicates with another goroutine (%s)", fn, u.e.path(fn))
				case *ssa.Range:
					if _, ok := v.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					n++
					r.Count("map_iterations", 1)
					if why := orderMatters(v); why != "" && !initial.settled(fn, v) {
						r.Fail("map-order", fn.String(), at(v.Pos()), "%s: iteration order over a map matters: %s (%s)", fn, why, u.e.path(fn))
					}
				case *ssa.Convert:
					if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						if f, ok := v.X.Type().Underlying().(*types.Basic); !ok || f.Kind() == types.UnsafePointer {
							n++
							r.Fail("address", fn.String(), at(v.Pos()), "%s uses a memory address as a number", fn)
						}
					}
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil {
						continue
					}
					switch {
					case g.Pkg.Pkg.Path() == "os" && g.Name() == "Args":
						n++
						if v, ok := ins.(ssa.Value); ok {
							if ok, _ := onlyDiagnostic(v, map[ssa.Value]bool{}); ok {
								continue
							}
						}
						r.Fail("environment", fn.String()+"|os.Args", at(ins.Pos()), "%s depends on the command line (%s)", fn, u.e.path(fn))
					case outVars[g] != "":
						if !isInitOf(fn) {
							n++
							r.Fail("feedback", fn.String()+"|"+g.Name(), at(ins.Pos()), "%s uses %s, which is part of the generated output %s (%s)", fn, g.Name(), outVars[g], u.e.path(fn))
						}
					}
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n++
				r.Count("call_sites", 1)
				for _, t := range u.e.targets(call) {
					if o := t.Origin(); o != nil {
						t = o
					}
					if fnPkgPath(t) == "maps" {
						switch t.Name() {
						case "Keys", "Values", "All", "Collect", "Insert":
							if v, isV := ins.(ssa.Value); isV && t.Name() != "Collect" && t.Name() != "Insert" {
								if why := iterOrderMatters(v); why != "" {
									r.Fail("map-order", fn.String()+"|"+t.Name(), at(ins.Pos()), "%s: order of maps.%s matters: %s (%s)", fn, t.Name(), why, u.e.path(fn))
								}
							}
						}
					}
					if why := unstable(t); why != "" {
						if use, ok := tempName(call, t, u); ok {
							if use == nil {
								continue
							}
							r.Fail("unstable", fn.String()+"|"+t.Name(), at(use.Pos()), "%s depends on the name of a temporary file made by %s (%s)", fn, t, u.e.path(fn))
							continue
						}
						if v, isV := ins.(ssa.Value); isV {
							ok, use := onlyDiagnostic(v, map[ssa.Value]bool{})
							if ok {
								continue
							}
							where := at(ins.Pos())
							if use != nil && use.Pos().IsValid() {
								where = at(use.Pos())
							}
							r.Fail("unstable", fn.String()+"|"+t.Name(), where, "%s depends on %s through %s (%s)", fn, why, t, u.e.path(fn))
						} else {
							r.Fail("unstable", fn.String()+"|"+t.Name(), at(ins.Pos()), "%s depends on %s through %s (%s)", fn, why, t, u.e.path(fn))
						}
					}
				}
				if v, isV := ins.(ssa.Value); isV && temps && isFileName(call) {
					if use := u.notPath(v, map[ssa.Value]bool{}); use != nil {
						r.Fail("unstable", fn.String()+"|Name", at(use.Pos()), "%s depends on the name of a file while the generator makes temporary files (%s)", fn, u.e.path(fn))
					}
				}
				if com := call.Common(); com.IsInvoke() && com.Method.Name() == "ModTime" {
					r.Fail("unstable", fn.String()+"|ModTime", at(ins.Pos()), "%s depends on a file's modification time", fn)
				}
				// Formatting that shows addresses.
				if k := formatOf(call); k != "" && strings.Contains(k, "%p") && !diagnosticSink(call) {
					r.Fail("address", fn.String()+"|%p", at(ins.Pos()), "%s formats a memory address", fn)
				}
				if why := u.staleOutput(call); why != "" {
					r.Fail("stale", fn.String()+"|"+why, at(ins.Pos()), "%s opens its output %s, so that what an earlier run wrote may remain (%s)", fn, why, u.e.path(fn))
				}
				if t := releaseTable(call); t != "" {
					if v, isV := ins.(ssa.Value); !isV || !diagnosticOnly(v) {
						r.Fail("release", fn.String()+"|"+t, at(ins.Pos()), "%s depends on the character tables of the Go release through %s (%s)", fn, t, u.e.path(fn))
					}
				}
				if t := addressPrinted(call); t != nil {
					r.Fail("address", fn.String()+"|"+t.String(), at(ins.Pos()), "%s formats a value of type %s, which shows a memory address", fn, t)
				}
			}
		}
	}
	n += c.pathsInOutput(r, u)
	for path, q := range u.p.All {
		if c.own(path) {
			c.platformUses(r, q, "platform")
		}
	}
	n += c.generatorWords(r, u)
	n += c.releaseNames(r, u)
	r.Ob(n)
	var names []string
	for _, fn := range u.fns {
		names = append(names, fn.String())
	}
	r.Note("live_functions", names)
	r.Assume = append(r.Assume, "Standard library functions that are not listed as unstable are deterministic, in particular go/format for one Go release.")
}

func diagnosticOnly(v ssa.Value) bool {
	ok, _ := onlyDiagnostic(v, map[ssa.Value]bool{})
	return ok
}

// staleOutput tells how a call opens a file for writing without emptying it.
func (u *genUnit) staleOutput(call ssa.CallInstruction) string {
	fn := call.Common().StaticCallee()
	if fn == nil || fnName(fn) != "os.OpenFile" {
		return ""
	}
	why := ""
	for _, k := range u.intsOf(call.Common().Args[1], map[ssa.Value]bool{}) {
		switch {
		case k == nil:
			why = "with flags that are not known"
		case *k&int64(os.O_WRONLY|os.O_RDWR) == 0, *k&int64(os.O_TRUNC) != 0, *k&int64(os.O_EXCL) != 0 && *k&int64(os.O_CREATE) != 0:
		default:
			why = "without emptying it"
		}
	}
	if why == "" {
		return ""
	}
	for _, f := range u.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					if n := fnName(c.Common().StaticCallee()); n == "(*os.File).Truncate" || n == "os.Truncate" || n == "os.Remove" {
						return ""
					}
				}
			}
		}
	}
	return why
}

// intsOf lists the constants that may flow into v; nil stands for others.
func (u *genUnit) intsOf(v ssa.Value, seen map[ssa.Value]bool) []*int64 {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			k := x.Int64()
			return []*int64{&k}
		}
	case *ssa.Phi:
		var out []*int64
		for _, y := range x.Edges {
			out = append(out, u.intsOf(y, seen)...)
		}
		return out
	case *ssa.Parameter:
		var out []*int64
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, f := range u.fns {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == x.Parent() {
							out = append(out, u.intsOf(c.Common().Args[i], seen)...)
						}
					}
				}
			}
		}
		if out != nil {
			return out
		}
	}
	return []*int64{nil}
}

// fixedTables never change for the characters they are about.
var fixedTables = map[string]bool{"White_Space": true, "Pattern_White_Space": true, "Pattern_Syntax": true, "Hex_Digit": true, "ASCII_Hex_Digit": true, "Cs": true, "Co": true}

// releaseTable names what a call looks up in the character tables that come
// with the Go release, unless the answer is the same in all releases.
func releaseTable(call ssa.CallInstruction) string {
	fn := call.Common().StaticCallee()
	if fn == nil || fnPkgPath(fn) != "unicode" {
		return ""
	}
	args := call.Common().Args
	switch fn.Name() {
	case "Is", "In", "IsOneOf":
		if fn.Name() == "Is" {
			if l, ok := args[0].(*ssa.UnOp); ok {
				if g, ok := l.X.(*ssa.Global); ok && fixedTables[g.Name()] {
					return ""
				}
			}
		}
	case "IsGraphic", "IsPrint", "IsMark", "IsLetter", "IsNumber", "IsDigit", "IsPunct", "IsSymbol", "IsTitle", "IsUpper", "IsLower":
		x := args[0]
		for {
			c, ok := x.(*ssa.Convert)
			if !ok {
				break
			}
			x = c.X
		}
		switch v := x.(type) {
		case *ssa.Const:
			return ""
		case *ssa.Extract:
			if _, ok := v.Tuple.(*ssa.Next); ok {
				return "" // a character of a line
			}
			if c, ok := v.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fnPkgPath(c.Call.StaticCallee()) == "unicode/utf8" {
				return ""
			}
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return ""
		}
	default:
		return ""
	}
	return "unicode." + fn.Name()
}

// addressPrinted returns the type of an argument that a formatting call prints
// with a memory address in it.
func addressPrinted(call ssa.CallInstruction) types.Type {
	fn := call.Common().StaticCallee()
	if fn == nil || fnPkgPath(fn) != "fmt" || diagnosticSink(call) {
		return nil
	}
	switch n := fn.Name(); {
	case strings.HasPrefix(n, "Sprint"), strings.HasPrefix(n, "Fprint"), strings.HasPrefix(n, "Append"):
	default:
		return nil
	}
	if v, ok := call.(ssa.Value); ok && strings.HasPrefix(fn.Name(), "Sprint") {
		if ok, _ := onlyDiagnostic(v, map[ssa.Value]bool{}); ok {
			return nil
		}
	}
	if strings.Contains(formatOf(call), "%T") {
		return nil
	}
	args := call.Common().Args
	if len(args) == 0 {
		return nil
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, u := range *ia.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ia {
				if mi, ok := s.Val.(*ssa.MakeInterface); ok && showsAddress(mi.X.Type(), 0, map[types.Type]bool{}) {
					return mi.X.Type()
				}
			}
		}
	}
	return nil
}

// showsAddress reports whether fmt prints an address for a value of type t.
func showsAddress(t types.Type, depth int, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, m := range []string{"Error", "String", "Format", "GoString"} {
		if o, _, _ := types.LookupFieldOrMethod(t, false, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return false
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return showsAddress(u.Elem(), depth+1, seen)
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Slice:
		return showsAddress(u.Elem(), depth+1, seen)
	case *types.Array:
		return showsAddress(u.Elem(), depth+1, seen)
	case *types.Map:
		return showsAddress(u.Elem(), depth+1, seen) || showsAddress(u.Key(), depth+1, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if showsAddress(u.Field(i).Type(), depth+1, seen) {
				return true
			}
		}
	}
	return false
}

// releaseNames reports constants that name the Go release's Unicode version.
func (c *Ctx) releaseNames(r *Report, u *genUnit) int {
	n := 0
	for path, q := range u.p.All {
		if !c.own(path) {
			continue
		}
		n++
		for id, o := range q.TypesInfo.Uses {
			if o.Pkg() != nil && o.Pkg().Path() == "unicode" && o.Name() == "Version" {
				r.Fail("release", path+"|Version", c.rel(q.Fset.Position(id.Pos()).String()), "package %s depends on the Go release through unicode.Version", path)
			}
		}
	}
	return n
}

// generatorWords reports constants in the generator that depend on the
// platform's word size, other than the limits of a type.
func (c *Ctx) generatorWords(r *Report, u *genUnit) int {
	arch := "386"
	if words32[runtime.GOARCH] {
		arch = "amd64"
	}
	p, err := c.loadGenerator("GOOS=linux", "GOARCH="+arch)
	if err != nil {
		return 0 // no output at all there
	}
	live := map[string]map[string]bool{}
	for _, fn := range u.fns {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		path := fnPkgPath(fn)
		if live[path] == nil {
			live[path] = map[string]bool{}
		}
		live[path][funcName(fn)] = true
	}
	n := 0
	for path, q := range u.p.All {
		if !c.own(path) {
			continue
		}
		n++
		names := live[path]
		if names == nil {
			names = map[string]bool{}
		}
		names[packageVars] = true
		for _, e := range wordConstants(q, p.All[path], names) {
			v := q.TypesInfo.Types[e].Value
			if v != nil && !extreme(v) {
				r.Fail("platform", path+"|"+types.ExprString(e), c.rel(q.Fset.Position(e.Pos()).String()), "the value of %s depends on the platform's word size", types.ExprString(e))
			}
		}
	}
	return n
}

// initRanges decides about iterations over maps in the initialisers of package
// variables by evaluating these.
type initRanges struct {
	c       *Ctx
	u       *genUnit
	in      *absint.Interp
	callers map[*ssa.Function]map[*ssa.Function]bool
}

// settled reports whether the iteration rg happens in an initialiser only,
// over a map with known content and with a result that does not depend on the
// order.
func (x *initRanges) settled(fn *ssa.Function, rg *ssa.Range) bool {
	if x.in == nil {
		x.in = x.c.newInterp(x.u.p, nil)
		x.callers = map[*ssa.Function]map[*ssa.Function]bool{}
		for g := range x.u.e.Live {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok {
						for _, t := range x.u.e.targets(call) {
							if x.callers[t] == nil {
								x.callers[t] = map[*ssa.Function]bool{}
							}
							x.callers[t][g] = true
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var initOnly func(f *ssa.Function) bool
	initOnly = func(f *ssa.Function) bool {
		if isInitOf(f) {
			return f.Pkg == fn.Pkg || fn.Pkg == nil
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if len(x.callers[f]) == 0 {
			return false
		}
		for g := range x.callers[f] {
			if !initOnly(g) {
				return false
			}
		}
		return true
	}
	pk := fn.Pkg
	for q := fn; pk == nil && q.Parent() != nil; q = q.Parent() {
		pk = q.Parent().Pkg
	}
	return pk != nil && initOnly(fn) && x.in.InitProblem(pk) == "" && x.in.Ranged[rg]
}

// tempFiles reports whether the generator makes temporary files.
func (u *genUnit) tempFiles() bool {
	for _, fn := range u.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range u.e.targets(call) {
						if fnName(t) == "os.CreateTemp" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// isFileName reports whether call asks for the name of a file.
func isFileName(call ssa.CallInstruction) bool {
	com := call.Common()
	if com.IsInvoke() {
		return com.Method.Name() == "Name"
	}
	t := com.StaticCallee()
	return t != nil && fnPkgPath(t) == "os" && t.Name() == "Name" && t.Signature.Recv() != nil
}

// tempName handles calls that make temporary files and directories: these may
// be used, but their names must serve as path names only. It returns a use
// that does not.
func tempName(call ssa.CallInstruction, t *ssa.Function, u *genUnit) (ssa.Instruction, bool) {
	v, ok := call.(*ssa.Call)
	if !ok {
		return nil, false
	}
	switch fnName(t) {
	case "os.CreateTemp":
		return nil, true // see isFileName
	case "os.MkdirTemp":
		for _, ref := range *v.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
				if use := u.notPath(ex, map[ssa.Value]bool{}); use != nil {
					return use, true
				}
			}
		}
		return nil, true
	}
	return nil, false
}

// notPath returns an instruction that uses v other than as a path name or in
// a message.
func (u *genUnit) notPath(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] {
		return nil
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	for _, ins := range *refs {
		switch x := ins.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			al := rootAlloc(x.Addr)
			if x.Val != v {
				continue
			}
			if al == nil {
				return ins
			}
			if use := u.notPath(al, seen); use != nil {
				return use
			}
			continue
		case *ssa.If, *ssa.MapUpdate, *ssa.Send, *ssa.Panic, *ssa.MakeClosure, *ssa.Lookup:
			return ins
		case *ssa.Return:
			f := x.Parent()
			if f.Signature.Results().Len() != 1 || f == u.main {
				return ins
			}
			for g := range u.e.Live {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						call, ok := i.(ssa.CallInstruction)
						if !ok || !slices.Contains(u.e.targets(call), f) {
							continue
						}
						if val, ok := i.(ssa.Value); ok {
							if use := u.notPath(val, seen); use != nil {
								return use
							}
						}
					}
				}
			}
		case ssa.CallInstruction:
			if diagnosticSink(x) {
				continue
			}
			t := x.Common().StaticCallee()
			if t == nil {
				return ins
			}
			val, isVal := ins.(ssa.Value)
			switch path := fnPkgPath(t); {
			case path == "os" && t.Signature.Recv() == nil:
				// The name is the first argument, or one of two names.
				for i, a := range x.Common().Args {
					if a == v && i > 0 && t.Name() != "Rename" && t.Name() != "Link" && t.Name() != "Symlink" {
						return ins
					}
				}
				continue
			case path == "path/filepath" || path == "path" || path == "strings" || path == "fmt" && strings.HasPrefix(t.Name(), "Sprint"):
				if isVal {
					if use := u.notPath(val, seen); use != nil {
						return use
					}
				}
				continue
			case len(t.Blocks) > 0 && u.e.Live[t] && path != "fmt" && path != "errors":
				for i, a := range x.Common().Args {
					if a == v && i < len(t.Params) {
						if use := u.notPath(t.Params[i], seen); use != nil {
							return use
						}
					}
				}
				continue
			case path == "fmt" && t.Name() == "Errorf" || path == "errors":
				if isVal {
					if ok, use := onlyDiagnostic(val, map[ssa.Value]bool{}); !ok {
						return use
					}
				}
				continue
			}
			return ins
		case *ssa.BinOp:
			if x.Op != token.ADD {
				return ins
			}
			if use := u.notPath(x, seen); use != nil {
				return use
			}
		case ssa.Value:
			if use := u.notPath(x, seen); use != nil {
				return use
			}
		default:
			return ins
		}
	}
	return nil
}

func isInitOf(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != ""
}

// formatOf returns a constant format argument.
func formatOf(call ssa.CallInstruction) string {
	fn := call.Common().StaticCallee()
	if fn == nil || fnPkgPath(fn) != "fmt" {
		return ""
	}
	for _, a := range call.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && isStr(k.Type()) {
			return k.Value.ExactString()
		}
	}
	return ""
}

// outputVars are the package variables declared in files that the generator
// writes, with the file's name.
func (c *Ctx) outputVars(u *genUnit) map[*ssa.Global]string {
	outs := map[string]bool{}
	for _, w := range u.e.fileCalls(c) {
		if w.writes {
			for _, nm := range w.names {
				outs[filepath.Base(nm)] = true
			}
		}
	}
	res := map[*ssa.Global]string{}
	for path, sp := range u.p.SSA {
		if !c.own(path) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Pos().IsValid() {
				f := u.p.Prog.Fset.Position(g.Pos()).Filename
				if outs[filepath.Base(f)] {
					res[g] = filepath.Base(f)
				}
			}
		}
	}
	return res
}

type fileCall struct {
	call   ssa.CallInstruction
	fn     *ssa.Function
	names  []string // constant names it may open, if known
	writes bool
}

// fileCalls lists the calls that open, read or write files by name.
func (e *Effects) fileCalls(c *Ctx) []fileCall {
	var out []fileCall
	for fn := range e.Live {
		if !c.own(fnPkgPath(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range e.targets(call) {
					switch k := fileOp(t); k {
					case "read", "write":
						args := call.Common().Args
						if len(args) == 0 {
							continue
						}
						name := args[0]
						switch t.Name() {
						case "Rename", "Link", "Symlink":
							name = args[1]
						}
						out = append(out, fileCall{call: call, fn: fn, names: constStrings(name, map[ssa.Value]bool{}, e), writes: k == "write"})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].call.Pos() < out[j].call.Pos() })
	return out
}

// fileOp classifies functions that take a file name first.
func fileOp(fn *ssa.Function) string {
	switch fnName(fn) {
	case "os.Open", "os.ReadFile", "os.OpenInRoot", "os.Stat", "os.ReadDir", "io/ioutil.ReadFile":
		return "read"
	case "os.Create", "os.WriteFile", "os.OpenFile", "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.CreateTemp", "io/ioutil.WriteFile", "os.Link", "os.Symlink":
		return "write"
	}
	return ""
}

// constStrings collects the constant strings that may flow into v.
func constStrings(v ssa.Value, seen map[ssa.Value]bool, e *Effects) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if isStr(x.Type()) && x.Value != nil {
			s := x.Value.ExactString()
			return []string{strings.Trim(s, "\"")}
		}
	case *ssa.Phi:
		var out []string
		for _, y := range x.Edges {
			out = append(out, constStrings(y, seen, e)...)
		}
		return out
	case *ssa.BinOp:
		// A concatenation ends in its right operand.
		return constStrings(x.Y, seen, e)
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && strings.HasSuffix(fnName(fn), "filepath.Join") || fn != nil && fnName(fn) == "path.Join" {
			if sl, ok := x.Call.Args[len(x.Call.Args)-1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					var last ssa.Value
					var max int64 = -1
					for _, ref := range *al.Referrers() {
						ia, ok := ref.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						k, ok := ia.Index.(*ssa.Const)
						if !ok {
							continue
						}
						for _, q := range *ia.Referrers() {
							if st, ok := q.(*ssa.Store); ok && k.Int64() > max {
								max, last = k.Int64(), st.Val
							}
						}
					}
					if last != nil {
						return constStrings(last, seen, e)
					}
				}
			}
		}
	case *ssa.Parameter:
		var out []string
		for fn := range e.Live {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok || call.Common().IsInvoke() {
						continue
					}
					for _, t := range e.targets(call) {
						if t != x.Parent() {
							continue
						}
						for i, p := range t.Params {
							if p == x && i < len(call.Common().Args) {
								out = append(out, constStrings(call.Common().Args[i], seen, e)...)
							}
						}
					}
				}
			}
		}
		return out
	}
	return nil
}

// pathsInOutput follows path names into written data.
func (c *Ctx) pathsInOutput(r *Report, u *genUnit) int {
	n := 0
	tainted := map[ssa.Value]bool{}
	mark := func(v ssa.Value, ch *bool) {
		if v != nil && !tainted[v] {
			tainted[v] = true
			*ch = true
		}
	}
	isStringy := func(t types.Type) bool {
		switch x := t.Underlying().(type) {
		case *types.Basic:
			return x.Info()&types.IsString != 0
		case *types.Slice:
			return true
		case *types.Interface:
			return !types.Implements(t, errorIface)
		case *types.Tuple:
			return true
		case *types.Pointer:
			_, ok := x.Elem().Underlying().(*types.Array)
			return ok
		}
		return false
	}
	type result struct {
		fn *ssa.Function
		n  int
	}
	returned := map[result]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range u.fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if tainted[x.Val] {
							root := x.Addr
							if ia, ok := root.(*ssa.IndexAddr); ok {
								root = ia.X
							}
							mark(root, &changed)
						}
						continue
					case *ssa.Return:
						for i, v := range x.Results {
							if tainted[v] && !returned[result{fn, i}] {
								returned[result{fn, i}] = true
								changed = true
							}
						}
						continue
					case *ssa.Extract:
						if call, ok := x.Tuple.(*ssa.Call); ok {
							if t := call.Call.StaticCallee(); t != nil && returned[result{t, x.Index}] && isStringy(x.Type()) {
								mark(x, &changed)
							}
							if t := call.Call.StaticCallee(); t != nil && c.own(fnPkgPath(t)) {
								continue
							}
						}
					case ssa.CallInstruction:
						t := x.Common().StaticCallee()
						if v, ok := ins.(*ssa.Call); ok && returned[result{t, 0}] && isStringy(v.Type()) && t.Signature.Results().Len() == 1 {
							mark(v, &changed)
						}
						if t != nil && (fnPkgPath(t) == "path/filepath" || fnPkgPath(t) == "path") {
							if v, ok := ins.(ssa.Value); ok && isStringy(v.Type()) {
								mark(v, &changed)
							}
							continue
						}
						for i, a := range x.Common().Args {
							if !tainted[a] {
								continue
							}
							if t != nil && c.own(fnPkgPath(t)) {
								if i < len(t.Params) {
									mark(t.Params[i], &changed)
								}
							} else if t != nil && (fnPkgPath(t) == "fmt" && strings.HasPrefix(t.Name(), "Sprint") || fnPkgPath(t) == "strings" || fnPkgPath(t) == "strconv" || fnPkgPath(t) == "bytes") {
								if v, ok := ins.(ssa.Value); ok && isStringy(v.Type()) {
									mark(v, &changed)
								}
							} else if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
								mark(ins.(ssa.Value), &changed)
							}
						}
						continue
					}
					v, ok := ins.(ssa.Value)
					if !ok || tainted[v] || !isStringy(v.Type()) {
						continue
					}
					var ops [16]*ssa.Value
					for _, op := range ins.Operands(ops[:0]) {
						if *op != nil && tainted[*op] {
							mark(v, &changed)
						}
					}
				}
			}
		}
	}
	for _, fn := range u.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || diagnosticSink(call) {
					continue
				}
				com := call.Common()
				t := com.StaticCallee()
				sink := false
				args := com.Args
				switch {
				case com.IsInvoke() && strings.HasPrefix(com.Method.Name(), "Write"):
					sink = true
				case t == nil:
				case fnPkgPath(t) == "fmt" && strings.HasPrefix(t.Name(), "Fprint"):
					sink, args = true, args[1:]
				case t.Signature.Recv() != nil && strings.HasPrefix(t.Name(), "Write") && len(args) > 1:
					switch fnPkgPath(t) {
					case "bytes", "os", "bufio", "strings":
						sink, args = true, args[1:]
					}
				case fnName(t) == "os.WriteFile", fnName(t) == "io.WriteString":
					sink, args = true, args[1:]
				}
				if !sink {
					continue
				}
				n++
				r.Count("output_sites", 1)
				for _, a := range args {
					if tainted[a] {
						r.Fail("path-in-output", fn.String(), u.e.at(ins.Pos()), "%s writes a path name, which differs between platforms, to the output", fn)
					}
				}
			}
		}
	}
	return n
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// loopBlocks returns the natural loop of header h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

// orderMatters says why the order of a map iteration may show, or "".
func orderMatters(rg *ssa.Range) string {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			if next != nil {
				return "it is iterated in two places"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	h := next.Block()
	body := loopBlocks(h)
	cold := coldBlocks(h.Parent())
	var key ssa.Value
	for _, ref := range *next.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 {
			key = ex
		}
	}
	// Values that depend on the iteration.
	accum := map[ssa.Value]string{}
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range h.Preds {
			if !body[p] {
				continue
			}
			kind, why := accumulates(ph, ph.Edges[i], body, map[ssa.Value]bool{})
			if why != "" {
				return why
			}
			if accum[ph] == "" || kind == "append" {
				accum[ph] = kind
			}
		}
	}
	for b := range body {
		if cold[b] {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if al := rootAlloc(x.Addr); al != nil && body[al.Block()] {
					continue // local to one round
				}
				return "it stores to memory in that order"
			case *ssa.MapUpdate:
				if key == nil || !(sameValue(x.Key, key)) {
					return "it updates another map under keys that may coincide"
				}
			case ssa.CallInstruction:
				com := x.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "delete", "min", "max":
						continue
					}
					return "it calls " + bi.Name() + " in that order"
				}
				if fn := com.StaticCallee(); pureExt(fn) || fn != nil && pureStd(fn) {
					continue
				}
				if diagnosticSink(x) {
					continue
				}
				return "it calls " + com.String() + " in that order"
			case *ssa.Return:
				for _, v := range x.Results {
					if _, ok := v.(*ssa.Const); ok || types.Implements(v.Type(), errorIface) {
						continue
					}
					return "it returns from inside"
				}
			case *ssa.Defer, *ssa.Go, *ssa.Send:
				return "it has effects in that order"
			}
		}
		for _, s := range b.Succs {
			if body[s] || b == h || cold[s] {
				continue
			}
			// Leaving early: what is seen so far depends on the order.
			if len(accum) > 0 {
				return "it may stop early"
			}
			if why := leaves(s, body); why != "" {
				return why
			}
		}
	}
	for ph, kind := range accum {
		if kind != "append" {
			continue
		}
		if why := sortedFirst(ph, body); why != "" {
			return why
		}
	}
	// Values of the last round used after the loop.
	for b := range body {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, isPhi := accum[v]; isPhi {
				continue
			}
			if _, ok := v.(*ssa.Next); ok {
				continue
			}
			for _, ref := range *v.Referrers() {
				if !body[ref.Block()] && !cold[ref.Block()] {
					if ret, ok := ref.(*ssa.Return); ok && types.Implements(v.Type(), errorIface) {
						_ = ret
						continue
					}
					return "a value of one round is used after the loop"
				}
			}
		}
	}
	return ""
}

// leaves checks what happens right after leaving a loop early.
func leaves(s *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	for _, ins := range s.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
			for i, p := range s.Preds {
				if !body[p] {
					continue
				}
				if _, ok := x.Edges[i].(*ssa.Const); !ok && !types.Implements(x.Type(), errorIface) {
					return "a value of one round is used after the loop"
				}
			}
		}
	}
	return ""
}

// pureStd lists further pure functions.
func pureStd(fn *ssa.Function) bool {
	switch fnPkgPath(fn) {
	case "strings", "bytes", "cmp", "path/filepath", "path":
		return fn.Signature.Recv() == nil
	case "slices":
		return !strings.HasPrefix(fn.Name(), "Sort") && fn.Name() != "Reverse" && fn.Name() != "Delete" && fn.Name() != "Insert"
	}
	return false
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

func sameValue(a, b ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.ChangeType:
			a = x.X
			continue
		case *ssa.MakeInterface:
			a = x.X
			continue
		}
		return a == b
	}
}

// accumulates classifies how a value carried around a loop is updated.
func accumulates(ph *ssa.Phi, v ssa.Value, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) (kind, why string) {
	if v == ph || seen[v] {
		return "keep", ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return "const", ""
	case *ssa.Phi:
		if !body[x.Block()] {
			break
		}
		kind := "keep"
		for _, e := range x.Edges {
			k, why := accumulates(ph, e, body, seen)
			if why != "" {
				return "", why
			}
			if k != "keep" {
				kind = k
			}
		}
		return kind, ""
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 {
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if x.X == ph && !dependsOn(x.Y, ph, body) || x.Y == ph && !dependsOn(x.X, ph, body) {
					return "commute", ""
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if x.Call.Args[0] == ph {
					return "append", ""
				}
			case "min", "max":
				for _, a := range x.Call.Args {
					if a == ph {
						return "commute", ""
					}
				}
			}
		}
	}
	if !body[blockOf(v)] {
		return "const", "" // set to a value from outside the loop
	}
	return "", "a value carried from round to round depends on the order"
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

func dependsOn(v ssa.Value, ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == ph {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		ins, ok := v.(ssa.Instruction)
		if !ok || !body[ins.Block()] {
			return false
		}
		var ops [16]*ssa.Value
		for _, op := range ins.Operands(ops[:0]) {
			if *op != nil && rec(*op) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// totalSort recognises calls that sort their argument by its whole value.
func totalSort(call ssa.CallInstruction, v ssa.Value) bool {
	com := call.Common()
	fn := com.StaticCallee()
	if fn == nil || len(com.Args) == 0 {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	arg := com.Args[0]
	for {
		switch x := arg.(type) {
		case *ssa.MakeInterface:
			arg = x.X
			continue
		case *ssa.ChangeType:
			arg = x.X
			continue
		}
		break
	}
	if arg != v {
		return false
	}
	switch fnName(fn) {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.Sorted":
		return true
	case "slices.SortFunc", "slices.SortStableFunc":
		return wholeCompare(com.Args[1], v, false)
	case "sort.Slice", "sort.SliceStable":
		return wholeCompare(com.Args[1], v, true)
	case "sort.Sort", "sort.Stable":
		if mi, ok := com.Args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				return true
			}
		}
	}
	return false
}

// wholeCompare recognises comparison functions of whole elements.
func wholeCompare(f ssa.Value, list ssa.Value, byIndex bool) bool {
	var fn *ssa.Function
	switch x := f.(type) {
	case *ssa.Function:
		fn = x
	case *ssa.MakeClosure:
		fn = x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return wholeCompare(x.X, list, byIndex)
	}
	if fn == nil {
		return false
	}
	name := fnName(fn)
	if o := fn.Origin(); o != nil {
		name = fnName(o)
	}
	switch name {
	case "cmp.Compare", "strings.Compare", "bytes.Compare":
		return true
	}
	// A single block returning a comparison of the two elements.
	elem := func(v ssa.Value) bool {
		if !byIndex {
			for _, p := range fn.Params {
				if v == p {
					return true
				}
			}
			return false
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		for _, p := range fn.Params {
			if ia.Index == p {
				return true
			}
		}
		return false
	}
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, ins := range fn.Blocks[0].Instrs {
		ret, ok := ins.(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		switch x := ret.Results[0].(type) {
		case *ssa.BinOp:
			return (x.Op == token.LSS || x.Op == token.GTR || x.Op == token.SUB) && elem(x.X) && elem(x.Y)
		case *ssa.Call:
			t := x.Call.StaticCallee()
			if t == nil {
				return false
			}
			nm := fnName(t)
			if o := t.Origin(); o != nil {
				nm = fnName(o)
			}
			switch nm {
			case "cmp.Compare", "strings.Compare", "bytes.Compare":
				return elem(x.Call.Args[0]) && elem(x.Call.Args[1])
			}
		}
	}
	return false
}

// sortedFirst demands that a list collected in a loop is sorted before any
// other use after the loop.
func sortedFirst(ph ssa.Value, body map[*ssa.BasicBlock]bool) string {
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	list := map[ssa.Value]bool{ph: true}
	work := []ssa.Value{ph}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ref := range *v.Referrers() {
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			if body[ref.Block()] {
				continue
			}
			switch x := ref.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType:
				nv := ref.(ssa.Value)
				if !list[nv] {
					list[nv] = true
					work = append(work, nv)
				}
				continue
			case *ssa.MakeClosure:
				continue // a comparison function that captures the list
			case ssa.CallInstruction:
				if totalSort(x, ph) || totalSort(x, v) {
					sorts = append(sorts, ref)
					continue
				}
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
			}
			uses = append(uses, ref)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if before(s, u) {
				ok = true
			}
		}
		if !ok {
			return "the collected elements are used without being sorted by their whole value"
		}
	}
	return ""
}

// before reports whether a always executes before b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, ins := range a.Block().Instrs {
			if ins == a {
				return true
			}
			if ins == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// iterOrderMatters decides about the result of maps.Keys and the like.
func iterOrderMatters(v ssa.Value) string {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.ChangeType:
			if why := iterOrderMatters(x); why != "" {
				return why
			}
			continue
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			if fn == nil {
				return "it is ranged over"
			}
			if o := fn.Origin(); o != nil {
				fn = o
			}
			switch fnName(fn) {
			case "slices.Sorted", "maps.Collect", "maps.Insert":
				continue
			case "slices.SortedFunc", "slices.SortedStableFunc":
				if wholeCompare(x.Call.Args[1], x, false) {
					continue
				}
				return "it is sorted by part of the elements only"
			case "slices.Collect":
				if why := sortedFirst(x, map[*ssa.BasicBlock]bool{}); why != "" {
					return why
				}
				continue
			}
			return "it is handed to " + fn.Name()
		default:
			return fmt.Sprintf("it is used by %s", ref)
		}
	}
	return ""
}
