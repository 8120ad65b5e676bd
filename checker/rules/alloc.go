package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
)

// coldBlocks are the blocks of fn from which no return is reachable: they only
// prepare a panic or an exit.
func coldBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	warm := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			warm[b] = true
			work = append(work, b)
		}
	}
	// A loop that never ends is warm as well.
	if len(work) == 0 {
		return map[*ssa.BasicBlock]bool{}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !warm[p] {
				warm[p] = true
				work = append(work, p)
			}
		}
	}
	cold := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !warm[b] {
			cold[b] = true
		}
	}
	return cold
}

// inLoop are the blocks that lie on a cycle.
func inLoop(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == b {
				out[b] = true
				break
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return out
}

var noAllocPrefix = map[string][]string{
	"bytes":   {"Equal", "Compare", "HasPrefix", "HasSuffix", "Index", "LastIndex", "Contains", "Count", "Cut", "Trim", "Min", "Max"},
	"strings": {"Compare", "HasPrefix", "HasSuffix", "Index", "LastIndex", "Contains", "Count", "Cut", "Trim", "EqualFold"},
	"slices":  {"Contains", "Index", "BinarySearch", "Equal", "Compare", "Max", "Min", "Clip", "IsSorted", "Reverse"},
	"sort":    {"Search", "Find"},
}

// noAlloc reports whether a standard function allocates nothing.
func noAlloc(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if byteOrder(fn) {
		return true
	}
	path := fnPkgPath(fn)
	switch path {
	case "unicode", "math", "math/bits", "cmp", "internal/bytealg", "internal/stringslite", "internal/byteorder", "internal/cpu", "internal/goarch":
		return true
	case "unicode/utf8", "unicode/utf16":
		return !strings.HasPrefix(fn.Name(), "Append") && !strings.HasPrefix(fn.Name(), "Encode") || fn.Name() == "EncodeRune"
	case "bytes":
		if fn.Name() == "EqualFold" {
			return true
		}
	}
	for _, p := range noAllocPrefix[path] {
		if strings.HasPrefix(fn.Name(), p) {
			return true
		}
	}
	return false
}

func constLen(v ssa.Value) int {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return len(constant.StringVal(c.Value))
	}
	return -1
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// freeConversion reports whether a conversion between strings and slices is
// one that the compiler does without allocating.
func freeConversion(v *ssa.Convert) bool {
	if isStr(v.Type()) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if !isCompare(x.Op) {
					return false
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	n := constLen(v.X)
	return n >= 0 && n <= 32
}

func isCompare(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

var diagRE = regexp.MustCompile(`^(.+?):(\d+):(\d+): (.*)$`)
var literalRE = regexp.MustCompile("^(\"|`|'|-?[0-9]|true |false |nil )")

func checkAllocation(c *Ctx, r *Report) {
	p := c.Main()
	root := c.Func(p, "textseg", "ScanGraphemeClusters")
	e := c.Effects(p, []*ssa.Function{root})
	fset := p.Prog.Fset
	where := func(pos token.Pos) string { return c.rel(fset.Position(pos).String()) }

	type span struct {
		fn         *ssa.Function
		file       string
		from, to   int
		fromCol    int
		hot, coldL map[int]bool
	}
	var spans []span
	var own []*ssa.Function
	for fn := range e.Live {
		if c.own(fnPkgPath(fn)) {
			own = append(own, fn)
		}
	}
	sort.Slice(own, func(i, j int) bool { return own[i].String() < own[j].String() })
	colds := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	for _, fn := range own {
		cold := coldBlocks(fn)
		colds[fn] = cold
		if fn.Syntax() != nil {
			a, b := fset.Position(fn.Syntax().Pos()), fset.Position(fn.Syntax().End())
			s := span{fn, a.Filename, a.Line, b.Line, a.Column, map[int]bool{}, map[int]bool{}}
			for _, blk := range fn.Blocks {
				for _, ins := range blk.Instrs {
					if !ins.Pos().IsValid() {
						continue
					}
					l := fset.Position(ins.Pos()).Line
					if cold[blk] {
						s.coldL[l] = true
					} else {
						s.hot[l] = true
					}
				}
			}
			spans = append(spans, s)
		}
	}
	r.Note("functions", len(own))
	hotCalls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range own {
		loops := inLoop(fn)
		for _, b := range fn.Blocks {
			if colds[fn][b] {
				continue
			}
			for _, ins := range b.Instrs {
				r.Ob(1)
				fail := func(what string) {
					r.Fail("allocation", fn.String()+"|"+what, where(ins.Pos()), "%s %s (%s)", fn, what, e.path(fn))
				}
				switch v := ins.(type) {
				case *ssa.MakeChan:
					fail("makes a channel")
				case *ssa.MakeSlice:
					_, c1 := v.Len.(*ssa.Const)
					_, c2 := v.Cap.(*ssa.Const)
					if !c1 || !c2 {
						fail("makes a slice whose size is not constant")
					}
				case *ssa.MapUpdate:
					fail("inserts into a map")
				case *ssa.Go:
					fail("starts a goroutine")
				case *ssa.Defer:
					if loops[b] {
						fail("defers calls in a loop")
					}
				case *ssa.BinOp:
					if v.Op == token.ADD && isStr(v.Type()) {
						fail("concatenates strings")
					}
				case *ssa.Convert:
					from, to := v.X.Type(), v.Type()
					_, fs := from.Underlying().(*types.Slice)
					_, ts := to.Underlying().(*types.Slice)
					switch {
					case isStr(to) && (fs || !isStr(from)), ts && isStr(from):
						if !freeConversion(v) {
							fail("converts between a string and a slice")
						}
					}
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						fail("appends to a slice, which may allocate")
					}
					continue
				}
				ts := e.targets(call)
				for _, t := range ts {
					if c.own(fnPkgPath(t)) || fnPkgPath(t) == "" {
						if hotCalls[fn] == nil {
							hotCalls[fn] = map[*ssa.Function]bool{}
						}
						hotCalls[fn][t] = true
						continue
					}
					if !noAlloc(t) {
						fail("calls " + fnName(t) + ", which may allocate")
					}
				}
				if len(ts) == 0 || cc.StaticCallee() == nil && !e.fullyKnown(cc.Value) {
					fail("calls a function that is not known")
				}
			}
		}
	}
	// Recursion.
	for _, fn := range own {
		seen := map[*ssa.Function]bool{}
		work := []*ssa.Function{fn}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for y := range hotCalls[x] {
				if y == fn && !c.recursionBounded() {
					r.Fail("stack", fn.String(), where(fn.Pos()), "%s calls itself to a depth that is not known to be bounded (%s)", fn, e.path(fn))
				}
				if !seen[y] {
					seen[y] = true
					work = append(work, y)
				}
			}
		}
	}
	// The compiler's own escape analysis.
	pk := map[string]bool{}
	for _, fn := range own {
		if sp := fnPkg(fn); sp != nil {
			pk[sp.Pkg.Path()] = true
		}
	}
	args := append([]string{"build", "-gcflags=" + c.ModulePath() + "/...=-m"}, sortedKeys(pk)...)
	so, se, err := c.runGo(c.Repo, []string{"GOWORK=off"}, args...)
	if err != nil {
		fatalf("load", "the compiler's escape analysis failed: %v: %s", err, se)
	}
	// A function whose calls are all inlined allocates, if at all, at these calls.
	type place struct {
		file, name string
		line       int
	}
	inlined := map[place]int{}
	for _, line := range strings.Split(so+se, "\n") {
		m := diagRE.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		name, ok := strings.CutPrefix(m[4], "inlining call to ")
		if !ok {
			continue
		}
		if i := strings.IndexByte(name, '['); i >= 0 {
			name = name[:i]
		}
		name = name[strings.LastIndexByte(name, '.')+1:]
		ln, _ := strconv.Atoi(m[2])
		inlined[place{filepath.Base(m[1]), name, ln}]++
	}
	calls := map[*ssa.Function]map[place]int{}
	for fn := range e.Live {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				_, plain := ins.(*ssa.Call)
				for _, t := range e.targets(call) {
					if o := t.Origin(); o != nil {
						t = o
					}
					if calls[t] == nil {
						calls[t] = map[place]int{}
					}
					pl := place{}
					if plain && call.Common().StaticCallee() != nil {
						pos := fset.Position(ins.Pos())
						pl = place{filepath.Base(pos.Filename), t.Name(), pos.Line}
					}
					calls[t][pl]++
				}
			}
		}
	}
	onlyInlined := func(fn *ssa.Function) bool {
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if len(calls[fn]) == 0 {
			return false
		}
		for pl, n := range calls[fn] {
			if inlined[pl] < n {
				return false
			}
		}
		return true
	}
	diags := 0
	for _, line := range strings.Split(so+se, "\n") {
		m := diagRE.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		diags++
		msg := m[4]
		isMoved := strings.HasPrefix(msg, "moved to heap: ")
		if !isMoved && !strings.HasSuffix(msg, "escapes to heap") || literalRE.MatchString(msg) {
			continue
		}
		file := m[1]
		if !filepath.IsAbs(file) {
			file = filepath.Join(c.Repo, file)
		}
		ln, _ := strconv.Atoi(m[2])
		col, _ := strconv.Atoi(m[3])
		// A closure is made by the function around it, so its own start does not belong to it.
		inner := -1
		for i, s := range spans {
			if !sameFile(s.file, file) || ln < s.from || ln > s.to || ln == s.from && col <= s.fromCol {
				continue
			}
			if inner < 0 || s.from > spans[inner].from || s.from == spans[inner].from && s.fromCol > spans[inner].fromCol {
				inner = i
			}
		}
		if inner >= 0 {
			s := spans[inner]
			if s.coldL[ln] && !s.hot[ln] || onlyInlined(s.fn) {
				continue
			}
			if !isMoved && !newMemoryRE.MatchString(msg) && e.freeBoxes(s.fn, ln) {
				r.Count("boxes_without_memory", 1)
				continue
			}
			r.Fail("escape", s.fn.String()+"|"+msg, c.rel(file)+":"+m[2]+":"+m[3], "%s: %s (the compiler's escape analysis) (%s)", s.fn, msg, e.path(s.fn))
		}
	}
	r.Note("compiler_diagnostics", diags)
	if diags == 0 {
		fatalf("vacuous", "the compiler reported nothing")
	}
	r.Ob(diags)
	r.Rules = append(r.Rules,
		"No instruction reachable from ScanGraphemeClusters, outside blocks that only lead to a panic, allocates: no append, growing map, non-constant make, string building, channel, goroutine, defer in a loop, or call of a function that may allocate.",
		"The compiler's escape analysis moves nothing to the heap in those functions.",
		"No recursion whose depth is not bounded.")
	r.Assume = append(r.Assume, "The listed functions of bytes, strings, slices, sort, unicode and utf8 do not allocate.", "Frames have a constant size, as the Go compiler lays them out.")
}

var newMemoryRE = regexp.MustCompile(`^(&|new\(|make\(|func literal|\.\.\. argument|\[|map\[|append)`)

// freeBoxes reports whether nothing that a line of fn, or a function called on
// it, puts into an interface value needs memory: the compiler keeps values
// without size, single bytes and constants elsewhere.
func (e *Effects) freeBoxes(fn *ssa.Function, line int) bool {
	seen := map[*ssa.Function]bool{}
	n := 0
	var all func(f *ssa.Function, onLine bool) bool
	all = func(f *ssa.Function, onLine bool) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.MakeInterface:
					n++
					if !freeBox(v.X) {
						return false
					}
				case ssa.CallInstruction:
					if onLine && e.prog.Fset.Position(v.Pos()).Line != line {
						continue
					}
					for _, t := range e.targets(v) {
						if e.c.own(fnPkgPath(t)) && !all(t, false) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return all(fn, true) && n > 0
}

func freeBox(x ssa.Value) bool {
	if sizes := types.SizesFor("gc", "amd64"); sizes.Sizeof(x.Type()) == 0 {
		return true
	}
	if b, ok := x.Type().Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return true
		}
	}
	switch x := x.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		// A literal whose parts are constants.
		a, ok := x.X.(*ssa.Alloc)
		return ok && x.Op == token.MUL && a.Comment == "complit" && constantParts(a, x)
	}
	return false
}

func constantParts(addr ssa.Value, load ssa.Instruction) bool {
	for _, ref := range *addr.Referrers() {
		if ref == load {
			continue
		}
		switch v := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if _, ok := v.Val.(*ssa.Const); !ok || v.Addr != addr {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !constantParts(v.(ssa.Value), nil) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func sameFile(a, b string) bool {
	if a == b {
		return true
	}
	x, err1 := os.Stat(a)
	y, err2 := os.Stat(b)
	return err1 == nil && err2 == nil && os.SameFile(x, y)
}

// recursionBounded reports whether the abstract interpretation, which follows
// calls to a bounded depth only, came to an end.
func (c *Ctx) recursionBounded() bool {
	k := c.Core(false, true)
	for _, an := range k.an {
		if an.Failed != "" {
			return false
		}
		for _, x := range an.Ctxs {
			for _, o := range x.Out {
				if o.Kind == absint.Undecided {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	register("C18", "Every instruction of every function reachable from ScanGraphemeClusters is checked against a list of allocating constructs, the compiler's escape analysis is consulted for the rest, and the call graph is searched for recursion.", checkAllocation)
}
