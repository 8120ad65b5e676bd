package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// The failure explorer follows every path of a program with all operations
// that can fail forked into success and failure. It tracks error values
// precisely and knows nothing about other data, so that every branch on data
// goes both ways. A failure is sticky: the rules look at how paths end on which
// something has failed.

// Abstract values; nil is any value.
type (
	evNil struct{}
	evErr struct {
		kind string // eof, wrapeof, fail, sentinel, some
		site string
	}
	evBool bool
	evInt  int64
	evPos  struct{} // some integer of at least 1
	evStr  string
	evPtr  struct{ obj, path string }
	evFn   struct {
		fn    *ssa.Function
		binds []any
	}
	evAgg struct {
		m    map[string]any
		base string // zero, top or a symbolic path
	}
	evTup   []any
	evSlice struct {
		obj, path string
		n         int // length, or -1
		some      bool
	}
	evRes   struct{ id string }
	evSym   struct{ path string }
	evIface struct {
		typ types.Type
		val any
	}
	evNum struct {
		src string
		off int64
	}
	evAlt []any
	// evBytes is text derived from a line of input.
	evBytes struct{ term string }
	// evTaint is a value computed from such text. what tells about some kinds:
	// len, empty (a comparison with the empty text), or is c (a comparison with
	// the text c).
	evTaint struct{ term, what string }
	// evCmp is an undecided comparison.
	evCmp struct {
		n  evNum
		op token.Token
		k  int64
	}
	// evSeq is an iterator over parts of a text.
	evSeq struct{ term string }
)

func evKey(v any) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case evNil:
		return "nil"
	case evErr:
		return "err(" + x.kind + "," + x.site + ")"
	case evBool:
		return fmt.Sprint(bool(x))
	case evInt:
		return fmt.Sprint(int64(x))
	case evPos:
		return ">0"
	case evStr:
		return fmt.Sprintf("%q", string(x))
	case evPtr:
		return "&" + x.obj + x.path
	case evFn:
		var b []string
		for _, y := range x.binds {
			b = append(b, evKey(y))
		}
		return fmt.Sprintf("fn%p{%s}", x.fn, strings.Join(b, ","))
	case evAgg:
		var b []string
		for _, k := range sortedKeys(x.m) {
			b = append(b, k+":"+evKey(x.m[k]))
		}
		return "agg " + x.base + "{" + strings.Join(b, ",") + "}"
	case evTup:
		var b []string
		for _, y := range x {
			b = append(b, evKey(y))
		}
		return "(" + strings.Join(b, ",") + ")"
	case evSlice:
		return fmt.Sprintf("slice %s%s %d %v", x.obj, x.path, x.n, x.some)
	case evRes:
		return "res " + x.id
	case evSym:
		return "sym " + x.path
	case evIface:
		return "iface " + x.typ.String() + " " + evKey(x.val)
	case evNum:
		return fmt.Sprintf("num %s%+d", x.src, x.off)
	case evAlt:
		var b []string
		for _, y := range x {
			b = append(b, evKey(y))
		}
		return "alt[" + strings.Join(b, "|") + "]"
	case evBytes:
		return "bytes " + x.term
	case evTaint:
		return "taint " + x.term + " " + x.what
	case evSeq:
		return "seq " + x.term
	case evX:
		return fmt.Sprintf("x %+v", x)
	case evProp:
		return fmt.Sprintf("prop %+v", x)
	case evCmp:
		return fmt.Sprintf("cmp %s%s%d", evKey(x.n), x.op, x.k)
	}
	return fmt.Sprintf("%#v", v)
}

type eNum struct {
	lo, hi int64
	huge   bool   // may exceed hi (64-bit results)
	lossy  bool   // a narrowing conversion may have changed it
	base   string // the value it was converted from
	at     string
	signed bool // the text may have had a sign
}

type eRes struct {
	kind, st string
	write    bool
	mem      bool // writing to it cannot fail
	used     bool // given to other functions, see assign.go
	under    any
	at       string
}

type eDefer struct {
	fn   any // evFn, *ssa.Function, *ssa.Builtin or nil
	call ssa.CallInstruction
	args []any
	key  string
}

type eFrame struct {
	fn     *ssa.Function
	b      *ssa.BasicBlock
	ip     int
	env    map[ssa.Value]any
	binds  []any
	call   ssa.CallInstruction // the call in progress in this frame
	mode   string              // how the result of the call in progress is used
	defers []eDefer
	after  string // what happens when deferred calls have run: "", "unwind"
}

type eState struct {
	frames    []*eFrame
	heap      map[string]map[string]any
	base      map[string]string // what untouched cells of an object hold
	res       map[string]*eRes
	nums      map[string]*eNum
	failed    string
	failedAt  string
	failedIn  bool
	replaced  string
	panicking bool
	trace     []string

	// What is known about the current line (when text is tracked): which
	// separators its parts contain, which parts have been converted, and a
	// branch on its text before any conversion.
	facts     map[string]bool
	parsed    map[string]bool
	pending   string
	pendingAt string

	ap apState // see assign.go
}

func (s *eState) fork() *eState {
	n := *s
	n.frames = nil
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]any, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]eDefer(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	n.heap = make(map[string]map[string]any, len(s.heap))
	for k, m := range s.heap {
		c := make(map[string]any, len(m))
		for p, v := range m {
			c[p] = v
		}
		n.heap[k] = c
	}
	n.base = make(map[string]string, len(s.base))
	for k, v := range s.base {
		n.base[k] = v
	}
	n.res = make(map[string]*eRes, len(s.res))
	for k, v := range s.res {
		c := *v
		n.res[k] = &c
	}
	n.nums = make(map[string]*eNum, len(s.nums))
	for k, v := range s.nums {
		c := *v
		n.nums[k] = &c
	}
	n.trace = append([]string(nil), s.trace...)
	n.facts, n.parsed = maps.Clone(s.facts), maps.Clone(s.parsed)
	return &n
}

func (s *eState) top() *eFrame { return s.frames[len(s.frames)-1] }

// errflow is one exploration.
type errflow struct {
	c      *Ctx
	p      *load.Program
	e      *Effects
	rel    map[*ssa.Function]bool
	states int
	max    int
	seen   map[string]bool
	ints   map[ssa.Value]bool
	keys   map[string]bool
	finds  []Finding

	renames bool            // the output is put in place by renaming
	sources map[string]bool // files that are renamed
	tables  map[string]bool // see namesTable
	sites   map[string]bool
	parses  map[string]bool
	ends    int

	// exit is called when the program ends without an error status, ret when
	// the root function returns.
	exit func(st *eState, f *eFrame, ins ssa.Instruction)
	ret  func(st *eState, f *eFrame, ins ssa.Instruction, vals []any)
	text bool // track text derived from input lines

	terms map[string]*eTerm

	prof  map[string]int
	apply *assign // follow assignments, see assign.go
}

func (c *Ctx) newErrflow(p *load.Program, e *Effects, fns []*ssa.Function) *errflow {
	x := &errflow{c: c, p: p, e: e, max: 200000, seen: map[string]bool{}, keys: map[string]bool{}, sites: map[string]bool{}, parses: map[string]bool{}, sources: map[string]bool{}}
	x.ints = interestingInts(fns)
	x.relevant(fns)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range e.targets(call) {
						if fnName(t) == "os.Rename" {
							x.renames = true
							for _, n := range constStrings(call.Common().Args[0], map[ssa.Value]bool{}, e) {
								x.sources[n] = true
							}
						}
					}
				}
			}
		}
	}
	return x
}

// interestingInts are the integers that are compared with constants or end up
// in os.Exit.
func interestingInts(fns []*ssa.Function) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	cells := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !out[v] && isInt(v.Type()) {
			out[v] = true
			work = append(work, v)
		}
	}
	stores := map[ssa.Value][]ssa.Value{}
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.Store:
					stores[addrRoot(v.Addr)] = append(stores[addrRoot(v.Addr)], v.Val)
				case *ssa.BinOp:
					switch v.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						if _, ok := v.Y.(*ssa.Const); ok {
							add(v.X)
						}
						if _, ok := v.X.(*ssa.Const); ok {
							add(v.Y)
						}
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					if t := call.Common().StaticCallee(); t != nil {
						callers[t] = append(callers[t], call.Common())
						if fnName(t) == "os.Exit" {
							add(call.Common().Args[0])
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.BinOp:
			add(x.X)
			add(x.Y)
		case *ssa.Convert:
			add(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				r := addrRoot(x.X)
				if !cells[r] {
					cells[r] = true
					for _, s := range stores[r] {
						add(s)
					}
				}
			}
		case *ssa.Parameter:
			for _, com := range callers[x.Parent()] {
				for i, p := range x.Parent().Params {
					if p == x && i < len(com.Args) {
						add(com.Args[i])
					}
				}
			}
		case *ssa.Call:
			if t := x.Call.StaticCallee(); t != nil {
				for _, b := range t.Blocks {
					for _, ins := range b.Instrs {
						if r, ok := ins.(*ssa.Return); ok && len(r.Results) == 1 {
							add(r.Results[0])
						}
					}
				}
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if t := call.Call.StaticCallee(); t != nil {
					for _, b := range t.Blocks {
						for _, ins := range b.Instrs {
							if r, ok := ins.(*ssa.Return); ok && x.Index < len(r.Results) {
								add(r.Results[x.Index])
							}
						}
					}
				}
			}
		}
	}
	return out
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FreeVar:
			return x
		default:
			return v
		}
	}
}

// surelyWrites reports whether ins writes to a buffer in memory, which cannot
// fail, and its result is not used.
func surelyWrites(ins ssa.Instruction) bool {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	t := call.Call.StaticCallee()
	if t == nil || t.Signature.Recv() == nil || !strings.HasPrefix(t.Name(), "Write") || t.Name() == "WriteTo" {
		return false
	}
	switch types.TypeString(t.Signature.Recv().Type(), nil) {
	case "*strings.Builder", "*bytes.Buffer":
	default:
		return false
	}
	for _, ref := range *call.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

// relevant finds the functions that deal with errors or ends of the program;
// others are skipped.
func (x *errflow) relevant(fns []*ssa.Function) {
	x.rel = map[*ssa.Function]bool{}
	base := func(fn *ssa.Function) bool {
		sig := fn.Signature
		for i := 0; i < sig.Results().Len(); i++ {
			if isError(sig.Results().At(i).Type()) {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if surelyWrites(ins) {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					t := v.Type()
					if isError(t) {
						return true
					}
					if tup, ok := t.(*types.Tuple); ok {
						for i := 0; i < tup.Len(); i++ {
							if isError(tup.At(i).Type()) {
								return true
							}
						}
					}
					if x.ints[v] && isInitOf(fn) == false {
						if _, ok := v.(*ssa.Phi); ok {
							continue
						}
					}
				}
				switch v := ins.(type) {
				case *ssa.Defer:
					return true
				case *ssa.Store:
					if isInitOf(fn) {
						switch v.Val.Type().Underlying().(type) {
						case *types.Basic:
						default:
							return true
						}
						continue
					}
					switch addrRoot(v.Addr).(type) {
					case *ssa.Alloc:
						if isBool(v.Val.Type()) || isError(v.Val.Type()) {
							return true
						}
					default:
						if isBool(v.Val.Type()) || isError(v.Val.Type()) || x.ints[v.Val] {
							return true
						}
					}
				case ssa.CallInstruction:
					if b, ok := v.Common().Value.(*ssa.Builtin); ok {
						if b.Name() == "recover" {
							return true
						}
						continue
					}
					for _, t := range x.e.targets(v) {
						if k, _ := critical(t); k != "" || exits(t) {
							return true
						}
						if fnPkgPath(t) == "bufio" {
							return true
						}
					}
					if v.Common().IsInvoke() {
						switch v.Common().Method.Name() {
						case "Write", "Read", "Close", "Flush", "WriteString":
							return true
						}
					}
				}
			}
		}
		// Results that decide about errors elsewhere, such as sources of files.
		return false
	}
	for _, fn := range fns {
		if x.text || base(fn) {
			x.rel[fn] = true
		}
	}
	x.closeRelevant(fns)
}

func (x *errflow) closeRelevant(fns []*ssa.Function) {
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if x.rel[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok {
						if x.rel[mc.Fn.(*ssa.Function)] && !x.rel[fn] {
							x.rel[fn], changed = true, true
						}
					}
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, t := range x.e.targets(call) {
						if x.rel[t] && !x.rel[fn] {
							x.rel[fn], changed = true, true
						}
					}
				}
			}
			// Small functions that return functions, files, readers or structures.
			if !x.rel[fn] && len(fn.Blocks) > 0 && len(fn.Blocks) <= 4 && !isInitOf(fn) {
				res := fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					switch res.At(i).Type().Underlying().(type) {
					case *types.Basic:
						if x.text && isStr(res.At(i).Type()) {
							x.rel[fn], changed = true, true
						}
					case *types.Slice:
						if x.text {
							x.rel[fn], changed = true, true
						}
					default:
						x.rel[fn], changed = true, true
					}
				}
			}
		}
	}
}

// exits recognises functions that end the program or the goroutine.
func exits(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	switch fnPkgPath(fn) {
	case "log":
		return strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic")
	case "os":
		return fn.Name() == "Exit"
	case "runtime":
		return fn.Name() == "Goexit"
	case "syscall":
		return fn.Name() == "Exit"
	}
	return false
}

// critical classifies external functions whose failure must not be dropped.
func critical(fn *ssa.Function) (kind, what string) {
	if fn == nil {
		return "", ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	path, name := fnPkgPath(fn), fn.Name()
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		recv = types.TypeString(r.Type(), func(*types.Package) string { return "" })
		recv = strings.TrimPrefix(recv, "*")
	}
	switch path {
	case "os":
		switch recv {
		case "":
			switch name {
			case "Open", "ReadFile", "ReadDir", "OpenInRoot", "DirFS":
				return "input", ""
			case "Create", "WriteFile", "Rename", "Truncate", "CreateTemp", "Link", "CopyFS":
				return "output", ""
			case "OpenFile":
				return "open", ""
			}
		case "File":
			switch name {
			case "Read", "ReadAt", "ReadDir", "Readdir", "Readdirnames", "Seek":
				return "input", ""
			case "Write", "WriteString", "WriteAt", "Truncate", "Sync", "ReadFrom":
				return "output", ""
			}
		}
	case "io":
		switch name {
		case "ReadAll", "ReadFull", "ReadAtLeast":
			return "input", ""
		case "Copy", "CopyN", "CopyBuffer":
			return "input", ""
		case "WriteString":
			return "write", ""
		}
	case "io/ioutil":
		switch name {
		case "ReadFile", "ReadAll", "ReadDir":
			return "input", ""
		case "WriteFile":
			return "output", ""
		}
	case "io/fs":
		switch name {
		case "ReadFile", "ReadDir", "Glob", "WalkDir":
			return "input", ""
		}
	case "embed":
		if name == "ReadFile" || name == "Open" || name == "ReadDir" {
			return "input", ""
		}
	case "strconv":
		if strings.HasPrefix(name, "Parse") || name == "Atoi" || strings.HasPrefix(name, "Unquote") {
			return "input", ""
		}
	case "encoding/hex", "encoding/csv", "encoding/json", "encoding/binary":
		if strings.HasPrefix(name, "Decode") || strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "Unmarshal") {
			return "input", ""
		}
		if strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Encode") && recv != "" {
			return "output", ""
		}
	case "fmt":
		if strings.HasPrefix(name, "Sscan") || strings.HasPrefix(name, "Fscan") || strings.HasPrefix(name, "Scan") {
			return "input", ""
		}
		if strings.HasPrefix(name, "Fprint") {
			return "write", ""
		}
	case "go/format":
		if name == "Source" || name == "Node" {
			return "output", ""
		}
	case "go/printer":
		if name == "Fprint" {
			return "output", ""
		}
	case "text/template":
		if name == "Execute" || name == "ExecuteTemplate" {
			return "output", ""
		}
	case "text/tabwriter":
		if name == "Write" || name == "Flush" {
			return "output", ""
		}
	case "os/exec":
		switch name {
		case "Run", "Output", "CombinedOutput", "Start", "Wait":
			return "output", ""
		}
	case "compress/gzip", "compress/zlib", "compress/flate", "archive/zip":
		if name == "NewReader" || name == "Read" || name == "Open" || name == "OpenReader" {
			return "input", ""
		}
		if name == "Write" || name == "Flush" || name == "Close" {
			return "output", ""
		}
	case "path/filepath":
		if name == "Walk" || name == "WalkDir" {
			return "input", ""
		}
	}
	return "", ""
}

func (x *errflow) at(ins ssa.Instruction) string {
	pos := ins.Pos()
	if !pos.IsValid() {
		if v, ok := ins.(ssa.Value); ok {
			pos = v.Pos()
		}
	}
	if !pos.IsValid() && ins.Parent() != nil {
		pos = ins.Parent().Pos()
	}
	return x.c.rel(x.p.Prog.Fset.Position(pos).String())
}

func (x *errflow) report(st *eState, rule, construct, where, format string, args ...any) {
	f := Finding{Rule: rule, Key: rule + "|" + construct, Where: where, What: fmt.Sprintf(format, args...)}
	if x.keys[f.Key] {
		return
	}
	x.keys[f.Key] = true
	if st != nil {
		f.Trace = append(f.Trace, st.trace...)
	}
	x.finds = append(x.finds, f)
}

type eStop struct{ f *Finding }

func (x *errflow) undecided(st *eState, ins ssa.Instruction, format string, args ...any) {
	if x.apply != nil {
		x.apply.notes[ins.Parent().String()+" "+fmt.Sprintf(format, args...)] = true
		panic(eStop{})
	}
	x.report(st, "undecided", ins.Parent().String()+"|"+fmt.Sprintf(format, args...), x.at(ins), "%s: %s", ins.Parent(), fmt.Sprintf(format, args...))
	panic(eStop{})
}

// explore runs all paths from the given frames.
func (x *errflow) explore(st *eState) {
	work := []*eState{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if x.states++; x.states > x.max {
			if x.apply != nil {
				x.apply.notes["too many states to explore"] = true
				return
			}
			x.report(nil, "undecided", "budget", "", "too many states to explore")
			return
		}
		work = append(work, x.run(s)...)
	}
}

func newState() *eState {
	return &eState{facts: map[string]bool{}, parsed: map[string]bool{}, heap: map[string]map[string]any{}, base: map[string]string{}, res: map[string]*eRes{}, nums: map[string]*eNum{}}
}

func newFrame(fn *ssa.Function) *eFrame {
	return &eFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]any{}}
}

// run executes a state up to its next branch.
func (x *errflow) run(st *eState) (out []*eState) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(eStop); ok {
				out = nil
				return
			}
			panic(e)
		}
	}()
	for {
		if len(st.frames) == 0 || x.apply != nil && st.failed != "" {
			return nil
		}
		f := st.top()
		if f.after == "unwind" {
			// A panic is passing through this frame.
			if succ, done := x.unwind(st); done {
				return succ
			}
			continue
		}
		if f.ip >= len(f.b.Instrs) {
			return nil
		}
		ins := f.b.Instrs[f.ip]
		f.ip++
		switch v := ins.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Jump:
			return x.enter(st, f.b.Succs[0])
		case *ssa.If:
			cond := x.val(st, f, v.Cond)
			b, known := cond.(evBool)
			if t, ok := cond.(evTaint); ok && x.apply == nil {
				x.textBranch(st, v, t)
			}
			if x.apply != nil {
				x.apply.branch(st, v)
			}
			for i := 0; i < 2; i++ {
				want := i == 0
				if known && bool(b) != want {
					continue
				}
				s := st
				if !known {
					s = st.fork()
				}
				g := s.top()
				if x.apply != nil {
					if _, _, about := x.apply.rangeTest(s, g, v.Cond); !about && x.apply.passes(s, g, v.Cond, want, 0) {
						s.ap.exempt = true
					}
					if x.apply.already(s, g, v.Cond, want) {
						s.ap.written = true
					}
					x.apply.reason(s, g, v.Cond, want)
				}
				if !known && !x.refine(s, g, v.Cond, want, 0) {
					continue
				}
				out = append(out, x.enter(s, g.b.Succs[i])...)
			}
			return out
		case *ssa.Return:
			var vals []any
			for _, r := range v.Results {
				vals = append(vals, x.val(st, f, r))
			}
			if x.doReturn(st, v, vals) {
				return nil
			}
			if len(st.frames) > 0 {
				if out, forked := x.resume(st); forked {
					return out
				}
			}
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				f.ip-- // until none are left
				if succ, forked := x.invoke(st, f, d.call, d.fn, d.args, "discard"); forked {
					return succ
				}
			}
		case *ssa.Defer:
			fnv, args := x.callee(st, f, v)
			d := eDefer{fn: fnv, call: v, args: args}
			d.key = fmt.Sprintf("%p", v)
			for _, a := range args {
				d.key += "," + evKey(a)
			}
			dup := false
			for _, o := range f.defers {
				dup = dup || o.key == d.key
			}
			if !dup {
				f.defers = append(f.defers, d)
			}
		case *ssa.Go:
			// Run at once: the explorer does not know about schedules.
			fnv, args := x.callee(st, f, v)
			if succ, forked := x.invoke(st, f, v, fnv, args, "discard"); forked {
				return succ
			}
		case *ssa.Panic:
			st.trace = append(st.trace, x.at(v)+": panic")
			st.panicking = true
			if st.failed == "" && !x.text {
				st.failed, st.failedAt = f.fn.String()+"|a check that panics", x.at(v)
			}
			f.after = "unwind"
		case *ssa.Store:
			if x.apply != nil {
				x.apply.store(st, f, v)
			}
			x.store(st, x.val(st, f, v.Addr), x.val(st, f, v.Val), v.Val.Type(), v.Addr)
		case *ssa.MapUpdate, *ssa.Send:
			if x.apply != nil {
				x.apply.other(st, f, ins)
			}
		case *ssa.Call:
			fnv, args := x.callee(st, f, v)
			if succ, forked := x.invoke(st, f, v, fnv, args, "value"); forked {
				return succ
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if alts, ok := x.load(st, f, v).(evAlt); ok {
					for _, a := range alts {
						s := st.fork()
						s.top().env[v] = a
						s.ap.mixed = true
						out = append(out, s)
					}
					return out
				}
			}
			f.env[v] = x.eval(st, f, v)
		case *ssa.Index:
			r := x.eval(st, f, v)
			if alts, ok := r.(evAlt); ok {
				for _, a := range alts {
					s := st.fork()
					s.top().env[v] = a
					s.ap.mixed = true
					out = append(out, s)
				}
				return out
			}
			f.env[v] = r
		case ssa.Value:
			r := x.eval(st, f, v)
			if alts, ok := r.(evAlt); ok && x.apply != nil {
				for _, a := range alts {
					s := st.fork()
					s.top().env[v] = a
					out = append(out, s)
				}
				return out
			}
			f.env[v] = r
		default:
			x.undecided(st, ins, "contains %T, which is not modelled", ins)
		}
	}
}

// unwind runs a frame's deferred calls during a panic and drops the frame.
func (x *errflow) unwind(st *eState) (out []*eState, done bool) {
	f := st.top()
	if len(f.defers) > 0 && st.panicking {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.call = nil
		if succ, forked := x.invoke(st, f, d.call, d.fn, d.args, "discard"); forked {
			return succ, true
		}
		return nil, false
	}
	if !st.panicking {
		// Recovered: run the remaining deferred calls and return the results
		// as they are.
		f.after = ""
		if f.fn.Recover != nil {
			f.b, f.ip = f.fn.Recover, 0
			return nil, false
		}
		// Without named results, zero values are returned.
		var vals []any
		for i := 0; i < f.fn.Signature.Results().Len(); i++ {
			vals = append(vals, x.zero(f.fn.Signature.Results().At(i).Type()))
		}
		last := f.fn.Blocks[0].Instrs[len(f.fn.Blocks[0].Instrs)-1]
		if x.doReturn(st, last, vals) {
			return nil, true
		}
		if len(st.frames) > 0 {
			if out, forked := x.resume(st); forked {
				return out, true
			}
		}
		return nil, false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		return nil, true // the program crashes, with a non-zero status
	}
	st.top().after = "unwind"
	return nil, false
}

// doReturn pops a frame; it reports whether the exploration of the path ends.
func (x *errflow) doReturn(st *eState, ins ssa.Instruction, vals []any) bool {
	f := st.top()
	if len(st.frames) == 1 {
		x.ends++
		if x.ret != nil {
			x.ret(st, f, ins, vals)
		} else {
			x.exit(st, f, ins)
		}
		return true
	}
	st.frames = st.frames[:len(st.frames)-1]
	g := st.top()
	// A new error that the reader of the data returns is a failure to parse it.
	if !x.text && fnPkgPath(f.fn) != fnPkgPath(g.fn) && strings.HasSuffix(fnPkgPath(f.fn), "/ucdparse") {
		for i, v := range vals {
			if e, ok := v.(evErr); ok && e.kind == "own" && !strings.HasPrefix(e.site, "init ") {
				vals[i] = x.failing(st, ins, "input", "reading an entry")
			}
		}
	}
	g.env[nil] = evTup(vals)
	return false
}

// resume puts a finished call's results in place.
func (x *errflow) resume(st *eState) (out []*eState, forked bool) {
	g := st.top()
	vals, _ := g.env[nil].(evTup)
	delete(g.env, nil)
	call := g.call
	g.call = nil
	if call == nil {
		return nil, false
	}
	switch mode := g.mode; {
	case mode == "value":
		x.setResult(g, call, vals)
	case mode == "callback":
		// A callback of an external function: an error ends the iteration,
		// otherwise it may be called again.
		for i := range vals {
			if e, ok := vals[i].(evErr); ok {
				if v, ok := call.(ssa.Value); ok {
					g.env[v] = x.resultWith(call, e)
				}
				return nil, false
			}
		}
		if b, ok := lastBool(vals); ok && !b {
			x.setUnknown(g, call)
			return nil, false
		}
		g.ip--
	case mode == "write":
		// Formatted printing to a writer of ours.
		if v, ok := call.(ssa.Value); ok {
			var e any
			if len(vals) > 0 {
				e = vals[len(vals)-1]
			}
			g.env[v] = x.resultWith(call, e)
		}
	}
	return nil, false
}

func lastBool(vals []any) (bool, bool) {
	if len(vals) == 1 {
		if b, ok := vals[0].(evBool); ok {
			return bool(b), true
		}
	}
	return false, false
}

func (x *errflow) setResult(g *eFrame, call ssa.CallInstruction, vals []any) {
	v, ok := call.(ssa.Value)
	if !ok {
		return
	}
	if tup, ok := v.Type().(*types.Tuple); ok {
		if tup.Len() == 0 {
			return
		}
		g.env[v] = evTup(vals)
		return
	}
	if len(vals) > 0 {
		g.env[v] = vals[0]
	}
}

func (x *errflow) setUnknown(g *eFrame, call ssa.CallInstruction) {
	if v, ok := call.(ssa.Value); ok {
		g.env[v] = nil
	}
}

// resultWith is a call result with a given error and other results unknown.
func (x *errflow) resultWith(call ssa.CallInstruction, e any) any {
	v, ok := call.(ssa.Value)
	if !ok {
		return nil
	}
	tup, ok := v.Type().(*types.Tuple)
	if !ok {
		return e
	}
	var out evTup
	for i := 0; i < tup.Len(); i++ {
		if isError(tup.At(i).Type()) {
			out = append(out, e)
		} else {
			out = append(out, nil)
		}
	}
	return out
}

// enter moves to a block.
func (x *errflow) enter(st *eState, b *ssa.BasicBlock) []*eState {
	f := st.top()
	idx := -1
	for i, p := range b.Preds {
		if p == f.b {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []any
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(st, f, ph.Edges[idx]))
	}
	for i, ph := range phis {
		if x.apply != nil {
			vals[i] = x.apply.phi(st, ph, vals[i])
		}
		f.env[ph] = vals[i]
	}
	f.b, f.ip = b, len(phis)
	live := (*drive)(nil).live(f.fn, b)
	for k := range f.env {
		if !live[k] {
			delete(f.env, k)
		}
	}
	if x.apply != nil && (st.ap.lost || st.ap.exempt) {
		x.apply.done(st)
	}
	k := x.key(st)
	if x.seen[k] {
		return nil
	}
	x.seen[k] = true
	if x.prof != nil {
		x.prof[fmt.Sprintf("%s.%d", f.fn, b.Index)]++
	}
	return []*eState{st}
}

func (x *errflow) key(st *eState) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %v %s %v;", st.failed, st.failedIn, st.replaced, st.panicking)
	if x.apply != nil {
		ap := st.ap
		ap.at, ap.fn = "", ""
		fmt.Fprintf(&b, "%+v;", ap)
	}
	reach := map[string]bool{}
	var mark func(v any)
	mark = func(v any) {
		switch y := v.(type) {
		case evPtr:
			if !reach[y.obj] {
				reach[y.obj] = true
				for _, w := range st.heap[y.obj] {
					mark(w)
				}
			}
		case evSlice:
			mark(evPtr{obj: y.obj})
		case evFn:
			for _, w := range y.binds {
				mark(w)
			}
		case evAgg:
			for _, w := range y.m {
				mark(w)
			}
		case evTup:
			for _, w := range y {
				mark(w)
			}
		case evAlt:
			for _, w := range y {
				mark(w)
			}
		case evIface:
			mark(y.val)
		case evRes:
			if r := st.res[y.id]; r != nil && r.under != nil {
				mark(r.under)
			}
		}
	}
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%p.%d.%d.%s{", f.fn, f.b.Index, f.ip, f.after)
		var ks []string
		for v, w := range f.env {
			if v == nil || w == nil {
				continue
			}
			mark(w)
			ks = append(ks, v.Name()+"="+evKey(w))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		for _, w := range f.binds {
			mark(w)
			b.WriteString("," + evKey(w))
		}
		for _, d := range f.defers {
			b.WriteString(";" + d.key)
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
		b.WriteString("}")
	}
	for k := range st.heap {
		if strings.HasPrefix(k, "global ") {
			mark(evPtr{obj: k})
		}
	}
	for _, k := range sortedKeys(st.heap) {
		if !reach[k] {
			delete(st.heap, k)
			delete(st.base, k)
			continue
		}
		for _, p := range sortedKeys(st.heap[k]) {
			if w := st.heap[k][p]; w != nil {
				fmt.Fprintf(&b, "%s%s=%s;", k, p, evKey(w))
			}
		}
	}
	for _, k := range sortedKeys(st.res) {
		r := st.res[k]
		fmt.Fprintf(&b, "%s:%s,%s,%v;", k, r.kind, r.st, r.write)
	}
	for _, k := range sortedKeys(st.facts) {
		fmt.Fprintf(&b, "%s=%v;", k, st.facts[k])
	}
	for _, k := range sortedKeys(st.parsed) {
		b.WriteString(k + ";")
	}
	b.WriteString(st.pending)
	for _, k := range sortedKeys(st.nums) {
		n := st.nums[k]
		fmt.Fprintf(&b, "%s:%d..%d %v %v;", k, n.lo, n.hi, n.huge, n.lossy)
	}
	return b.String()
}

func (x *errflow) val(st *eState, f *eFrame, v ssa.Value) any {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constant(y)
	case *ssa.Global:
		return evPtr{obj: "global " + y.String()}
	case *ssa.Function:
		return evFn{fn: y}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == y && i < len(f.binds) {
				return f.binds[i]
			}
		}
		return nil
	case *ssa.Builtin:
		return nil
	}
	return f.env[v]
}

func (x *errflow) constant(k *ssa.Const) any {
	if k.Value == nil {
		switch k.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return evAgg{base: "zero"}
		}
		return evNil{}
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return evBool(constant.BoolVal(k.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(k.Value); ok {
			return evInt(i)
		}
		return nil
	case constant.String:
		return evStr(constant.StringVal(k.Value))
	}
	return nil
}

func (x *errflow) zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return evBool(false)
		case u.Info()&types.IsInteger != 0:
			return evInt(0)
		case u.Info()&types.IsString != 0:
			return evStr("")
		}
		return nil
	case *types.Struct, *types.Array:
		return evAgg{base: "zero"}
	}
	return evNil{}
}

// site identifies an instruction in its calling context.
func (x *errflow) siteID(st *eState, ins ssa.Instruction) string {
	var b strings.Builder
	for _, f := range st.frames {
		if f.call != nil {
			fmt.Fprintf(&b, "%p/", f.call)
		}
	}
	fmt.Fprintf(&b, "%p", ins)
	return b.String()
}
