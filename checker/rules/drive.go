package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// isCollector recognises func([]byte, bufio.SplitFunc) ([][]byte, error).
func isCollector(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 2 {
		return false
	}
	p := func(t types.Type) string { return strings.ReplaceAll(t.Underlying().String(), "uint8", "byte") }
	if p(s.Params().At(0).Type()) != "[]byte" || !isFuncType(s.Params().At(1).Type()) {
		return false
	}
	return p(s.Results().At(0).Type()) == "[][]byte" && types.IsInterface(s.Results().At(1).Type())
}

// The abstract values of the scanner-driving exploration. All are comparable.
type (
	dBuf     struct{ Str bool } // the caller's buffer, or its content as a string
	dSplit   struct{}           // the caller's split function
	dReader  struct{}           // a fresh reader over the whole buffer
	dScanner struct{}
	dTok     struct{} // the scanner's current token, sharing its memory
	dCopy    struct { // an independent copy of the current token; Part: within a dArena
		Str, Part bool
		At        string // where it was made
	}
	dLenTok struct{}              // its length
	dArena  struct{ At string }   // recorded tokens in one array, ending with a copy of the current token
	dOldAr  struct{ At string }   // the same, before the current token is appended
	dLenAr  struct{ At string }   // the length of a dArena
	dLenOld struct{ At string }   // the length of a dOldAr, which is where the current token will start
	dStart  struct{ At string }   // where the current token starts in a dArena
	dEmpty  struct{}              // an empty list, or nil
	dAcc    struct{}              // the list of all tokens recorded so far
	dLenAcc struct{}              // its length
	dErr    struct{}              // the scanner's error
	dNil    struct{}              // nil
	dConst  struct{ S string }    // a constant
	dOther  struct{}              // any other value that is not a token, list or error
	dStale  struct{ What string } // a value that must not be used any more
	dFn     struct {
		fn  *ssa.Function
		env string // encoded bindings
	}
	dPtr struct { // a memory cell
		obj  string
		path string
	}
	dRaw struct{ obj string } // a byte slice made with the token's length
	dOne struct {             // a one-element array or slice holding a value
		obj string
	}
	dTuple struct{ s string }
)

// typestate of the scanner
const (
	sNone    = iota // no scanner yet
	sCreated        // no split function yet
	sReady          // before the next Scan
	sPending        // a token is there, not yet recorded
	sTaken          // the token has been recorded
	sDone           // Scan has returned false
)

type drive struct {
	c           *Ctx
	p           *load.Program
	root        *ssa.Function
	states      int
	obligations int
	protocol    []Finding // deviations from driving a standard scanner
	aliasing    []Finding // elements that may change later
	seen        map[string]bool
	bindings    map[string][]any
	tuples      map[string][]any
	keys        map[string]bool
}

type dFrame struct {
	fn    *ssa.Function
	b     *ssa.BasicBlock
	prev  *ssa.BasicBlock
	ip    int
	env   map[ssa.Value]any
	call  *ssa.Call
	allot int
}

type dState struct {
	frames []*dFrame
	mem    map[string]any
	sc     int
	some   bool // at least one token has been recorded
	errNil int  // 0 unknown, 1 nil, 2 not nil
}

func (s *dState) fork() *dState {
	n := &dState{mem: make(map[string]any, len(s.mem)), sc: s.sc, some: s.some, errNil: s.errNil}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]any, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

type dStop struct{ f *Finding }

// drive explores all paths of a collecting helper.
func (c *Ctx) drive(p *load.Program, fn *ssa.Function) *drive {
	d := &drive{c: c, p: p, root: fn, seen: map[string]bool{}, bindings: map[string][]any{}, tuples: map[string][]any{}, keys: map[string]bool{}}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		d.fail(&d.protocol, fn, token.NoPos, "undecided", "%s has no body", fn)
		return d
	}
	fr := &dFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]any{fn.Params[0]: dBuf{}, fn.Params[1]: dSplit{}}}
	work := []*dState{{frames: []*dFrame{fr}, mem: map[string]any{}}}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if d.states++; d.states > 200000 {
			d.fail(&d.protocol, fn, fn.Pos(), "undecided", "too many states")
			return d
		}
		work = append(work, d.run(st)...)
	}
	return d
}

func (d *drive) fail(list *[]Finding, fn *ssa.Function, pos token.Pos, rule, format string, args ...any) {
	what := fmt.Sprintf(format, args...)
	k := rule + "|" + fn.String() + "|" + what
	if d.keys[k] {
		return
	}
	d.keys[k] = true
	w := ""
	if pos.IsValid() {
		w = d.c.rel(d.p.Prog.Fset.Position(pos).String())
	}
	*list = append(*list, Finding{Rule: rule, Key: k, Where: w, What: fn.Name() + ": " + what})
}

// run executes a state up to its next branch, and returns the successors.
func (d *drive) run(st *dState) (out []*dState) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(dStop); ok {
				if s.f != nil {
					k := s.f.Key
					if !d.keys[k] {
						d.keys[k] = true
						d.protocol = append(d.protocol, *s.f)
					}
				}
				out = nil
				return
			}
			panic(e)
		}
	}()
	for {
		f := st.frames[len(st.frames)-1]
		if f.ip >= len(f.b.Instrs) {
			return nil
		}
		ins := f.b.Instrs[f.ip]
		f.ip++
		switch v := ins.(type) {
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Jump:
			return d.enter(st, f.b.Succs[0])
		case *ssa.If:
			for i, s := range d.branch(st, f, v) {
				if s != nil {
					out = append(out, d.enter(s, s.frames[len(s.frames)-1].b.Succs[i])...)
				}
			}
			return out
		case *ssa.Return:
			var vals []any
			for _, x := range v.Results {
				vals = append(vals, d.val(st, f, x))
			}
			st.frames = st.frames[:len(st.frames)-1]
			if len(st.frames) == 0 {
				d.finish(st, v, vals)
				return nil
			}
			g := st.frames[len(st.frames)-1]
			if g.call != nil {
				d.setResult(g, g.call, vals)
				g.call = nil
			}
		case *ssa.Panic:
			// Reaching a panic means that a token sequence is not returned.
			d.stop(f, ins, "protocol", "may panic")
		case *ssa.Store:
			d.store(st, f, v, d.val(st, f, v.Addr), d.val(st, f, v.Val))
		case *ssa.Call:
			if succ, forked := d.call(st, f, v); forked {
				return succ
			}
		case *ssa.Phi:
			// Handled on entry to the block.
		case ssa.Value:
			f.env[v] = d.eval(st, f, v)
		default:
			d.stop(f, ins, "undecided", "contains %T, which is not modelled", ins)
		}
	}
}

func (d *drive) stop(f *dFrame, ins ssa.Instruction, rule, format string, args ...any) {
	fd := Finding{Rule: rule, What: f.fn.Name() + ": " + fmt.Sprintf(format, args...)}
	fd.Key = rule + "|" + f.fn.String() + "|" + fd.What
	pos := ins.Pos()
	if v, ok := ins.(ssa.Value); ok && !pos.IsValid() {
		pos = v.Pos()
	}
	if pos.IsValid() {
		fd.Where = d.c.rel(d.p.Prog.Fset.Position(pos).String())
	}
	panic(dStop{&fd})
}

// note records a deviation after which the exploration goes on.
func (d *drive) note(f *dFrame, ins ssa.Instruction, format string, args ...any) {
	d.fail(&d.protocol, f.fn, ins.Pos(), "protocol", format, args...)
}

// enter moves to a block, evaluates its phis and drops what has been seen.
func (d *drive) enter(st *dState, b *ssa.BasicBlock) []*dState {
	f := st.frames[len(st.frames)-1]
	prev := f.b
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []any
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, d.val(st, f, ph.Edges[idx]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev, f.b, f.ip = prev, b, len(phis)
	// Forget values that are not needed any more.
	live := d.live(f.fn, b)
	for k := range f.env {
		if !live[k] {
			delete(f.env, k)
		}
	}
	k := d.key(st)
	if d.seen[k] {
		return nil
	}
	d.seen[k] = true
	return []*dState{st}
}

var (
	liveMemo = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	liveLock sync.Mutex
)

// live are the values that code from the start of b on may use.
func (d *drive) live(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	liveLock.Lock()
	defer liveLock.Unlock()
	if m := liveMemo[b]; m != nil {
		return m
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, x := range fn.Blocks {
		in[x] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range x.Succs {
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				for j, p := range s.Preds {
					if p != x {
						continue
					}
					for _, ins := range s.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok {
							cur[ph.Edges[j]] = true
						}
					}
				}
			}
			for j := len(x.Instrs) - 1; j >= 0; j-- {
				ins := x.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					continue // defined on entry
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[x][v] {
					in[x][v] = true
					changed = true
				}
			}
		}
	}
	for x, m := range in {
		liveMemo[x] = m
	}
	return liveMemo[b]
}

func (d *drive) key(st *dState) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %v %d;", st.sc, st.some, st.errNil)
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%p.%d.%d{", f.fn, f.b.Index, f.ip)
		var ks []string
		for v, x := range f.env {
			ks = append(ks, fmt.Sprintf("%s=%#v", v.Name(), x))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		b.WriteString("}")
	}
	for _, k := range sortedKeys(st.mem) {
		fmt.Fprintf(&b, "%s=%#v;", k, st.mem[k])
	}
	return b.String()
}

func (d *drive) val(st *dState, f *dFrame, v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if isListType(v.Type()) {
				return dEmpty{}
			}
			return dNil{}
		}
		return dConst{v.Value.ExactString()}
	case *ssa.Function:
		return dFn{fn: v}
	case *ssa.Global, *ssa.Builtin:
		return dOther{}
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return dOther{}
}

// isListType reports whether t is a list of tokens.
func isListType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	switch e := s.Elem().Underlying().(type) {
	case *types.Slice:
		b, ok := e.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func (d *drive) branch(st *dState, f *dFrame, v *ssa.If) [2]*dState {
	switch c := d.val(st, f, v.Cond).(type) {
	case dConst:
		if c.S == "true" {
			return [2]*dState{st, nil}
		}
		return [2]*dState{nil, st}
	}
	// A comparison of the scanner's error with nil.
	if b, ok := v.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		x, y := d.val(st, f, b.X), d.val(st, f, b.Y)
		if _, ok := x.(dNil); ok {
			x, y = y, x
		}
		_, isErr := x.(dErr)
		_, isNil := y.(dNil)
		if isErr && isNil {
			a := st.fork()
			st.errNil, a.errNil = 1, 2
			if b.Op == token.EQL {
				return [2]*dState{st, a}
			}
			return [2]*dState{a, st}
		}
	}
	return [2]*dState{st, st.fork()}
}

func (d *drive) finish(st *dState, ret *ssa.Return, vals []any) {
	d.obligations++
	fn, pos := d.root, ret.Pos()
	if st.sc != sDone {
		what := map[int]string{sNone: "without scanning", sCreated: "without scanning", sReady: "before the scanner has finished", sPending: "before the scanner has finished, dropping a token", sTaken: "before the scanner has finished"}[st.sc]
		d.fail(&d.protocol, fn, pos, "protocol", "may return %s", what)
		return
	}
	if len(vals) == 1 {
		if t, ok := vals[0].(dTuple); ok {
			vals = d.tuples[t.s]
		}
	}
	if len(vals) != 2 {
		d.fail(&d.protocol, fn, pos, "undecided", "results are not understood")
		return
	}
	switch x := vals[0].(type) {
	case dAcc:
	case dEmpty, dNil:
		if st.some {
			d.fail(&d.protocol, fn, pos, "protocol", "may return an empty list although tokens were found")
		}
	case dStale:
		d.fail(&d.protocol, fn, pos, "stale", "may return %s", x.What)
	default:
		d.fail(&d.protocol, fn, pos, "undecided", "the returned list is not understood (%T)", vals[0])
	}
	switch vals[1].(type) {
	case dErr:
	case dNil:
		if st.errNil != 1 {
			d.fail(&d.protocol, fn, pos, "protocol", "may return no error although the scanner failed")
		}
	default:
		d.fail(&d.protocol, fn, pos, "protocol", "may return an error other than the scanner's")
	}
}

func (d *drive) setResult(f *dFrame, call *ssa.Call, vals []any) {
	switch len(vals) {
	case 0:
	case 1:
		f.env[call] = vals[0]
	default:
		k := fmt.Sprintf("%#v", vals)
		d.tuples[k] = vals
		f.env[call] = dTuple{k}
	}
}

// retire marks every copy of the previous list and token as outdated.
func (d *drive) retire(st *dState, match func(any) (any, bool)) {
	sub := func(x any) any {
		if y, ok := match(x); ok {
			return y
		}
		return x
	}
	for k, v := range st.mem {
		st.mem[k] = sub(v)
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = sub(v)
		}
	}
	// Tuples and closures that hold such a value keep it out of reach.
}

func (d *drive) call(st *dState, f *dFrame, v *ssa.Call) (succ []*dState, forked bool) {
	com := v.Common()
	var args []any
	for _, a := range com.Args {
		args = append(args, d.val(st, f, a))
	}
	if com.IsInvoke() {
		d.stop(f, v, "undecided", "calls the method %s of an interface value", com.Method.Name())
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		r := d.builtin(st, f, v, b.Name(), args)
		if r != nil {
			f.env[v] = r
		}
		return nil, false
	}
	var fn *ssa.Function
	var env []any
	switch x := d.val(st, f, com.Value).(type) {
	case dFn:
		fn = x.fn
		env = d.bindings[x.env]
	case dSplit:
		d.stop(f, v, "protocol", "calls the split function itself")
	default:
		d.stop(f, v, "undecided", "calls an unknown function")
	}
	name := fnName(fn)
	if o := fn.Origin(); o != nil {
		name = fnName(o)
	}
	is := func(x any, want any) bool { return x == want }
	set := func(x any) { f.env[v] = x }
	recv := func() {
		if len(args) == 0 || !is(args[0], dScanner{}) {
			d.stop(f, v, "undecided", "uses a scanner that is not understood")
		}
	}
	d.obligations++
	switch name {
	case "bytes.NewReader", "bytes.NewBuffer":
		if !is(args[0], dBuf{}) {
			d.note(f, v, "reads from something other than the caller's buffer")
		}
		set(dReader{})
		return nil, false
	case "strings.NewReader", "bytes.NewBufferString":
		if !is(args[0], dBuf{Str: true}) {
			d.note(f, v, "reads from something other than the caller's buffer")
		}
		set(dReader{})
		return nil, false
	case "bufio.NewScanner":
		if !is(args[0], dReader{}) {
			d.note(f, v, "scans something other than a reader over the caller's buffer")
		}
		if st.sc != sNone {
			d.stop(f, v, "protocol", "makes more than one scanner")
		}
		st.sc = sCreated
		d.retire(st, func(x any) (any, bool) { return dStale{"the scanner's reader"}, x == any(dReader{}) })
		set(dScanner{})
		return nil, false
	case "(*bufio.Scanner).Split":
		recv()
		if !is(args[1], dSplit{}) {
			d.note(f, v, "gives the scanner a split function other than the caller's")
		}
		if st.sc != sCreated {
			d.note(f, v, "sets the split function at the wrong time")
		}
		st.sc = sReady
		return nil, false
	case "(*bufio.Scanner).Buffer":
		recv()
		d.note(f, v, "changes the scanner's buffer, and with it the error for long tokens")
		return nil, false
	case "(*bufio.Scanner).Scan":
		recv()
		switch st.sc {
		case sCreated:
			d.note(f, v, "scans without the given split function")
		case sPending:
			d.note(f, v, "may scan on without recording a token")
		case sDone:
			d.note(f, v, "may scan again after the end")
		}
		d.retire(st, func(x any) (any, bool) {
			switch x := x.(type) {
			case dTok:
				return dStale{"a token that the scanner has overwritten"}, true
			case dCopy:
				if x.Str || x.Part || x.At == "" {
					return dStale{"an earlier token"}, true
				}
				return dOldAr{x.At}, true
			case dArena:
				return dOldAr{x.At}, true
			case dLenAr:
				return dLenOld{x.At}, true
			case dLenTok, dLenOld, dStart:
				return dOther{}, true
			}
			return nil, false
		})
		for k, v := range st.mem {
			if v == any(dConst{"copied"}) {
				st.mem[k] = dConst{"recorded"}
			}
		}
		a := st.fork()
		a.sc = sPending
		a.frames[len(a.frames)-1].env[v] = dConst{"true"}
		st.sc = sDone
		f.env[v] = dConst{"false"}
		return []*dState{a, st}, true
	case "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text":
		recv()
		if st.sc != sPending && st.sc != sTaken {
			d.stop(f, v, "protocol", "takes a token when there is none")
		}
		if strings.HasSuffix(name, "Text") {
			set(dCopy{Str: true})
		} else {
			set(dTok{})
		}
		return nil, false
	case "(*bufio.Scanner).Err":
		recv()
		if st.sc == sDone {
			set(dErr{})
		} else {
			set(dOther{})
		}
		return nil, false
	case "bytes.Clone", "slices.Clone":
		switch x := args[0].(type) {
		case dTok, dCopy:
			set(dCopy{})
		case dBuf:
			set(x)
		case dAcc, dEmpty:
			set(x)
		default:
			set(dOther{})
		}
		return nil, false
	case "bytes.Join", "slices.Concat":
		var list any
		if len(args) > 0 {
			list = args[0]
		}
		if one, ok := list.(dOne); ok {
			switch d.elem(st, st.mem[one.obj]).(type) {
			case dTok, dCopy:
				set(dCopy{})
				return nil, false
			}
		}
		set(dOther{})
		return nil, false
	case "strings.Clone":
		set(args[0])
		return nil, false
	case "slices.Grow", "slices.Clip":
		set(args[0])
		return nil, false
	}
	if strings.HasPrefix(name, "(*bytes.Reader).") || strings.HasPrefix(name, "(*strings.Reader).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		if len(args) > 0 && is(args[0], dReader{}) {
			switch fn.Name() {
			case "Len", "Size":
				set(dOther{})
				return nil, false
			}
			d.note(f, v, "reads from or changes the scanner's reader itself")
			set(dOther{})
			return nil, false
		}
	}
	path := fnPkgPath(fn)
	if d.c.own(path) || path == "" {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if len(fn.Blocks) == 0 {
			d.stop(f, v, "undecided", "calls %s, which has no body", fn)
		}
		if len(st.frames) > 12 {
			d.stop(f, v, "undecided", "calls too deeply")
		}
		nf := &dFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]any{}}
		for i, prm := range fn.Params {
			if i < len(args) {
				nf.env[prm] = args[i]
			}
		}
		for i, fv := range fn.FreeVars {
			if i < len(env) {
				nf.env[fv] = env[i]
			}
		}
		f.call = v
		st.frames = append(st.frames, nf)
		return nil, false
	}
	if pureExt(fn) || path == "math" {
		// Harmless if nothing that matters can come back.
		for _, a := range args {
			switch a.(type) {
			case dScanner, dReader, dSplit, dPtr, dRaw, dOne:
				d.stop(f, v, "undecided", "hands %T to %s", a, fn)
			}
		}
		set(dOther{})
		return nil, false
	}
	d.stop(f, v, "undecided", "calls %s, whose effect on the scan is not modelled", fn)
	return nil, false
}

func (d *drive) builtin(st *dState, f *dFrame, v *ssa.Call, name string, args []any) any {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case dTok, dCopy:
			if name == "len" {
				return dLenTok{}
			}
		case dArena:
			if name == "len" {
				return dLenAr{x.At}
			}
		case dOldAr:
			if name == "len" {
				return dLenOld{x.At}
			}
		case dAcc:
			if name == "len" {
				return dLenAcc{}
			}
		case dEmpty, dNil:
			if name == "len" {
				return dConst{"0"}
			}
		case dRaw:
			switch st.mem[x.obj] {
			case any(dConst{"empty"}):
				if name == "len" {
					return dConst{"0"}
				}
			case any(dConst{"toklen"}), any(dConst{"copied"}):
				if name == "len" {
					return dLenTok{}
				}
			}
		}
		return dOther{}
	case "append":
		if isListType(v.Type()) {
			return d.record(st, f, v, args)
		}
		if s, ok := v.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte]) {
			// append([]byte(nil), token...)
			_, nilDst := args[0].(dNil)
			if _, ok := args[0].(dEmpty); ok {
				nilDst = true
			}
			if r, ok := args[0].(dRaw); ok && st.mem[r.obj] == any(dConst{"empty"}) {
				nilDst = true
				st.mem[r.obj] = dConst{"used"} // appending to it again overwrites this
			} else if ok {
				d.stop(f, v, "aliasing", "appends to memory that may hold a token already")
			}
			if a, ok := args[0].(dOldAr); ok {
				switch args[1].(type) {
				case dTok, dCopy:
					d.retire(st, func(x any) (any, bool) {
						if x == any(a) {
							return dStale{"an array that has grown since"}, true
						}
						if x == any(dLenOld{a.At}) {
							return dStart{a.At}, true
						}
						return nil, false
					})
					return dArena{a.At}
				}
			}
			switch args[1].(type) {
			case dTok, dCopy:
				if nilDst {
					return d.fresh(st, f, v)
				}
			case dBuf:
				if nilDst {
					return dBuf{}
				}
			}
		}
		if isWrite(args[0]) {
			d.stop(f, v, "undecided", "appends to %T", args[0])
		}
		return dOther{}
	case "copy":
		if r, ok := args[0].(dRaw); ok {
			switch args[1].(type) {
			case dTok, dCopy:
				if st.mem[r.obj] == any(dConst{"toklen"}) {
					st.mem[r.obj] = dConst{"copied"}
					return dOther{}
				}
			}
			st.mem[r.obj] = dConst{"other"}
			return dOther{}
		}
		if isWrite(args[0]) {
			d.stop(f, v, "aliasing", "overwrites %s", describe(args[0]))
		}
		return dOther{}
	case "min", "max":
		return dOther{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	d.stop(f, v, "undecided", "uses the builtin %s", name)
	return nil
}

func isWrite(x any) bool {
	switch x.(type) {
	case dBuf, dTok, dCopy, dAcc, dStale, dArena, dOldAr:
		return true
	}
	return false
}

func describe(x any) string {
	switch x := x.(type) {
	case dBuf:
		return "the caller's buffer"
	case dTok:
		return "the scanner's token"
	case dCopy, dArena, dOldAr:
		return "a recorded token"
	case dAcc:
		return "the list"
	case dStale:
		return x.What
	}
	return "memory"
}

// record models append(list, elements...).
func (d *drive) record(st *dState, f *dFrame, v *ssa.Call, args []any) any {
	d.obligations++
	switch x := args[0].(type) {
	case dEmpty, dNil:
		if st.some {
			d.note(f, v, "may start the list anew after tokens were recorded")
		}
	case dAcc:
	case dStale:
		d.stop(f, v, "stale", "may append to %s", x.What)
	default:
		d.stop(f, v, "undecided", "appends to a list that is not understood")
	}
	one, ok := args[1].(dOne)
	if !ok {
		switch args[1].(type) {
		case dEmpty, dNil:
			return args[0]
		}
		d.stop(f, v, "undecided", "appends elements that are not understood")
	}
	elem := d.elem(st, st.mem[one.obj])
	switch x := elem.(type) {
	case dTok:
		d.fail(&d.aliasing, f.fn, v.Pos(), "aliasing", "puts the scanner's own token slice into the list, whose memory later scanning may overwrite")
	case dCopy:
		if x.Str {
			d.stop(f, v, "undecided", "element is not understood")
		}
	case dStale:
		d.stop(f, v, "stale", "records %s", x.What)
	default:
		d.stop(f, v, "undecided", "records an element that is not the current token or a fresh copy of it (%T)", elem)
	}
	switch st.sc {
	case sPending:
	case sTaken:
		d.note(f, v, "may record a token twice")
	default:
		d.stop(f, v, "protocol", "records a token when there is none")
	}
	st.sc, st.some = sTaken, true
	d.retire(st, func(x any) (any, bool) {
		switch x.(type) {
		case dAcc:
			return dStale{"a list that lacks the latest token"}, true
		case dLenAcc:
			return dOther{}, true
		}
		return nil, false
	})
	return dAcc{}
}

// fresh is a new copy of the current token, made by v.
func (d *drive) fresh(st *dState, f *dFrame, v ssa.Value) any {
	at := d.site(f, len(st.frames), v)
	d.retire(st, func(x any) (any, bool) {
		switch x := x.(type) {
		case dCopy:
			if x.At == at {
				x.At = ""
				return x, true
			}
		case dOldAr:
			if x.At == at {
				return dStale{"an earlier token"}, true
			}
		case dArena:
			if x.At == at {
				return dStale{"earlier tokens"}, true
			}
		case dLenAr:
			if x.At == at {
				return dOther{}, true
			}
		case dLenOld:
			if x.At == at {
				return dOther{}, true
			}
		case dStart:
			if x.At == at {
				return dOther{}, true
			}
		}
		return nil, false
	})
	return dCopy{At: at}
}

// elem resolves a slice made for the token.
func (d *drive) elem(st *dState, x any) any {
	if r, ok := x.(dRaw); ok {
		if st.mem[r.obj] == any(dConst{"copied"}) {
			return dCopy{}
		}
		return dOther{}
	}
	if x == nil {
		return dOther{}
	}
	return x
}

func (d *drive) site(f *dFrame, depth int, v ssa.Value) string {
	return fmt.Sprintf("%s#%s@%d", f.fn, v.Name(), depth)
}

func (d *drive) store(st *dState, f *dFrame, ins *ssa.Store, addr, val any) {
	switch a := addr.(type) {
	case dPtr:
		if t, ok := val.(dTuple); ok {
			_ = t
		}
		st.mem[a.obj+a.path] = val
		return
	case dOther:
		if g, ok := ins.Addr.(*ssa.Global); ok {
			_ = g
			switch val.(type) {
			case dOther, dConst, dNil, dEmpty:
				return
			}
			d.stop(f, ins, "undecided", "stores %T in a package variable", val)
		}
		// An element of a slice that is not understood.
		d.stop(f, ins, "undecided", "stores through a pointer that is not understood")
	default:
		d.stop(f, ins, "undecided", "stores through %T", addr)
	}
}

func (d *drive) eval(st *dState, f *dFrame, v ssa.Value) any {
	depth := len(st.frames)
	ins := v.(ssa.Instruction)
	switch v := v.(type) {
	case *ssa.Alloc:
		obj := d.site(f, depth, v)
		for k := range st.mem {
			if k == obj || k == obj+"!" || strings.HasPrefix(k, obj+".") {
				delete(st.mem, k)
			}
		}
		t := v.Type().Underlying().(*types.Pointer).Elem()
		st.mem[obj] = d.zero(t)
		return dPtr{obj: obj}
	case *ssa.FieldAddr:
		p, ok := d.val(st, f, v.X).(dPtr)
		if !ok {
			return dOther{}
		}
		q := dPtr{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, v.Field)}
		if _, ok := st.mem[q.obj+q.path]; !ok {
			st.mem[q.obj+q.path] = d.zero(v.Type().Underlying().(*types.Pointer).Elem())
		}
		return q
	case *ssa.IndexAddr:
		if p, ok := d.val(st, f, v.X).(dPtr); ok {
			if k, ok := v.Index.(*ssa.Const); ok && k.Value != nil {
				return dPtr{obj: p.obj, path: p.path + "." + k.Value.ExactString()}
			}
		}
		switch x := d.val(st, f, v.X).(type) {
		case dAcc, dEmpty, dStale, dRaw, dCopy, dTok, dBuf, dOne, dArena, dOldAr:
			// Reading is harmless; writing through it is rejected by store.
			_ = x
		}
		return dStale{"an element"}
	case *ssa.Slice:
		x := d.val(st, f, v.X)
		if p, ok := x.(dPtr); ok {
			if a, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := a.Elem().Underlying().(*types.Array); ok {
					if arr.Len() == 0 {
						return dEmpty{}
					}
					if arr.Len() == 1 && v.Low == nil && v.High == nil {
						return dOne{obj: p.obj + p.path + ".0"}
					}
				}
			}
			// make([]T, 0, constant) is sliced from an array.
			if k, ok := v.High.(*ssa.Const); ok && v.Low == nil && k.Value != nil && k.Value.ExactString() == "0" {
				if isListType(v.Type()) {
					return dEmpty{}
				}
				if _, ok := st.mem[p.obj+"!"]; !ok {
					st.mem[p.obj+"!"] = dConst{"empty"}
				}
				return dRaw{p.obj + "!"}
			}
			return dOther{}
		}
		whole := func(l ssa.Value, zero bool, ln any) bool {
			if l == nil {
				return true
			}
			y := d.val(st, f, l)
			if zero {
				return y == any(dConst{"0"})
			}
			return y == ln
		}
		switch x := x.(type) {
		case dAcc:
			if whole(v.Low, true, nil) && whole(v.High, false, dLenAcc{}) && whole(v.Max, false, dLenAcc{}) {
				return x
			}
			return dStale{"part of the list"}
		case dEmpty, dNil:
			return x
		case dArena:
			low := v.Low != nil && d.val(st, f, v.Low) == any(dStart{x.At})
			if low && whole(v.High, false, dLenAr{x.At}) && whole(v.Max, false, dLenAr{x.At}) {
				return dCopy{Part: true}
			}
			return dStale{"a part of several tokens"}
		case dOldAr:
			return dStale{"earlier tokens"}
		case dTok, dCopy:
			if whole(v.Low, true, nil) && whole(v.High, false, dLenTok{}) && whole(v.Max, false, dLenTok{}) {
				return x
			}
			return dStale{"part of a token"}
		case dBuf:
			if v.Low == nil && v.High == nil {
				return x
			}
			return dStale{"part of the buffer"}
		case dRaw:
			if v.Low == nil && v.High == nil {
				return x
			}
			return dStale{"part of a copy"}
		}
		return dOther{}
	case *ssa.MakeSlice:
		if isListType(v.Type()) {
			if k, ok := d.val(st, f, v.Len).(dConst); ok && k.S == "0" {
				return dEmpty{}
			}
			return dStale{"a list made with a non-zero length"}
		}
		obj := d.site(f, depth, v)
		// An earlier slice made here is a different object.
		d.retire(st, func(x any) (any, bool) {
			if r, ok := x.(dRaw); ok && r.obj == obj {
				return dStale{"an earlier copy"}, true
			}
			return nil, false
		})
		switch k := d.val(st, f, v.Len).(type) {
		case dLenTok:
			st.mem[obj] = dConst{"toklen"}
		case dConst:
			if k.S == "0" {
				st.mem[obj] = dConst{"empty"}
			} else {
				st.mem[obj] = dConst{"other"}
			}
		default:
			st.mem[obj] = dConst{"other"}
		}
		return dRaw{obj}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			switch p := d.val(st, f, v.X).(type) {
			case dPtr:
				if x, ok := st.mem[p.obj+p.path]; ok {
					return x
				}
				return dOther{}
			}
			if g, ok := v.X.(*ssa.Global); ok {
				if fns := varFuncs(g.Pkg, g); g.Pkg != nil && d.c.own(g.Pkg.Pkg.Path()) && len(fns) == 1 && fns[0] != nil {
					return dFn{fn: fns[0]}
				}
			}
			return dOther{}
		case token.NOT:
			if k, ok := d.val(st, f, v.X).(dConst); ok {
				return dConst{map[bool]string{true: "false", false: "true"}[k.S == "true"]}
			}
			return dOther{}
		case token.ARROW:
			d.stop(f, ins, "undecided", "receives from a channel")
		}
		return dOther{}
	case *ssa.BinOp:
		x, y := d.val(st, f, v.X), d.val(st, f, v.Y)
		a, ok1 := x.(dConst)
		b, ok2 := y.(dConst)
		if ok1 && ok2 {
			cx, cy := constOf(v.X, a), constOf(v.Y, b)
			if cx != nil && cy != nil {
				switch v.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					return dConst{fmt.Sprint(constant.Compare(cx, v.Op, cy))}
				}
			}
		}
		if v.Op == token.ADD {
			if _, ok := x.(dLenTok); ok {
				x, y = y, x
			}
			if y == any(dLenTok{}) {
				switch x := x.(type) {
				case dStart:
					return dLenAr{x.At}
				case dConst:
					if x.S == "0" {
						return dLenTok{}
					}
				}
			}
		}
		if v.Op == token.EQL || v.Op == token.NEQ {
			_, n1 := x.(dNil)
			_, n2 := y.(dNil)
			if n1 && n2 {
				return dConst{fmt.Sprint(v.Op == token.EQL)}
			}
		}
		return dOther{}
	case *ssa.ChangeType:
		return d.val(st, f, v.X)
	case *ssa.MakeInterface:
		return d.val(st, f, v.X)
	case *ssa.ChangeInterface:
		return d.val(st, f, v.X)
	case *ssa.Convert:
		x := d.val(st, f, v.X)
		toStr := isStr(v.Type())
		fromStr := isStr(v.X.Type())
		switch x := x.(type) {
		case dTok:
			if toStr {
				return dCopy{Str: true}
			}
		case dCopy:
			return dCopy{Str: toStr}
		case dBuf:
			return dBuf{Str: toStr}
		case dConst:
			if fromStr || toStr {
				return dOther{}
			}
			return x
		}
		return dOther{}
	case *ssa.MakeClosure:
		var bs []any
		for _, b := range v.Bindings {
			bs = append(bs, d.val(st, f, b))
		}
		k := fmt.Sprintf("%#v", bs)
		d.bindings[k] = bs
		return dFn{fn: v.Fn.(*ssa.Function), env: k}
	case *ssa.Extract:
		if t, ok := d.val(st, f, v.Tuple).(dTuple); ok {
			return d.tuples[t.s][v.Index]
		}
		return dOther{}
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.TypeAssert:
		return dOther{}
	case *ssa.MakeMap:
		return dOther{}
	}
	d.stop(f, ins, "undecided", "contains %T, which is not modelled", v)
	return nil
}

func constOf(v ssa.Value, x dConst) constant.Value {
	switch x.S {
	case "true":
		return constant.MakeBool(true)
	case "false":
		return constant.MakeBool(false)
	}
	c := constant.MakeFromLiteral(x.S, token.INT, 0)
	if c.Kind() != constant.Int {
		return nil
	}
	return c
}

func (d *drive) zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isListType(t) {
			return dEmpty{}
		}
		return dNil{}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return dConst{"false"}
		case u.Info()&types.IsInteger != 0:
			return dConst{"0"}
		}
		return dOther{}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return dNil{}
	}
	return dOther{}
}

func checkCollected(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"Each element appended to the result list is a copy that was made of the current token after Scan returned and before the next Scan.",
		"No recorded copy and no part of the list is written to afterwards.",
		"The list that is returned is the one that holds all recorded tokens.")
	for _, v := range c.loadable() {
		p := c.Variant(v)
		sp := p.SSA[c.wrapperPkgPath()]
		if sp == nil {
			fatalf("anchor", "the wrapper package was not found")
		}
		sp.Build()
		n := 0
		for _, fn := range exportedFuncs(p.Prog, sp) {
			if !isCollector(fn) {
				continue
			}
			n++
			d := c.drive(p, fn)
			r.Ob(d.obligations + 1)
			r.Count("paths_explored", d.states)
			r.Count("functions", 1)
			for _, f := range append(append([]Finding{}, d.aliasing...), d.protocol...) {
				if f.Rule == "protocol" {
					continue // a matter of which tokens there are
				}
				f.What = fmt.Sprintf("%s (%s)", f.What, v)
				r.Add(f)
			}
		}
		if n == 0 {
			fatalf("anchor", "the wrapper has no collecting helper under %s", v)
		}
	}
	r.Assume = append(r.Assume, "bufio.Scanner behaves as documented: Bytes may share memory that later calls to Scan overwrite, Text does not.")
}
