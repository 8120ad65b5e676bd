package rules

import (
	"crypto/sha1"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Exploration of all successful paths from the built tables to the end of the generator, with its own functions and closures inlined, for one arbitrary entry of one table, abstracting every number to its position relative to the entry: the entry must be written to the output once, after those before it and before those behind it.", checkEmission)
}

// Numbers are known by how they lie relative to the number k of the entry that
// is followed, or relative to k divided by a scale of up to 64.
type (
	xC   int64
	xRel struct{ s, off, r int64 } // k/s + off; r is its residue by 64 or unknown, if s > 1
	// xFar is mul*B + d, where B is some number far below k/(s*mul), but far
	// above k divided by the next larger scale. B%64 is r, or unknown.
	xFar struct {
		s, mul, d int64
		r         int64
		base      string
	}
	xHigh struct{} // some number above k
	// xLen is (length of the table - start) / s.
	xLen struct {
		s     int64
		start any
		max   int64 // if it is known to be at most so many
	}
	xTab struct {
		tab   string
		start any
		n     any // xLen if it extends to the end
	}
	xElem struct {
		tab string
		idx any
	}
	xText struct{ of []any } // text of entries and tables
	xMod  struct{}           // something else computed from an entry
	xNil  struct{}
	xSome struct{} // not nil
	xBool bool
	xStr  string
	xStd  struct{} // standard output or error
	xPtr  struct{ obj, path string }
	xSl   struct {
		obj string
		lo  int64
		n   int64
	}
	xFn struct {
		fn    *ssa.Function
		binds []any
	}
	xAgg  struct{ f map[int]any }
	xTup  []any
	xCond struct {
		v  ssa.Value // an error
		eq bool
	}
	xIter struct {
		kind string
		t    xTab
		c    int64
	}
)

type xFrame struct {
	fn    *ssa.Function
	b     *ssa.BasicBlock
	ip    int
	env   map[ssa.Value]any
	binds []any
	call  ssa.CallInstruction

	it  *xIter // an iterator of the standard library
	pos any
	f   any
}

type xState struct {
	frames  []*xFrame
	heap    map[string]map[string]any
	written bool
	writer  string
	at      string
	in      string
	wroteAt string
}

func (s *xState) fork() *xState {
	n := *s
	n.frames = nil
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]any, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	n.heap = make(map[string]map[string]any, len(s.heap))
	for k, m := range s.heap {
		c := make(map[string]any, len(m))
		for p, v := range m {
			c[p] = v
		}
		n.heap[k] = c
	}
	return &n
}

func (s *xState) top() *xFrame { return s.frames[len(s.frames)-1] }

const (
	xSmall = 66 // constants up to here are known in number
	xStep  = 64
	xQs    = 2
)

type emit struct {
	c      *Ctx
	u      *genUnit
	r      *Report
	tab    string
	q, rem int64 // the entry's number is 64q+rem; q is -1 for any large number
	seen   map[[20]byte]bool
	states int
	lax    bool
	scales []int64 // what a counter may count
	floor  int64   // numbers that have grown are above this
	notes  map[string]bool
	tables map[string]bool
	writes map[string]map[string]bool
	judged int
	lostN  int
	fns    map[string]bool
	conts  map[string]int
}

type xLost struct{ why string }

func checkEmission(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"On every path on which nothing fails, each entry of each table that the builder returns is written, once.",
		"Entries are written in their order.")
	u := c.genUnit()
	e := &emit{c: c, u: u, r: r, notes: map[string]bool{}, tables: map[string]bool{}, writes: map[string]map[string]bool{}, fns: map[string]bool{}}
	e.lax = e.keyed()
	e.scales = e.multiples()
	e.floor = xSmall - 16
	if len(e.scales) > 1 {
		e.floor = 16
	}
	e.tab = "?"
	e.q = -1
	e.safely()
	// Each entry is looked at on its own.
	var parts []*emit
	for _, t := range sortedKeys(e.tables) {
		for q := int64(-1); q < xQs; q++ {
			for m := int64(0); m < 64; m++ {
				parts = append(parts, &emit{c: c, u: u, r: &Report{Coverage: map[string]any{}}, tab: t, q: q, rem: m, lax: e.lax, scales: e.scales, floor: e.floor,
					notes: map[string]bool{}, tables: map[string]bool{}, writes: map[string]map[string]bool{}, fns: map[string]bool{}})
			}
		}
	}
	for _, fn := range u.fns {
		if len(fn.Blocks) > 0 {
			(*drive)(nil).live(fn, fn.Blocks[0])
		}
	}
	next := make(chan *emit)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p := range next {
				p.safely()
			}
		}()
	}
	for _, p := range parts {
		next <- p
	}
	close(next)
	wg.Wait()
	found := map[string]bool{}
	for _, p := range parts {
		for _, f := range p.r.Findings {
			if !found[f.Key] {
				found[f.Key] = true
				r.Add(f)
			}
		}
		for k := range p.notes {
			e.notes[k] = true
		}
		for k := range p.fns {
			e.fns[k] = true
		}
		for t, m := range p.writes {
			if e.writes[t] == nil {
				e.writes[t] = map[string]bool{}
			}
			for k := range m {
				e.writes[t][k] = true
			}
		}
		e.states += p.states
		e.judged += p.judged
		e.lostN += p.lostN
	}
	if len(e.tables) == 0 {
		e.notes["the builder's result"] = true
	}
	for _, t := range sortedKeys(e.writes) {
		r.Note("writes_of_"+t, sortedKeys(e.writes[t]))
	}
	r.Count("tables", len(e.tables))
	r.Count("states", e.states)
	r.Count("paths_judged", e.judged)
	r.Count("paths_not_followed", e.lostN)
	r.Note("functions_explored", sortedKeys(e.fns))
	r.Note("not_followed", sortedKeys(e.notes))
	r.Assume = append(r.Assume, "Branches on other data can go both ways; the tables consist of whole blocks.")
	r.Ob(1 + len(e.tables)*(xQs+1)*64)
}

// keyed reports whether the output names the number of its entries, so that
// entries may be left out or come in another order.
func (e *emit) keyed() bool {
	for _, fn := range e.u.fns {
		if fnPkgPath(fn) != fnPkgPath(e.u.main) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || fnPkgPath(call.Common().StaticCallee()) != "fmt" {
					continue
				}
				if n := call.Common().StaticCallee().Name(); n == "Errorf" {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						s := constant.StringVal(k.Value)
						if !strings.Contains(s, "//") && (strings.Contains(s, "[%") || strings.Contains(s, ":") && strings.Count(s, "%") >= 2 && strings.Contains(s, ",")) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// multiples is what counters may count: entries, or parts of up to 64 entries,
// if any number is multiplied.
func (e *emit) multiples() []int64 {
	out := map[int64]bool{1: true}
	for _, fn := range e.u.fns {
		if fnPkgPath(fn) != fnPkgPath(e.u.main) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				y, ok := ins.(*ssa.BinOp)
				if !ok || y.Op != token.MUL && y.Op != token.SHL {
					continue
				}
				for _, x := range []ssa.Value{y.X, y.Y} {
					c, ok := constInt(x)
					if ok && y.Op == token.SHL && c < 8 {
						c = 1 << c
					}
					if ok && c > 1 && 64%c == 0 {
						out[c] = true
					} else if !ok {
						if _, k := x.(*ssa.Const); !k && y.Op == token.MUL {
							if _, k := y.X.(*ssa.Const); !k {
								if _, k := y.Y.(*ssa.Const); !k {
									for _, c := range []int64{8, 16, 32, 64} {
										out[c] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var l []int64
	for c := range out {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// safely explores, and is quiet about what the exploration is not made for.
func (e *emit) safely() {
	defer func() {
		if p := recover(); p != nil {
			e.notes[fmt.Sprint("gave up: ", p)] = true
		}
	}()
	e.explore()
}

func (e *emit) explore() {
	e.seen = map[[20]byte]bool{}
	st := &xState{heap: map[string]map[string]any{}}
	f := &xFrame{fn: e.u.main, env: map[ssa.Value]any{}}
	st.frames = []*xFrame{f}
	f.b = e.u.main.Blocks[0]
	work := []*xState{st}
	n := 0
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if n++; n > 30000 {
			e.notes["too many states"] = true
			return
		}
		work = append(work, e.run(st)...)
	}
	e.states += n
}

// run follows a state to the next fork.
func (e *emit) run(st *xState) (out []*xState) {
	defer func() {
		if p := recover(); p != nil {
			l, ok := p.(xLost)
			if !ok {
				panic(p)
			}
			e.lostN++
			e.notes[l.why] = true
			out = nil
		}
	}()
	for n := 0; ; n++ {
		if n > 100000 {
			panic(xLost{"a long loop"})
		}
		f := st.top()
		if f.it != nil {
			return e.iterate(st)
		}
		if f.ip == 0 {
			e.fns[f.fn.String()] = true
		}
		ins := f.b.Instrs[f.ip]
		f.ip++
		switch v := ins.(type) {
		case *ssa.If:
			return e.branch(st, v)
		case *ssa.Jump:
			if out, ok := e.enter(st, f.b.Succs[0]); !ok {
				return out
			}
		case *ssa.Return:
			var vals []any
			for _, x := range v.Results {
				vals = append(vals, e.val(f, x))
			}
			if e.ret(st, vals) {
				return nil
			}
		case *ssa.Panic:
			return nil
		case *ssa.RunDefers, *ssa.DebugRef:
		case *ssa.Defer:
			for _, a := range v.Call.Args {
				if e.tracked(st, e.val(f, a), 0) {
					e.lose(v, "a deferred call is given a table")
				}
			}
		case *ssa.Go:
			e.lose(v, "another goroutine")
		case *ssa.Call:
			if out, ok := e.call(st, f, v); !ok {
				return out
			}
		case *ssa.Store:
			e.store(st, v, e.val(f, v.Addr), e.val(f, v.Val))
		case *ssa.MapUpdate:
			if e.tracked(st, e.val(f, v.Value), 0) {
				e.lose(v, "an entry is kept in a map")
			}
		case *ssa.Send:
			if e.tracked(st, e.val(f, v.X), 0) {
				e.lose(v, "an entry is sent on a channel")
			}
		case ssa.Value:
			e.def(st, f, v)
		}
	}
}

func (e *emit) lose(ins ssa.Instruction, why string) {
	panic(xLost{e.c.rel(e.u.p.Prog.Fset.Position(ins.Pos()).String()) + ": " + why})
}

func (e *emit) pos(ins ssa.Instruction) string {
	return e.c.rel(e.u.p.Prog.Fset.Position(ins.Pos()).String())
}

// tracked reports whether a value holds entries of the table.
func (e *emit) tracked(st *xState, v any, depth int) bool {
	if depth > 4 {
		return false
	}
	switch w := v.(type) {
	case xTab:
		return w.tab == e.tab
	case xElem:
		return w.tab == e.tab
	case xMod, xText:
		return true
	case xIter:
		return w.t.tab == e.tab
	case xAgg:
		for _, y := range w.f {
			if e.tracked(st, y, depth+1) {
				return true
			}
		}
	case xTup:
		for _, y := range w {
			if e.tracked(st, y, depth+1) {
				return true
			}
		}
	case xFn:
		for _, y := range w.binds {
			if e.tracked(st, y, depth+1) {
				return true
			}
		}
	case xPtr:
		for p, y := range st.heap[w.obj] {
			if strings.HasPrefix(p, w.path) && e.tracked(st, y, depth+1) {
				return true
			}
		}
	case xSl:
		for _, y := range st.heap[w.obj] {
			if e.tracked(st, y, depth+1) {
				return true
			}
		}
	}
	return false
}

func (e *emit) val(f *xFrame, v ssa.Value) any {
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value == nil {
			if _, ok := y.Type().Underlying().(*types.Struct); ok {
				return nil
			}
			return xNil{}
		}
		switch y.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(y.Value); ok {
				return xC(n)
			}
		case constant.Bool:
			return xBool(constant.BoolVal(y.Value))
		case constant.String:
			return xStr(constant.StringVal(y.Value))
		}
		return nil
	case *ssa.Function:
		return xFn{fn: y}
	case *ssa.Global:
		return xPtr{obj: "global " + y.String()}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == y && i < len(f.binds) {
				return f.binds[i]
			}
		}
		return nil
	}
	return f.env[v]
}

// --- numbers

// norm makes numbers concrete or symbolic, as the case at hand is.
func (e *emit) k() int64 { return 64*e.q + e.rem }

func (e *emit) rel(s, off, r int64) any {
	if s == 1 {
		r = -1
	} else if r >= 0 {
		r = (r%64 + 64) % 64
	}
	if off <= limit(s) {
		return xRel{s, off, r}
	}
	for i := len(e.scales) - 1; i >= 0; i-- {
		if t := e.scales[i]; t < s {
			return xFar{s: t, mul: 1, d: off - limit(s) - 1, r: shift(r, limit(s)+1-off), base: fmt.Sprintf("above k/%d", s)}
		}
	}
	return xHigh{}
}

// shift adds to a residue.
func shift(r, d int64) int64 {
	if r < 0 {
		return -1
	}
	return ((r+d)%64 + 64) % 64
}

// larger is the next larger scale.
func (e *emit) larger(s int64) int64 {
	for _, t := range e.scales {
		if t > s {
			return t
		}
	}
	return 0
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (e *emit) num(v any) any {
	if n, ok := v.(xC); ok && e.q >= 0 && int64(n) > e.k()+limit(1) {
		return xHigh{}
	}
	return v
}

// limit is how far below k/s a number is known to be if it is far below.
func limit(s int64) int64 { return 136/s + 4 }

func (e *emit) add(a any, c int64) any {
	switch w := a.(type) {
	case xC:
		return e.num(xC(int64(w) + c))
	case xRel:
		return e.rel(w.s, w.off+c, shift(w.r, c))
	case xFar:
		w.d += c
		return w
	case xHigh:
		if c >= 0 {
			return w
		}
	case xLen:
		if w.s == 1 {
			if s := e.add(w.start, -c); s != nil && !tooLow(s) {
				return xLen{s: 1, start: s}
			}
		}
	}
	return nil
}

// tooLow reports whether a start is so far ahead of the table that only a
// counter that is not followed can have led to it.
func tooLow(v any) bool {
	c, ok := v.(xC)
	return ok && c < -2*xSmall
}

func (e *emit) sum(a, b any) any {
	if c, ok := b.(xC); ok {
		return e.add(a, int64(c))
	}
	if c, ok := a.(xC); ok {
		return e.add(b, int64(c))
	}
	if l, ok := b.(xLen); ok && l.s == 1 && l.start == a {
		return xLen{s: 1, start: xC(0)}
	}
	if l, ok := a.(xLen); ok && l.s == 1 && l.start == b {
		return xLen{s: 1, start: xC(0)}
	}
	return nil
}

func (e *emit) sub(a, b any) any {
	if c, ok := b.(xC); ok {
		return e.add(a, -int64(c))
	}
	if l, ok := a.(xLen); ok && l.s == 1 {
		if s := e.sum(l.start, b); s != nil {
			return xLen{s: 1, start: s}
		}
		return nil
	}
	switch w := a.(type) {
	case xRel:
		if z, ok := b.(xRel); ok && z.s == w.s {
			return xC(w.off - z.off)
		}
	case xFar:
		if z, ok := b.(xFar); ok && z.s == w.s && z.base == w.base && z.mul == w.mul {
			return xC(w.d - z.d)
		}
	}
	return nil
}

func (e *emit) mul(a any, c int64) any {
	if c <= 0 {
		return nil
	}
	switch w := a.(type) {
	case xC:
		return e.num(xC(int64(w) * c))
	case xRel:
		if c > w.s {
			return xHigh{}
		}
		if w.s%c == 0 {
			s := w.s / c
			return e.rel(s, c*w.off-(e.rem%w.s)/s, shift(w.r, (c-1)*max(w.r, 0)))
		}
	case xFar:
		if w.s%c == 0 {
			return xFar{s: w.s / c, mul: w.mul * c, d: w.d * c, r: w.r, base: w.base}
		}
		if p := e.larger(w.s * w.mul); p > 0 && c*w.mul >= p {
			return xHigh{}
		}
	case xHigh:
		return w
	}
	return nil
}

func (e *emit) quo(a any, c int64) any {
	if c <= 0 {
		return nil
	}
	switch w := a.(type) {
	case xC:
		return xC(int64(w) / c)
	case xRel:
		if s := w.s * c; 64%s == 0 {
			return e.rel(s, floorDiv(e.rem/w.s%c+w.off, c), -1)
		}
	case xLen:
		if w.start == xC(0) && 64%(w.s*c) == 0 {
			return xLen{s: w.s * c, start: xC(0)}
		}
	}
	return nil
}

func (e *emit) mod(a any, c int64) any {
	if c <= 0 {
		return nil
	}
	switch w := a.(type) {
	case xC:
		return xC(int64(w) % c)
	case xRel:
		if w.s > 1 && w.r >= 0 && 64%c == 0 {
			return xC(w.r % c)
		}
		if 64%(w.s*c) == 0 {
			return xC(((e.rem/w.s+w.off)%c + c) % c)
		}
	case xFar:
		if 64%c == 0 && (w.r >= 0 || w.mul%c == 0) {
			return xC(((w.mul*max(w.r, 0)+w.d)%c + c) % c)
		}
	case xLen:
		if w.s == 1 && w.start == xC(0) && 64%c == 0 {
			return xC(0)
		}
	}
	return nil
}

// side is the position of a number relative to k/s: -1, 0, 1, or unknown.
func (e *emit) side(a any, s int64) (int, bool) {
	switch w := a.(type) {
	case xC:
		if e.q >= 0 {
			return cmp64(int64(w), e.k()/s), true
		}
		return -1, true
	case xRel:
		switch {
		case w.s == s:
			return cmp64(w.off, 0), true
		case w.s > s:
			return -1, true
		default:
			return 1, true
		}
	case xFar:
		if s < w.s || s == w.s && w.d < w.mul*limit(w.s*w.mul) {
			return -1, true
		}
		if p := e.larger(w.s * w.mul); p > 0 && s*w.mul >= p && w.d >= -16 {
			return 1, true
		}
	case xHigh:
		return 1, true
	}
	return 0, false
}

func cmp64(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// compare decides a < b and a == b, if possible.
func (e *emit) compare(a, b any) (lt, eq, known, about bool) {
	if l, ok := b.(xLen); ok {
		if m, ok := a.(xLen); ok {
			m.max = l.max
			if m == l {
				return false, true, true, true
			}
			return false, false, false, true
		}
		if c, ok := a.(xC); ok && l.max > 0 && int64(c) > l.max {
			return false, false, true, true
		}
		// a < (len-start)/s
		y := a
		if l.start != xC(0) {
			y = e.sum(a, l.start)
		}
		if y == nil {
			return false, false, false, a != nil
		}
		side, ok := e.side(y, l.s)
		if !ok {
			return false, false, false, true
		}
		if side <= 0 {
			return true, false, true, true
		}
		return false, false, false, true
	}
	if l, ok := a.(xLen); ok {
		y := b
		if l.start != xC(0) {
			y = e.sum(b, l.start)
		}
		if side, ok := e.side(y, l.s); ok && side <= 0 {
			return false, false, true, true
		}
		return false, false, false, true
	}
	switch w := a.(type) {
	case xC:
		if z, ok := b.(xC); ok {
			return w < z, w == z, true, true
		}
		if z, ok := b.(xRel); ok && e.q < 0 {
			_ = z
			return true, false, w < xSmall, true
		}
		if z, ok := b.(xFar); ok {
			return true, false, int64(w) < e.floor+min(z.d, 0), true
		}
		if _, ok := b.(xHigh); ok {
			return true, false, w < xSmall, true
		}
	case xRel:
		if z, ok := b.(xRel); ok && z.s == w.s {
			return w.off < z.off, w.off == z.off, true, true
		}
		if z, ok := b.(xRel); ok {
			return w.s > z.s, false, true, true
		}
		if z, ok := b.(xFar); ok {
			if side, ok := e.side(z, w.s); ok && (side > 0 || w.off >= 0) {
				return side > 0, false, true, true
			}
		}
		if z, ok := b.(xC); ok && e.q < 0 && z < xSmall {
			return false, false, true, true
		}
	case xFar:
		if z, ok := b.(xFar); ok && z.s == w.s && z.base == w.base && z.mul == w.mul {
			return w.d < z.d, w.d == z.d, true, true
		}
		if z, ok := b.(xRel); ok {
			if side, ok := e.side(w, z.s); ok && (side > 0 || z.off >= 0) {
				return side < 0, false, true, true
			}
		}
		if z, ok := b.(xC); ok && int64(z) < e.floor+min(w.d, 0) {
			return false, false, true, true
		}
	case xHigh:
		if z, ok := b.(xC); ok && z < xSmall {
			return false, false, true, true
		}
	}
	return false, false, false, a != nil && b != nil
}

// --- instructions

func isNum(v any) bool {
	switch v.(type) {
	case xC, xRel, xFar, xHigh, xLen:
		return true
	}
	return false
}

func (e *emit) binop(st *xState, f *xFrame, y *ssa.BinOp) any {
	a, b := e.val(f, y.X), e.val(f, y.Y)
	switch y.Op {
	case token.EQL, token.NEQ:
		for _, p := range [][2]any{{a, b}, {b, a}} {
			if _, ok := p[1].(xNil); !ok {
				continue
			}
			switch p[0].(type) {
			case xNil:
				return xBool(y.Op == token.EQL)
			case xSome, xFn, xPtr:
				return xBool(y.Op == token.NEQ)
			}
			v := y.X
			if k, ok := v.(*ssa.Const); ok && p[0] == nil && k.Value == nil {
				v = y.Y
			}
			if p[0] == nil && isError(v.Type()) {
				return xCond{v, y.Op == token.EQL}
			}
			return nil
		}
		if x, ok := a.(xBool); ok {
			if z, ok := b.(xBool); ok {
				return xBool((x == z) == (y.Op == token.EQL))
			}
		}
		if x, ok := a.(xStr); ok {
			if z, ok := b.(xStr); ok {
				return xBool((x == z) == (y.Op == token.EQL))
			}
		}
		if _, eq, known, _ := e.compare(a, b); known && isNum(a) && isNum(b) {
			return xBool(eq == (y.Op == token.EQL))
		}
		return nil
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isNum(a) || !isNum(b) {
			return nil
		}
		op := y.Op
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		if op == token.LEQ {
			// a <= b is a < b+1
			if _, isLen := b.(xLen); isLen {
				a = e.add(a, -1)
			} else if c, ok := b.(xC); ok {
				b = c + 1
			} else {
				lt, eq, known, _ := e.compare(a, b)
				if known {
					return xBool(lt || eq)
				}
				return nil
			}
		}
		lt, _, known, _ := e.compare(a, b)
		if known {
			return xBool(lt)
		}
		return nil
	}
	if s, ok := a.(xStr); ok {
		if z, ok := b.(xStr); ok && y.Op == token.ADD {
			return s + z
		}
	}
	_, ta := a.(xText)
	_, tb := b.(xText)
	if (ta || tb) && y.Op == token.ADD {
		return joinText(a, b)
	}
	if isElem(a) || isElem(b) {
		return xMod{}
	}
	if !isNum(a) || !isNum(b) {
		return nil
	}
	c, isC := b.(xC)
	switch y.Op {
	case token.ADD:
		return e.sum(a, b)
	case token.SUB:
		return e.sub(a, b)
	case token.MUL:
		if isC {
			return e.mul(a, int64(c))
		}
		if d, ok := a.(xC); ok {
			return e.mul(b, int64(d))
		}
	case token.SHL:
		if isC && c >= 0 && c <= 6 {
			return e.mul(a, 1<<c)
		}
	case token.SHR:
		if isC && c >= 0 && c <= 6 {
			return e.quo(a, 1<<c)
		}
	case token.QUO:
		if isC {
			return e.quo(a, int64(c))
		}
	case token.REM:
		if isC {
			return e.mod(a, int64(c))
		}
	case token.AND_NOT:
		if isC && c >= 0 && c&(c+1) == 0 {
			if m, ok := e.mod(a, int64(c)+1).(xC); ok {
				return e.add(a, -int64(m))
			}
		}
	case token.AND:
		if isC && c&(c+1) == 0 {
			return e.mod(a, int64(c)+1)
		}
	case token.OR:
		if x, ok := a.(xC); ok && isC {
			return x | c
		}
		// block<<6 | j
		if isC && c >= 0 && c < 64 {
			if m := e.mod(a, 64); m == xC(0) {
				return e.add(a, int64(c))
			}
			if w, ok := a.(xFar); ok && w.mul == 64 && w.d%64 == 0 {
				return e.add(a, int64(c))
			}
		}
	}
	return nil
}

func isElem(v any) bool {
	switch v.(type) {
	case xElem, xMod:
		return true
	}
	return false
}

func joinText(vs ...any) any {
	var t xText
	for _, v := range vs {
		switch w := v.(type) {
		case xText:
			t.of = append(t.of, w.of...)
		case xElem, xTab, xMod:
			t.of = append(t.of, w)
		}
	}
	return t
}

func (e *emit) def(st *xState, f *xFrame, v ssa.Value) {
	var r any
	switch y := v.(type) {
	case *ssa.Phi:
		return
	case *ssa.BinOp:
		r = e.binop(st, f, y)
	case *ssa.UnOp:
		x := e.val(f, y.X)
		switch y.Op {
		case token.MUL:
			r = e.load(st, y, x)
		case token.NOT:
			switch b := x.(type) {
			case xBool:
				r = !b
			case xCond:
				b.eq = !b.eq
				r = b
			}
		default:
			if isElem(x) {
				r = xMod{}
			}
		}
	case *ssa.Alloc:
		obj := fmt.Sprintf("%d.%s.%p", len(st.frames), y.Name(), f.fn)
		st.heap[obj] = map[string]any{"": nil}
		if e := zeroOf(y.Type().Underlying().(*types.Pointer).Elem()); e != nil {
			st.heap[obj][""] = e
		}
		r = xPtr{obj: obj}
	case *ssa.FieldAddr:
		if p, ok := e.val(f, y.X).(xPtr); ok {
			r = xPtr{p.obj, fmt.Sprintf("%s.%d", p.path, y.Field)}
		}
	case *ssa.IndexAddr:
		switch p := e.val(f, y.X).(type) {
		case xTab:
			r = xElem{p.tab, e.index(p, e.val(f, y.Index))}
		case xPtr:
			if c, ok := e.val(f, y.Index).(xC); ok {
				r = xPtr{p.obj, fmt.Sprintf("%s[%d]", p.path, c)}
			}
		case xSl:
			if c, ok := e.val(f, y.Index).(xC); ok {
				r = xPtr{p.obj, fmt.Sprintf("[%d]", p.lo+int64(c))}
			}
		}
		if r == nil && isElem(e.val(f, y.Index)) {
			r = xMod{}
		}
	case *ssa.Index, *ssa.Lookup:
		for _, op := range y.(ssa.Instruction).Operands(nil) {
			if w := e.val(f, *op); isElem(w) {
				r = xMod{}
			} else if _, ok := w.(xText); ok {
				r = xMod{}
			}
		}
	case *ssa.Field:
		if a, ok := e.val(f, y.X).(xAgg); ok {
			r = a.f[y.Field]
		}
	case *ssa.Extract:
		if t, ok := e.val(f, y.Tuple).(xTup); ok && y.Index < len(t) {
			r = t[y.Index]
		}
	case *ssa.Convert:
		r = e.val(f, y.X)
		if isNum(r) && !isInt(y.Type()) {
			r = nil
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.MultiConvert, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
		r = e.val(f, *y.(ssa.Instruction).Operands(nil)[0])
		if t, ok := y.(*ssa.TypeAssert); ok && t.CommaOk {
			r = xTup{r, nil}
		}
		if _, ok := y.(*ssa.MakeInterface); ok && r == nil {
			r = xSome{}
			if !isError(y.Type()) {
				r = nil
			}
		}
	case *ssa.MakeClosure:
		fn := y.Fn.(*ssa.Function)
		var b []any
		for _, x := range y.Bindings {
			b = append(b, e.val(f, x))
		}
		r = xFn{fn, b}
	case *ssa.Slice:
		r = e.slice(st, f, y)
	default:
		for _, op := range y.(ssa.Instruction).Operands(nil) {
			if *op != nil && e.tracked(st, e.val(f, *op), 0) {
				e.lose(y.(ssa.Instruction), fmt.Sprintf("%T of an entry", y))
			}
		}
	}
	f.env[v] = r
}

func zeroOf(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return xC(0)
		case u.Info()&types.IsBoolean != 0:
			return xBool(false)
		case u.Info()&types.IsString != 0:
			return xStr("")
		}
	case *types.Interface, *types.Pointer, *types.Signature:
		return xNil{}
	}
	return nil
}

func (e *emit) index(t xTab, i any) any {
	return e.num(e.sum(t.start, i))
}

func (e *emit) slice(st *xState, f *xFrame, y *ssa.Slice) any {
	var lo any = xC(0)
	if y.Low != nil {
		lo = e.val(f, y.Low)
	}
	var hi any
	if y.High != nil {
		hi = e.val(f, y.High)
	}
	switch p := e.val(f, y.X).(type) {
	case xTab:
		start := e.num(e.sum(p.start, lo))
		if start == nil {
			e.loseIf(p, y, "the start of a part of the table")
			return nil
		}
		var n any
		switch {
		case y.High == nil:
			if _, ok := p.n.(xLen); ok {
				n = xLen{s: 1, start: start}
			} else {
				n = e.sub(p.n, lo)
			}
		default:
			if l, ok := hi.(xLen); ok && l.s == 1 && e.sum(p.start, hi) == (xLen{s: 1, start: xC(0)}) {
				n = xLen{s: 1, start: start}
				if lo == xC(0) {
					n = xLen{s: 1, start: start, max: l.max}
				}
				break
			} else if ok && l.s == 1 && p.start == xC(0) && l.start == xC(0) {
				n = xLen{s: 1, start: start}
				break
			}
			n = e.sub(hi, lo)
		}
		if n == nil {
			e.loseIf(p, y, "the end of a part of the table")
			return nil
		}
		return xTab{p.tab, start, n}
	case xPtr:
		if a, ok := y.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := a.Elem().Underlying().(*types.Array); ok && p.path == "" {
				l, ok1 := lo.(xC)
				h, ok2 := hi.(xC)
				if y.High == nil {
					h, ok2 = xC(arr.Len()), true
				}
				if ok1 && ok2 {
					return xSl{p.obj, int64(l), int64(h - l)}
				}
			}
		}
	case xSl:
		l, ok1 := lo.(xC)
		h, ok2 := hi.(xC)
		if y.High == nil {
			h, ok2 = xC(p.n), true
		}
		if ok1 && ok2 {
			return xSl{p.obj, p.lo + int64(l), int64(h - l)}
		}
		if e.tracked(st, p, 0) {
			e.lose(y, "part of a list of entries")
		}
	case xText:
		e.lose(y, "part of an entry's text")
	case xStr:
		return nil
	}
	return nil
}

func (e *emit) loseIf(t xTab, ins ssa.Instruction, why string) {
	if t.tab == e.tab {
		e.lose(ins, why)
	}
}

func (e *emit) load(st *xState, at *ssa.UnOp, p any) any {
	switch w := p.(type) {
	case xElem: // the address of an entry
		return w
	case xMod:
		return w
	case xPtr:
		if g, ok := strings.CutPrefix(w.obj, "global "); ok {
			if g == "os.Stderr" || g == "os.Stdout" {
				return xStd{}
			}
			if isError(at.Type()) && len(st.heap[w.obj]) == 0 {
				return xSome{}
			}
		}
		m := st.heap[w.obj]
		if v, ok := m[w.path]; ok && v != nil {
			return v
		}
		// a struct read as a whole
		var agg xAgg
		for p, v := range m {
			if rest, ok := strings.CutPrefix(p, w.path+"."); ok && v != nil {
				var i int
				if n, _ := fmt.Sscanf(rest, "%d", &i); n == 1 && fmt.Sprint(i) == rest {
					if agg.f == nil {
						agg.f = map[int]any{}
					}
					agg.f[i] = v
				} else if e.tracked(st, v, 0) {
					e.lose(at, "nested structures")
				}
			}
		}
		if agg.f != nil {
			return agg
		}
		// a part of what was stored as a whole
		if i := strings.LastIndex(w.path, "."); i >= 0 {
			if a, ok := m[w.path[:i]].(xAgg); ok {
				var k int
				fmt.Sscanf(w.path[i+1:], "%d", &k)
				return a.f[k]
			}
		}
		if m != nil && m[w.path] == nil {
			if _, has := m[w.path]; !has {
				return zeroOf(at.Type())
			}
		}
	}
	return nil
}

func (e *emit) store(st *xState, at *ssa.Store, p, v any) {
	if c, ok := v.(xC); ok && (int64(c) > e.k()+200 || c > xSmall && e.q < 0) {
		if _, lit := at.Val.(*ssa.Const); !lit {
			v = nil
		}
	}
	switch w := p.(type) {
	case xPtr:
		if strings.HasPrefix(w.obj, "global ") && e.tracked(st, v, 0) {
			e.lose(at, "a table in a global variable")
		}
		m := st.heap[w.obj]
		if m == nil {
			m = map[string]any{}
			st.heap[w.obj] = m
		}
		for q := range m {
			if q != w.path && strings.HasPrefix(q, w.path+".") {
				delete(m, q)
			}
		}
		if i := strings.LastIndex(w.path, "."); i >= 0 {
			if a, ok := m[w.path[:i]].(xAgg); ok {
				delete(m, w.path[:i])
				for k, x := range a.f {
					m[fmt.Sprintf("%s.%d", w.path[:i], k)] = x
				}
			}
		}
		if a, ok := v.(xAgg); ok && w.path == "" {
			delete(m, "")
			for k, x := range a.f {
				m[fmt.Sprintf(".%d", k)] = x
			}
			return
		}
		m[w.path] = v
		if v == nil {
			// not the zero value
			m[w.path] = nil
		}
	case xElem:
		if w.tab == e.tab {
			e.lose(at, "an entry is changed")
		}
	default:
		if e.tracked(st, v, 0) {
			e.lose(at, "an entry is kept")
		}
	}
}

// --- control

// blur forgets counters that are compared with something unknown.
func (e *emit) blur(f *xFrame, cond ssa.Value) {
	y, ok := cond.(*ssa.BinOp)
	if !ok {
		return
	}
	a, b := y.X, y.Y
	if e.val(f, a) != nil {
		a, b = b, a
	}
	if e.val(f, a) != nil || !isNum(e.val(f, b)) {
		return
	}
	for b != nil {
		if _, ok := b.(*ssa.Const); ok {
			return
		}
		f.env[b] = nil
		z, ok := b.(*ssa.BinOp)
		if !ok || z.Op != token.ADD && z.Op != token.SUB {
			return
		}
		b = z.X
		if _, ok := b.(*ssa.Const); ok {
			b = z.Y
		}
	}
}

func (e *emit) branch(st *xState, v *ssa.If) []*xState {
	f := st.top()
	c := e.val(f, v.Cond)
	var out []*xState
	go_ := func(s *xState, i int) {
		t := s.top()
		if o, ok := e.enter(s, t.b.Succs[i]); ok {
			out = append(out, s)
		} else {
			out = append(out, o...)
		}
	}
	switch w := c.(type) {
	case xBool:
		if w {
			go_(st, 0)
		} else {
			go_(st, 1)
		}
		return out
	case xCond:
		// what happens when something fails is not looked at
		f.env[w.v] = xNil{}
		if w.eq {
			go_(st, 0)
		} else {
			go_(st, 1)
		}
		return out
	}
	e.blur(f, v.Cond)
	st.at = e.pos(v)
	if st.at == "-" || st.at == "" {
		if p, ok := v.Cond.(ssa.Instruction); ok {
			st.at = e.pos(p)
		}
	}
	st.in = f.fn.String()
	s := st.fork()
	go_(st, 0)
	go_(s, 1)
	return out
}

// enter goes to a block. It reports false if the state was forked or is known.
func (e *emit) enter(st *xState, b *ssa.BasicBlock) ([]*xState, bool) {
	f := st.top()
	from := f.b
	i := 0
	for j, p := range b.Preds {
		if p == from {
			i = j
		}
	}
	var phis []*ssa.Phi
	var vals []any
	for _, ins := range b.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, ph)
			vals = append(vals, e.val(f, ph.Edges[i]))
		} else {
			break
		}
	}
	live := (*drive)(nil).live(f.fn, b)
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	for j, ph := range phis {
		f.env[ph] = vals[j]
	}
	f.b, f.ip = b, len(phis)
	if len(b.Preds) < 2 {
		return nil, true
	}
	// Numbers that grow.
	for j, ph := range phis {
		if _, lit := ph.Edges[i].(*ssa.Const); lit {
			continue
		}
		if outs := e.widen(st, vals[j], e.bound(ph), ph.Name(), func(s *xState, v any) { s.top().env[ph] = v }); outs != nil {
			var keep []*xState
			for _, s := range outs {
				if e.fresh(s) {
					keep = append(keep, s)
				}
			}
			return keep, false
		}
	}
	if !e.fresh(st) {
		return nil, false
	}
	return nil, true
}

func (e *emit) fresh(st *xState) bool {
	k := sha1.Sum([]byte(e.key(st)))
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	return true
}

// bound is the number up to which a counter is known exactly: higher if others
// are multiplied, and these can be what it starts from.
func (e *emit) bound(ph *ssa.Phi) int64 {
	if len(e.scales) == 1 {
		return xSmall
	}
	seen := map[ssa.Value]bool{}
	var multiplied func(v ssa.Value) bool
	multiplied = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ins := range *v.Referrers() {
			switch y := ins.(type) {
			case *ssa.BinOp:
				switch y.Op {
				case token.MUL:
					return true
				case token.SHL:
					if y.X == v {
						return true
					}
				case token.ADD, token.SUB:
					if multiplied(y) {
						return true
					}
				}
			case *ssa.Phi:
				if multiplied(y) {
					return true
				}
			case *ssa.Call:
				return true
			}
		}
		return false
	}
	if multiplied(ph) {
		return 24
	}
	return 26 * e.scales[len(e.scales)-1]
}

// widen decides where a number that has grown is, if needed.
func (e *emit) widen(st *xState, v any, bound int64, name string, set func(*xState, any)) []*xState {
	if e.q >= 0 {
		return nil
	}
	switch w := v.(type) {
	case xC:
		if int64(w) <= bound {
			return nil
		}
		if int64(w) > 2*bound+xStep {
			set(st, nil)
			return nil
		}
		n := st.fork()
		far := xFar{s: e.scales[len(e.scales)-1], mul: 1, r: int64(w) % 64, base: fmt.Sprintf("%s.%d", name, len(st.frames))}
		e.together(n, int64(w), far)
		set(n, far)
		return []*xState{n}
	case xFar:
		s := w.s * w.mul
		step := max(xStep/s, 1)
		d := floorDiv(w.d, w.mul) / step * step
		if d < step {
			return nil
		}
		var out []*xState
		// the base is d higher, and still far below
		n := st.fork()
		e.rebase(n, w.base, func(x xFar) any {
			x.d -= x.mul * d
			x.r = shift(x.r, d)
			return x
		})
		out = append(out, n)
		for off := -limit(s); off < -limit(s)+d; off++ {
			if m := 64 / s; w.r >= 0 && ((w.r+d-off-e.rem/s)%m+m)%m != 0 {
				continue
			}
			n := st.fork()
			// base + d = k/s + off
			e.rebase(n, w.base, func(x xFar) any {
				if x.s*x.mul != s {
					return nil
				}
				return e.rel(x.s, x.mul*(off-d)+x.d-(e.rem%s)/x.s, shift(w.r, (x.mul-1)*max(w.r, 0)+x.d))
			})
			out = append(out, n)
		}
		return out
	}
	return nil
}

// together makes the counters near a number that has grown relative to it.
func (e *emit) together(st *xState, from int64, far xFar) {
	move := func(v any) any {
		if c, ok := v.(xC); ok && int64(c) > from/2 {
			far.d = int64(c) - from
			return far
		}
		return v
	}
	var counts func(i int, v ssa.Value) bool
	counts = func(i int, v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Phi, *ssa.BinOp:
			return true
		case *ssa.Parameter:
			if i == 0 || st.frames[i-1].call == nil {
				return false
			}
			args := st.frames[i-1].call.Common().Args
			for j, p := range y.Parent().Params {
				if p == y && j < len(args) {
					return counts(i-1, args[j])
				}
			}
		}
		return false
	}
	for i, f := range st.frames {
		f.pos = move(f.pos)
		for v, x := range f.env {
			if _, ok := x.(xC); ok && counts(i, v) {
				f.env[v] = move(x)
			}
		}
	}
}

// rebase replaces all numbers with the given base.
func (e *emit) rebase(st *xState, base string, to func(xFar) any) {
	var m func(v any, depth int) any
	m = func(v any, depth int) any {
		if depth > 5 {
			return v
		}
		switch w := v.(type) {
		case xFar:
			if w.base == base {
				return to(w)
			}
		case xLen:
			w.start = m(w.start, depth+1)
			if w.start == nil {
				return nil
			}
			return w
		case xTab:
			w.start, w.n = m(w.start, depth+1), m(w.n, depth+1)
			return w
		case xElem:
			w.idx = m(w.idx, depth+1)
			return w
		case xText:
			var t xText
			for _, x := range w.of {
				t.of = append(t.of, m(x, depth+1))
			}
			return t
		case xTup:
			var t xTup
			for _, x := range w {
				t = append(t, m(x, depth+1))
			}
			return t
		case xAgg:
			f := map[int]any{}
			for k, x := range w.f {
				f[k] = m(x, depth+1)
			}
			return xAgg{f}
		case xFn:
			var b []any
			for _, x := range w.binds {
				b = append(b, m(x, depth+1))
			}
			return xFn{w.fn, b}
		case xIter:
			w.t = m(w.t, depth+1).(xTab)
			return w
		}
		return v
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = m(v, 0)
		}
		var b []any
		for _, v := range f.binds {
			b = append(b, m(v, 0))
		}
		f.binds = b
		f.pos = m(f.pos, 0)
	}
	for _, c := range st.heap {
		for k, v := range c {
			c[k] = m(v, 0)
		}
	}
}

func (e *emit) key(st *xState) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v%s;", st.written, st.writer)
	reach := map[string]bool{}
	var mark func(v any, depth int)
	mark = func(v any, depth int) {
		if depth > 6 {
			return
		}
		switch w := v.(type) {
		case xPtr:
			if !reach[w.obj] {
				reach[w.obj] = true
				for _, x := range st.heap[w.obj] {
					mark(x, depth+1)
				}
			}
		case xSl:
			mark(xPtr{obj: w.obj}, depth)
		case xFn:
			for _, x := range w.binds {
				mark(x, depth+1)
			}
		case xAgg:
			for _, x := range w.f {
				mark(x, depth+1)
			}
		case xTup:
			for _, x := range w {
				mark(x, depth+1)
			}
		}
	}
	for _, f := range st.frames {
		if f.it != nil {
			fmt.Fprintf(&b, "it %v %v %v{", *f.it, f.pos, f.f)
		} else {
			fmt.Fprintf(&b, "%p.%d.%d{", f.fn, f.b.Index, f.ip)
		}
		mark(f.f, 0)
		ks := make([]string, 0, len(f.env))
		for v, w := range f.env {
			if w != nil {
				mark(w, 0)
				ks = append(ks, fmt.Sprintf("%s=%T%v", v.Name(), w, w))
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		for _, w := range f.binds {
			mark(w, 0)
			fmt.Fprintf(&b, ",%T%v", w, w)
		}
	}
	for _, o := range sortedKeys(st.heap) {
		if !reach[o] {
			if !strings.HasPrefix(o, "global ") {
				delete(st.heap, o)
			}
			continue
		}
		for _, p := range sortedKeys(st.heap[o]) {
			fmt.Fprintf(&b, "%s%s=%T%v;", o, p, st.heap[o][p], st.heap[o][p])
		}
	}
	return b.String()
}

// ret returns from a function; it reports whether the program ends.
func (e *emit) ret(st *xState, vals []any) bool {
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		e.judge(st)
		return true
	}
	f := st.top()
	if f.it != nil {
		go_on, ok := vals[0].(xBool)
		if ok && !bool(go_on) {
			e.endIter(st)
			return false
		}
		if !ok {
			panic(xLost{"a loop that may end early"})
		}
		f.pos = e.num(e.sum(f.pos, xC(f.it.c)))
		return false
	}
	if v := f.call.Value(); v != nil {
		switch len(vals) {
		case 0:
		case 1:
			f.env[v] = vals[0]
		default:
			f.env[v] = xTup(vals)
		}
	}
	return false
}

func (e *emit) endIter(st *xState) {
	st.frames = st.frames[:len(st.frames)-1]
}

// iterate makes the next step of an iterator of the standard library.
func (e *emit) iterate(st *xState) []*xState {
	f := st.top()
	if outs := e.widen(st, f.pos, xSmall, "iter", func(s *xState, v any) { s.top().pos = v }); outs != nil {
		return outs
	}
	if !e.fresh(st) {
		return nil
	}
	t := f.it.t
	lt, _, known, _ := e.compare(f.pos, t.n)
	var out []*xState
	if !known || !lt {
		s := st.fork()
		e.endIter(s)
		out = append(out, s)
	}
	if !known || lt {
		var args []any
		switch f.it.kind {
		case "Chunk":
			start := e.num(e.sum(t.start, f.pos))
			// The last chunk can be shorter.
			if start == nil {
				panic(xLost{"the position of a part"})
			}
			var n any = xC(f.it.c)
			if _, ok := t.n.(xLen); !ok {
				panic(xLost{"parts of a part"})
			}
			if lt, _, known, _ := e.compare(e.add(f.pos, f.it.c-1), t.n); !known || !lt {
				s := st.fork()
				e.push(s, nil, f.f.(xFn), []any{xTab{t.tab, start, xLen{s: 1, start: start, max: f.it.c - 1}}})
				out = append(out, s)
			}
			args = []any{xTab{t.tab, start, n}}
		case "All":
			args = []any{f.pos, xElem{t.tab, e.index(t, f.pos)}}
		case "Values":
			args = []any{xElem{t.tab, e.index(t, f.pos)}}
		}
		e.push(st, nil, f.f.(xFn), args)
		out = append(out, st)
	}
	return out
}

func (e *emit) push(st *xState, call ssa.CallInstruction, fn xFn, args []any) {
	if len(st.frames) > 20 {
		panic(xLost{"calls are nested deeply"})
	}
	for _, f := range st.frames {
		if f.fn == fn.fn && f.fn != nil {
			panic(xLost{"recursion in " + fn.fn.String()})
		}
	}
	st.top().call = call
	f := &xFrame{fn: fn.fn, env: map[ssa.Value]any{}, b: fn.fn.Blocks[0], binds: fn.binds}
	for i, p := range fn.fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	st.frames = append(st.frames, f)
}

// --- calls

func (e *emit) call(st *xState, f *xFrame, v *ssa.Call) ([]*xState, bool) {
	var args []any
	any_ := false
	com := v.Common()
	for _, a := range com.Args {
		w := e.val(f, a)
		args = append(args, w)
		any_ = any_ || e.tracked(st, w, 0)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return e.builtin(st, f, v, b.Name(), args)
	}
	if com.IsInvoke() {
		recv := e.val(f, com.Value)
		if e.tracked(st, recv, 0) {
			if p, ok := recv.(xPtr); ok {
				_ = p
			}
			e.lose(v, "a method of an unknown type is called")
		}
		e.consume(st, v, recv, args)
		f.env[v] = e.unknown(v)
		return nil, true
	}
	fnv := e.val(f, com.Value)
	if it, ok := fnv.(xIter); ok && len(args) == 1 {
		y, ok := args[0].(xFn)
		if !ok || len(y.fn.Blocks) == 0 {
			e.lose(v, "an iterator")
		}
		f.call = v
		st.frames = append(st.frames, &xFrame{it: &it, pos: xC(0), f: y, env: map[ssa.Value]any{}})
		return []*xState{st}, false
	}
	fn, ok := fnv.(xFn)
	if !ok {
		if any_ {
			e.lose(v, "an unknown function is given an entry")
		}
		f.env[v] = e.unknown(v)
		return nil, true
	}
	name := fnName(fn.fn)
	path := fnPkgPath(fn.fn)
	if e.c.own(path) && len(fn.fn.Blocks) > 0 {
		if !any_ && !e.tracked(st, fn, 0) {
			if strings.HasSuffix(path, "/gentable") {
				f.env[v] = e.source(st, fn.fn, v)
				return nil, true
			}
			if path != fnPkgPath(e.u.main) {
				f.env[v] = e.unknown(v)
				return nil, true
			}
		}
		e.push(st, v, fn, args)
		return nil, true
	}
	switch {
	case name == "os.Exit":
		if c, ok := args[0].(xC); !ok || c&0xff == 0 {
			e.judge(st)
		}
		return nil, false
	case strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"), name == "runtime.Goexit":
		return nil, false
	case path == "log", name == "fmt.Print", name == "fmt.Printf", name == "fmt.Println":
		f.env[v] = e.unknown(v)
	case name == "fmt.Errorf", name == "errors.New":
		f.env[v] = xSome{}
	case name == "fmt.Sprint", name == "fmt.Sprintf", name == "fmt.Sprintln", path == "strconv" && (strings.HasPrefix(fn.fn.Name(), "Format") || fn.fn.Name() == "Itoa" || fn.fn.Name() == "Quote"):
		t := joinText(e.flat(st, args)...).(xText)
		if len(t.of) > 0 {
			f.env[v] = t
		} else {
			f.env[v] = e.unknown(v)
		}
	case path == "fmt" || path == "strconv" && strings.HasPrefix(fn.fn.Name(), "Append"):
		if _, std := args[0].(xStd); !std {
			e.consume(st, v, args[0], args[1:])
		}
		f.env[v] = e.unknown(v)
	case path == "slices" && any_:
		e.slices(st, f, v, fn.fn, args)
	case (path == "strings" || path == "bytes") && fn.fn.Signature.Recv() == nil && any_:
		t := joinText(args...).(xText)
		if len(t.of) == 0 {
			e.lose(v, "an entry in a list")
		}
		f.env[v] = nil
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			f.env[v] = t
		} else if _, ok := v.Type().Underlying().(*types.Slice); ok {
			f.env[v] = t
		}
	default:
		if any_ {
			var recv any
			rest := args
			if fn.fn.Signature.Recv() != nil {
				recv, rest = args[0], args[1:]
			}
			e.consume(st, v, recv, rest)
		}
		f.env[v] = e.unknown(v)
	}
	return nil, true
}

func (e *emit) slices(st *xState, f *xFrame, v *ssa.Call, fn *ssa.Function, args []any) {
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	t, isTab := args[0].(xTab)
	switch {
	case isTab && name == "Clone":
		f.env[v] = t
	case isTab && (name == "All" || name == "Values"):
		f.env[v] = xIter{name, t, 1}
	case isTab && name == "Chunk":
		c, ok := args[1].(xC)
		if !ok || c <= 0 || c > 64 {
			e.lose(v, "parts of unknown length")
		}
		f.env[v] = xIter{name, t, int64(c)}
	case isTab && (name == "Max" || name == "Min" || name == "MaxFunc" || name == "MinFunc" || name == "Contains" || name == "ContainsFunc" || name == "Index" || name == "IndexFunc" || name == "Equal" || name == "IsSorted" || name == "BinarySearch"):
		f.env[v] = e.unknown(v)
	default:
		e.lose(v, "slices."+name)
	}
}

func (e *emit) flat(st *xState, args []any) []any {
	var out []any
	for _, a := range args {
		if s, ok := a.(xSl); ok {
			for i := range s.n {
				out = append(out, st.heap[s.obj][fmt.Sprintf("[%d]", s.lo+i)])
			}
			continue
		}
		out = append(out, a)
	}
	return out
}

func (e *emit) unknown(v *ssa.Call) any {
	return nil
}

// consume is the writing of arguments.
func (e *emit) consume(st *xState, at ssa.Instruction, w any, args []any) {
	who := ""
	if p, ok := w.(xPtr); ok {
		who = p.obj + p.path
	}
	for _, a := range e.flat(st, args) {
		switch x := a.(type) {
		case xText:
			for _, y := range x.of {
				e.wrote(st, at, who, y)
			}
		case xElem, xTab, xMod:
			e.wrote(st, at, who, x)
		default:
			if e.tracked(st, a, 0) {
				e.lose(at, "a table is handed out in a structure")
			}
		}
	}
}

func (e *emit) wrote(st *xState, at ssa.Instruction, who string, v any) {
	var side int
	var ok bool
	switch x := v.(type) {
	case xElem:
		if x.tab != e.tab {
			return
		}
		side, ok = e.side(x.idx, 1)
	case xTab:
		if x.tab != e.tab {
			return
		}
		a, ok1 := e.side(x.start, 1)
		if ok1 && a <= 0 {
			if _, toEnd := x.n.(xLen); toEnd {
				side, ok = 0, true
			} else if end := e.sum(x.start, x.n); end != nil {
				if b, ok2 := e.side(end, 1); ok2 {
					side, ok = -1, true
					if b > 0 {
						side = 0
					}
				}
			}
		} else if ok1 {
			side, ok = 1, true
		}
	}
	if !ok {
		e.lose(at, "an entry is written in a form or order that is not followed")
	}
	p := e.pos(at)
	if e.writes[e.tab] == nil {
		e.writes[e.tab] = map[string]bool{}
	}
	e.writes[e.tab][p] = true
	fn := at.Parent().String()
	if side != 0 && st.written == (side > 0) {
		return
	}
	if e.lax || st.written && st.writer != who {
		e.lose(at, "entries with their numbers, or in several places")
	}
	switch {
	case side == 0 && st.written:
		e.r.Fail("twice", fn+"|"+e.tab, p, "%s: an entry of %s may be written twice%s", fn, e.tab, e.which())
	case side == 0:
		st.written, st.writer, st.wroteAt = true, who, p
		return
	case side < 0:
		e.r.Fail("order", fn+"|"+e.tab, p, "%s: an entry of %s may be written again or after a later one%s", fn, e.tab, e.which())
	default:
		e.r.Fail("left-out", fn+"|"+e.tab, p, "%s: an entry of %s may be left out, or written after a later one%s", fn, e.tab, e.which())
	}
	panic(xLost{"a violation"})
}

func (e *emit) which() string {
	if e.q >= 0 {
		return fmt.Sprintf(" (entry %d)", e.k())
	}
	return fmt.Sprintf(" (entry %d of a block)", e.rem)
}

func (e *emit) judge(st *xState) {
	if e.tab == "?" {
		return
	}
	e.judged++
	if st.written {
		return
	}
	if e.lax {
		e.notes["entries with their numbers"] = true
		return
	}
	e.r.Fail("left-out", e.tab, st.at, "an entry of %s may never be written%s (last decision in %s)", e.tab, e.which(), st.in)
}

// source is the result of the builder.
func (e *emit) source(st *xState, fn *ssa.Function, v *ssa.Call) any {
	tab := func(name string, t types.Type) any {
		s, ok := t.Underlying().(*types.Slice)
		if !ok || !isInt(s.Elem()) {
			return nil
		}
		e.tables[name] = true
		if name != e.tab {
			return nil
		}
		return xTab{name, xC(0), xLen{s: 1, start: xC(0)}}
	}
	one := func(i int, t types.Type) any {
		if isError(t) {
			return xNil{}
		}
		ptr := false
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t, ptr = p.Elem(), true
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			agg := xAgg{map[int]any{}}
			for j := range s.NumFields() {
				if x := tab(s.Field(j).Name(), s.Field(j).Type()); x != nil {
					agg.f[j] = x
				}
			}
			if len(agg.f) == 0 {
				return nil
			}
			if !ptr {
				return agg
			}
			obj := fmt.Sprintf("built %d", i)
			st.heap[obj] = map[string]any{}
			for j, x := range agg.f {
				st.heap[obj][fmt.Sprintf(".%d", j)] = x
			}
			return xPtr{obj: obj}
		}
		return tab(fmt.Sprintf("result %d of %s", i, fn.Name()), t)
	}
	res := fn.Signature.Results()
	if res.Len() == 1 {
		return one(0, res.At(0).Type())
	}
	var t xTup
	for i := range res.Len() {
		t = append(t, one(i, res.At(i).Type()))
	}
	return t
}

func (e *emit) builtin(st *xState, f *xFrame, v *ssa.Call, name string, args []any) ([]*xState, bool) {
	var r any
	switch name {
	case "len":
		switch w := args[0].(type) {
		case xTab:
			r = w.n
		case xSl:
			r = xC(w.n)
		case xStr:
			r = xC(len(w))
		}
	case "append":
		for i, a := range args[1:] {
			switch a.(type) {
			case xText:
				e.consume(st, v, nil, []any{a})
			case nil:
			default:
				if e.tracked(st, a, 0) {
					_ = i
					if s, ok := a.(xSl); ok {
						all := true
						for _, x := range e.flat(st, []any{s}) {
							if _, isText := x.(xText); !isText && e.tracked(st, x, 0) {
								all = false
							}
						}
						if all {
							e.consume(st, v, nil, []any{s})
							continue
						}
					}
					e.lose(v, "a list of entries is made")
				}
			}
		}
	case "copy", "clear":
		for _, a := range args {
			if e.tracked(st, a, 0) {
				e.lose(v, name+" of a table")
			}
		}
	case "min", "max":
		if len(args) != 2 {
			break
		}
		a, b := args[0], args[1]
		if !isNum(a) || !isNum(b) {
			break
		}
		if name == "max" {
			a, b = b, a
		}
		lt, eq, known, _ := e.compare(a, b)
		if !known {
			if le, _, k2, _ := e.compare(e.add(a, -1), b); k2 && le {
				lt, known = true, true
			} else if le, _, k2, _ := e.compare(b, a); k2 {
				lt, known = !le, true
			}
		}
		if known {
			r = b
			if lt || eq {
				r = a
			}
			break
		}
		s := st.fork()
		f.env[v] = a
		s.top().env[v] = b
		if l, ok := a.(xLen); ok && name == "min" {
			if c, ok := b.(xC); ok && c > 1 && (l.max == 0 || l.max >= int64(c)) {
				l.max = int64(c) - 1
				f.env[v] = l
			}
		}
		if l, ok := b.(xLen); ok && name == "min" {
			if c, ok := a.(xC); ok && c > 1 && (l.max == 0 || l.max >= int64(c)) {
				l.max = int64(c) - 1
				s.top().env[v] = l
			}
		}
		return []*xState{st, s}, false
	default:
		r = nil
	}
	f.env[v] = r
	return nil, true
}

func constInt(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return constant.Int64Val(k.Value)
	}
	return 0, false
}
