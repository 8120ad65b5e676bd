package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ival is a set of consecutive integers. Bounds saturate.
type ival struct {
	lo, hi int64
	bot    bool // no value at all
}

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

// maxLen bounds the length of anything held in memory by the generator: no
// more than one block of 64 entries for each 64 of the 1114112 code points,
// and the data files themselves are smaller than this.
const maxLen = 1<<21 - 1

func (a ival) join(b ival) ival {
	if a.bot {
		return b
	}
	if b.bot {
		return a
	}
	return ival{lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}
}

func (a ival) meet(b ival) ival {
	if a.bot || b.bot {
		return ival{bot: true}
	}
	r := ival{lo: max(a.lo, b.lo), hi: min(a.hi, b.hi)}
	if r.lo > r.hi {
		r.bot = true
	}
	return r
}

func (a ival) in(b ival) bool { return a.bot || !b.bot && a.lo >= b.lo && a.hi <= b.hi }

func sadd(a, b int64) int64 {
	switch {
	case a == negInf || b == negInf:
		return negInf
	case a == posInf || b == posInf:
		return posInf
	}
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return posInf
	}
	if a < 0 && b < 0 && c >= 0 {
		return negInf
	}
	return c
}

func sneg(a int64) int64 {
	switch a {
	case negInf:
		return posInf
	case posInf:
		return negInf
	}
	return -a
}

func smul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	if a == negInf || b == negInf || a == posInf || b == posInf {
		if neg {
			return negInf
		}
		return posInf
	}
	hi, lo := bits.Mul64(uint64(max(a, -a)), uint64(max(b, -b)))
	if hi != 0 || lo > math.MaxInt64 {
		if neg {
			return negInf
		}
		return posInf
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

// typeIval is the range of an integer type; ok is false for other types.
func typeIval(t types.Type) (ival, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return ival{}, false
	}
	switch b.Kind() {
	case types.Int8:
		return ival{lo: math.MinInt8, hi: math.MaxInt8}, true
	case types.Int16:
		return ival{lo: math.MinInt16, hi: math.MaxInt16}, true
	case types.Int32, types.UntypedRune:
		return ival{lo: math.MinInt32, hi: math.MaxInt32}, true
	case types.Uint8:
		return ival{lo: 0, hi: math.MaxUint8}, true
	case types.Uint16:
		return ival{lo: 0, hi: math.MaxUint16}, true
	case types.Uint32:
		return ival{lo: 0, hi: math.MaxUint32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ival{lo: 0, hi: posInf}, true
	}
	return ival{lo: negInf, hi: posInf}, true
}

// intBits is the size of an integer type.
func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// ranges is a flow-sensitive interval analysis of a whole program: one range
// for each integer value of the SSA form and for each kind of memory cell
// (local, field, map value, element), with the conditions that hold at a use
// taken into account there.
type ranges struct {
	e      *Effects
	fns    []*ssa.Function
	vals   map[ssa.Value]ival
	cells  map[string]ival
	next   map[string]ival // cells being computed
	open   map[string]bool // cells that unknown code may write
	bind   map[*ssa.FreeVar][]ssa.Value
	calls  map[*ssa.Function][]ssa.CallInstruction
	anyArg map[*ssa.Function]bool // may be called by unknown code
	rets   map[*ssa.Function][]*ssa.Return
	thr    []int64
	dead   map[*ssa.BasicBlock]bool            // control does not pass their end
	idom   map[*ssa.BasicBlock]*ssa.BasicBlock // with that taken into account
	preds  map[*ssa.BasicBlock][]*ssa.BasicBlock
	ends   map[*ssa.Function]int
}

func newRanges(e *Effects) *ranges {
	x := &ranges{e: e, vals: map[ssa.Value]ival{}, cells: map[string]ival{}, open: map[string]bool{}, bind: map[*ssa.FreeVar][]ssa.Value{},
		calls: map[*ssa.Function][]ssa.CallInstruction{}, anyArg: map[*ssa.Function]bool{}, rets: map[*ssa.Function][]*ssa.Return{},
		dead: map[*ssa.BasicBlock]bool{}, idom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, preds: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, ends: map[*ssa.Function]int{}}
	for fn := range e.Live {
		if len(fn.Blocks) > 0 {
			x.fns = append(x.fns, fn)
		}
	}
	for _, fn := range e.Roots {
		x.anyArg[fn] = true
	}
	for _, fn := range x.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x.scan(ins)
			}
		}
	}
	for _, fn := range x.fns {
		x.flow(fn)
	}
	x.solve()
	return x
}

// never reports whether a function does not return.
func (x *ranges) never(f *ssa.Function) bool {
	if exits(f) {
		return true
	}
	if !x.e.c.own(fnPkgPath(f)) || len(f.Blocks) == 0 {
		return false
	}
	switch x.ends[f] {
	case 1, 2:
		return x.ends[f] == 2
	}
	x.ends[f] = 1
	// Some return is reachable?
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if x.stops(b) {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		work = append(work, b.Succs...)
	}
	x.ends[f] = 2
	return true
}

func (x *ranges) stops(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		if call, ok := ins.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && x.never(f) {
				return true
			}
		}
	}
	return false
}

// flow computes predecessors and dominators without the paths that go on
// after the end of the program.
func (x *ranges) flow(fn *ssa.Function) {
	var order []*ssa.BasicBlock // postorder
	num := map[*ssa.BasicBlock]int{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		num[b] = -1
		if x.stops(b) {
			x.dead[b] = true
		} else {
			for _, s := range b.Succs {
				x.preds[s] = append(x.preds[s], b)
				if _, ok := num[s]; !ok {
					walk(s)
				}
			}
		}
		num[b] = len(order)
		order = append(order, b)
	}
	root := fn.Blocks[0]
	walk(root)
	x.idom[root] = root
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			b := order[i]
			if b == root {
				continue
			}
			var n *ssa.BasicBlock
			for _, p := range x.preds[b] {
				if x.idom[p] == nil {
					continue
				}
				if n == nil {
					n = p
					continue
				}
				q := p
				for n != q {
					for num[n] < num[q] {
						n = x.idom[n]
					}
					for num[q] < num[n] {
						q = x.idom[q]
					}
				}
			}
			if x.idom[b] != n {
				x.idom[b] = n
				changed = true
			}
		}
	}
	x.idom[root] = nil
}

// dominates is dominance without the paths past the end of the program.
func (x *ranges) dominates(a, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = x.idom[d] {
		if d == a {
			return true
		}
	}
	return false
}

// scan collects the program's structure.
func (x *ranges) scan(ins ssa.Instruction) {
	switch y := ins.(type) {
	case *ssa.MakeClosure:
		fn := y.Fn.(*ssa.Function)
		for i, fv := range fn.FreeVars {
			x.bind[fv] = append(x.bind[fv], y.Bindings[i])
		}
	case *ssa.Return:
		x.rets[ins.Parent()] = append(x.rets[ins.Parent()], y)
	case *ssa.Store:
		x.escape(y.Val)
		return
	}
	if call, ok := ins.(ssa.CallInstruction); ok {
		com := call.Common()
		ts := x.e.targets(call)
		known := len(ts) > 0
		for _, t := range ts {
			if x.e.Live[t] && len(t.Blocks) > 0 {
				x.calls[t] = append(x.calls[t], call)
			} else {
				known = false
			}
		}
		_, builtin := com.Value.(*ssa.Builtin)
		for _, a := range com.Args {
			if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
				x.escape(a)
			}
			if !known && !builtin {
				if f := funcOf(a); f != nil {
					x.anyArg[f] = true
				}
				if s, ok := a.Type().Underlying().(*types.Slice); ok {
					if k := elemKey(s.Elem()); k != "" && !x.readsOnly(ts) {
						x.open[k] = true
					}
				}
			}
		}
	} else if mi, ok := ins.(*ssa.MakeInterface); ok {
		x.escape(mi.X)
		if f := funcOf(mi.X); f != nil {
			x.anyArg[f] = true
		}
	}
}

// readsOnly reports whether the functions do not write to slices given to
// them.
func (x *ranges) readsOnly(ts []*ssa.Function) bool {
	for _, t := range ts {
		switch fnPkgPath(t) {
		case "fmt", "strconv", "sort", "slices", "maps", "cmp":
		default:
			return false
		}
	}
	return len(ts) > 0
}

func funcOf(v ssa.Value) *ssa.Function {
	switch y := v.(type) {
	case *ssa.Function:
		return y
	case *ssa.MakeClosure:
		return y.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(y.X)
	case *ssa.MakeInterface:
		return funcOf(y.X)
	}
	return nil
}

// escape marks the cell an address leads to as written by unknown code.
func (x *ranges) escape(v ssa.Value) {
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if _, isInt := typeIval(p.Elem()); !isInt {
		return
	}
	if k := x.cellKey(v); k != "" {
		x.open[k] = true
	}
}

func elemKey(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return ""
	}
	return "elem:" + b.Name()
}

// cellKey names the memory cells that an address of an integer may denote;
// "" if unknown.
func (x *ranges) cellKey(addr ssa.Value) string {
	switch y := addr.(type) {
	case *ssa.Alloc:
		return "local:" + y.Parent().String() + ":" + y.Name()
	case *ssa.Global:
		return "global:" + y.String()
	case *ssa.FieldAddr:
		st := y.X.Type().Underlying().(*types.Pointer).Elem()
		return "field:" + st.String() + "." + st.Underlying().(*types.Struct).Field(y.Field).Name()
	case *ssa.IndexAddr:
		return elemKey(y.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.FreeVar:
		key := ""
		for _, b := range x.bind[y] {
			k := x.cellKey(b)
			if k == "" || key != "" && key != k {
				return ""
			}
			key = k
		}
		return key
	}
	return ""
}

func (x *ranges) solve() {
	for _, fn := range x.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if n, ok := constant.Int64Val(k.Value); ok {
							x.thr = append(x.thr, n-1, n, n+1)
						}
					}
				}
			}
		}
	}
	x.thr = append(x.thr, 0, 127, 128, 255, 256, 65535, 65536, maxLen, math.MaxInt32, math.MaxUint32)
	for round := 0; ; round++ {
		if !x.round(round, true) {
			break
		}
		if round > 60 {
			// Cannot happen: every bound only moves along the thresholds.
			for v := range x.vals {
				if t, ok := typeIval(v.Type()); ok {
					x.vals[v] = t
				}
			}
			for k := range x.cells {
				x.cells[k] = ival{lo: negInf, hi: posInf}
			}
			break
		}
	}
	for i := 0; i < 4; i++ {
		x.round(i, false)
	}
}

// round recomputes everything once and reports whether anything changed.
func (x *ranges) round(n int, up bool) bool {
	changed := false
	x.next = map[string]ival{}
	set := func(old, new ival) ival {
		if !up {
			return new.meet(old)
		}
		r := old.join(new)
		if n >= 4 && !old.bot && r != old {
			r = x.widen(old, r)
		}
		return r
	}
	for _, fn := range x.fns {
		for _, p := range fn.Params {
			if _, ok := typeIval(p.Type()); ok {
				old, seen := x.vals[p]
				if !seen {
					old.bot = true
				}
				if r := set(old, x.param(p)); !seen || r != old {
					x.vals[p] = r
					changed = true
				}
			}
		}
		for _, b := range fn.DomPreorder() {
			for _, ins := range b.Instrs {
				x.stores(ins)
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				t, ok := typeIval(v.Type())
				if !ok {
					continue
				}
				old, seen := x.vals[v]
				if !seen {
					old.bot = true
				}
				r := set(old, x.eval(v, b).meet(t))
				if r.bot && !old.bot && !up {
					r = ival{bot: true}
				}
				if !seen || r != old {
					x.vals[v] = r
					changed = true
				}
			}
		}
	}
	for k, nv := range x.next {
		old, seen := x.cells[k]
		if !seen {
			old.bot = true
		}
		if r := set(old, nv); !seen || r != old {
			x.cells[k] = r
			changed = true
		}
	}
	return changed
}

func (x *ranges) widen(old, r ival) ival {
	if r.hi > old.hi {
		best := int64(posInf)
		for _, t := range x.thr {
			if t >= r.hi && t < best {
				best = t
			}
		}
		r.hi = best
	}
	if r.lo < old.lo {
		best := int64(negInf)
		for _, t := range x.thr {
			if t <= r.lo && t > best {
				best = t
			}
		}
		r.lo = best
	}
	return r
}

func (x *ranges) param(p *ssa.Parameter) ival {
	fn := p.Parent()
	t, _ := typeIval(p.Type())
	if x.anyArg[fn] {
		return t
	}
	i := -1
	for j, q := range fn.Params {
		if q == p {
			i = j
		}
	}
	r := ival{bot: true}
	for _, call := range x.calls[fn] {
		com := call.Common()
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		if i >= len(args) || len(args) != len(fn.Params) {
			return t
		}
		if _, ok := typeIval(args[i].Type()); !ok {
			return t
		}
		r = r.join(x.at(args[i], call.Block()))
	}
	return r.meet(t)
}

// stores records what an instruction puts into memory cells.
func (x *ranges) stores(ins ssa.Instruction) {
	put := func(k string, r ival) {
		old, ok := x.next[k]
		if !ok {
			old.bot = true
		}
		x.next[k] = old.join(r)
	}
	switch y := ins.(type) {
	case *ssa.Store:
		if _, ok := typeIval(y.Val.Type()); ok {
			if k := x.cellKey(y.Addr); k != "" {
				put(k, x.at(y.Val, ins.Block()))
			} else {
				// Through an unknown pointer: the cells whose addresses
				// escape are open already.
			}
		}
	case *ssa.MapUpdate:
		if _, ok := typeIval(y.Value.Type()); ok {
			put("map:"+elemKey(y.Value.Type()), x.at(y.Value, ins.Block()))
		}
	case *ssa.Convert:
		if s, ok := y.Type().Underlying().(*types.Slice); ok {
			if k := elemKey(s.Elem()); k != "" {
				t, _ := typeIval(s.Elem())
				put(k, t)
			}
		}
	case *ssa.Call:
		// Slices that come from elsewhere.
		res := y.Call.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			if s, ok := res.At(i).Type().Underlying().(*types.Slice); ok && elemKey(s.Elem()) != "" && !x.inside(y) && !x.readsOnly(x.e.targets(y)) {
				if _, builtin := y.Call.Value.(*ssa.Builtin); !builtin {
					x.open[elemKey(s.Elem())] = true
				}
			}
		}
	}
}

// inside reports whether all of a call's targets are analysed.
func (x *ranges) inside(call ssa.CallInstruction) bool {
	ts := x.e.targets(call)
	for _, t := range ts {
		if !x.e.Live[t] || len(t.Blocks) == 0 {
			return false
		}
	}
	return len(ts) > 0
}

func (x *ranges) cell(k string, t ival) ival {
	if k == "" || x.open[k] {
		return t
	}
	r, ok := x.cells[k]
	if !ok {
		r.bot = true
	}
	return r.join(ival{}).meet(t)
}

func constIval(k *ssa.Const) (ival, bool) {
	if _, ok := typeIval(k.Type()); !ok {
		return ival{}, false
	}
	if k.Value == nil {
		return ival{}, true
	}
	v := constant.ToInt(k.Value)
	if n, ok := constant.Int64Val(v); ok {
		return ival{lo: n, hi: n}, true
	}
	if constant.Sign(v) > 0 {
		return ival{lo: posInf, hi: posInf}, true
	}
	return ival{lo: negInf, hi: negInf}, true
}

// raw is v's range without the conditions of a use.
func (x *ranges) raw(v ssa.Value) ival {
	if k, ok := v.(*ssa.Const); ok {
		if r, ok := constIval(k); ok {
			return r
		}
	}
	t, ok := typeIval(v.Type())
	if !ok {
		return ival{lo: negInf, hi: posInf}
	}
	if r, ok := x.vals[v]; ok {
		return r
	}
	switch v.(type) {
	case *ssa.Parameter, ssa.Instruction:
		return ival{bot: true}
	}
	return t
}

// at is v's range where block b is executed.
func (x *ranges) at(v ssa.Value, b *ssa.BasicBlock) ival {
	r := x.raw(v)
	for d := b; d != nil; d = x.idom[d] {
		if len(x.preds[d]) != 1 {
			continue
		}
		p := x.preds[d][0]
		if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			r = x.refine(r, v, ifi.Cond, p.Succs[0] == d, p, b, 0)
		}
	}
	return r
}

// onEdge is v's range where control passes from p to b.
func (x *ranges) onEdge(v ssa.Value, p, b *ssa.BasicBlock) ival {
	r := x.at(v, p)
	if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		r = x.refine(r, v, ifi.Cond, p.Succs[0] == b, p, p, 0)
	}
	return r
}

// refine narrows v's range by a condition that was evaluated in block cb and
// is known to be want when useb is executed.
func (x *ranges) refine(r ival, v, cond ssa.Value, want bool, cb, useb *ssa.BasicBlock, depth int) ival {
	if depth > 6 || r.bot {
		return r
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return x.refine(r, v, c.X, !want, cb, useb, depth+1)
		}
	case *ssa.Phi:
		// The value of a && or || expression.
		only := -1
		for i, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != want {
					continue
				}
			}
			if only >= 0 {
				return r
			}
			only = i
		}
		if only >= 0 {
			p := c.Block().Preds[only]
			r = x.refine(r, v, c.Edges[only], want, p, useb, depth+1)
			for d := p; d != nil; d = x.idom[d] {
				if len(x.preds[d]) == 1 {
					q := x.preds[d][0]
					if ifi, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && q.Succs[0] != q.Succs[1] {
						r = x.refine(r, v, ifi.Cond, q.Succs[0] == d, q, useb, depth+1)
					}
				}
			}
		}
	case *ssa.Call:
		// A predicate of the repository.
		fn := c.Call.StaticCallee()
		if fn != nil && fnName(fn) == "unicode/utf8.ValidRune" && want && x.same(c.Call.Args[0], v, cb, useb, 0) {
			return r.meet(ival{lo: 0, hi: 0x10FFFF})
		}
		if fn == nil || len(x.rets[fn]) != 1 || len(fn.Blocks) != 1 || len(x.rets[fn][0].Results) != 1 {
			return r
		}
		if bo, ok := x.rets[fn][0].Results[0].(*ssa.BinOp); ok {
			sub := func(w ssa.Value) ssa.Value {
				for {
					cv, ok := w.(*ssa.Convert)
					if !ok || !x.preserves(cv) {
						break
					}
					w = cv.X
				}
				if p, ok := w.(*ssa.Parameter); ok {
					for i, q := range fn.Params {
						if q == p && i < len(c.Call.Args) {
							return c.Call.Args[i]
						}
					}
				}
				return w
			}
			return x.compare(r, v, bo.Op, sub(bo.X), sub(bo.Y), want, cb, useb)
		}
	case *ssa.BinOp:
		return x.compare(r, v, c.Op, c.X, c.Y, want, cb, useb)
	}
	return r
}

func (x *ranges) compare(r ival, v ssa.Value, op token.Token, l, rr ssa.Value, want bool, cb, useb *ssa.BasicBlock) ival {
	if _, ok := typeIval(l.Type()); !ok {
		return r
	}
	if !want {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		default:
			return r
		}
	}
	if x.same(l, v, cb, useb, 0) {
		r = bound(r, op, x.raw(rr))
	}
	if x.same(rr, v, cb, useb, 0) {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
		r = bound(r, op, x.raw(l))
	}
	// v>>k == 0 and the like bound v itself.
	if op == token.EQL {
		for _, pr := range [][2]ssa.Value{{l, rr}, {rr, l}} {
			bo, ok := stripConv(x, pr[0]).(*ssa.BinOp)
			if !ok {
				continue
			}
			z := x.raw(pr[1])
			k := x.raw(bo.Y)
			if z.lo != 0 || z.hi != 0 || k.lo != k.hi || !x.same(bo.X, v, cb, useb, 0) {
				continue
			}
			if bo.Op == token.SHR && k.lo >= 0 && k.lo < 62 && x.raw(bo.X).lo >= 0 {
				r = r.meet(ival{lo: 0, hi: 1<<uint(k.lo) - 1})
			}
			if bo.Op == token.AND_NOT && k.lo >= 0 && k.lo&(k.lo+1) == 0 {
				r = r.meet(ival{lo: 0, hi: k.lo})
			}
		}
		// uint16(uint8(v)) == v
		for _, pr := range [][2]ssa.Value{{l, rr}, {rr, l}} {
			if !x.same(pr[1], v, cb, useb, 0) {
				continue
			}
			cv, ok := pr[0].(*ssa.Convert)
			for ok {
				if t, isInt := typeIval(cv.X.Type()); isInt {
					_ = t
					if in, ok := cv.X.(*ssa.Convert); ok {
						if it, isInt := typeIval(in.Type()); isInt && x.same(in.X, v, cb, useb, 0) {
							r = r.meet(it)
						}
					}
				}
				cv, ok = cv.X.(*ssa.Convert)
			}
		}
	}
	return r
}

func bound(r ival, op token.Token, o ival) ival {
	if o.bot {
		return r
	}
	switch op {
	case token.LSS:
		return r.meet(ival{lo: negInf, hi: sadd(o.hi, -1)})
	case token.LEQ:
		return r.meet(ival{lo: negInf, hi: o.hi})
	case token.GTR:
		return r.meet(ival{lo: sadd(o.lo, 1), hi: posInf})
	case token.GEQ:
		return r.meet(ival{lo: o.lo, hi: posInf})
	case token.EQL:
		return r.meet(o)
	case token.NEQ:
		if o.lo == o.hi {
			if r.lo == o.lo && r.lo < r.hi {
				r.lo++
			} else if r.hi == o.lo && r.lo < r.hi {
				r.hi--
			}
		}
	}
	return r
}

// preserves reports whether a conversion cannot change the number.
func (x *ranges) preserves(cv *ssa.Convert) bool {
	t, ok := typeIval(cv.Type())
	if !ok {
		return false
	}
	if _, ok := typeIval(cv.X.Type()); !ok {
		return false
	}
	return x.raw(cv.X).in(t)
}

func stripConv(x *ranges, v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.Convert:
			if x.preserves(y) {
				v = y.X
				continue
			}
		case *ssa.ChangeType:
			v = y.X
			continue
		}
		return v
	}
}

// same reports whether a, computed in or before block ab, is the number that
// b denotes in block bb.
func (x *ranges) same(a, b ssa.Value, ab, bb *ssa.BasicBlock, depth int) bool {
	a, b = stripConv(x, a), stripConv(x, b)
	if a == b {
		return true
	}
	if depth > 8 {
		return false
	}
	switch p := a.(type) {
	case *ssa.Const:
		q, ok := b.(*ssa.Const)
		if !ok || p.Value == nil || q.Value == nil {
			return false
		}
		return constant.Compare(p.Value, token.EQL, q.Value)
	case *ssa.BinOp:
		q, ok := b.(*ssa.BinOp)
		return ok && p.Op == q.Op && x.same(p.X, q.X, ab, bb, depth+1) && x.same(p.Y, q.Y, ab, bb, depth+1)
	case *ssa.Call:
		q, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		pb, ok1 := p.Call.Value.(*ssa.Builtin)
		qb, ok2 := q.Call.Value.(*ssa.Builtin)
		if ok1 && ok2 && pb.Name() == qb.Name() && (pb.Name() == "len" || pb.Name() == "cap") {
			return x.same(p.Call.Args[0], q.Call.Args[0], ab, bb, depth+1)
		}
	case *ssa.UnOp:
		q, ok := b.(*ssa.UnOp)
		if !ok || p.Op != q.Op || p.Op != token.MUL {
			return false
		}
		return x.sameAddr(p.X, q.X, ab, bb, depth+1) && !x.storedBetween(p, q)
	case *ssa.Field:
		q, ok := b.(*ssa.Field)
		return ok && p.Field == q.Field && x.same(p.X, q.X, ab, bb, depth+1)
	case *ssa.Index:
		q, ok := b.(*ssa.Index)
		return ok && x.same(p.X, q.X, ab, bb, depth+1) && x.same(p.Index, q.Index, ab, bb, depth+1)
	case *ssa.Extract:
		return false
	}
	return false
}

func (x *ranges) sameAddr(a, b ssa.Value, ab, bb *ssa.BasicBlock, depth int) bool {
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *ssa.FieldAddr:
		q, ok := b.(*ssa.FieldAddr)
		return ok && p.Field == q.Field && x.same(p.X, q.X, ab, bb, depth+1)
	case *ssa.IndexAddr:
		q, ok := b.(*ssa.IndexAddr)
		return ok && x.same(p.X, q.X, ab, bb, depth+1) && x.same(p.Index, q.Index, ab, bb, depth+1)
	}
	return false
}

// storedBetween reports whether the cell that two loads read may be assigned
// after the first and before the second, in the same function.
func (x *ranges) storedBetween(p, q *ssa.UnOp) bool {
	if p.Parent() != q.Parent() {
		return true
	}
	shape := addrShape(p.X)
	for _, b := range p.Parent().Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || addrShape(st.Addr) != shape {
				continue
			}
			if before(p, st) && before(st, q) || before(q, st) && before(st, p) {
				return true
			}
		}
	}
	return false
}

// addrShape describes an address by the type and field or element it selects.
func addrShape(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.FieldAddr:
		st := y.X.Type().Underlying().(*types.Pointer).Elem()
		return "field " + st.String() + "." + st.Underlying().(*types.Struct).Field(y.Field).Name()
	case *ssa.IndexAddr:
		return "element " + y.Type().String()
	}
	return v.Name()
}

// eval computes a value from its operands.
func (x *ranges) eval(v ssa.Value, b *ssa.BasicBlock) ival {
	t, _ := typeIval(v.Type())
	bot := ival{bot: true}
	switch y := v.(type) {
	case *ssa.Phi:
		r := bot
		for i, e := range y.Edges {
			if !x.dead[b.Preds[i]] {
				r = r.join(x.onEdge(e, b.Preds[i], b))
			}
		}
		return r
	case *ssa.BinOp:
		return x.binop(y.Op, x.at(y.X, b), x.at(y.Y, b), t)
	case *ssa.UnOp:
		switch y.Op {
		case token.SUB:
			a := x.at(y.X, b)
			if a.bot {
				return bot
			}
			r := ival{lo: sneg(a.hi), hi: sneg(a.lo)}
			if r.in(t) {
				return r
			}
		case token.MUL:
			if c, ok := x.constCell(y.X); ok {
				return c
			}
			return x.cell(x.cellKey(y.X), t)
		}
		return t
	case *ssa.Convert:
		if _, ok := typeIval(y.X.Type()); ok {
			if r := x.at(y.X, b); r.in(t) {
				return r
			}
		}
		return t
	case *ssa.ChangeType:
		return x.at(y.X, b)
	case *ssa.Field:
		st := y.X.Type()
		if s, ok := st.Underlying().(*types.Struct); ok {
			return x.cell("field:"+st.String()+"."+s.Field(y.Field).Name(), t)
		}
		return t
	case *ssa.Index:
		return x.cell(elemKey(y.Type()), t)
	case *ssa.Lookup:
		if _, isMap := y.X.Type().Underlying().(*types.Map); isMap {
			return x.cell("map:"+elemKey(y.Type()), t)
		}
		return t
	case *ssa.Extract:
		switch z := y.Tuple.(type) {
		case *ssa.Lookup:
			if y.Index == 0 {
				return x.cell("map:"+elemKey(y.Type()), t)
			}
		case *ssa.Next:
			if z.IsString {
				if y.Index == 1 {
					return ival{lo: 0, hi: maxLen}.meet(t)
				}
				return ival{lo: 0, hi: 0x10FFFF}.meet(t)
			}
			if y.Index == 2 {
				return x.cell("map:"+elemKey(y.Type()), t)
			}
		case *ssa.Call:
			return x.result(z, y.Index, t)
		}
		return t
	case *ssa.Call:
		return x.result(y, 0, t)
	}
	return t
}

// constCell reads a local that is only ever assigned in its own function.
func (x *ranges) constCell(addr ssa.Value) (ival, bool) { return ival{}, false }

func (x *ranges) result(call *ssa.Call, i int, t ival) ival {
	com := call.Common()
	b := call.Block()
	if bl, ok := com.Value.(*ssa.Builtin); ok {
		switch bl.Name() {
		case "len", "cap", "copy":
			if at, ok := arrayLen(com.Args[0].Type()); ok && bl.Name() != "copy" {
				return ival{lo: at, hi: at}
			}
			r := ival{lo: 0, hi: maxLen}
			if bl.Name() == "cap" {
				r.hi = posInf
			}
			if bl.Name() == "len" {
				if n, ok := fixedLen(com.Args[0]); ok {
					r = ival{lo: 0, hi: n}
				}
			}
			return r
		case "min", "max":
			r := x.at(com.Args[0], b)
			for _, a := range com.Args[1:] {
				o := x.at(a, b)
				if r.bot || o.bot {
					return ival{bot: true}
				}
				if bl.Name() == "min" {
					r = ival{lo: min(r.lo, o.lo), hi: min(r.hi, o.hi)}
				} else {
					r = ival{lo: max(r.lo, o.lo), hi: max(r.hi, o.hi)}
				}
			}
			return r
		}
		return t
	}
	ts := x.e.targets(call)
	if len(ts) == 0 {
		return t
	}
	r := ival{bot: true}
	for _, f := range ts {
		if len(com.Args) > 0 || f.Signature.Recv() != nil || true {
			if m, ok := x.model(f, call, i); ok {
				r = r.join(m)
				continue
			}
		}
		if !x.e.Live[f] || len(f.Blocks) == 0 {
			return t
		}
		for _, ret := range x.rets[f] {
			if i >= len(ret.Results) {
				return t
			}
			if _, ok := typeIval(ret.Results[i].Type()); !ok {
				return t
			}
			r = r.join(x.at(ret.Results[i], ret.Block()))
		}
	}
	return r
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// fixedLen bounds the length of a slice of an array.
func fixedLen(v ssa.Value) (int64, bool) {
	switch y := v.(type) {
	case *ssa.Slice:
		if n, ok := arrayLen(y.X.Type()); ok {
			return n, true
		}
		return fixedLen(y.X)
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.String {
			return int64(len(constant.StringVal(y.Value))), true
		}
	case *ssa.MakeSlice:
		if k, ok := y.Len.(*ssa.Const); ok {
			return k.Int64(), true
		}
	}
	return 0, false
}

// model gives the ranges of library functions' results.
func (x *ranges) model(fn *ssa.Function, call *ssa.Call, i int) (ival, bool) {
	switch fnName(fn) {
	case "unicode/utf8.EncodeRune":
		return ival{lo: 1, hi: 4}, true
	case "unicode/utf8.RuneLen":
		return ival{lo: -1, hi: 4}, true
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString":
		if i == 0 {
			return ival{lo: 0, hi: 0x10FFFF}, true
		}
		return ival{lo: 0, hi: 4}, true
	case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
		return ival{lo: 0, hi: maxLen}, true
	case "strconv.ParseUint":
		if k, ok := call.Call.Args[2].(*ssa.Const); ok && i == 0 {
			if n := k.Int64(); n > 0 && n < 63 {
				return ival{lo: 0, hi: 1<<uint(n) - 1}, true
			}
		}
	case "strconv.ParseInt":
		if k, ok := call.Call.Args[2].(*ssa.Const); ok && i == 0 {
			if n := k.Int64(); n > 0 && n < 64 {
				return ival{lo: -1 << uint(n-1), hi: 1<<uint(n-1) - 1}, true
			}
		}
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64",
		"math/bits.LeadingZeros8", "math/bits.LeadingZeros32", "math/bits.LeadingZeros16", "math/bits.TrailingZeros8", "math/bits.OnesCount8":
		return ival{lo: 0, hi: 64}, true
	}
	if p := fnPkgPath(fn); p == "strings" || p == "bytes" || p == "slices" {
		n := fn.Name()
		if o := fn.Origin(); o != nil {
			n = o.Name()
		}
		if strings.HasPrefix(n, "Index") || strings.HasPrefix(n, "LastIndex") {
			return ival{lo: -1, hi: maxLen}, true
		}
	}
	return ival{}, false
}

func (x *ranges) binop(op token.Token, a, b, t ival) ival {
	if a.bot || b.bot {
		return ival{bot: true}
	}
	r := exactOp(op, a, b)
	if r == nil || !r.in(t) {
		return t
	}
	return *r
}

// exactOp is the range of the operation on unbounded integers, nil if unknown.
func exactOp(op token.Token, a, b ival) *ival {
	switch op {
	case token.ADD:
		return &ival{lo: sadd(a.lo, b.lo), hi: sadd(a.hi, b.hi)}
	case token.SUB:
		return &ival{lo: sadd(a.lo, sneg(b.hi)), hi: sadd(a.hi, sneg(b.lo))}
	case token.MUL:
		p := []int64{smul(a.lo, b.lo), smul(a.lo, b.hi), smul(a.hi, b.lo), smul(a.hi, b.hi)}
		r := ival{lo: p[0], hi: p[0]}
		for _, q := range p {
			r.lo, r.hi = min(r.lo, q), max(r.hi, q)
		}
		return &r
	case token.QUO:
		if b.lo == b.hi && b.lo > 0 {
			return &ival{lo: a.lo / b.lo, hi: a.hi / b.lo}
		}
		if b.lo > 0 && a.lo >= 0 {
			return &ival{lo: 0, hi: a.hi / b.lo}
		}
	case token.REM:
		if b.lo > 0 {
			m := b.hi - 1
			r := ival{lo: 0, hi: min(m, max(a.hi, 0))}
			if a.lo < 0 {
				r.lo = max(-m, a.lo)
			}
			return &r
		}
	case token.AND:
		switch {
		case a.lo >= 0 && b.lo >= 0:
			return &ival{lo: 0, hi: min(a.hi, b.hi)}
		case b.lo >= 0:
			return &ival{lo: 0, hi: b.hi}
		case a.lo >= 0:
			return &ival{lo: 0, hi: a.hi}
		}
	case token.AND_NOT:
		if a.lo >= 0 {
			return &ival{lo: 0, hi: a.hi}
		}
	case token.OR, token.XOR:
		if a.lo >= 0 && b.lo >= 0 {
			m := uint64(max(a.hi, b.hi))
			n := bits.Len64(m)
			hi := int64(posInf)
			if n < 63 {
				hi = 1<<uint(n) - 1
			}
			r := ival{lo: 0, hi: hi}
			if op == token.OR {
				r.lo = max(a.lo, b.lo)
				r.hi = min(r.hi, sadd(a.hi, b.hi))
			}
			return &r
		}
	case token.SHL:
		if b.lo >= 0 && b.hi < 62 {
			p := []int64{smul(a.lo, 1<<uint(b.lo)), smul(a.lo, 1<<uint(b.hi)), smul(a.hi, 1<<uint(b.lo)), smul(a.hi, 1<<uint(b.hi))}
			r := ival{lo: p[0], hi: p[0]}
			for _, q := range p {
				r.lo, r.hi = min(r.lo, q), max(r.hi, q)
			}
			return &r
		}
		if a.lo >= 0 {
			return &ival{lo: 0, hi: posInf}
		}
	case token.SHR:
		if b.lo >= 0 {
			s, l := uint(min(b.lo, 63)), uint(min(b.hi, 63))
			r := ival{lo: a.lo >> l, hi: a.hi >> s}
			if a.lo < 0 {
				r.lo = a.lo >> s
			}
			if a.hi < 0 {
				r.hi = a.hi >> l
			}
			return &r
		}
	}
	return nil
}
