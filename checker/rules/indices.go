package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Interval analysis of every integer in the generator and the tree builder (fixpoint over the SSA form with fields, map values, results and parameters, refined by the conditions that hold at each use): every conversion to a narrower type and every operation on a narrow type must be shown to keep the number, block counts must grow only by blocks that were looked for first, and an index printed into the table must be shown to fit the table's element type or be refused.", checkIndices)
}

// narrowing is one place where a number might be cut off.
type indexCheck struct {
	c     *Ctx
	r     *Report
	u     *genUnit
	x     *ranges
	calls map[*ssa.Function][]ssa.CallInstruction
}

func checkIndices(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"A conversion to a narrower integer type is applied only to numbers in the range of that type; cutting a number into bytes keeps all its bytes.",
		"Arithmetic on integers of at most 16 bits, and shifts on 32 bits, cannot overflow.",
		"A block is added only where no equal block was found before, so that there are at most as many as blocks of 64 code points.",
		"An index is printed into the table unchanged, and only after a check that it fits the table's element type.")
	u := c.genUnit()
	k := &indexCheck{c: c, r: r, u: u, x: newRanges(u.e), calls: map[*ssa.Function][]ssa.CallInstruction{}}
	k.calls = k.x.calls
	var in []string
	for _, fn := range u.fns {
		if strings.HasSuffix(fnPkgPath(fn), "/ucdparse") || isInitOf(fn) {
			continue
		}
		in = append(in, fn.String())
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				k.instr(ins)
			}
		}
	}
	r.Note("functions", in)
	r.Note("integer_ranges", len(k.x.vals))
	k.emission()
	if r.Coverage["narrowing_conversions"] == nil {
		r.Count("narrowing_conversions", 0)
	}
	r.Assume = append(r.Assume, fmt.Sprintf("Slices and strings of the generator have fewer than %d elements: trees get at most one block of 64 entries for each 64 of the 1114112 code points (each added only after looking for an equal one, which is checked), and the data files are smaller.", maxLen+1))
}

func (k *indexCheck) pos(ins ssa.Instruction) string {
	p := ins.Pos()
	if !p.IsValid() {
		if v, ok := ins.(ssa.Value); ok {
			for _, ref := range *v.Referrers() {
				if ref.Pos().IsValid() {
					p = ref.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() {
		p = ins.Parent().Pos()
	}
	return k.c.rel(k.u.p.Prog.Fset.Position(p).String())
}

func (k *indexCheck) instr(ins ssa.Instruction) {
	b := ins.Block()
	switch y := ins.(type) {
	case *ssa.Convert:
		to, isInt := typeIval(y.Type())
		_, fromInt := typeIval(y.X.Type())
		if fromInt && !isInt {
			if bt, ok := y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				k.r.Ob(1)
				k.codePoint(y, y.X, b)
			}
			return
		}
		if !fromInt || !isInt || intBits(y.Type()) >= intBits(y.X.Type()) {
			return
		}
		if _, ok := y.X.(*ssa.Const); ok {
			return
		}
		k.r.Ob(1)
		k.r.Count("narrowing_conversions", 1)
		got := k.x.at(y.X, b)
		whole := y.X
		if m, inner := k.masked(y.X, b, intBits(y.Type())); m {
			whole = inner
			got = k.x.at(inner, b)
		}
		if got.in(to) {
			if whole == y.X && k.fromIndex(y.X, map[ssa.Value]bool{}) && (k.quiet(y.X, b, to) || k.clamped(y.X, to.hi, 0)) {
				k.r.Fail("silent", y.Parent().String(), k.pos(ins), "%s: numbers that do not fit %s are left out or replaced instead of refused", y.Parent(), y.Type())
			}
			k.counted(y.X, ins)
			return
		}
		if got.lo < 0 && got.lo >= -64 && got.hi <= to.hi && len(k.lengths(y.X, map[ssa.Value]bool{})) > 0 {
			k.counted(y.X, ins) // the number of the block that was just added
			return
		}
		if k.onlyCompared(y) || k.serialised(y, whole, b) {
			return
		}
		k.r.Fail("truncation", y.Parent().String()+"|"+y.Type().String(), k.pos(ins), "%s: a number in %s is converted to %s, which cannot hold all of them", y.Parent(), showIval(got), y.Type())
	case *ssa.BinOp:
		n := intBits(y.Type())
		if n == 0 {
			return
		}
		switch y.Op {
		case token.SHL:
			if n > 32 {
				return
			}
		case token.ADD, token.SUB, token.MUL:
			if n > 16 {
				return
			}
		case token.AND, token.REM:
			k.maskRule(y)
			return
		default:
			return
		}
		k.r.Ob(1)
		k.r.Count("narrow_operations", 1)
		t, _ := typeIval(y.Type())
		got := exactOp(y.Op, k.x.at(y.X, b), k.x.at(y.Y, b))
		if got != nil && got.in(t) {
			return
		}
		g := "any number"
		if got != nil {
			g = showIval(*got)
		}
		k.r.Fail("overflow", y.Parent().String()+"|"+y.Op.String()+" "+y.Type().String(), k.pos(ins), "%s: the result of %s can be %s, which does not fit %s", y.Parent(), y.Op, g, y.Type())
	case ssa.CallInstruction:
		fn := y.Common().StaticCallee()
		if fn == nil {
			return
		}
		switch fnName(fn) {
		case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "(*bufio.Writer).WriteRune", "unicode/utf8.AppendRune":
			k.r.Ob(1)
			k.codePoint(ins, y.Common().Args[1], b)
		}
	}
}

func showIval(r ival) string {
	s := func(n int64) string {
		switch n {
		case negInf:
			return "-inf"
		case posInf:
			return "inf"
		}
		return fmt.Sprint(n)
	}
	if r.bot {
		return "{}"
	}
	return s(r.lo) + ".." + s(r.hi)
}

// codePoint: what is encoded as a character must be one, or distinct numbers
// would become equal text.
func (k *indexCheck) codePoint(ins ssa.Instruction, v ssa.Value, b *ssa.BasicBlock) {
	got := k.x.at(v, b)
	if got.in(ival{lo: 0, hi: 0xD7FF}) || got.in(ival{lo: 0xE000, hi: 0x10FFFF}) {
		return
	}
	if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 && !k.fromIndex(v, map[ssa.Value]bool{}) {
		return // an actual character
	}
	k.r.Fail("character", ins.Parent().String(), k.pos(ins), "%s: a number in %s is turned into text as a character, but some of them are not characters", ins.Parent(), showIval(got))
}

// masked recognises v & 0xFF (or % 256) for a target of that many bits.
func (k *indexCheck) masked(v ssa.Value, b *ssa.BasicBlock, n int) (bool, ssa.Value) {
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return false, nil
	}
	m := k.x.raw(bo.Y)
	inner := bo.X
	if m.lo != m.hi {
		m, inner = k.x.raw(bo.X), bo.Y
		if bo.Op == token.REM {
			return false, nil
		}
	}
	if m.lo != m.hi {
		return false, nil
	}
	full := int64(1)<<uint(n) - 1
	if bo.Op == token.AND && m.lo == full || bo.Op == token.REM && m.lo == full+1 {
		return true, inner
	}
	return false, nil
}

// maskRule: an index must not lose bits to a mask.
func (k *indexCheck) maskRule(y *ssa.BinOp) {
	b := y.Block()
	m := k.x.raw(y.Y)
	inner := y.X
	if m.lo != m.hi && y.Op == token.AND {
		m, inner = k.x.raw(y.X), y.Y
	}
	if m.lo != m.hi || m.lo < 0 {
		return
	}
	got := k.x.at(inner, b)
	lim := m.lo
	if y.Op == token.REM {
		lim--
	}
	if got.in(ival{lo: 0, hi: lim}) {
		return
	}
	if !k.fromIndex(inner, map[ssa.Value]bool{}) {
		return
	}
	k.r.Ob(1)
	k.r.Count("masked_indices", 1)
	if k.onlyCompared(y) {
		return
	}
	// A byte of a number of which all bytes are kept.
	if lim == 0xFF || lim == 0xFFFF {
		for _, ref := range *y.Referrers() {
			if cv, ok := ref.(*ssa.Convert); ok && k.serialised(cv, inner, b) {
				return
			}
		}
		if k.bytesOf(inner, b, 8) {
			return
		}
	}
	// The low bits, next to the others: v&15 and v>>4.
	if lim&(lim+1) == 0 {
		n := int64(0)
		for m := lim; m > 0; m >>= 1 {
			n++
		}
		for _, bb := range y.Parent().Blocks {
			for _, ins := range bb.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && bo != y && len(*bo.Referrers()) > 0 {
					if w, s := k.shifted(bo, bb); s == n && k.x.same(w, inner, bb, b, 0) {
						return
					}
				}
			}
		}
	}
	k.r.Fail("truncation", y.Parent().String()+"|"+y.Op.String(), k.pos(y), "%s: an index in %s is cut to %s", y.Parent(), showIval(got), showIval(ival{lo: 0, hi: lim}))
}

// fromIndex reports whether a number is an entry of an index table (an
// element or map value wider than a byte) or computed from a length.
func (k *indexCheck) fromIndex(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Convert:
		return k.fromIndex(y.X, seen)
	case *ssa.ChangeType:
		return k.fromIndex(y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if k.fromIndex(e, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		if y.Op == token.SHR || y.Op == token.QUO {
			return k.fromIndex(y.X, seen)
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if _, ok := y.X.(*ssa.IndexAddr); ok {
				n := intBits(y.Type())
				bt, _ := y.Type().Underlying().(*types.Basic)
				return n > 8 && bt.Kind() != types.Int32
			}
			if al, ok := y.X.(*ssa.Alloc); ok {
				return k.storedIndex(al, seen)
			}
		}
	case *ssa.Index:
		return intBits(y.Type()) > 8
	case *ssa.Lookup:
		_, isMap := y.X.Type().Underlying().(*types.Map)
		return isMap && intBits(y.Type()) > 8
	case *ssa.Extract:
		if lk, ok := y.Tuple.(*ssa.Lookup); ok && y.Index == 0 {
			_, isMap := lk.X.Type().Underlying().(*types.Map)
			return isMap && intBits(y.Type()) > 8
		}
		if nx, ok := y.Tuple.(*ssa.Next); ok {
			return !nx.IsString && y.Index == 2 && intBits(y.Type()) > 8
		}
	case *ssa.Call:
		if bl, ok := y.Call.Value.(*ssa.Builtin); ok {
			if bl.Name() == "len" {
				_, isSlice := y.Call.Args[0].Type().Underlying().(*types.Slice)
				return isSlice
			}
			if bl.Name() == "min" || bl.Name() == "max" {
				for _, a := range y.Call.Args {
					if k.fromIndex(a, seen) {
						return true
					}
				}
			}
			return false
		}
		for _, f := range k.u.e.targets(y) {
			for _, ret := range k.x.rets[f] {
				if len(ret.Results) > 0 && k.fromIndex(ret.Results[0], seen) {
					return true
				}
			}
		}
	case *ssa.Parameter:
		for _, call := range k.calls[y.Parent()] {
			if a := argOf(call, y); a != nil && k.fromIndex(a, seen) {
				return true
			}
		}
	}
	return false
}

func (k *indexCheck) storedIndex(al *ssa.Alloc, seen map[ssa.Value]bool) bool {
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al && k.fromIndex(st.Val, seen) {
			return true
		}
	}
	return false
}

func argOf(call ssa.CallInstruction, p *ssa.Parameter) ssa.Value {
	com := call.Common()
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	fn := p.Parent()
	if len(args) != len(fn.Params) {
		return nil
	}
	for i, q := range fn.Params {
		if q == p {
			return args[i]
		}
	}
	return nil
}

// onlyCompared: the result only decides a branch, like uint16(uint8(v)) != v.
func (k *indexCheck) onlyCompared(v ssa.Value) bool {
	if len(*v.Referrers()) == 0 {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Convert:
			if intBits(y.Type()) == 0 || !k.onlyCompared(y) {
				return false
			}
		case *ssa.BinOp:
			switch y.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// serialised: cv keeps one byte of a number whose other bytes are kept too.
func (k *indexCheck) serialised(cv *ssa.Convert, whole ssa.Value, b *ssa.BasicBlock) bool {
	n := intBits(cv.Type())
	if n != 8 && n != 16 || len(*cv.Referrers()) == 0 {
		return false
	}
	base, _ := k.shifted(whole, b)
	return k.bytesOf(base, b, n)
}

// shifted takes v >> k apart.
func (k *indexCheck) shifted(v ssa.Value, b *ssa.BasicBlock) (ssa.Value, int64) {
	v = stripConv(k.x, v)
	if bo, ok := v.(*ssa.BinOp); ok {
		s := k.x.raw(bo.Y)
		if s.lo == s.hi && s.lo > 0 {
			if bo.Op == token.SHR {
				return bo.X, s.lo
			}
			if bo.Op == token.QUO && s.lo == 256 {
				return bo.X, 8
			}
		}
	}
	return v, 0
}

// bytesOf reports whether conversions in base's function keep all its bytes.
func (k *indexCheck) bytesOf(base ssa.Value, b *ssa.BasicBlock, n int) bool {
	fn := b.Parent()
	all := k.x.at(base, b)
	if all.lo < 0 || all.hi == posInf {
		return false
	}
	have := map[int64]bool{}
	for _, bb := range fn.Blocks {
		for _, ins := range bb.Instrs {
			cv, ok := ins.(*ssa.Convert)
			if !ok || intBits(cv.Type()) != n || intBits(cv.X.Type()) == 0 || len(*cv.Referrers()) == 0 {
				continue
			}
			v := cv.X
			if m, inner := k.masked(v, bb, n); m {
				v = inner
			}
			w, s := k.shifted(v, bb)
			if k.x.same(w, base, bb, b, 0) {
				have[s] = true
			}
		}
	}
	for s := int64(0); all.hi>>uint(s) > 0; s += int64(n) {
		if !have[s] {
			return false
		}
		if s > 48 {
			return false
		}
	}
	return true
}

// counted: v fits its type because of the bound on lengths, which presumes
// that the slice grows only by blocks that were looked for.
func (k *indexCheck) counted(v ssa.Value, at ssa.Instruction) {
	for _, s := range k.lengths(v, map[ssa.Value]bool{}) {
		n, _ := typeIval(at.(*ssa.Convert).Type())
		if n.hi >= maxLen {
			continue
		}
		loc, shape := k.location(s)
		if loc == nil && shape == "" {
			continue
		}
		for _, ap := range k.appends(loc, shape, s) {
			k.r.Ob(1)
			k.r.Count("growth_sites", 1)
			if !k.guarded(ap, map[*ssa.Function]bool{}) && !k.once(ap, map[*ssa.Function]bool{}) {
				k.r.Fail("unbounded", ap.Parent().String()+"|append", k.pos(ap), "%s: a block is appended without looking for an equal one first, so that the number of blocks can exceed what %s holds", ap.Parent(), at.(*ssa.Convert).Type())
			}
		}
	}
}

// lengths collects the slices whose lengths a number is computed from.
func (k *indexCheck) lengths(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Convert:
		return k.lengths(y.X, seen)
	case *ssa.ChangeType:
		return k.lengths(y.X, seen)
	case *ssa.BinOp:
		return append(k.lengths(y.X, seen), k.lengths(y.Y, seen)...)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range y.Edges {
			out = append(out, k.lengths(e, seen)...)
		}
		return out
	case *ssa.Parameter:
		var out []ssa.Value
		for _, call := range k.calls[y.Parent()] {
			if a := argOf(call, y); a != nil {
				out = append(out, k.lengths(a, seen)...)
			}
		}
		return out
	case *ssa.Call:
		if bl, ok := y.Call.Value.(*ssa.Builtin); ok {
			if bl.Name() == "len" {
				return []ssa.Value{y.Call.Args[0]}
			}
			return nil
		}
		var out []ssa.Value
		for _, f := range k.u.e.targets(y) {
			for _, ret := range k.x.rets[f] {
				if len(ret.Results) > 0 {
					out = append(out, k.lengths(ret.Results[0], seen)...)
				}
			}
		}
		return out
	}
	return nil
}

// location finds where a slice is kept.
func (k *indexCheck) location(s ssa.Value) (ssa.Value, string) {
	switch y := s.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			switch a := y.X.(type) {
			case *ssa.FieldAddr:
				return nil, addrShape(a)
			case *ssa.Alloc:
				return a, ""
			case *ssa.FreeVar:
				if bs := k.x.bind[a]; len(bs) == 1 {
					return bs[0], ""
				}
			case *ssa.Parameter:
				// A pointer to the slice.
				for _, call := range k.calls[a.Parent()] {
					switch p := argOf(call, a).(type) {
					case *ssa.FieldAddr:
						return nil, addrShape(p)
					case *ssa.Alloc:
						return p, ""
					}
				}
			}
		}
	case *ssa.Phi:
		return y, ""
	case *ssa.Field:
		return nil, "field " + y.X.Type().String() + "." + y.X.Type().Underlying().(*types.Struct).Field(y.Field).Name()
	}
	return nil, ""
}

// appends lists the calls that make the slice at a location longer.
func (k *indexCheck) appends(loc ssa.Value, shape string, s ssa.Value) []*ssa.Call {
	var out []*ssa.Call
	isAppend := func(v ssa.Value) *ssa.Call {
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if bl, ok := call.Call.Value.(*ssa.Builtin); ok && bl.Name() == "append" {
			return call
		}
		if f := call.Call.StaticCallee(); f != nil && fnPkgPath(f) == "slices" && (f.Origin() != nil && (f.Origin().Name() == "Concat" || f.Origin().Name() == "Insert") || f.Name() == "Concat") {
			return call
		}
		return nil
	}
	if ph, ok := loc.(*ssa.Phi); ok {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch y := v.(type) {
			case *ssa.Phi:
				for _, e := range y.Edges {
					walk(e)
				}
			case *ssa.Call:
				if ap := isAppend(y); ap != nil {
					out = append(out, ap)
					walk(ap.Call.Args[0])
				}
			case *ssa.Slice:
				walk(y.X)
			}
		}
		walk(ph)
		return out
	}
	for _, fn := range k.u.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				ap := isAppend(st.Val)
				if ap == nil {
					continue
				}
				l2, s2 := k.locationOf(st.Addr)
				if shape != "" && s2 == shape || loc != nil && l2 == loc {
					out = append(out, ap)
				}
			}
		}
	}
	return out
}

func (k *indexCheck) locationOf(addr ssa.Value) (ssa.Value, string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return nil, addrShape(a)
	case *ssa.Alloc:
		return a, ""
	case *ssa.FreeVar:
		if bs := k.x.bind[a]; len(bs) == 1 {
			return bs[0], ""
		}
	case *ssa.Parameter:
		for _, call := range k.calls[a.Parent()] {
			switch p := argOf(call, a).(type) {
			case *ssa.FieldAddr:
				return nil, addrShape(p)
			case *ssa.Alloc:
				return p, ""
			}
		}
	}
	return nil, ""
}

// guarded: the instruction is reached only where a search found nothing.
func (k *indexCheck) guarded(ins ssa.Instruction, seen map[*ssa.Function]bool) bool {
	for d := ins.Block(); d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] && k.absence(ifi.Cond, p.Succs[0] == d, 0) {
			return true
		}
	}
	fn := ins.Parent()
	if seen[fn] {
		return true
	}
	seen[fn] = true
	calls := k.calls[fn]
	if len(calls) == 0 || k.x.anyArg[fn] {
		return false
	}
	for _, call := range calls {
		if !k.guarded(call, seen) {
			return false
		}
	}
	return true
}

// absence reports whether a condition means that a search found nothing.
func (k *indexCheck) absence(cond ssa.Value, want bool, depth int) bool {
	if depth > 8 {
		return false
	}
	switch y := cond.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return k.absence(y.X, !want, depth+1)
		}
		if y.Op == token.MUL {
			return true // a flag kept elsewhere
		}
	case *ssa.Extract:
		if lk, ok := y.Tuple.(*ssa.Lookup); ok {
			return lk.CommaOk && y.Index == 1 && !want
		}
		if call, ok := y.Tuple.(*ssa.Call); ok {
			return k.finder(call)
		}
	case *ssa.Call:
		return k.finder(y)
	case *ssa.Phi:
		// found := false; for ... { found = true }
		for _, e := range y.Edges {
			if _, ok := e.(*ssa.Const); !ok && k.absence(e, want, depth+1) {
				return true
			}
		}
		n := 0
		for _, e := range y.Edges {
			if _, ok := e.(*ssa.Const); ok {
				n++
			}
		}
		return n > 1
	case *ssa.Parameter:
		return true
	case *ssa.BinOp:
		op := y.Op
		l, r := y.X, y.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !want {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		kc, ok := r.(*ssa.Const)
		if !ok {
			return false
		}
		if kc.Value == nil { // a missing pointer
			_, iface := l.Type().Underlying().(*types.Interface)
			return op == token.EQL && !iface && k.stored(l)
		}
		if kc.Value.Kind() != constant.Int {
			return false
		}
		n := kc.Int64()
		switch {
		case op == token.EQL && (n == 0 || n == -1), op == token.LSS && (n == 0 || n == 1), op == token.LEQ && (n == 0 || n == -1):
			return k.stored(l)
		}
	}
	return false
}

// finder reports whether a call searches: it is given a key or block, and
// looks into a table.
func (k *indexCheck) finder(call *ssa.Call) bool {
	if call.Call.StaticCallee() != nil && len(call.Call.Args) == 0 {
		return false
	}
	return k.searches(call, map[*ssa.Function]bool{})
}

func (k *indexCheck) searches(call *ssa.Call, seen map[*ssa.Function]bool) bool {
	fns := k.u.e.targets(call)
	if f := call.Call.StaticCallee(); f != nil && len(fns) == 0 {
		fns = []*ssa.Function{f}
	}
	if len(fns) == 0 {
		return true // not known
	}
	for _, f := range fns {
		if k.looksUp(f, seen) {
			return true
		}
	}
	return false
}

// looksUp: the function reads from a table or calls something that does.
func (k *indexCheck) looksUp(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	switch fnPkgPath(f) {
	case "slices", "maps", "sort", "sync", "bytes", "strings":
		return true
	}
	if seen[f] || f.Blocks == nil {
		return false
	}
	seen[f] = true
	if !k.c.own(fnPkgPath(f)) {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Lookup, *ssa.Index, *ssa.Next:
				return true
			case *ssa.IndexAddr:
				for _, ref := range *y.Referrers() {
					if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
						return true
					}
				}
			case *ssa.Call:
				if _, b := y.Call.Value.(*ssa.Builtin); !b && k.searches(y, seen) {
					return true
				}
			}
		}
	}
	return false
}

// stored reports whether a number or pointer is looked up in a table.
func (k *indexCheck) stored(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Convert:
		return k.stored(y.X)
	case *ssa.ChangeType:
		return k.stored(y.X)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return false
		}
		switch y.X.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Parameter:
			return true
		case *ssa.Alloc, *ssa.FreeVar:
			return true
		}
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		return true
	case *ssa.Call:
		_, b := y.Call.Value.(*ssa.Builtin)
		return !b && k.finder(y)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if k.stored(e) {
				return true
			}
		}
	case *ssa.Parameter:
		for _, call := range k.calls[y.Parent()] {
			if a := argOf(call, y); a != nil {
				if _, isP := a.(*ssa.Parameter); isP || k.stored(a) {
					return true
				}
			}
		}
	}
	return false
}

// once: the instruction runs at most once in the program.
func (k *indexCheck) once(ins ssa.Instruction, seen map[*ssa.Function]bool) bool {
	fn := ins.Parent()
	if inCycle(ins.Block()) {
		return false
	}
	if fn == k.u.main {
		return true
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	defer delete(seen, fn)
	calls := k.calls[fn]
	if k.x.anyArg[fn] || len(calls) == 0 {
		return len(calls) == 0 && isInitOf(fn)
	}
	if len(calls) > 4 {
		return false
	}
	for _, call := range calls {
		if !k.once(call, seen) {
			return false
		}
	}
	return true
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if n == b {
			return true
		}
		if seen[n] {
			continue
		}
		seen[n] = true
		work = append(work, n.Succs...)
	}
	return false
}

var elemTypeRe = regexp.MustCompile(`\[[^\]]*\]\s*(u?int(?:8|16|32|64)?|byte)\b`)
var bareTypeRe = regexp.MustCompile(`^(u?int(?:8|16|32|64)?|byte)$`)

func bitsOfName(s string) int {
	switch s {
	case "byte", "uint8":
		return 8
	case "int8":
		return 7
	case "uint16":
		return 16
	case "int16":
		return 15
	case "int32":
		return 31
	case "uint32":
		return 32
	}
	return 63
}

// elementBits finds the narrowest element type that the generator declares
// for a table of indices.
func (k *indexCheck) elementBits() (n int, several bool, from string) {
	found := map[int]bool{}
	note := func(s string, re *regexp.Regexp) {
		for _, m := range re.FindAllStringSubmatch(s, -1) {
			found[bitsOfName(m[1])] = true
		}
	}
	for _, re := range []*regexp.Regexp{elemTypeRe, bareTypeRe} {
		for _, fn := range k.u.fns {
			if fnPkg(fn) != fnPkg(k.u.main) && !k.prints(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
							note(constant.StringVal(c.Value), re)
						}
					}
				}
			}
		}
		if len(found) > 0 {
			break
		}
	}
	from = "declared in the text the generator writes"
	if len(found) == 0 {
		from = "of the existing table"
		p := k.c.Main()
		sp := k.c.Pkg(p, "textseg/internal/charprops")
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem().Underlying()
			var el types.Type
			switch a := t.(type) {
			case *types.Array:
				if a.Len() < 128 {
					continue
				}
				el = a.Elem()
			case *types.Slice:
				el = a.Elem()
			default:
				continue
			}
			if _, named := el.(*types.Named); named {
				continue
			}
			if bt, ok := el.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				found[bitsOfName(bt.Name())] = true
			}
		}
	}
	n = 63
	for b := range found {
		n = min(n, b)
	}
	return n, len(found) > 1, from
}

// prints reports whether a function formats text.
func (k *indexCheck) prints(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				if t := call.Common().StaticCallee(); t != nil && isFormatter(t) {
					return true
				}
			}
		}
	}
	return false
}

func isFormatter(t *ssa.Function) bool {
	switch fnPkgPath(t) {
	case "fmt":
		return strings.HasPrefix(t.Name(), "Fprint") || strings.HasPrefix(t.Name(), "Sprint") || strings.HasPrefix(t.Name(), "Append") || strings.HasPrefix(t.Name(), "Print")
	case "strconv":
		return strings.HasPrefix(t.Name(), "Append") || strings.HasPrefix(t.Name(), "Format") || t.Name() == "Itoa"
	}
	return false
}

// emission checks the indices that are printed into the table.
func (k *indexCheck) emission() {
	bits, several, from := k.elementBits()
	k.r.Note("index_element_bits", fmt.Sprintf("%d (%s)", bits, from))
	max := int64(1)<<uint(bits) - 1
	fit := ival{lo: 0, hi: max}
	n := 0
	for _, fn := range k.u.fns {
		if strings.HasSuffix(fnPkgPath(fn), "/ucdparse") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, v := range k.printed(ins) {
					if k.diagnostic(ins, v) {
						continue
					}
					if s, ok := v.Type().Underlying().(*types.Slice); ok {
						if intBits(s.Elem()) <= 8 {
							continue
						}
						n++
						k.r.Ob(1)
						if !k.anyGuard(ins, max, several) {
							k.r.Fail("unchecked-index", fn.String(), k.pos(ins), "%s: indices are printed into the table without a check that they fit its elements of %d bits (%s)", fn, bits, from)
						}
						continue
					}
					if intBits(v.Type()) < 16 || !k.fromElement(v, map[ssa.Value]bool{}) {
						continue
					}
					n++
					k.r.Ob(1)
					k.r.Count("printed_indices", 1)
					if el := k.altered(v, map[ssa.Value]bool{}); el != "" {
						k.r.Fail("altered-index", fn.String(), k.pos(ins), "%s: an index is changed by %s before it is printed into the table", fn, el)
						continue
					}
					got := k.x.at(v, b)
					if got.in(fit) {
						if k.quiet(v, b, fit) || k.clamped(v, max, 0) {
							k.r.Fail("silent", fn.String(), k.pos(ins), "%s: indices that do not fit the table are left out or replaced instead of refused", fn)
						}
						continue
					}
					if k.anyGuard(ins, max, several) {
						continue
					}
					k.r.Fail("unchecked-index", fn.String(), k.pos(ins), "%s: an index in %s is printed into the table, whose elements have %d bits (%s)", fn, showIval(got), bits, from)
				}
			}
		}
	}
	k.r.Note("emission_sites", n)
}

// printed lists the numbers and slices that an instruction formats.
func (k *indexCheck) printed(ins ssa.Instruction) []ssa.Value {
	switch y := ins.(type) {
	case *ssa.MakeInterface:
		t := y.X.Type()
		if _, ok := typeIval(t); ok {
			return []ssa.Value{y.X}
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			if _, ok := typeIval(s.Elem()); ok {
				return []ssa.Value{y.X}
			}
		}
	case ssa.CallInstruction:
		fn := y.Common().StaticCallee()
		if fn == nil || fnPkgPath(fn) != "strconv" || !isFormatter(fn) {
			return nil
		}
		var out []ssa.Value
		for i, a := range y.Common().Args {
			if _, ok := typeIval(a.Type()); ok {
				if strings.HasPrefix(fn.Name(), "Format") && i > 0 || strings.HasPrefix(fn.Name(), "Append") && i > 1 {
					continue // the base
				}
				out = append(out, a)
			}
		}
		return out
	}
	return nil
}

// diagnostic: the value only goes into messages or a panic.
func (k *indexCheck) diagnostic(ins ssa.Instruction, v ssa.Value) bool {
	val, ok := ins.(ssa.Value)
	if !ok {
		return false
	}
	return k.onlyMessage(val, map[ssa.Value]bool{})
}

func (k *indexCheck) onlyMessage(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.DebugRef, *ssa.Panic:
		case *ssa.Store:
			root := addrRoot(y.Addr)
			al, ok := root.(*ssa.Alloc)
			if y.Val == v && (!ok || !k.onlyMessage(al, seen)) {
				return false
			}
		case ssa.CallInstruction:
			if diagnosticSink(y) {
				continue
			}
			t := y.Common().StaticCallee()
			if t == nil {
				return false
			}
			if exits(t) || fnName(t) == "fmt.Errorf" || fnName(t) == "errors.New" {
				continue
			}
			if (fnPkgPath(t) == "fmt" && strings.HasPrefix(t.Name(), "Sprint") || fnPkgPath(t) == "strconv") && y.Value() != nil {
				if !k.onlyMessage(y.Value(), seen) {
					return false
				}
				continue
			}
			return false
		case *ssa.MakeInterface, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.Phi, *ssa.BinOp, *ssa.Convert:
			if !k.onlyMessage(ref.(ssa.Value), seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// fromElement reports whether a number comes from an element of a table.
func (k *indexCheck) fromElement(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Convert:
		return k.fromElement(y.X, seen)
	case *ssa.ChangeType:
		return k.fromElement(y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if k.fromElement(e, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return k.fromElement(y.X, seen) || k.fromElement(y.Y, seen)
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return k.fromElement(y.X, seen)
		}
		switch a := y.X.(type) {
		case *ssa.IndexAddr:
			bt, _ := y.Type().Underlying().(*types.Basic)
			return bt != nil && intBits(y.Type()) > 8 && bt.Kind() != types.Int32
		case *ssa.Alloc:
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a && k.fromElement(st.Val, seen) {
					return true
				}
			}
		case *ssa.FreeVar:
			for _, bnd := range k.x.bind[a] {
				if al, ok := bnd.(*ssa.Alloc); ok {
					for _, ref := range *al.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == al && k.fromElement(st.Val, seen) {
							return true
						}
					}
				}
			}
		}
	case *ssa.Index:
		return intBits(y.Type()) > 8
	case *ssa.Call:
		for _, a := range y.Call.Args {
			if _, ok := typeIval(a.Type()); ok && k.fromElement(a, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		if intBits(y.Type()) == 16 {
			return true
		}
		for _, call := range k.calls[y.Parent()] {
			if a := argOf(call, y); a != nil && k.fromElement(a, seen) {
				return true
			}
		}
	}
	return false
}

// altered names an operation between the element and its printing.
func (k *indexCheck) altered(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Convert:
		if _, ok := typeIval(y.X.Type()); ok {
			return k.altered(y.X, seen) // judged as a conversion
		}
	case *ssa.ChangeType:
		return k.altered(y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if s := k.altered(e, seen); s != "" {
				return s
			}
		}
	case *ssa.BinOp:
		return y.Op.String()
	case *ssa.Call:
		if bl, ok := y.Call.Value.(*ssa.Builtin); ok {
			return bl.Name()
		}
	case *ssa.Parameter:
		for _, call := range k.calls[y.Parent()] {
			if a := argOf(call, y); a != nil {
				if s := k.altered(a, seen); s != "" && k.fromElement(a, map[ssa.Value]bool{}) {
					return s
				}
			}
		}
	}
	return ""
}

// anyGuard looks for a check of all indices that refuses those above max and
// runs before the table is written.
func (k *indexCheck) anyGuard(at ssa.Instruction, max int64, several bool) bool {
	sizes := map[string]bool{}
	for _, fn := range k.u.fns {
		if strings.HasSuffix(fnPkgPath(fn), "/ucdparse") {
			continue
		}
		for _, b := range fn.Blocks {
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for side := 0; side < 2; side++ {
				kind, field := k.limit(ifi.Cond, side == 0, max, 0)
				if kind == "" || kind == "element" && !k.repeated(b, map[*ssa.Function]bool{}) {
					continue
				}
				other := b.Succs[side]
				if !k.refuses(other, b, map[*ssa.BasicBlock]bool{}) && !k.flags(other, b, several) {
					continue
				}
				if !k.always(b, at, kind == "element") {
					continue
				}
				if kind == "length" {
					sizes[field] = true
					if len(sizes) >= 2 {
						return true
					}
					continue
				}
				return true
			}
		}
	}
	return false
}

// repeated: the block runs in a loop, maybe of a caller.
func (k *indexCheck) repeated(b *ssa.BasicBlock, seen map[*ssa.Function]bool) bool {
	if inCycle(b) || k.x.anyArg[b.Parent()] && b.Parent() != k.u.main {
		return true
	}
	if seen[b.Parent()] {
		return false
	}
	seen[b.Parent()] = true
	for _, call := range k.calls[b.Parent()] {
		if k.repeated(call.Block(), seen) {
			return true
		}
	}
	return false
}

// quiet finds a condition that alone keeps v within a range and whose other
// outcome goes on as if nothing had happened.
func (k *indexCheck) quiet(v ssa.Value, b *ssa.BasicBlock, fit ival) bool {
	if k.x.raw(v).in(fit) {
		return false
	}
	x := k.x
	for d := b; d != nil; d = x.idom[d] {
		if len(x.preds[d]) != 1 {
			continue
		}
		p := x.preds[d][0]
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		r := x.refine(x.raw(v), v, ifi.Cond, p.Succs[0] == d, p, b, 0)
		if r == x.raw(v) {
			continue
		}
		other := p.Succs[0]
		if other == d {
			other = p.Succs[1]
		}
		if k.refuses(other, p, map[*ssa.BasicBlock]bool{}) || k.flags(other, p, true) {
			return false
		}
	}
	return true
}

// clamped: a number is replaced by the largest one that fits.
func (k *indexCheck) clamped(v ssa.Value, hi int64, depth int) bool {
	if depth > 6 {
		return false
	}
	isHi := func(w ssa.Value) bool {
		c, ok := stripConv(k.x, w).(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == hi
	}
	switch y := stripConv(k.x, v).(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if isHi(e) {
				return true
			}
		}
	case *ssa.Call:
		if bl, ok := y.Call.Value.(*ssa.Builtin); ok && bl.Name() == "min" {
			for _, a := range y.Call.Args {
				if isHi(a) {
					return true
				}
			}
		}
	}
	return false
}

// limit recognises a condition that is want exactly (or at least) for the
// indices above max: "element" compares one element, "maximum" the largest,
// "length" the number of blocks of the named slice.
func (k *indexCheck) limit(cond ssa.Value, want bool, max int64, depth int) (kind, field string) {
	if depth > 4 {
		return "", ""
	}
	switch y := cond.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return k.limit(y.X, !want, max, depth+1)
		}
	case *ssa.Call:
		// Predicates: func fits(v uint16) bool, slices.ContainsFunc.
		fn := y.Call.StaticCallee()
		if fn == nil {
			return "", ""
		}
		name := fn.Name()
		if fn.Origin() != nil {
			name = fn.Origin().Name()
		}
		if fnPkgPath(fn) == "slices" && name == "ContainsFunc" && want && len(y.Call.Args) == 2 {
			if f := funcOf(y.Call.Args[1]); f != nil && len(k.x.rets[f]) == 1 {
				if s, _ := k.limit(k.x.rets[f][0].Results[0], true, max, depth+1); s == "element" && intBits(f.Params[0].Type()) > 8 {
					return "maximum", ""
				}
			}
			return "", ""
		}
		if k.c.own(fnPkgPath(fn)) && len(fn.Blocks) == 1 && len(k.x.rets[fn]) == 1 && len(k.x.rets[fn][0].Results) == 1 {
			return k.limit(k.x.rets[fn][0].Results[0], want, max, depth+1)
		}
	case *ssa.BinOp:
		op := y.Op
		l, r := y.X, y.Y
		if k.x.raw(l).lo == k.x.raw(l).hi {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		rv := k.x.raw(r)
		if rv.lo != rv.hi || rv.bot {
			return "", ""
		}
		n := rv.lo
		if !want {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		// The largest number that is not refused.
		pass := int64(-1)
		switch op {
		case token.GTR:
			pass = n
		case token.GEQ:
			pass = n - 1
		case token.NEQ:
			if n != 0 {
				return "", ""
			}
			pass = 0
		default:
			return "", ""
		}
		l = stripConv(k.x, l)
		for {
			bo, ok := l.(*ssa.BinOp)
			if !ok {
				break
			}
			s := k.x.raw(bo.Y)
			if s.lo != s.hi {
				return "", ""
			}
			switch {
			case bo.Op == token.SHR && s.lo >= 0 && s.lo < 32:
				pass = (pass+1)<<uint(s.lo) - 1
			case bo.Op == token.QUO && s.lo > 0:
				pass = (pass+1)*s.lo - 1
			case bo.Op == token.SUB:
				pass += s.lo
			case bo.Op == token.ADD:
				pass -= s.lo
			case bo.Op == token.AND_NOT && s.lo&(s.lo+1) == 0 && pass == 0:
				pass = s.lo
			default:
				return "", ""
			}
			l = stripConv(k.x, bo.X)
		}
		if call, ok := l.(*ssa.Call); ok {
			if bl, ok := call.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
				if pass > (max+1)*64+63 {
					return "", ""
				}
				return "length", k.fieldName(call.Call.Args[0])
			}
			if k.isMax(call, map[ssa.Value]bool{}) && pass <= max {
				return "maximum", ""
			}
			return "", ""
		}
		if pass > max {
			return "", ""
		}
		if k.isMax(l, map[ssa.Value]bool{}) {
			return "maximum", ""
		}
		if p, ok := l.(*ssa.Parameter); ok && intBits(p.Type()) > 8 {
			return "element", ""
		}
		if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL && intBits(ld.Type()) > 8 {
			if ia, ok := ld.X.(*ssa.IndexAddr); ok {
				if _, fixed := ia.Index.(*ssa.Const); !fixed {
					return "element", ""
				}
			}
		}
		if ix, ok := l.(*ssa.Index); ok && intBits(ix.Type()) > 8 {
			return "element", ""
		}
	}
	return "", ""
}

func (k *indexCheck) fieldName(s ssa.Value) string {
	switch y := s.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			return addrShape(fa)
		}
		return y.X.Name()
	case *ssa.Field:
		return "field " + y.X.Type().String() + "." + y.X.Type().Underlying().(*types.Struct).Field(y.Field).Name()
	}
	return s.Name()
}

// isMax reports whether v is the largest element of a table.
func (k *indexCheck) isMax(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch y := stripConv(k.x, v).(type) {
	case *ssa.Call:
		if bl, ok := y.Call.Value.(*ssa.Builtin); ok && bl.Name() == "max" {
			el := false
			for _, a := range y.Call.Args {
				el = el || k.fromElement(a, map[ssa.Value]bool{})
			}
			return el
		}
		fn := y.Call.StaticCallee()
		if fn == nil {
			return false
		}
		name := fn.Name()
		if fn.Origin() != nil {
			name = fn.Origin().Name()
		}
		if fnPkgPath(fn) == "slices" && name == "Max" && len(y.Call.Args) == 1 {
			s, ok := y.Call.Args[0].Type().Underlying().(*types.Slice)
			_, cut := y.Call.Args[0].(*ssa.Slice)
			return ok && !cut && intBits(s.Elem()) > 8
		}
		if k.c.own(fnPkgPath(fn)) {
			for _, ret := range k.x.rets[fn] {
				if len(ret.Results) > 0 && k.isMax(ret.Results[0], seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if k.isMax(e, seen) {
				return true
			}
		}
		// if v > m { m = v }
		return k.maxLoop(y)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al && k.isMax(st.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

// maxLoop: among the values merged by ph (or around its loop) is an element
// that was found to be greater than what was there before.
func (k *indexCheck) maxLoop(ph *ssa.Phi) bool {
	web := map[*ssa.Phi]bool{}
	var walk func(p *ssa.Phi)
	var elems []ssa.Value
	walk = func(p *ssa.Phi) {
		if web[p] {
			return
		}
		web[p] = true
		for _, e := range p.Edges {
			if q, ok := e.(*ssa.Phi); ok {
				walk(q)
			} else if k.fromElement(e, map[ssa.Value]bool{}) {
				elems = append(elems, e)
			}
		}
	}
	walk(ph)
	if len(elems) == 0 {
		return false
	}
	for _, el := range elems {
		ok := false
		for _, b := range ph.Parent().Blocks {
			ifi, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !isIf {
				continue
			}
			bo, isBo := ifi.Cond.(*ssa.BinOp)
			if !isBo {
				continue
			}
			l, r, op := stripConv(k.x, bo.X), stripConv(k.x, bo.Y), bo.Op
			e := stripConv(k.x, el)
			if r == e {
				l, r = r, l
				switch op {
				case token.LSS:
					op = token.GTR
				case token.LEQ:
					op = token.GEQ
				default:
					continue
				}
			}
			q, isPhi := r.(*ssa.Phi)
			if l == e && isPhi && web[q] && (op == token.GTR || op == token.GEQ) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// refuses: every path from b ends the program or returns an error that the
// callers look at, without going back to the check.
func (k *indexCheck) refuses(b, check *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if b == check {
		return false
	}
	if seen[b] {
		return true
	}
	seen[b] = true
	for _, ins := range b.Instrs {
		switch y := ins.(type) {
		case *ssa.Panic:
			return true
		case ssa.CallInstruction:
			if _, isDefer := ins.(*ssa.Defer); isDefer {
				continue
			}
			if f := y.Common().StaticCallee(); f != nil && k.x.never(f) {
				if fnName(f) == "os.Exit" {
					if r := k.x.raw(y.Common().Args[0]); r.lo == 0 && r.hi == 0 {
						return false
					}
				}
				return true
			}
		case *ssa.Return:
			fn := b.Parent()
			for i, v := range y.Results {
				if isError(v.Type()) {
					if c, ok := v.(*ssa.Const); ok && c.Value == nil {
						return false
					}
					return k.used(fn, i)
				}
			}
			for i, v := range y.Results {
				if c, ok := v.(*ssa.Const); ok && isBool(v.Type()) && c.Value != nil {
					return k.used(fn, i)
				}
			}
			return false
		}
	}
	if len(b.Succs) == 0 {
		return true
	}
	for _, s := range b.Succs {
		if !k.refuses(s, check, seen) {
			return false
		}
	}
	return true
}

// used: callers look at the i-th result.
func (k *indexCheck) used(fn *ssa.Function, i int) bool {
	calls := k.calls[fn]
	if len(calls) == 0 {
		return false
	}
	for _, call := range calls {
		v := call.Value()
		if v == nil {
			return false
		}
		if fn.Signature.Results().Len() == 1 {
			if len(*v.Referrers()) == 0 {
				return false
			}
			continue
		}
		ok := false
		for _, ref := range *v.Referrers() {
			if ex, isEx := ref.(*ssa.Extract); isEx && ex.Index == i && len(*ex.Referrers()) > 0 {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// flags: the branch only records the finding in a variable that is looked at
// later (a flag, an error, the name of the element type).
func (k *indexCheck) flags(b, check *ssa.BasicBlock, several bool) bool {
	// The merge point and the value the branch contributes there.
	var edge = b
	from := check
	for i := 0; i < 8; i++ {
		if len(edge.Preds) > 1 || edge == check {
			break
		}
		if len(edge.Succs) != 1 {
			return false
		}
		from, edge = edge, edge.Succs[0]
	}
	for _, ins := range edge.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var mine ssa.Value
		for i, p := range edge.Preds {
			if p == from {
				mine = ph.Edges[i]
			}
		}
		differs := false
		for _, e := range ph.Edges {
			differs = differs || e != mine
		}
		if !differs || mine == nil {
			continue
		}
		switch t := mine.Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() == types.String && several {
				return true // the element type is chosen
			}
			if t.Kind() == types.Bool && k.decides(ph, map[ssa.Value]bool{}) {
				return true
			}
		case *types.Interface:
			if isError(mine.Type()) && k.decides(ph, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// decides: a branch on v refuses.
func (k *indexCheck) decides(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.If:
			for _, s := range y.Block().Succs {
				if k.refuses(s, y.Block(), map[*ssa.BasicBlock]bool{}) {
					return true
				}
			}
		case *ssa.Phi, *ssa.UnOp, *ssa.BinOp:
			if k.decides(ref.(ssa.Value), seen) {
				return true
			}
		case *ssa.Return:
			for i, r := range y.Results {
				if r == v && k.used(y.Parent(), i) {
					return true
				}
			}
		}
	}
	return false
}

// always: the check in block b runs whenever the table is written; a check of
// single elements runs for each element of a loop.
func (k *indexCheck) always(b *ssa.BasicBlock, at ssa.Instruction, perElement bool) bool {
	top := b
	if perElement {
		// It must be reached on every round of the loops around it.
		for {
			h := headerOf(top)
			if h == nil {
				break
			}
			for _, p := range h.Preds {
				if h.Dominates(p) && !k.x.dead[p] && !k.x.dominates(top, p) {
					return false
				}
			}
			if h == top {
				// Already at the header: leave this loop.
				top = outside(h)
				if top == nil {
					return false
				}
				continue
			}
			top = h
			if o := outside(h); o != nil {
				top = o
			}
		}
	}
	return k.before(top, at, map[*ssa.Function]bool{})
}

// headerOf is the header of the innermost loop containing b, nil if none.
func headerOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		back := false
		for _, p := range h.Preds {
			if h.Dominates(p) {
				back = true
			}
		}
		if back && loopBlocks(h)[b] {
			return h
		}
	}
	return nil
}

// outside is the block from which a loop is entered.
func outside(h *ssa.BasicBlock) *ssa.BasicBlock { return h.Idom() }

// before: block top is executed before the table is written.
func (k *indexCheck) before(top *ssa.BasicBlock, at ssa.Instruction, seen map[*ssa.Function]bool) bool {
	fn := top.Parent()
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if fn == at.Parent() && k.x.dominates(top, at.Block()) {
		return true
	}
	// The calls in this function from which the table is printed or written.
	var targets []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, t := range k.u.e.targets(call) {
				if fileOp(t) == "write" || fnName(t) == "(*os.File).Write" || fnName(t) == "go/format.Source" {
					targets = append(targets, b)
				} else if k.reachesWrite(t, at.Parent(), map[*ssa.Function]bool{}) {
					targets = append(targets, b)
				}
			}
		}
	}
	if len(targets) > 0 {
		ok := false
		for _, t := range targets {
			ok = ok || k.x.dominates(top, t)
		}
		if ok {
			return true
		}
	}
	if len(targets) > 0 && fn == k.u.main {
		return false
	}
	// A function of its own: it must run to its end, and be called before.
	for _, ret := range k.x.rets[fn] {
		if !k.x.dominates(top, ret.Block()) {
			return false
		}
	}
	for _, call := range k.calls[fn] {
		if k.before(call.Block(), at, seen) {
			return true
		}
	}
	return false
}

func (k *indexCheck) reachesWrite(f, emits *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == emits {
		return true
	}
	if seen[f] || !k.c.own(fnPkgPath(f)) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				for _, t := range k.u.e.targets(call) {
					if fileOp(t) == "write" || k.reachesWrite(t, emits, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

var _ = sort.Strings
