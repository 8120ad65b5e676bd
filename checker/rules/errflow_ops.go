package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- memory

// pathMatch compares cell paths in which [*] stands for any index.
func pathMatch(pat, s string) (rest string, ok bool) {
	for pat != "" {
		i := strings.IndexAny(pat[1:], ".[") + 1
		if i == 0 {
			i = len(pat)
		}
		j := 0
		if s != "" {
			if j = strings.IndexAny(s[1:], ".[!") + 1; j == 0 {
				j = len(s)
			}
		}
		a, b := pat[:i], s[:j]
		if a != b && !(a == "[*]" && strings.HasPrefix(b, "[")) && !(b == "[*]" && strings.HasPrefix(a, "[")) {
			return "", false
		}
		pat, s = pat[i:], s[j:]
	}
	return s, true
}

func (x *errflow) baseOf(st *eState, obj, path string) string {
	m := st.heap[obj]
	for p := path; ; {
		if b, ok := m[p+"!"].(evStr); ok {
			return string(b)
		}
		if p == "" {
			break
		}
		i := strings.LastIndexAny(p, ".[")
		p = p[:i]
	}
	if b, ok := st.base[obj]; ok {
		return b
	}
	if strings.HasPrefix(obj, "global ") {
		return "zero"
	}
	if strings.HasPrefix(obj, "sym ") {
		return "sym " + obj[4:]
	}
	return "zero"
}

func (x *errflow) fromBase(base, path string, t types.Type) any {
	switch {
	case base == "zero":
		return x.zero(t)
	case strings.HasPrefix(base, "sym "):
		p := base + path
		if len(p) > 80 {
			return nil
		}
		switch t.Underlying().(type) {
		case *types.Pointer:
			return evPtr{obj: p}
		case *types.Struct, *types.Array:
			return evAgg{base: p}
		}
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return evAgg{base: "top"}
	}
	return nil
}

func (x *errflow) readCell(st *eState, obj, path string, t types.Type) any {
	m := st.heap[obj]
	// Aggregates and scalars alike are the cells below a path.
	inst := map[string]map[string]any{} // concrete prefix -> subcells
	for p, v := range m {
		rest, ok := pathMatch(path, p)
		if !ok {
			continue
		}
		pre := p[:len(p)-len(rest)]
		if inst[pre] == nil {
			inst[pre] = map[string]any{}
		}
		inst[pre][rest] = v
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		var alts []any
		for _, pre := range sortedKeys(inst) {
			b := x.baseOf(st, obj, pre)
			if strings.HasPrefix(b, "sym ") {
				b += path
			}
			alts = append(alts, evAgg{m: inst[pre], base: b})
		}
		if len(alts) == 0 {
			return x.fromBase(x.baseOf(st, obj, path), path, t)
		}
		if len(alts) == 1 {
			return alts[0]
		}
		return evAlt(alts)
	}
	var alts []any
	keys := map[string]bool{}
	add := func(v any) {
		if as, ok := v.(evAlt); ok {
			for _, a := range as {
				if k := evKey(a); !keys[k] {
					keys[k] = true
					alts = append(alts, a)
				}
			}
			return
		}
		if k := evKey(v); !keys[k] {
			keys[k] = true
			alts = append(alts, v)
		}
	}
	for _, pre := range sortedKeys(inst) {
		if v, ok := inst[pre][""]; ok {
			add(v)
		}
	}
	switch len(alts) {
	case 0:
		return x.fromBase(x.baseOf(st, obj, path), path, t)
	case 1:
		return alts[0]
	}
	return evAlt(alts)
}

func (x *errflow) load(st *eState, f *eFrame, v *ssa.UnOp) any {
	if ia, ok := v.X.(*ssa.IndexAddr); ok && isNumeric(v.Type()) {
		if t, ok := x.val(st, f, ia.X).(evBytes); ok {
			return evTaint{term: t.term}
		}
		return nil
	}
	if g, ok := v.X.(*ssa.Global); ok && g.Pkg != nil && !x.c.own(g.Pkg.Pkg.Path()) {
		switch {
		case g.String() == "io.EOF":
			return evErr{"eof", "io.EOF"}
		case isError(v.Type()):
			return evErr{"sentinel", g.String()}
		case g.String() == "os.Stdout", g.String() == "os.Stderr":
			return evRes{"std"}
		}
		return nil
	}
	p, ok := x.val(st, f, v.X).(evPtr)
	if !ok {
		return nil
	}
	r := x.readCell(st, p.obj, p.path, v.Type())
	if b, ok := r.(evBytes); ok {
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			return x.element(st, f, ia, b)
		}
	}
	return r
}

func (x *errflow) store(st *eState, addr, val any, t types.Type, at ssa.Value) {
	p, ok := addr.(evPtr)
	if !ok {
		return
	}
	if ia, ok := at.(*ssa.IndexAddr); ok && isNumeric(t) && !((x.text || x.apply != nil && smallArray(ia)) && isInitOf(ia.Parent())) && !(x.apply != nil && tracked([]any{val}, 0)) {
		return
	}
	m := st.heap[p.obj]
	if m == nil {
		m = map[string]any{}
		st.heap[p.obj] = m
	}
	weak := strings.Contains(p.path, "[*]")
	put := func(path string, v any) {
		if !weak {
			m[path] = v
			return
		}
		old, ok := m[path]
		if !ok {
			m[path] = v
			return
		}
		var alts evAlt
		if as, ok := old.(evAlt); ok {
			alts = append(alts, as...)
		} else {
			alts = append(alts, old)
		}
		for _, a := range alts {
			if evKey(a) == evKey(v) {
				return
			}
		}
		if len(alts) > 12 {
			return
		}
		m[path] = append(alts, v)
	}
	if !weak {
		for k := range m {
			if k == p.path || strings.HasPrefix(k, p.path) && len(k) > len(p.path) && strings.ContainsRune(".[!", rune(k[len(p.path)])) {
				delete(m, k)
			}
		}
	}
	if a, ok := val.(evAgg); ok {
		for sub, v := range a.m {
			put(p.path+sub, v)
		}
		if _, own := a.m["!"]; !own {
			put(p.path+"!", evStr(a.base))
		}
		return
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		put(p.path+"!", evStr("top"))
		return
	}
	put(p.path, val)
}

// ---- values

func smallArray(ia *ssa.IndexAddr) bool {
	p, ok := ia.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return ok && a.Len() <= 16
}

func (x *errflow) eval(st *eState, f *eFrame, v ssa.Value) any {
	switch y := v.(type) {
	case *ssa.Alloc:
		if x.apply != nil && y.Comment == "makeslice" && isNumeric(y.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()) {
			return nil
		}
		id := x.siteID(st, y)
		st.heap[id] = map[string]any{}
		st.base[id] = "zero"
		return evPtr{obj: id}
	case *ssa.MakeSlice:
		if x.apply != nil && isNumeric(y.Type().Underlying().(*types.Slice).Elem()) {
			return nil
		}
		id := x.siteID(st, y)
		st.heap[id] = map[string]any{}
		st.base[id] = "zero"
		n := -1
		if k, ok := y.Len.(*ssa.Const); ok {
			n = int(k.Int64())
		}
		return evSlice{obj: id, n: n, some: n > 0}
	case *ssa.MakeClosure:
		r := evFn{fn: y.Fn.(*ssa.Function)}
		for _, b := range y.Bindings {
			r.binds = append(r.binds, x.val(st, f, b))
		}
		return r
	case *ssa.MakeInterface:
		val := x.val(st, f, y.X)
		if isError(y.Type()) {
			return x.errorOf(st, y, val)
		}
		if e, ok := val.(evErr); ok {
			return e
		}
		return evIface{typ: y.X.Type(), val: val}
	case *ssa.ChangeInterface:
		return x.val(st, f, y.X)
	case *ssa.ChangeType:
		return x.val(st, f, y.X)
	case *ssa.MultiConvert:
		return nil
	case *ssa.Convert:
		return x.convert(st, y, x.val(st, f, y.X))
	case *ssa.TypeAssert:
		val := x.val(st, f, y.X)
		switch w := val.(type) {
		case evIface:
			ok := types.Identical(y.AssertedType, w.typ)
			var r any = w.val
			if it, is := y.AssertedType.Underlying().(*types.Interface); is {
				ok = types.Implements(w.typ, it)
				r = val
			}
			if y.CommaOk {
				if !ok {
					return evTup{x.zero(y.AssertedType), evBool(false)}
				}
				return evTup{r, evBool(true)}
			}
			return r
		case evNil:
			if y.CommaOk {
				return evTup{x.zero(y.AssertedType), evBool(false)}
			}
		case evErr:
			if it, is := y.AssertedType.Underlying().(*types.Interface); is {
				if types.Implements(errorIfaceNamed(), it) {
					if y.CommaOk {
						return evTup{val, evBool(true)}
					}
					return val
				}
			}
		}
		if y.CommaOk {
			return evTup{nil, nil}
		}
		return nil
	case *ssa.Extract:
		if t, ok := x.val(st, f, y.Tuple).(evTup); ok && y.Index < len(t) {
			return t[y.Index]
		}
		return nil
	case *ssa.Field:
		return x.field(x.val(st, f, y.X), "."+fmt.Sprint(y.Field), y.Type())
	case *ssa.FieldAddr:
		if p, ok := x.val(st, f, y.X).(evPtr); ok {
			return evPtr{p.obj, p.path + "." + fmt.Sprint(y.Field)}
		}
		return nil
	case *ssa.IndexAddr:
		if x.apply != nil {
			x.apply.use(st, x.val(st, f, y.Index))
		}
		idx := "[*]"
		if k, ok := x.val(st, f, y.Index).(evInt); ok {
			idx = fmt.Sprintf("[%d]", int64(k))
		}
		switch p := x.val(st, f, y.X).(type) {
		case evPtr:
			return evPtr{p.obj, p.path + idx}
		case evSlice:
			if p.n < 0 {
				idx = "[*]"
			}
			return evPtr{p.obj, p.path + idx}
		}
		return nil
	case *ssa.Index:
		if isNumeric(y.Type()) {
			if t, ok := x.val(st, f, y.X).(evBytes); ok {
				return evTaint{term: t.term}
			}
			return nil
		}
		if k, ok := x.val(st, f, y.Index).(evInt); ok {
			return x.field(x.val(st, f, y.X), fmt.Sprintf("[%d]", int64(k)), y.Type())
		}
		if a, ok := x.val(st, f, y.X).(evAgg); ok {
			tmp := newState()
			tmp.heap["t"] = a.m
			tmp.base["t"] = a.base
			return x.readCell(tmp, "t", "[*]", y.Type())
		}
		return nil
	case *ssa.Slice:
		if x.apply != nil {
			for _, b := range []ssa.Value{y.Low, y.High} {
				if b != nil && tracked([]any{x.val(st, f, b)}, 0) {
					st.ap.lost = true
				}
			}
		}
		full := y.Low == nil && y.High == nil
		switch p := x.val(st, f, y.X).(type) {
		case evPtr:
			n := -1
			if pt, ok := y.X.Type().Underlying().(*types.Pointer); ok && full {
				if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
					n = int(arr.Len())
				}
			}
			return evSlice{obj: p.obj, path: p.path, n: n, some: n > 0}
		case evSlice:
			if full {
				return p
			}
			p.n, p.some = -1, false
			return p
		case evNil:
			return p
		case evBytes:
			return x.slicing(st, f, y, p)
		}
		return nil
	case *ssa.Range:
		switch w := x.val(st, f, y.X).(type) {
		case evBytes:
			return evTaint{term: w.term}
		}
		return nil
	case *ssa.Lookup:
		if t, ok := x.val(st, f, y.X).(evBytes); ok {
			return evTaint{term: t.term}
		}
		if t, ok := textTerm(x.val(st, f, y.Index)); ok {
			if y.CommaOk {
				return evTup{nil, evTaint{term: t}}
			}
			return evTaint{term: t}
		}
		if y.CommaOk {
			return evTup{nil, nil}
		}
		return nil
	case *ssa.Next:
		if t, ok := x.val(st, f, y.Iter).(evTaint); ok {
			return evTup{nil, t, t}
		}
		return evTup{nil, nil, nil}
	case *ssa.BinOp:
		return x.binop(st, f, y)
	case *ssa.UnOp:
		switch y.Op {
		case token.NOT:
			switch b := x.val(st, f, y.X).(type) {
			case evBool:
				return !b
			case evTaint:
				return b
			case evCmp:
				return evCmp{b.n, negated[b.op], b.k}
			}
			return nil
		case token.MUL:
			return x.load(st, f, y)
		case token.SUB:
			if k, ok := x.val(st, f, y.X).(evInt); ok {
				return -k
			}
		case token.ARROW:
			if y.CommaOk {
				return evTup{nil, nil}
			}
		}
		return nil
	}
	return nil
}

func errorIfaceNamed() types.Type { return types.Universe.Lookup("error").Type() }

func (x *errflow) field(v any, seg string, t types.Type) any {
	a, ok := v.(evAgg)
	if !ok {
		return nil
	}
	tmp := newState()
	tmp.heap["t"] = a.m
	tmp.base["t"] = a.base
	return x.readCell(tmp, "t", seg, t)
}

// errorOf is the error that a value of one of the program's own types is.
func (x *errflow) errorOf(st *eState, at *ssa.MakeInterface, val any) any {
	switch w := val.(type) {
	case evErr:
		return w
	case evNil:
		// A nil pointer in a non-nil interface.
		return evErr{"own", at.X.Type().String()}
	}
	kind := "own"
	var look func(v any, depth int)
	look = func(v any, depth int) {
		if depth > 3 {
			return
		}
		switch y := v.(type) {
		case evErr:
			if y.kind == "fail" {
				kind = "fail"
			}
		case evAgg:
			for _, w := range y.m {
				look(w, depth+1)
			}
		case evPtr:
			for p, w := range st.heap[y.obj] {
				if strings.HasPrefix(p, y.path) {
					look(w, depth+1)
				}
			}
		case evAlt:
			for _, w := range y {
				look(w, depth+1)
			}
		}
	}
	look(val, 0)
	return evErr{kind, at.X.Type().String()}
}

// convert models conversions of numbers that come from the input.
func (x *errflow) convert(st *eState, y *ssa.Convert, v any) any {
	switch w := v.(type) {
	case evX:
		return x.apply.convert(st, y, w)
	case evProp:
		return w
	case evNum:
		b, ok := y.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
		lo, hi := intRange(b)
		n := st.nums[w.src]
		if n == nil {
			return nil
		}
		if !n.huge && n.lo+w.off >= lo && n.hi+w.off <= hi {
			return w
		}
		src := fmt.Sprintf("%s>%s%+d", w.src, b.Name(), w.off)
		if st.nums[src] == nil {
			from, _ := y.X.Type().Underlying().(*types.Basic)
			width := func(b *types.Basic) int64 {
				l, h := intRange(b)
				if h == math.MaxInt64 || l == math.MinInt64 {
					return 64
				}
				if h > math.MaxUint16 {
					return 32
				}
				return 16
			}
			lossy := n.lossy
			// The values may differ; if the old range has no more values than
			// the new type, no two of them become the same.
			if n.huge && width(b) < 64 || !n.huge && float64(n.hi)-float64(n.lo) > math.Pow(2, float64(width(b)))-1 {
				lossy = true
			}
			_ = from
			st.nums[src] = &eNum{lo: lo, hi: hi, lossy: lossy, base: w.src, at: n.at, signed: n.signed}
		}
		return evNum{src: src}
	case evInt:
		if isInt(y.Type()) {
			return w
		}
		return nil
	case evPos:
		return w
	case evStr:
		if isStr(y.Type()) || x.text {
			return w
		}
		return nil
	case evBytes, evTaint:
		return w
	case evPtr:
		return w
	}
	return nil
}

func intRange(b *types.Basic) (lo, hi int64) {
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8
	case types.Int16:
		return math.MinInt16, math.MaxInt16
	case types.Int32:
		return math.MinInt32, math.MaxInt32
	case types.Uint8:
		return 0, math.MaxUint8
	case types.Uint16:
		return 0, math.MaxUint16
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, math.MaxInt64
	}
	return math.MinInt64, math.MaxInt64
}

func (x *errflow) numRange(st *eState, v any) (lo, hi int64, ok bool) {
	switch w := v.(type) {
	case evInt:
		return int64(w), int64(w), true
	case evPos:
		return 1, math.MaxInt64, true
	case evNum:
		n := st.nums[w.src]
		if n == nil {
			return 0, 0, false
		}
		h := n.hi
		if n.huge {
			h = math.MaxInt64
		}
		if h > math.MaxInt64-w.off && w.off > 0 {
			return n.lo + w.off, math.MaxInt64, true
		}
		return n.lo + w.off, h + w.off, true
	}
	return 0, 0, false
}

func (x *errflow) binop(st *eState, f *eFrame, y *ssa.BinOp) any {
	if x.apply != nil {
		if r, ok := x.apply.binop(st, y, x.val(st, f, y.X), x.val(st, f, y.Y)); ok {
			return r
		}
	}
	r := x.binop1(st, f, y)
	if r == nil {
		r = x.cmpOf(st, f, y)
	}
	if r == nil && x.text {
		r = textCompare(y, x.val(st, f, y.X), x.val(st, f, y.Y))
	}
	return r
}

// cmpOf is an undecided comparison of a number with a constant.
func (x *errflow) cmpOf(st *eState, f *eFrame, y *ssa.BinOp) any {
	a, b := x.val(st, f, y.X), x.val(st, f, y.Y)
	op, ok := y.Op, false
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		ok = true
	}
	if !ok {
		return nil
	}
	if _, is := a.(evInt); is {
		a, b, op = b, a, mirror[op]
	}
	n, ok1 := a.(evNum)
	k, ok2 := b.(evInt)
	if !ok1 || !ok2 {
		return nil
	}
	return evCmp{n, op, int64(k)}
}

var mirror = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
var negated = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}

func (x *errflow) binop1(st *eState, f *eFrame, y *ssa.BinOp) any {
	a, b := x.val(st, f, y.X), x.val(st, f, y.Y)
	switch y.Op {
	case token.EQL, token.NEQ:
		eq, known := x.equal(st, a, b)
		if !known {
			return nil
		}
		return evBool(eq == (y.Op == token.EQL))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		al, ah, ok1 := x.numRange(st, a)
		bl, bh, ok2 := x.numRange(st, b)
		if !ok1 || !ok2 {
			return nil
		}
		op := y.Op
		if op == token.GTR || op == token.GEQ {
			al, ah, bl, bh = bl, bh, al, ah
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		if op == token.LSS {
			if ah < bl {
				return evBool(true)
			}
			if al >= bh {
				return evBool(false)
			}
		} else {
			if ah <= bl {
				return evBool(true)
			}
			if al > bh {
				return evBool(false)
			}
		}
		return nil
	case token.ADD, token.SUB:
		if n, ok := a.(evNum); ok {
			if k, ok := b.(evInt); ok {
				d := int64(k)
				if y.Op == token.SUB {
					d = -d
				}
				if n.off+d >= -4 && n.off+d <= 4 {
					return evNum{n.src, n.off + d}
				}
			}
			return nil
		}
	}
	if x.ints[y] || x.ints[y.X] {
		i, ok1 := a.(evInt)
		j, ok2 := b.(evInt)
		_, p1 := a.(evPos)
		_, p2 := b.(evPos)
		switch {
		case ok1 && ok2:
			var r evInt
			switch y.Op {
			case token.ADD:
				r = i + j
			case token.SUB:
				r = i - j
			case token.OR:
				r = i | j
			case token.AND:
				r = i & j
			case token.MUL:
				r = i * j
			default:
				return nil
			}
			if r >= -4 && r <= 8 {
				return r
			}
			if r > 0 {
				return evPos{}
			}
			return nil
		case (p1 && (p2 || ok2 && j >= 0) || p2 && ok1 && i >= 0) && (y.Op == token.ADD || y.Op == token.OR):
			return evPos{}
		}
	}
	return nil
}

// equal compares abstract values.
func (x *errflow) equal(st *eState, a, b any) (eq, known bool) {
	if a == nil || b == nil {
		return false, false
	}
	nonNil := func(v any) bool {
		switch w := v.(type) {
		case evErr, evFn, evRes, evIface:
			return true
		case evPtr:
			return !strings.HasPrefix(w.obj, "sym ")
		case evSlice:
			return w.n > 0 || w.some
		}
		return false
	}
	_, an := a.(evNil)
	_, bn := b.(evNil)
	switch {
	case an && bn:
		return true, true
	case an:
		return false, nonNil(b)
	case bn:
		return false, nonNil(a)
	}
	if ea, ok := a.(evErr); ok {
		if eb, ok := b.(evErr); ok {
			return sameErr(ea, eb)
		}
		return false, false
	}
	switch w := a.(type) {
	case evBool:
		if v, ok := b.(evBool); ok {
			return v == w, true
		}
	case evStr:
		if v, ok := b.(evStr); ok {
			return v == w, true
		}
	}
	al, ah, ok1 := x.numRange(st, a)
	bl, bh, ok2 := x.numRange(st, b)
	if ok1 && ok2 {
		if al == ah && bl == bh && al == bl {
			return true, true
		}
		if ah < bl || bh < al {
			return false, true
		}
	}
	return false, false
}

func sameErr(a, b evErr) (eq, known bool) {
	if b.kind == "eof" || a.kind == "eof" {
		if b.kind != "eof" {
			a, b = b, a
		}
		switch a.kind {
		case "eof":
			return true, true
		case "ext":
			return false, false
		}
		return false, true
	}
	switch {
	case a.kind == "ext" || b.kind == "ext", a.kind == "fail" || b.kind == "fail":
		return false, false
	case a.kind == b.kind:
		return a.site == b.site, true
	}
	return false, true
}

// refine adjusts a state to a branch; false means that it cannot happen.
func (x *errflow) refine(st *eState, f *eFrame, cond ssa.Value, want bool, depth int) bool {
	if cmp, ok := x.val(st, f, cond).(evCmp); ok {
		op := cmp.op
		if !want {
			op = negated[op]
		}
		if !x.boundOp(st, cmp.n, op, cmp.k, cmp.k) {
			return false
		}
	}
	if _, ok := cond.(*ssa.Const); !ok {
		f.env[cond] = evBool(want)
	}
	if depth > 4 {
		return true
	}
	switch y := cond.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return x.refine(st, f, y.X, !want, depth+1)
		}
	case *ssa.Call:
		if t := y.Call.StaticCallee(); t != nil && fnName(t) == "unicode/utf8.ValidRune" && want {
			if n, ok := x.val(st, f, y.Call.Args[0]).(evNum); ok {
				return x.bound(st, n, 0, 0x10FFFF)
			}
		}
	case *ssa.BinOp:
		a, b := x.val(st, f, y.X), x.val(st, f, y.Y)
		if x.apply != nil && !x.apply.refine(st, y, a, b, want) {
			return false
		}
		op := y.Op
		if !want {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		set := func(v ssa.Value, cur, other any) {
			if cur != nil {
				return
			}
			if _, ok := v.(*ssa.Const); ok {
				return
			}
			if _, ok := other.(evNil); ok {
				if op == token.EQL {
					f.env[v] = evNil{}
				} else if op == token.NEQ && isError(v.Type()) {
					f.env[v] = evErr{"ext", "unknown"}
				}
			}
			if k, ok := other.(evInt); ok && op == token.EQL {
				f.env[v] = k
			}
		}
		set(y.X, a, b)
		set(y.Y, b, a)
		if n, ok := a.(evNum); ok {
			if lo, hi, ok := x.numRange(st, b); ok {
				if !x.boundOp(st, n, op, lo, hi) {
					return false
				}
			}
		}
		if n, ok := b.(evNum); ok {
			if lo, hi, ok := x.numRange(st, a); ok {
				if !x.boundOp(st, n, mirror[op], lo, hi) {
					return false
				}
			}
		}
	}
	return true
}

func (x *errflow) boundOp(st *eState, n evNum, op token.Token, lo, hi int64) bool {
	switch op {
	case token.LSS:
		return x.bound(st, n, math.MinInt64, hi-1)
	case token.LEQ:
		return x.bound(st, n, math.MinInt64, hi)
	case token.GTR:
		return x.bound(st, n, lo+1, math.MaxInt64)
	case token.GEQ:
		return x.bound(st, n, lo, math.MaxInt64)
	case token.EQL:
		return x.bound(st, n, lo, hi)
	case token.NEQ:
		if a, b, ok := x.numRange(st, n); ok && lo == hi {
			switch lo {
			case a:
				return x.bound(st, n, lo+1, math.MaxInt64)
			case b:
				return x.bound(st, n, math.MinInt64, lo-1)
			}
		}
	}
	return true
}

func (x *errflow) bound(st *eState, n evNum, lo, hi int64) bool {
	m := st.nums[n.src]
	if m == nil {
		return true
	}
	if lo != math.MinInt64 && lo-n.off > m.lo {
		m.lo = lo - n.off
	}
	if hi != math.MaxInt64 && (m.huge || hi-n.off < m.hi) {
		m.hi, m.huge = hi-n.off, false
	}
	return m.lo <= m.hi
}

// ---- calls

func (x *errflow) callee(st *eState, f *eFrame, call ssa.CallInstruction) (fnv any, args []any) {
	com := call.Common()
	for _, a := range com.Args {
		args = append(args, x.val(st, f, a))
	}
	if com.IsInvoke() {
		recv := x.val(st, f, com.Value)
		args = append([]any{recv}, args...)
		switch w := recv.(type) {
		case evIface:
			if it, ok := com.Value.Type().Underlying().(*types.Interface); ok && !types.Implements(w.typ, it) {
				return nil, args
			}
			if m := x.p.Prog.LookupMethod(w.typ, com.Method.Pkg(), com.Method.Name()); m != nil {
				args[0] = w.val
				return evFn{fn: m}, args
			}
		case evRes:
			// A stream whose static type was lost.
			return nil, args
		}
		if _, ok := recv.(evErr); ok {
			return nil, args
		}
		var alts evAlt
		for _, t := range x.e.targets(call) {
			alts = append(alts, evFn{fn: t})
		}
		if len(alts) == 1 {
			return alts[0], args
		}
		if len(alts) > 1 {
			return alts, args
		}
		return nil, args
	}
	switch v := com.Value.(type) {
	case *ssa.Function:
		return evFn{fn: v}, args
	case *ssa.Builtin:
		return v, args
	}
	r := x.val(st, f, com.Value)
	if r == nil {
		var alts evAlt
		for _, t := range x.e.targets(call) {
			if len(t.FreeVars) == 0 {
				alts = append(alts, evFn{fn: t})
			} else {
				return nil, args
			}
		}
		if len(alts) > 0 {
			return alts, args
		}
	}
	return r, args
}

// invoke performs a call. forked means that the successors are in succ (which
// may be empty); otherwise the state goes on.
func (x *errflow) invoke(st *eState, f *eFrame, call ssa.CallInstruction, fnv any, args []any, mode string) (succ []*eState, forked bool) {
	if x.apply != nil {
		if out, fk, ok := x.apply.call(st, f, call, fnv, args, mode); ok {
			return out, fk
		}
	}
	switch fv := fnv.(type) {
	case *ssa.Builtin:
		r := x.builtin(st, f, call, fv.Name(), args)
		if mode == "value" {
			if v, ok := call.(ssa.Value); ok {
				f.env[v] = r
			}
		}
		return nil, false
	case evAlt:
		for _, a := range fv {
			s := st.fork()
			if out, fk := x.invoke(s, s.top(), call, a, args, mode); fk {
				succ = append(succ, out...)
			} else {
				succ = append(succ, s)
			}
		}
		return succ, true
	case evFn:
		fn := fv.fn
		if x.inline(fn) {
			n := 0
			for _, g := range st.frames {
				if g.fn == fn {
					n++
				}
			}
			if x.apply != nil && n >= 2 {
				if tracked(args, 0) {
					st.ap.lost = true
				}
				if mode == "value" {
					x.setUnknown(f, call)
				}
				return nil, false
			}
			if n >= 2 || len(st.frames) > 40 {
				x.undecided(st, call, "recursion through %s", fn)
			}
			x.push(st, f, call, fv, args, mode)
			return nil, false
		}
		if x.c.own(fnPkgPath(fn)) && len(fn.Blocks) > 0 {
			if mode == "value" {
				x.setUnknown(f, call)
			}
			return nil, false
		}
		return x.external(st, f, call, fn, args, mode)
	}
	return x.unknownCall(st, f, call, args, mode)
}

// inline decides whether a function's body is explored.
func (x *errflow) inline(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if x.rel[fn] {
		return true
	}
	if !x.c.own(fnPkgPath(fn)) {
		return false
	}
	return !x.e.Live[fn] || fn.Synthetic != "" && !isInitOf(fn)
}

func (x *errflow) push(st *eState, f *eFrame, call ssa.CallInstruction, fv evFn, args []any, mode string) {
	f.call, f.mode = call, mode
	g := newFrame(fv.fn)
	g.binds = fv.binds
	for i, p := range fv.fn.Params {
		if i < len(args) {
			g.env[p] = args[i]
		}
	}
	st.frames = append(st.frames, g)
}

// unknownCall models a call of which nothing is known.
func (x *errflow) unknownCall(st *eState, f *eFrame, call ssa.CallInstruction, args []any, mode string) ([]*eState, bool) {
	com := call.Common()
	if com.IsInvoke() {
		name := com.Method.Name()
		if r, ok := args[0].(evRes); ok {
			switch name {
			case "Write", "WriteString", "WriteByte", "WriteRune":
				return x.writeTo(st, f, call, r, mode)
			case "Close":
				return x.closeFile(st, f, call, r.id, mode)
			}
		}
		switch name {
		case "Write", "WriteString", "Flush", "WriteTo":
			return x.fallible(st, f, call, "output", name, mode, false)
		case "Read", "ReadFrom", "Open", "ReadFile":
			return x.fallible(st, f, call, "input", name, mode, name == "Read")
		}
	}
	if seq, ok := x.val(st, f, com.Value).(evSeq); ok && len(args) == 1 {
		if cb, ok := args[0].(evFn); ok && x.inline(cb.fn) {
			s := st.fork()
			elem := []any{evBytes{seq.term}}
			if len(cb.fn.Params) == 2 {
				elem = append([]any{nil}, elem...)
			}
			x.push(s, s.top(), call, cb, elem, "callback")
			if k := x.key(s); !x.seen[k] {
				x.seen[k] = true
				return []*eState{st, s}, true
			}
			return nil, false
		}
	}
	var cbs []evFn
	for _, a := range args {
		if e, ok := a.(evFn); ok && x.inline(e.fn) {
			cbs = append(cbs, e)
		}
	}
	if len(cbs) > 0 {
		return x.callbacks(st, f, call, cbs, mode)
	}
	return x.plainText(st, f, call, args, mode)
}

// plain forks the error results of a call that no rule cares about.
func (x *errflow) plain(st *eState, f *eFrame, call ssa.CallInstruction, mode string) ([]*eState, bool) {
	v, ok := call.(ssa.Value)
	if mode != "value" || !ok {
		return nil, false
	}
	if !hasError(v.Type()) {
		f.env[v] = nil
		return nil, false
	}
	s := st.fork()
	f.env[v] = x.resultWith(call, evNil{})
	s.top().env[v] = x.resultWith(call, evErr{"ext", x.at(call)})
	return []*eState{st, s}, true
}

func hasError(t types.Type) bool {
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			if isError(tup.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return isError(t)
}

// fallible forks a call into success and failure, and end of data if it reads.
func (x *errflow) fallible(st *eState, f *eFrame, call ssa.CallInstruction, kind, name, mode string, reads bool) ([]*eState, bool) {
	v, _ := call.(ssa.Value)
	put := func(s *eState, e any) {
		if mode == "value" && v != nil {
			s.top().env[v] = x.resultWith(call, e)
		}
	}
	out := []*eState{}
	if reads {
		s := st.fork()
		x.newRes(s, call, eRes{kind: "breader", st: "ended"})
		put(s, evErr{"eof", "io.EOF"})
		out = append(out, s)
	}
	bad := st.fork()
	e := x.failing(bad, call, kind, name)
	put(bad, e)
	put(st, evNil{})
	return append(out, st, bad), true
}

// failing records a failure and returns its error.
func (x *errflow) failing(st *eState, call ssa.Instruction, kind, name string) evErr {
	site := call.Parent().String() + "|" + name
	x.sites[site+"|"+x.at(call)] = true
	if kind == "input" && st.replaced != "" {
		x.report(st, "late-input", site, x.at(call), "%s: when %s fails, the table has already been replaced (%s)", call.Parent(), name, st.replaced)
	}
	if st.failed == "" {
		st.failed, st.failedAt = site, x.at(call)
	}
	if kind == "input" {
		st.failedIn = true
	}
	st.trace = append(st.trace, fmt.Sprintf("%s: %s fails", x.at(call), name))
	return evErr{"fail", site}
}

func (x *errflow) replace(st *eState, call ssa.Instruction, what string, rename bool) {
	if x.renames && !rename {
		if strings.HasSuffix(what, "CreateTemp") {
			return
		}
		// A file that is never renamed is written in place.
		c, ok := call.(ssa.CallInstruction)
		if !ok || len(c.Common().Args) == 0 {
			return
		}
		names := constStrings(c.Common().Args[0], map[ssa.Value]bool{}, x.e)
		if len(names) == 0 || slices.ContainsFunc(names, func(n string) bool { return x.sources[n] }) {
			return
		}
	}
	if st.failedIn {
		x.report(st, "replaced-after-error", call.Parent().String()+"|"+what, x.at(call), "%s: %s although %s has failed at %s", call.Parent(), what, after(st.failed, "|"), st.failedAt)
	}
	st.replaced = what + " at " + x.at(call)
	st.trace = append(st.trace, x.at(call)+": "+what)
}

func after(s, sep string) string {
	if i := strings.LastIndex(s, sep); i >= 0 {
		return s[i+len(sep):]
	}
	return s
}

// resOf finds the resource that a receiver stands for.
func (x *errflow) resOf(st *eState, v any, kind string) *eRes {
	switch w := v.(type) {
	case evIface:
		return x.resOf(st, w.val, kind)
	case evRes:
		if r := st.res[w.id]; r != nil && r.kind == kind {
			return r
		}
	case evPtr:
		id := w.obj + w.path
		if st.res[id] == nil {
			st.res[id] = &eRes{kind: kind}
		}
		if r := st.res[id]; r.kind == kind {
			return r
		}
	}
	// One resource stands for all unknown ones.
	id := "unknown " + kind
	if st.res[id] == nil {
		st.res[id] = &eRes{kind: kind}
	}
	return st.res[id]
}

func memoryType(t types.Type) bool {
	switch strings.TrimPrefix(t.String(), "*") {
	case "bytes.Buffer", "strings.Builder", "bytes.Reader", "strings.Reader", "io.discard", "hash/fnv.sum64", "hash/maphash.Hash":
		return true
	}
	return false
}

// writeTo models writing to a stream.
func (x *errflow) writeTo(st *eState, f *eFrame, call ssa.CallInstruction, w any, mode string) ([]*eState, bool) {
	v, _ := call.(ssa.Value)
	put := func(s *eState, e any) {
		if mode == "value" && v != nil {
			s.top().env[v] = x.resultWith(call, e)
		}
	}
	name := "writing"
	switch y := w.(type) {
	case evIface:
		if memoryType(y.typ) {
			put(st, evNil{})
			return nil, false
		}
		if r, ok := y.val.(evRes); ok {
			return x.writeTo(st, f, call, r, mode)
		}
		if x.p.Prog.MethodSets.MethodSet(y.typ).Lookup(nil, "Write") == nil {
			// not a stream; falls through to the general case
		} else if m := x.p.Prog.LookupMethod(y.typ, nil, "Write"); m != nil && x.c.own(fnPkgPath(m)) && len(m.Blocks) > 0 {
			md := "write"
			if mode != "value" {
				md = "discard"
			}
			x.push(st, f, call, evFn{fn: m}, []any{y.val, nil}, md)
			return nil, false
		}
		if strings.HasSuffix(y.typ.String(), "bufio.Writer") {
			return x.bufWrite(st, call, x.resOf(st, y.val, "bufw"), put)
		}
	case evRes:
		if y.id == "std" {
			put(st, evNil{})
			return nil, false
		}
		if r := st.res[y.id]; r != nil {
			switch r.kind {
			case "bufw":
				return x.bufWrite(st, call, r, put)
			case "mem":
				put(st, evNil{})
				return nil, false
			}
		}
	}
	bad := st.fork()
	e := x.failing(bad, call, "output", name)
	put(bad, e)
	put(st, evNil{})
	return []*eState{st, bad}, true
}

// bufWrite writes to a buffered writer: an error stays until it is flushed.
func (x *errflow) bufWrite(st *eState, call ssa.CallInstruction, r *eRes, put func(*eState, any)) ([]*eState, bool) {
	if r.mem {
		put(st, evNil{})
		return nil, false
	}
	if r.st == "sticky" {
		put(st, evErr{"fail", "buffered write"})
		return nil, false
	}
	r.st, r.at = "dirty", x.at(call)
	bad := st.fork()
	put(st, evNil{})
	for id, q := range st.res {
		if q == r {
			bad.res[id].st = "sticky"
		}
	}
	put(bad, evErr{"fail", call.Parent().String() + "|writing"})
	bad.trace = append(bad.trace, x.at(call)+": a buffered write fails")
	return []*eState{st, bad}, true
}

func (x *errflow) noFail(st *eState, w any) bool {
	switch y := w.(type) {
	case evIface:
		if memoryType(y.typ) {
			return true
		}
		return x.noFail(st, y.val)
	case evRes:
		if y.id == "std" {
			return true
		}
		if r := st.res[y.id]; r != nil {
			return r.mem
		}
	}
	return false
}

func (x *errflow) closeFile(st *eState, f *eFrame, call ssa.CallInstruction, id string, mode string) ([]*eState, bool) {
	v, _ := call.(ssa.Value)
	put := func(s *eState, e any) {
		if mode == "value" && v != nil {
			s.top().env[v] = x.resultWith(call, e)
		}
	}
	r := st.res[id]
	if r == nil {
		return x.plain(st, f, call, mode)
	}
	switch {
	case r.st == "closed":
		put(st, evErr{"ext", "already closed"})
		return nil, false
	case !r.write:
		r.st = "closed"
		if mode != "value" {
			return nil, false
		}
		s := st.fork()
		put(st, evNil{})
		put(s, evErr{"ext", "close"})
		return []*eState{st, s}, true
	}
	r.st = "closed"
	bad := st.fork()
	put(st, evNil{})
	put(bad, x.failing(bad, call, "output", "Close"))
	return []*eState{st, bad}, true
}

func (x *errflow) builtin(st *eState, f *eFrame, call ssa.CallInstruction, name string, args []any) any {
	switch name {
	case "len":
		switch w := args[0].(type) {
		case evSlice:
			if w.n >= 0 {
				return evInt(w.n)
			}
			if n := st.nums["len "+w.obj]; n != nil && x.text {
				return evNum{src: "len " + w.obj}
			}
			if w.some {
				return evPos{}
			}
		case evNil:
			return evInt(0)
		case evStr:
			return evInt(len(w))
		case evBytes:
			return evTaint{w.term, "len"}
		}
		return nil
	case "append":
		return x.append(st, call, args)
	case "recover":
		if st.panicking && len(st.frames) >= 2 && st.frames[len(st.frames)-2].after == "unwind" {
			st.panicking = false
			st.trace = append(st.trace, x.at(call)+": the panic is recovered")
			return evErr{"own", "recovered panic"}
		}
		return evNil{}
	}
	return nil
}

func (x *errflow) append(st *eState, call ssa.CallInstruction, args []any) any {
	v, ok := call.(ssa.Value)
	if !ok {
		return nil
	}
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || isNumeric(sl.Elem()) {
		return nil
	}
	type part struct {
		cells map[string]any
		n     int
		some  bool
		known bool
	}
	get := func(a any) part {
		switch w := a.(type) {
		case evNil:
			return part{known: true}
		case evSlice:
			p := part{cells: map[string]any{}, n: w.n, some: w.some, known: true}
			for k, c := range st.heap[w.obj] {
				if strings.HasPrefix(k, w.path) {
					p.cells[k[len(w.path):]] = c
				}
			}
			return p
		}
		return part{n: -1}
	}
	a, b := get(args[0]), part{known: true}
	if len(args) > 1 {
		b = get(args[1])
	}
	id := x.siteID(st, call)
	out := map[string]any{}
	exact := a.known && b.known && a.n >= 0 && b.n >= 0 && a.n+b.n <= 4
	add := func(k string, c any) {
		i := strings.IndexByte(k, ']')
		if !strings.HasPrefix(k, "[") || i < 0 {
			return
		}
		k = "[*]" + k[i+1:]
		old, ok := out[k]
		if !ok {
			out[k] = c
			return
		}
		var alts evAlt
		if as, ok := old.(evAlt); ok {
			alts = append(alts, as...)
		} else {
			alts = append(alts, old)
		}
		cs := evAlt{c}
		if as, ok := c.(evAlt); ok {
			cs = as
		}
		for _, c := range cs {
			dup := false
			for _, y := range alts {
				dup = dup || evKey(y) == evKey(c)
			}
			if !dup && len(alts) < 12 {
				alts = append(alts, c)
			}
		}
		if len(alts) == 1 {
			out[k] = alts[0]
		} else {
			sort.Slice(alts, func(i, j int) bool { return evKey(alts[i]) < evKey(alts[j]) })
			out[k] = alts
		}
	}
	if exact {
		for k, c := range a.cells {
			out[k] = c
		}
		for k, c := range b.cells {
			i := strings.IndexByte(k, ']')
			if !strings.HasPrefix(k, "[") || i < 0 {
				continue
			}
			var n int
			fmt.Sscanf(k[1:i], "%d", &n)
			out[fmt.Sprintf("[%d]%s", n+a.n, k[i+1:])] = c
		}
		st.heap[id], st.base[id] = out, "zero"
		return evSlice{obj: id, n: a.n + b.n, some: a.n+b.n > 0}
	}
	for _, k := range sortedKeys(a.cells) {
		add(k, a.cells[k])
	}
	for _, k := range sortedKeys(b.cells) {
		add(k, b.cells[k])
	}
	base := "zero"
	if !a.known || !b.known {
		base = "top"
	}
	st.heap[id], st.base[id] = out, base
	return evSlice{obj: id, n: -1, some: a.some || b.some || a.n > 0 || b.n > 0}
}
