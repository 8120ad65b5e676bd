package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Exploration of all successful paths of the generator with its own functions, closures and iterators inlined, for one arbitrary line of an input file and one arbitrary code point X, abstracting every code point number to its position relative to X: for a line whose range holds X, every path to the next line must store the line's property value at an address computed from X; for any other line, none may. Only lines whose property the library does not use may be passed over, and every file is read to its end.", checkAssign)
}

// A number is known by how it lies relative to the code point X.
type (
	// evX is X+cls, where -2 and 2 stand for everything beyond; in a span, X is
	// counted from the line's first code point. f-1 is the distance from the
	// first code point, if f is not 0.
	evX struct {
		cls  int
		f    int
		span bool
	}
	// evProp is the property value that the line assigns.
	evProp struct {
		typ string
		or  bool // combined with what was there before
		bad bool // changed
		has bool // only tells whether the property is there
	}
)

// apState is what is known about the current line.
type apState struct {
	n       int // code points converted
	inside  bool
	first   int
	last    int
	sites   string
	lo, hi  int64 // where X can be
	exempt  bool  // the library does not use the line's property
	lost    bool  // the line's values went where they are not followed
	open    bool  // a line has been read
	why     bool  // a reason to pass it over was seen
	ranged  bool  // the line has a range
	over    bool  // nothing more is to be known about the line
	written bool
	touched bool // X was the last code point used to find a place
	at      string
	fn      string
	holds   string // what was assigned to X by an earlier line
	mixed   bool   // the order of steps is not followed
	typ     string
}

type assign struct {
	x      *errflow
	r      *Report
	lines  int
	judged int
	lostN  int
	passed int
	writes map[string]bool
	uses   map[string]bool
	notes  map[string]bool // what is not followed
	opened map[string]string
	read   map[string]bool
	unsure bool // some reader's file is not known
}

const maxCodePoint = 0x10FFFF

// propertyNames are the names that the Unicode segmentation rules use.
var propertyNames = map[string]bool{"CR": true, "LF": true, "Control": true, "Extend": true, "ZWJ": true, "Regional_Indicator": true, "Prepend": true, "SpacingMark": true,
	"L": true, "V": true, "T": true, "LV": true, "LVT": true, "Extended_Pictographic": true, "InCB": true, "Linker": true, "Consonant": true}

func checkAssign(c *Ctx, r *Report) {
	r.Rules = append(r.Rules,
		"A line that assigns a property the library uses is applied to every code point from its first to its last: on every path, the value is stored at a place computed from that code point.",
		"It is applied to no other code point.",
		"What is stored is the value that the lookup by name gives for the line, alone or combined with what is there; it does not replace a value of the other kind.",
		"Every input file is read to its end.")
	u := c.genUnit()
	x := c.newErrflow(u.p, u.e, u.fns)
	x.assigning(u.fns)
	a := &assign{x: x, r: r, writes: map[string]bool{}, uses: map[string]bool{}, notes: map[string]bool{}, opened: map[string]string{}, read: map[string]bool{}}
	x.apply = a
	x.exit = func(st *eState, f *eFrame, ins ssa.Instruction) {
		a.judge(st)
		for _, id := range sortedKeys(st.res) {
			if q := st.res[id]; (q.kind == "scanner" || q.kind == "breader") && q.st == "line" {
				x.report(st, "stops-early", q.at, q.at, "the reading of an input file can stop before its end, although nothing has failed (last decision at %s)", a.last(st))
			}
		}
		a.unread(st)
	}
	st := newState()
	st.frames = append(st.frames, newFrame(u.main))
	if i := u.main.Pkg.Func("init"); i != nil && len(i.Blocks) > 0 {
		st.frames = append(st.frames, newFrame(i))
	}
	if os.Getenv("VERIF_PROFILE") != "" {
		x.prof = map[string]int{}
		x.max = 60000
	}
	x.explore(st)
	for _, id := range sortedKeys(a.opened) {
		if !a.read[id] && !a.unsure {
			x.report(nil, "unread", a.opened[id], a.opened[id], "an input file that is opened is never read")
		}
	}
	if x.prof != nil {
		ks := sortedKeys(x.prof)
		sort.SliceStable(ks, func(i, j int) bool { return x.prof[ks[i]] > x.prof[ks[j]] })
		for _, k := range ks[:min(60, len(ks))] {
			fmt.Fprintln(os.Stderr, x.prof[k], k)
		}
	}
	sort.Slice(x.finds, func(i, j int) bool { return x.finds[i].Key < x.finds[j].Key })
	c.errReport(r, x, u.fns)
	r.Count("lines_read", a.lines)
	r.Count("lines_judged", a.judged)
	r.Count("lines_passed_over_by_property", a.passed)
	r.Count("lines_not_followed", a.lostN)
	r.Note("stores_of_the_value", sortedKeys(a.writes))
	r.Note("places_computed_from_a_code_point", sortedKeys(a.uses))
	r.Ob(1 + len(a.writes) + len(a.uses) + a.judged)
	r.Note("not_followed", sortedKeys(a.notes))
}

// unread notes which files have been opened, and which are read.
func (a *assign) unread(st *eState) {
	for _, q := range st.res {
		if q.kind != "scanner" && q.kind != "breader" {
			continue
		}
		u := q.under
		if i, ok := u.(evIface); ok {
			u = i.val
		}
		if f, ok := u.(evRes); ok {
			a.read[f.id] = true
		} else {
			a.unsure = true
		}
	}
	for id, q := range st.res {
		if q.kind == "file" && !q.write {
			a.opened[id] = q.at
			if q.used {
				a.read[id] = true
			}
		}
	}
}

// assigning finds the functions that read lines or look up properties; others
// are only explored if they are given values of a line.
func (x *errflow) assigning(fns []*ssa.Function) {
	x.rel = map[*ssa.Function]bool{}
	for _, fn := range fns {
		if isInitOf(fn) {
			x.rel[fn] = x.c.own(fnPkgPath(fn))
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range x.e.targets(call) {
					k, _ := critical(t)
					if k == "input" || k == "open" || fnPkgPath(t) == "bufio" || isLookup(x.c, t) {
						x.rel[fn] = true
					}
				}
			}
		}
	}
	x.closeRelevant(fns)
}

// isLookup recognises the functions that give a property for its name.
func isLookup(c *Ctx, fn *ssa.Function) bool {
	if fn == nil || !c.own(fnPkgPath(fn)) || !strings.HasSuffix(fnPkgPath(fn), "/charprops") {
		return false
	}
	sig := fn.Signature
	return sig.Results().Len() >= 1 && propType(sig.Results().At(0).Type()) != "" && sig.Params().Len() > 0 && takesText(sig)
}

func (a *assign) last(st *eState) string {
	if st.ap.at == "" {
		return "the start"
	}
	return st.ap.at
}

// newLine is called before a line is read.
func (a *assign) newLine(st *eState) {
	a.judge(st)
	a.lines++
	h := st.ap
	st.ap = apState{mixed: h.mixed, holds: h.holds, lo: 0, hi: maxCodePoint, at: h.at, fn: h.fn}
	a.scrub(st)
}

// scrub forgets the values of a line.
func (a *assign) scrub(st *eState) {
	for _, f := range st.frames {
		for v, w := range f.env {
			if !gone(w) {
				continue
			}
			f.env[v] = clean(w, 0)
		}
	}
	for _, m := range st.heap {
		for k, w := range m {
			if gone(w) {
				m[k] = clean(w, 0)
			}
		}
	}
}

// kept reports whether values of the line are there when the next one is read.
func (a *assign) kept(st *eState) bool {
	for _, f := range st.frames {
		for _, w := range f.env {
			if gone(w) {
				return true
			}
		}
	}
	for _, m := range st.heap {
		for _, w := range m {
			if gone(w) {
				return true
			}
		}
	}
	return false
}

func gone(w any) bool { return w != nil && tracked([]any{w}, 0) }

func clean(w any, depth int) any {
	if depth > 5 {
		return nil
	}
	switch y := w.(type) {
	case evX, evProp:
		return nil
	case evAgg:
		m := map[string]any{}
		for k, v := range y.m {
			m[k] = clean(v, depth+1)
		}
		y.m = m
		return y
	case evTup:
		var out evTup
		for _, v := range y {
			out = append(out, clean(v, depth+1))
		}
		return out
	case evAlt:
		return nil
	case evIface:
		y.val = clean(y.val, depth+1)
		return y
	}
	return w
}

// done stops following the current line.
func (a *assign) done(st *eState) {
	p := &st.ap
	if p.n == 0 && p.sites == "" {
		return
	}
	if p.exempt {
		a.passed++
	} else {
		a.lostN++
	}
	st.ap = apState{mixed: p.mixed, holds: p.holds, hi: maxCodePoint, at: p.at, fn: p.fn, over: true, sites: p.sites}
	a.scrub(st)
}

// judge decides about the line that ends here.
func (a *assign) judge(st *eState) {
	p := &st.ap
	if p.n == 0 {
		if p.open && !p.why && !p.over && !p.exempt && !p.lost {
			a.x.report(st, "skipped", p.fn, p.at, "%s: a line can be skipped before its code points are read, although it may have them (last decision)", p.fn)
		}
		return
	}
	if p.lost || p.exempt {
		a.done(st)
		return
	}
	if p.n == 1 && p.inside && p.first != 0 {
		// a single code point, which would be X
		return
	}
	if !p.written && a.kept(st) {
		p.lost = true
		a.done(st)
		return
	}
	if p.n == 1 && p.ranged {
		a.x.report(st, "left-out", p.fn, p.at, "%s: a line with a range may be applied to its first code point only", p.fn)
		return
	}
	switch {
	case !p.inside || p.written:
		a.judged++
	case p.lo > p.hi || p.lo >= 0xD800 && p.hi <= 0xDFFF:
	default:
		which := "a code point inside the range"
		switch {
		case p.first == 0 && p.n == 1:
			which = "the code point of a line without a range"
		case p.first == 0:
			which = "the first code point of the range"
		case p.last == 0:
			which = "the last code point of the range"
		}
		a.x.report(st, "left-out", p.fn, p.at, "%s: a line's property may not be applied to %s (%s)", p.fn, which, a.where(p))
	}
	if p.inside && p.written && p.typ != "" {
		p.holds = p.typ
	}
}

func (a *assign) where(p *apState) string {
	if p.lo > 3 || p.hi < maxCodePoint-3 {
		return fmt.Sprintf("for code points in U+%04X to U+%04X", p.lo, p.hi)
	}
	return "for any code point"
}

// parse is the conversion of a code point of the line.
func (a *assign) parse(st *eState, call ssa.CallInstruction, args []any, mode string) []*eState {
	site := a.x.siteID(st, call)
	v, _ := call.(ssa.Value)
	if strings.Contains(st.ap.sites, site) {
		a.newLine(st)
	}
	a.x.sites["parse|"+a.x.at(call)] = true
	st.ap.sites += site + ";"
	put := func(s *eState, r any) {
		if mode == "value" && v != nil {
			t := a.x.resultWith(call, evNil{})
			if tup, ok := t.(evTup); ok && len(tup) > 0 {
				tup[0] = r
				t = tup
			}
			s.top().env[v] = t
		}
	}
	if st.ap.over || st.ap.exempt {
		put(st, nil)
		return []*eState{st}
	}
	var out []*eState
	add := func(inside bool, first, last int, r evX) {
		s := st.fork()
		s.ap.n++
		s.ap.inside, s.ap.first, s.ap.last = inside, first, last
		s.ap.lo, s.ap.hi = max(s.ap.lo, int64(-r.cls)), min(s.ap.hi, int64(maxCodePoint-r.cls))
		put(s, r)
		out = append(out, s)
	}
	p := st.ap
	switch p.n {
	case 0:
		for c := -2; c <= 0; c++ {
			add(true, c, -9, evX{cls: c, f: 1})
		}
		for c := -2; c <= 2; c++ {
			if c != 0 {
				add(false, c, -9, evX{cls: c, f: 1})
			}
		}
	case 1:
		for c := -2; c <= 2; c++ {
			if c < p.first || p.inside && c < 0 || !p.inside && p.first < 0 && c >= 0 {
				continue
			}
			add(p.inside, p.first, c, evX{cls: c})
		}
	default:
		st.ap.lost = true
		put(st, nil)
		out = append(out, st)
	}
	return out
}

// use records that a value is used to find a place.
func (a *assign) use(st *eState, v any) {
	if w, ok := v.(evX); ok && !w.span {
		st.ap.touched = w.cls == 0
		if w.cls == 0 {
			f := st.top()
			if f.ip > 0 {
				a.uses[a.x.at(f.b.Instrs[f.ip-1])] = true
			}
		}
	}
}

// tracked reports whether a value of the line is among the given ones.
func tracked(vs []any, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, v := range vs {
		switch w := v.(type) {
		case evX, evProp:
			return true
		case evFn:
			if tracked(w.binds, depth+1) {
				return true
			}
		case evAgg:
			for _, k := range sortedKeys(w.m) {
				if tracked([]any{w.m[k]}, depth+1) {
					return true
				}
			}
		case evTup:
			if tracked(w, depth+1) {
				return true
			}
		case evAlt:
			if tracked(w, depth+1) {
				return true
			}
		case evIface:
			if tracked([]any{w.val}, depth+1) {
				return true
			}
		}
	}
	return false
}

// heapTracked is tracked with pointers and slices followed.
func heapTracked(st *eState, vs []any) bool {
	if tracked(vs, 0) {
		return true
	}
	for _, v := range vs {
		switch w := v.(type) {
		case evFn:
			if heapTracked(st, w.binds) {
				return true
			}
		case evPtr:
			for k, c := range st.heap[w.obj] {
				if strings.HasPrefix(k, w.path) && tracked([]any{c}, 0) {
					return true
				}
			}
		case evSlice:
			for k, c := range st.heap[w.obj] {
				if strings.HasPrefix(k, w.path) && tracked([]any{c}, 0) {
					return true
				}
			}
		}
	}
	return false
}

// clip makes alternatives of X+lo..X+hi, where both are within -3..3.
func (w evX) shift(k int64) any {
	if k > 8 || k < -8 {
		if k > 0 && w.cls == 2 || k < 0 && w.cls == -2 {
			return evX{cls: w.cls, span: w.span}
		}
		if w.cls > -2 && w.cls < 2 {
			if k > 0 {
				return evX{cls: 2, span: w.span}
			}
			return evX{cls: -2, span: w.span}
		}
		return nil
	}
	f := 0
	if w.f != 0 && w.f+int(k) > 0 && w.f+int(k) < 3 {
		f = w.f + int(k)
	}
	d := int(k)
	lo, hi := w.cls+d, w.cls+d
	if w.cls == 2 {
		hi = 2
	}
	if w.cls == -2 {
		lo = -2
	}
	lo, hi = min(max(lo, -2), 2), min(max(hi, -2), 2)
	if lo == hi {
		return evX{cls: lo, f: f, span: w.span}
	}
	var out evAlt
	for c := lo; c <= hi; c++ {
		out = append(out, evX{cls: c, f: f, span: w.span})
	}
	return out
}

// bounds is where a code point number lies.
func (w evX) bounds(p *apState) (lo, hi int64) {
	lo, hi = p.lo+int64(w.cls), p.hi+int64(w.cls)
	switch w.cls {
	case 2:
		hi = 1 << 40
	case -2:
		lo = 0
	}
	return lo, hi
}

// asSpan sees a small number as one counted from the first code point; it is
// X+lo..X+hi.
func (a *assign) asSpan(st *eState, k evInt) (lo, hi int, ok bool) {
	if st.ap.n == 0 || k < 0 {
		return 0, 0, false
	}
	switch first := st.ap.first; {
	case first == -2:
		return -2, int(min(int64(k)-2, 2)), true
	default:
		c := int(min(int64(first)+int64(k), 2))
		return c, c, true
	}
}

// phi lets counters be seen relative to X.
func (a *assign) phi(st *eState, ph *ssa.Phi, v any) any {
	k, ok := v.(evInt)
	if ok && k > 8 && st.ap.n > 0 && intBits(ph.Type()) == 32 {
		st.ap.lost = true // set to a number
		return nil
	}
	if !ok || st.ap.n == 0 || k != 0 || !isInt(ph.Type()) || a.x.ints[ph] {
		return v
	}
	counter := false
	for _, ref := range *ph.Referrers() {
		b, ok := ref.(*ssa.BinOp)
		if !ok {
			continue
		}
		o := b.Y
		if o == ph {
			o = b.X
		}
		switch b.Op {
		case token.ADD:
			if k, ok := o.(*ssa.Const); ok && k.Value.Kind() == constant.Int && k.Int64() == 1 {
				counter = true
			}
		}
	}
	if !counter {
		return v
	}
	if lo, _, ok := a.asSpan(st, k); ok {
		return evX{cls: lo, span: true}
	}
	return v
}

// binop evaluates operations on the line's values.
func (a *assign) binop(st *eState, y *ssa.BinOp, l, r any) (any, bool) {
	lx, lok := l.(evX)
	rx, rok := r.(evX)
	lk, lint := l.(evInt)
	rk, rint := r.(evInt)
	switch y.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if _, ok := l.(evProp); ok && rint && rk == 0 || lint && lk == 0 && isProp(r) {
			switch y.Op {
			case token.EQL, token.LSS, token.LEQ:
				return evBool(false), true
			}
			return evBool(true), true
		}
		if !lok && !rok {
			return nil, false
		}
		op := y.Op
		if lok && rok && lx.span == rx.span {
			if lx.f != 0 && rx.f != 0 {
				return evBool(holds(op, int64(lx.f-rx.f), 0)), true
			}
			if lx.cls == rx.cls && (lx.cls == 2 || lx.cls == -2) || a.passed1(y, lx, rx) {
				return nil, true
			}
			return evBool(holds(op, int64(lx.cls-rx.cls), 0)), true
		}
		if !lok {
			lx, rk, rint, op = rx, lk, lint, mirror[op]
		} else if rok {
			return nil, true
		}
		if !rint {
			return nil, true
		}
		if lx.span {
			lo, hi, ok := a.asSpan(st, rk)
			switch {
			case !ok:
			case lx.cls < lo:
				return evBool(holds(op, -1, 0)), true
			case lx.cls > hi:
				return evBool(holds(op, 1, 0)), true
			case lo == hi && lo > -2 && lo < 2:
				return evBool(holds(op, 0, 0)), true
			}
			return nil, true
		}
		lo, hi := lx.bounds(&st.ap)
		t, f := false, false
		switch op {
		case token.EQL, token.NEQ:
			t, f = lo <= int64(rk) && int64(rk) <= hi, lo != int64(rk) || hi != int64(rk)
			if op == token.NEQ {
				t, f = f, t
			}
		default:
			t, f = holds(op, lo, int64(rk)) || holds(op, hi, int64(rk)), !holds(op, lo, int64(rk)) || !holds(op, hi, int64(rk))
		}
		if t != f {
			return evBool(t), true
		}
		return nil, true
	case token.ADD, token.SUB:
		switch {
		case lok && rint:
			k := int64(rk)
			if y.Op == token.SUB {
				k = -k
			}
			return lx.shift(k), true
		case rok && lint && y.Op == token.ADD:
			return rx.shift(int64(lk)), true
		case lok && rok && y.Op == token.ADD && lx.span != rx.span:
			p, s := lx, rx
			if p.span {
				p, s = s, p
			}
			if p.f != 0 {
				r := s.shift(int64(p.f - 1))
				return unspan(r), true
			}
		case lok && rok && y.Op == token.SUB && !lx.span && !rx.span && rx.f != 0:
			r := lx.shift(int64(1 - rx.f))
			return asSpans(r), true
		case lok && rok:
			exact := func(w evX) bool { return w.cls > -2 && w.cls < 2 }
			if y.Op == token.SUB && lx.span == rx.span && exact(lx) && exact(rx) {
				return evInt(lx.cls - rx.cls), true
			}
			st.ap.lost = true // related in a way that is not followed
		case (lok && !rint || rok && !lint) && st.ap.n > 0:
			st.ap.lost = true
		}
		if lok || rok {
			return nil, true
		}
	case token.QUO, token.REM, token.SHR, token.AND:
		if (lok && lx.span || rok && rx.span) && st.ap.n > 0 {
			st.ap.lost = true
		}
	case token.OR:
		if p, ok := l.(evProp); ok {
			p.or = true
			return p, true
		}
		if p, ok := r.(evProp); ok {
			p.or = true
			return p, true
		}
	}
	if lok || rok {
		if lok {
			a.use(st, lx)
		} else {
			a.use(st, rx)
		}
		return nil, true
	}
	for i, v := range []any{l, r} {
		p, ok := v.(evProp)
		if !ok {
			continue
		}
		o := r
		if i == 1 {
			o = l
		}
		if k, ok := o.(evInt); ok && y.Op == token.AND {
			m := evInt(0x0f)
			if strings.HasPrefix(p.typ, "InCB") {
				m = 0xf0
			} else if !strings.HasPrefix(p.typ, "GCB") {
				m = 0xff
			}
			if k&m == m {
				return p, true
			}
		}
		if k, ok := o.(evInt); ok && k == 0 && (y.Op == token.ADD || y.Op == token.XOR || y.Op == token.SHL || y.Op == token.SHR || y.Op == token.AND_NOT) {
			return p, true
		}
		if y.Op == token.AND && o == nil && !p.or {
			p.has = true
			return p, true
		}
		p.bad = true
		return p, true
	}
	return nil, false
}

// already reports whether a branch is taken if the property is there.
func (a *assign) already(st *eState, f *eFrame, cond ssa.Value, want bool) bool {
	if !st.ap.touched || !st.ap.inside {
		return false
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op == token.EQL) != want || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	l, r := a.x.val(st, f, b.X), a.x.val(st, f, b.Y)
	lv, rv := b.X, b.Y
	if !isProp(l) {
		l, r, lv, rv = r, l, rv, lv
	}
	p, ok := l.(evProp)
	if !ok || p.bad || p.or {
		return false
	}
	if q, ok := r.(evProp); ok {
		return p.has != q.has && !q.bad && !q.or
	}
	_ = lv
	for {
		c, ok := rv.(*ssa.Convert)
		if !ok {
			break
		}
		rv = c.X
	}
	u, ok := rv.(*ssa.UnOp)
	return ok && u.Op == token.MUL && r == nil && !p.has
}

func isProp(v any) bool {
	_, ok := v.(evProp)
	return ok
}

func holds(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

func mapX(v any, f func(evX) evX) any {
	switch w := v.(type) {
	case evX:
		return f(w)
	case evAlt:
		var out evAlt
		for _, x := range w {
			out = append(out, f(x.(evX)))
		}
		return out
	}
	return v
}

func unspan(v any) any  { return mapX(v, func(w evX) evX { return evX{cls: w.cls} }) }
func asSpans(v any) any { return mapX(v, func(w evX) evX { return evX{cls: w.cls, span: true} }) }

// passed1 says that a loop's counter is past the number it is to reach, which
// cannot happen with steps of one.
func (a *assign) passed1(y *ssa.BinOp, l, r evX) bool {
	if y.Op != token.EQL && y.Op != token.NEQ || l.cls == r.cls {
		return false
	}
	v := y.X
	ph, ok := v.(*ssa.Phi)
	if !ok {
		if ph, ok = y.Y.(*ssa.Phi); !ok {
			return false
		}
		l, r = r, l
	}
	for _, e := range ph.Edges {
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ph {
			continue
		}
		if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
			return b.Op == token.ADD && l.cls > r.cls || b.Op == token.SUB && l.cls < r.cls
		}
	}
	return false
}

// refine narrows where X can be.
func (a *assign) refine(st *eState, y *ssa.BinOp, l, r any, want bool) bool {
	op := y.Op
	if lx, ok := l.(evX); ok {
		if rx, ok := r.(evX); ok && lx.span == rx.span && a.passed1(y, lx, rx) && (lx.f == 0 || rx.f == 0) {
			return false
		}
	}
	w, ok := l.(evX)
	k, isK := r.(evInt)
	if !ok {
		w, ok = r.(evX)
		k, isK = l.(evInt)
		op = mirror[op]
	}
	if !ok || !isK || w.span || w.cls == 2 || w.cls == -2 {
		return true
	}
	if !want {
		op = negated[op]
	}
	p := &st.ap
	n := int64(k) - int64(w.cls)
	if n >= maxCodePoint-2 && n <= maxCodePoint+2 {
		return true
	}
	switch op {
	case token.EQL:
		p.lo, p.hi = max(p.lo, n), min(p.hi, n)
	case token.LSS:
		p.hi = min(p.hi, n-1)
	case token.LEQ:
		p.hi = min(p.hi, n)
	case token.GTR:
		p.lo = max(p.lo, n+1)
	case token.GEQ:
		p.lo = max(p.lo, n)
	case token.NEQ:
		if p.lo == n {
			p.lo++
		}
		if p.hi == n {
			p.hi--
		}
	}
	return p.lo <= p.hi
}

func (a *assign) convert(st *eState, y *ssa.Convert, w evX) any {
	if intBits(y.Type()) >= 32 {
		return w
	}
	a.use(st, w)
	return nil
}

// branch notes the last decision.
func (a *assign) branch(st *eState, at *ssa.If) {
	if st.ap.n == 0 && st.ap.at != "" && !st.ap.open {
		return
	}
	st.ap.at = a.x.c.rel(a.x.p.Prog.Fset.Position(condPos(at)).String())
	st.ap.fn = at.Parent().String()
}

// reason notes what a branch tells about the line.
func (a *assign) reason(st *eState, f *eFrame, cond ssa.Value, want bool) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, want = u.X, !want
	}
	if st.ap.open && st.ap.n == 0 && !st.ap.why && vague(cond) {
		st.ap.why = true
	}
	if present, ok, _ := a.rangeTest(st, f, cond); ok && present == want {
		st.ap.ranged = true
	}
}

// textOf is the text that a value is, if known.
func (a *assign) textOf(st *eState, f *eFrame, v ssa.Value) (string, bool) {
	if !isStr(v.Type()) && v.Type().Underlying().String() != "[]byte" && v.Type().Underlying().String() != "[]uint8" {
		return "", false
	}
	switch y := v.(type) {
	case *ssa.Convert:
		if isStr(y.Type()) || isStr(y.X.Type()) {
			return a.textOf(st, f, y.X)
		}
	case *ssa.UnOp:
		if _, ok := y.X.(*ssa.Global); ok && y.Op == token.MUL {
			return a.x.sepOf(st, a.x.load(st, f, y))
		}
	}
	return a.x.sepOf(st, a.x.val(st, f, v))
}

// rangeTest recognises the conditions that tell whether a line has a range, and
// whether it has one if the condition holds.
func (a *assign) rangeTest(st *eState, f *eFrame, cond ssa.Value) (present, ok, about bool) {
	dots := func(v ssa.Value, names ...string) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		fn := call.Call.StaticCallee()
		if fn == nil || len(call.Call.Args) < 2 || !slices.ContainsFunc(names, func(n string) bool { return strings.HasPrefix(fn.Name(), n) }) {
			return false
		}
		s, ok := a.textOf(st, f, call.Call.Args[1])
		return ok && strings.TrimSpace(s) == ".."
	}
	switch y := cond.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			p, ok, about := a.rangeTest(st, f, y.X)
			return !p, ok, about
		}
	case *ssa.Extract:
		ok := isBool(y.Type()) && dots(y.Tuple, "Cut")
		return true, ok, ok
	case *ssa.Call:
		ok := dots(y, "Contains")
		return true, ok, ok
	case *ssa.BinOp:
		l, r, op := y.X, y.Y, y.Op
		if _, ok := l.(*ssa.Const); ok {
			l, r, op = r, l, mirror[op]
		}
		k, ok := r.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false, false, false
		}
		if dots(l, "Index", "LastIndex") {
			return holds(op, 4, k.Int64()), holds(op, 4, k.Int64()) != holds(op, -1, k.Int64()), true
		}
		if call, ok := l.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && dots(call.Call.Args[0], "Split") {
				return holds(op, 2, k.Int64()), holds(op, 2, k.Int64()) != holds(op, 1, k.Int64()), true
			}
		}
	}
	return false, false, false
}

// vague reports whether a condition looks at text in a way that passes does
// not know.
func vague(cond ssa.Value) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		switch y := v.(type) {
		case *ssa.Call:
			if fn := y.Call.StaticCallee(); fn != nil {
				switch fnPkgPath(fn) {
				case "strings", "bytes", "slices", "unicode":
					return true
				}
			}
		case *ssa.Const:
		default:
			if isStr(v.Type()) || intBits(v.Type()) == 8 || intBits(v.Type()) == 32 {
				return true
			}
		}
	}
	return false
}

// passes reports whether a branch is taken for lines whose property the
// library does not use.
func (a *assign) passes(st *eState, f *eFrame, cond ssa.Value, want bool, depth int) bool {
	if depth > 4 {
		return false
	}
	named := func(s string, eq bool) bool {
		if s == "" {
			return eq
		}
		return propertyNames[s] != eq
	}
	text := func(v ssa.Value) (string, bool) { return a.textOf(st, f, v) }
	switch y := cond.(type) {
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return a.passes(st, f, y.X, !want, depth+1)
		}
	case *ssa.BinOp:
		l, r, op := y.X, y.Y, y.Op
		if _, ok := l.(*ssa.Const); ok {
			l, r, op = r, l, mirror[op]
		}
		if s, ok := text(r); ok && (op == token.EQL || op == token.NEQ) {
			return named(s, (op == token.EQL) == want)
		}
		if s, ok := text(l); ok && (op == token.EQL || op == token.NEQ) {
			return named(s, (op == token.EQL) == want)
		}
		if call, ok := l.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if k, ok := r.(*ssa.Const); ok && k.Value != nil {
					if !want {
						op = negated[op]
					}
					switch t := call.Call.Args[0].Type().Underlying().(type) {
					case *types.Slice:
						if intBits(t.Elem()) > 0 && intBits(t.Elem()) != 8 {
							return false
						}
						if intBits(t.Elem()) == 8 { // text
							return holds(op, 0, k.Int64()) && !holds(op, 1, k.Int64())
						}
						return holds(op, 0, k.Int64())
					case *types.Basic:
						return holds(op, 0, k.Int64()) && !holds(op, 1, k.Int64())
					}
				}
			}
		}
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.Lookup:
			b, ok := t.Index.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0 && !want
		case *ssa.Call:
			if fn := t.Call.StaticCallee(); fn != nil {
				switch fnPkgPath(fn) {
				case "strings", "bytes", "slices":
					return !want
				}
			}
			// The next element of a list of fields.
			return !want && t.Call.StaticCallee() == nil && isBool(y.Type())
		case *ssa.Next:
			return false
		}
	case *ssa.Lookup:
		b, ok := t0(y.X.Type())
		return ok && b && !want
	case *ssa.Call:
		fn := y.Call.StaticCallee()
		if fn == nil {
			return false
		}
		switch fnPkgPath(fn) {
		case "strings", "bytes":
			for _, arg := range y.Call.Args {
				if s, ok := text(arg); ok {
					switch fn.Name() {
					case "Equal", "EqualFold":
						return named(s, want)
					case "HasPrefix", "HasSuffix", "Contains":
						if fn.Name() == "Contains" && (s == "" || !unicode.IsLetter(rune(s[0]))) {
							return !want // a separator
						}
						if strings.Trim(s, "0123456789ABCDEFabcdef.") == "" && s != "" {
							return false // may be a code point
						}
						for n := range propertyNames {
							if strings.HasPrefix(n, s) {
								return !want
							}
						}
						return want
					}
				}
			}
			switch fn.Name() {
			case "Equal", "EqualFold", "HasPrefix", "HasSuffix":
				return true
			}
			return !want
		case "slices":
			return strings.HasPrefix(fn.Name(), "Contains") && !want
		}
	}
	return false
}

// t0 reports whether a type is a map keyed by text.
func t0(t types.Type) (bool, bool) {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false, false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0, true
}

// propType is the name of a type of property values.
func propType(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/charprops") {
		return ""
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return ""
	}
	return n.Obj().Name()
}

// call handles calls that are given values of the line.
func (a *assign) call(st *eState, f *eFrame, call ssa.CallInstruction, fnv any, args []any, mode string) ([]*eState, bool, bool) {
	x := a.x
	v, _ := call.(ssa.Value)
	if b, ok := fnv.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			if heapTracked(st, args[min(1, len(args)):]) {
				st.ap.lost = true
			}
		case "min", "max":
			if tracked(args, 0) && mode == "value" && v != nil {
				f.env[v] = a.minmax(st, b.Name(), args)
				return nil, false, true
			}
		}
		return nil, false, false
	}
	fv, ok := fnv.(evFn)
	if !ok {
		if _, alt := fnv.(evAlt); alt {
			st.ap.mixed = true
		} else if tracked(args, 0) {
			st.ap.lost = true
		}
		return nil, false, false
	}
	fn := fv.fn
	sig := fn.Signature
	if x.c.own(fnPkgPath(fn)) {
		// The lookup of a property by its name.
		if isLookup(x.c, fn) && v != nil && mode == "value" {
			a.value(st, call, v, propType(sig.Results().At(0).Type()), sig.Results())
			s := st.fork()
			a.noValue(s, v, sig.Results())
			return []*eState{st, s}, true, true
		}
		if len(fn.Blocks) > 0 && !x.inline(fn) && (heapTracked(st, args) || heapTracked(st, fv.binds)) {
			n := 0
			for _, g := range st.frames {
				if g.fn == fn {
					n++
				}
			}
			if n < 2 {
				x.push(st, f, call, fv, args, mode)
				return nil, false, true
			}
		}
		return nil, false, false
	}
	a.reads(st, call, fn, args)
	if !heapTracked(st, args) {
		return nil, false, false
	}
	name := fnName(fn)
	if o := fn.Origin(); o != nil {
		name = fnName(o)
	}
	switch {
	case name == "unicode/utf8.ValidRune" || name == "unicode/utf16.IsSurrogate":
		if w, ok := args[0].(evX); ok && w.cls == 0 && !w.span && mode == "value" && v != nil {
			valid := name == "unicode/utf8.ValidRune"
			s := st.fork()
			st.top().env[v] = evBool(valid)
			s.top().env[v] = evBool(!valid)
			s.ap.lo, s.ap.hi = max(s.ap.lo, 0xD800), min(s.ap.hi, 0xDFFF)
			if s.ap.lo > s.ap.hi {
				return nil, false, true
			}
			return []*eState{st, s}, true, true
		}
		return nil, false, false
	case fnPkgPath(fn) == "fmt" || fnPkgPath(fn) == "errors" || fnPkgPath(fn) == "log":
		return nil, false, false
	}
	props := false
	for _, w := range args {
		if wx, ok := w.(evX); ok {
			a.use(st, wx)
		} else if tracked([]any{w}, 0) || heapTracked(st, []any{w}) {
			props = true
		}
	}
	if props {
		st.ap.lost = true
	}
	return nil, false, false
}

// reads notes what is done with files.
func (a *assign) reads(st *eState, call ssa.CallInstruction, fn *ssa.Function, args []any) {
	for _, w := range args {
		if i, ok := w.(evIface); ok {
			w = i.val
		}
		r, ok := w.(evRes)
		if !ok || st.res[r.id] == nil {
			continue
		}
		switch name := fnName(fn); {
		case name == "io.LimitReader" || name == "io.NewSectionReader" || name == "io.CopyN":
			a.x.report(st, "stops-early", a.x.at(call), a.x.at(call), "%s: only a part of an input file may be read, because of %s", call.Parent(), name)
		case fnPkgPath(fn) == "bufio" || fn.Name() == "Close" || fn.Name() == "Name" || fn.Name() == "Stat":
			continue
		}
		st.res[r.id].used = true
	}
}

func takesText(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if isStr(t) || t.Underlying().String() == "[]byte" {
			return true
		}
	}
	return false
}

func (a *assign) value(st *eState, call ssa.CallInstruction, v ssa.Value, t string, res *types.Tuple) {
	p := evProp{typ: t}
	st.ap.typ = t
	if res.Len() == 1 {
		st.top().env[v] = p
		return
	}
	tup := evTup{p}
	for i := 1; i < res.Len(); i++ {
		switch t := res.At(i).Type(); {
		case isBool(t):
			tup = append(tup, evBool(true))
		case isError(t):
			tup = append(tup, evNil{})
		default:
			tup = append(tup, nil)
		}
	}
	st.top().env[v] = tup
}

func (a *assign) noValue(st *eState, v ssa.Value, res *types.Tuple) {
	st.ap.exempt = true
	if res.Len() == 1 {
		st.top().env[v] = evInt(0)
		return
	}
	tup := evTup{evInt(0)}
	for i := 1; i < res.Len(); i++ {
		switch t := res.At(i).Type(); {
		case isBool(t):
			tup = append(tup, evBool(false))
		case isError(t):
			tup = append(tup, evErr{"own", "unknown name"})
		default:
			tup = append(tup, nil)
		}
	}
	st.top().env[v] = tup
}

// minmax is the smaller or larger of numbers.
func (a *assign) minmax(st *eState, name string, args []any) any {
	var cur any = args[0]
	for _, o := range args[1:] {
		l, lok := cur.(evX)
		r, rok := o.(evX)
		switch {
		case lok && rok && l.span == r.span:
			less := l.cls < r.cls
			if l.cls == r.cls {
				if l.f == 0 {
					l = r
				}
				cur = evX{cls: l.cls, span: l.span}
				continue
			}
			if less == (name == "min") {
				cur = l
			} else {
				cur = r
			}
		case lok != rok:
			w, k := l, o
			if rok {
				w, k = r, cur
			}
			i, ok := k.(evInt)
			if !ok || w.span {
				st.ap.lost = true
				return nil
			}
			lo, hi := w.bounds(&st.ap)
			if w.cls == 2 {
				hi = maxCodePoint
			}
			switch {
			case name == "min" && hi <= int64(i), name == "max" && lo >= int64(i):
				cur = w
			case name == "min" && lo > int64(i), name == "max" && hi < int64(i):
				cur = i
			case w.cls == 2 && name == "min" && int64(i) > st.ap.hi:
				// Some number beyond X.
				cur = evAlt{evX{cls: 1}, evX{cls: 2}}
			case w.cls == -2 && name == "max" && int64(i) <= 0:
				cur = w
			default:
				cur = evAlt{evX{cls: -2}, evX{cls: -1}, evX{cls: 0}, evX{cls: 1}, evX{cls: 2}}
			}
			if _, ok := cur.(evAlt); ok && len(args) == 2 {
				return cur
			}
		default:
			st.ap.lost = true
			return nil
		}
	}
	return cur
}

// store handles a store instruction.
func (a *assign) store(st *eState, f *eFrame, y *ssa.Store) {
	val := a.x.val(st, f, y.Val)
	if tracked([]any{val}, 0) {
		if p, ok := a.x.val(st, f, y.Addr).(evPtr); ok && strings.Contains(p.path, "[*]") && !isProp(val) {
			st.ap.lost = true
		}
	}
	if st.ap.n == 0 {
		return
	}
	if intBits(y.Val.Type()) != 8 {
		if isProp(val) {
			if p, ok := a.x.val(st, f, y.Addr).(evPtr); !ok || strings.Contains(p.path, "[") {
				a.write(st, y, val.(evProp))
			}
		}
		return
	}
	switch w := a.x.val(st, f, y.Addr).(type) {
	case evPtr:
		if !strings.Contains(w.path, "[") {
			return // a variable or field
		}
	case nil:
		switch y.Addr.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.Global:
			return
		}
	default:
		return
	}
	switch p := val.(type) {
	case evProp:
		a.write(st, y, p)
	case nil:
		if st.ap.touched && st.ap.inside {
			st.ap.written = true // a value that is not followed
		}
	}
}

func (a *assign) write(st *eState, at ssa.Instruction, p evProp) {
	if p.bad || p.has {
		a.x.report(st, "value", at.Parent().String(), a.x.at(at), "%s: what is stored is not the value that the line's property has", at.Parent())
		st.ap.lost = true
		return
	}
	if !st.ap.touched {
		if y, ok := at.(*ssa.Store); ok && st.ap.n > 0 && a.counted(st, y.Addr, 0) {
			st.ap.lost = true
		}
		return
	}
	a.writes[a.x.at(at)] = true
	if !st.ap.inside {
		if st.ap.lost || st.ap.exempt || st.ap.n == 0 {
			return
		}
		side := "before the first"
		if st.ap.first < 0 {
			side = "after the last"
		}
		a.x.report(st, "beyond", st.ap.fn, st.ap.at, "%s: a line's property may be applied to a code point %s of its range (stored at %s)", st.ap.fn, side, a.x.at(at))
		st.ap.lost = true
		return
	}
	kind := func(t string) string {
		if strings.HasPrefix(t, "InCB") {
			return "InCB"
		}
		return "GCB"
	}
	if h := st.ap.holds; h != "" && !st.ap.mixed && !p.or && kind(h) != kind(p.typ) {
		a.x.report(st, "overwritten", at.Parent().String(), a.x.at(at), "%s: storing a %s replaces the %s that an earlier line has assigned to the same code point", at.Parent(), p.typ, h)
	}
	st.ap.written = true
}

// counted reports whether an address depends on a loop's counter that is not
// known relative to X.
func (a *assign) counted(st *eState, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	f := st.top()
	switch y := v.(type) {
	case *ssa.IndexAddr:
		return a.counted(st, y.Index, depth+1)
	case *ssa.BinOp:
		return a.counted(st, y.X, depth+1) || a.counted(st, y.Y, depth+1)
	case *ssa.Convert:
		return a.counted(st, y.X, depth+1)
	case *ssa.Phi:
		if _, ok := a.x.val(st, f, y).(evX); ok {
			return false
		}
		for _, e := range y.Edges {
			if b, ok := e.(*ssa.BinOp); ok && (b.X == y || b.Y == y) {
				return true
			}
		}
	}
	return false
}

// other handles updates of maps and sends.
func (a *assign) other(st *eState, f *eFrame, ins ssa.Instruction) {
	switch y := ins.(type) {
	case *ssa.MapUpdate:
		k, v := a.x.val(st, f, y.Key), a.x.val(st, f, y.Value)
		if _, ok := k.(evX); ok {
			a.use(st, k)
			if p, ok := v.(evProp); ok {
				a.write(st, y, p)
				return
			}
		}
		if tracked([]any{k, v}, 0) {
			st.ap.lost = true
		}
	case *ssa.Send:
		if heapTracked(st, []any{a.x.val(st, f, y.X)}) {
			st.ap.lost = true
		}
	}
}
