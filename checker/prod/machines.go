package prod

import (
	"fmt"

	"verif/checker/absint"
	"verif/checker/dd"
	"verif/checker/uax"
)

// Impl is the transducer extracted from the code.
type Impl struct {
	In    *absint.Interp
	An    *absint.Analysis
	R2    bool // use the second length variables
	cache map[int][]Move
}

// Describe names a state.
func (im *Impl) Describe(s int) string {
	c := im.An.Ctxs[s]
	if c.Entry() {
		return c.Desc
	}
	return c.Point + " loop with " + c.Desc
}

// RelResult expresses the three results of a split function call relative to
// the cursor.
func RelResult(in *absint.Interp, entry bool, guard dd.Ref, vals []absint.Val) dd.Ref {
	m := in.M
	weird := func(format string, args ...any) dd.Ref {
		return m.Term(Res{Kind: Weird, Note: fmt.Sprintf(format, args...)})
	}
	if len(vals) != 3 {
		return weird("unexpected number of results")
	}
	adv, ok1 := vals[0].(dd.Ref)
	tok, ok2 := vals[1].(dd.Ref)
	if !ok1 || !ok2 {
		return weird("unexpected results")
	}
	errv, ok3 := vals[2].(dd.Ref)
	if !ok3 {
		return weird("unexpected results")
	}
	noErr := m.WhereFn(m.Under(guard, errv), func(e any) bool {
		_, isNil := e.(absint.NilT)
		return isNil
	})
	res := m.Bind2(nil, m.Under(guard, adv), m.Under(guard, tok), func(a, t any) dd.Ref {
		l, ok := a.(absint.Lin)
		if entry {
			l.C = 0
		}
		if !ok {
			return m.Term(Res{Kind: Unknown, Note: fmt.Sprintf("advance is %v", a)})
		}
		if l.IsConst() && l.K == 0 {
			if _, isNil := t.(absint.NilT); !isNil {
				return weird("no advance, but a token")
			}
			return m.Term(Res{Kind: More})
		}
		sl, ok := t.(absint.Slice)
		if entry {
			sl.Lo.C, sl.Hi.C = 0, 0
		}
		switch {
		case !ok:
			return weird("advance %s, but the token is %v", l, t)
		case sl.Obj != absint.InputObj || sl.Str || sl.Lo != absint.Num(0):
			return weird("the token does not begin at the start of the buffer")
		case sl.Hi != l:
			return in.RClass(func(v int, exact bool) dd.Ref {
				if exact && at(sl.Hi, v) == at(l, v) {
					return relK(entry, weird, in, l)
				}
				return weird("advance %s, but a token that ends at %s", l, sl.Hi)
			})
		}
		return relK(entry, weird, in, l)
	})
	if m.And(guard, m.Not(noErr)) == m.False {
		return res
	}
	return m.ITE(noErr, res, weird("an error is returned"))
}

func at(l absint.Lin, v int) absint.Lin {
	l.K += int64(l.R) * int64(v)
	l.R = 0
	return l
}

func relK(entry bool, weird func(string, ...any) dd.Ref, in *absint.Interp, l absint.Lin) dd.Ref {
	m := in.M
	want := int8(1)
	if entry {
		want, l.C = 0, 0
	}
	if l.C != want || l.E != 0 {
		return weird("advance %s", l)
	}
	if l.R == 0 {
		if l.K > 60 || l.K < -60 {
			return weird("advance %s", l)
		}
		return m.Term(Res{Kind: Result, K: int(l.K)})
	}
	return in.RClass(func(v int, exact bool) dd.Ref {
		if !exact {
			return weird("advance %s", l)
		}
		return m.Term(Res{Kind: Result, K: int(l.K) + int(l.R)*v})
	})
}

// Moves lists the outcomes of a context.
func (im *Impl) Moves(s int) []Move {
	if mv, ok := im.cache[s]; ok {
		return mv
	}
	m := im.In.M
	c := im.An.Ctxs[s]
	var out []Move
	ren := func(g dd.Ref) dd.Ref {
		g = m.Exists(g, freshFrom, freshTo)
		if im.R2 {
			g = m.Rename("r2", g, func(l int32) int32 {
				if l < absint.RBits {
					return l + absint.R2Level - absint.RLevel
				}
				return l
			})
		}
		return g
	}
	for _, o := range c.Out {
		where := im.In.Prog.Fset.Position(o.Pos).String()
		if o.Fn != nil && !o.Pos.IsValid() {
			where = o.Fn.String()
		}
		switch o.Kind {
		case absint.Continue:
			out = append(out, Move{Guard: ren(o.Guard), To: o.Next.ID, Delta: o.Delta, Where: where})
		case absint.Return:
			d := RelResult(im.In, c.AtStart(), o.Guard, o.Vals)
			for _, t := range m.Terms(d) {
				if t == m.Undef {
					continue
				}
				r, ok := m.Value(t).(Res)
				if !ok {
					continue
				}
				out = append(out, Move{Guard: ren(m.And(o.Guard, m.Where(d, t))), Res: r, Where: where})
			}
		case absint.Panic:
			out = append(out, Move{Guard: ren(o.Guard), Res: Res{Kind: Panicked, Note: o.Reason}, Where: where})
		case absint.Undecided:
			out = append(out, Move{Guard: ren(o.Guard), Res: Res{Kind: Unknown, Note: o.Reason}, Where: where})
		}
	}
	if im.cache == nil {
		im.cache = map[int][]Move{}
	}
	im.cache[s] = out
	return out
}

// Kinds of items at a position of the input.
const (
	itEnd     = iota
	itCut     // a sequence that the buffer's end cuts short
	itCutIll  // the same, for a lead or prefix that no well-formed sequence has
	itDoomed  // a cut sequence in which a non-continuation byte is already visible
	itInvalid // a malformed byte
	itIll     // UTF-8-shaped but not well-formed
	itChar
)

type item struct {
	kind, cls, n int
}

// Spec is the reference transducer.
type Spec struct {
	In     *absint.Interp
	T      *uax.Table
	EOF    bool
	states []uax.State
	idx    map[specState]int
	list   []specState
	items  dd.Ref
	cache  map[int][]Move
}

type specState struct {
	start bool // before the first character of the cluster
	s     uax.State
}

// NewSpec builds the reference transducer.
func NewSpec(in *absint.Interp, t *uax.Table, eof bool) *Spec {
	sp := &Spec{In: in, T: t, EOF: eof, idx: map[specState]int{}, cache: map[int][]Move{}}
	sp.items = sp.buildItems()
	return sp
}

func (sp *Spec) id(s specState) int {
	if i, ok := sp.idx[s]; ok {
		return i
	}
	i := len(sp.list)
	sp.list = append(sp.list, s)
	sp.idx[s] = i
	return i
}

// Starts lists the states in which a cluster may begin.
func (sp *Spec) Starts() []int {
	var out []int
	for _, s := range sp.T.States() {
		out = append(out, sp.id(specState{true, s}))
	}
	return out
}

// Describe names a state.
func (sp *Spec) Describe(i int) string {
	s := sp.list[i]
	d := "start of text"
	if s.s.Started {
		d = "after " + sp.T.Classes[s.s.Prev].String()
		if s.s.RIOdd {
			d += " (odd)"
		}
		if s.s.GB11 > 0 {
			d += fmt.Sprintf(" (GB11 phase %d)", s.s.GB11)
		}
		if s.s.GB9c > 0 {
			d += fmt.Sprintf(" (GB9c phase %d)", s.s.GB9c)
		}
	}
	if s.start {
		d = "cluster start " + d
	}
	return "reference: " + d
}

// Items is the diagram of the item at the cursor.
func (sp *Spec) Items() dd.Ref { return sp.items }

func (sp *Spec) buildItems() dd.Ref {
	in := sp.In
	memo := map[int]dd.Ref{}
	return in.RClass(func(r int, exact bool) dd.Ref {
		if r > 4 {
			r = 4
		}
		if x, ok := memo[r]; ok {
			return x
		}
		x := sp.itemsFor(r)
		memo[r] = x
		return x
	})
}

func (sp *Spec) itemsFor(r int) dd.Ref {
	m := sp.In.M
	term := func(k, c, n int) dd.Ref { return m.Term(item{k, c, n}) }
	if r == 0 {
		return term(itEnd, 0, 0)
	}
	// tail builds the diagram for bytes j.. of an n-byte sequence with the
	// given prefix value.
	var tail func(j, n int, v rune, lead byte, bad bool) dd.Ref
	wellPrefix := func(n int, v rune, got int) bool {
		// Can the prefix be completed to a scalar value's shortest encoding?
		sh := uint(6 * (n - got))
		lo, hi := v<<sh, v<<sh|(1<<sh-1)
		minv := [5]rune{0, 0, 0x80, 0x800, 0x10000}[n]
		for _, iv := range [][2]rune{{minv, 0xD7FF}, {max(minv, 0xE000), 0x10FFFF}} {
			if lo <= iv[1] && hi >= iv[0] && iv[0] <= iv[1] {
				return true
			}
		}
		return false
	}
	type ck struct {
		n int
		v rune
	}
	tail = func(j, n int, v rune, lead byte, bad bool) dd.Ref {
		if j == n || j == r {
			switch {
			case bad && j == n:
				return term(itInvalid, 0, 1)
			case bad:
				return term(itDoomed, 0, 1)
			case j < n && !wellPrefix(n, v, j):
				return term(itCutIll, 0, 0)
			case j < n:
				return term(itCut, 0, 0)
			case !wellPrefix(n, v, n):
				return term(itIll, 0, n)
			}
			return term(itChar, sp.T.Of(v), n)
		}
		if bad {
			// Further bytes cannot change the verdict, only its kind.
			if r >= n {
				return term(itInvalid, 0, 1)
			}
			return term(itDoomed, 0, 1)
		}
		badRef := tail(j+1, n, 0, lead, true)
		return m.BitsVar(absint.ByteLevel(j), 8, func(b int) dd.Ref {
			if b&0xC0 != 0x80 {
				return badRef
			}
			return tail(j+1, n, v<<6|rune(b&0x3F), lead, false)
		})
	}
	return m.BitsVar(absint.ByteLevel(0), 8, func(b int) dd.Ref {
		switch {
		case b < 0x80:
			return term(itChar, sp.T.Of(rune(b)), 1)
		case b&0xE0 == 0xC0:
			return tail(1, 2, rune(b&0x1F), byte(b), false)
		case b&0xF0 == 0xE0:
			return tail(1, 3, rune(b&0x0F), byte(b), false)
		case b&0xF8 == 0xF0:
			return tail(1, 4, rune(b&0x07), byte(b), false)
		}
		return term(itInvalid, 0, 1)
	})
}

// Notes attached to reference results.
const (
	NoteText = "text"      // decided by the break rules
	NoteEnd  = "end"       // decided by the end of the text
	NoteBad  = "malformed" // decided by malformed input
	NoteNone = "empty"
)

// Moves lists the transitions of a reference state.
func (sp *Spec) Moves(i int) []Move {
	if mv, ok := sp.cache[i]; ok {
		return mv
	}
	m := sp.In.M
	s := sp.list[i]
	var out []Move
	type to struct {
		next  int
		delta int
		res   Res
	}
	groups := map[to]dd.Ref{}
	var order []to
	add := func(g dd.Ref, t to) {
		if _, ok := groups[t]; !ok {
			groups[t] = m.False
			order = append(order, t)
		}
		groups[t] = m.Or(groups[t], g)
	}
	for _, t := range m.Terms(sp.items) {
		if t == m.Undef {
			continue
		}
		it := m.Value(t).(item)
		g := m.Where(sp.items, t)
		bad := 0 // where a malformed item puts the boundary
		if s.start {
			bad = 1
		}
		if s.start && s.s.Started && it.kind != itChar {
			// Contexts other than the start of the text matter for characters only.
			continue
		}
		switch it.kind {
		case itEnd:
			switch {
			case s.start:
				add(g, to{res: Res{Kind: More, Note: NoteNone}})
			case sp.EOF:
				add(g, to{res: Res{Kind: Result, K: 0, Note: NoteEnd}})
			case sp.T.Forced(s.s):
				add(g, to{res: Res{Kind: Either, K: 0, Note: NoteEnd}})
			default:
				add(g, to{res: Res{Kind: More, Note: NoteEnd}})
			}
		case itCut:
			switch {
			case sp.EOF:
				add(g, to{res: Res{Kind: Result, K: bad, Note: NoteBad}})
			case !s.start && sp.T.Forced(s.s):
				add(g, to{res: Res{Kind: Either, K: 0, Note: NoteEnd}})
			default:
				add(g, to{res: Res{Kind: More, Note: NoteEnd}})
			}
		case itDoomed:
			if sp.EOF {
				add(g, to{res: Res{Kind: Result, K: bad, Note: NoteBad}})
			} else {
				add(g, to{res: Res{Kind: Either, K: bad, Note: NoteBad}})
			}
		case itCutIll:
			if sp.EOF {
				add(g, to{res: Res{Kind: Result, K: bad, Note: NoteBad}})
			} else {
				add(g, to{res: Res{Kind: Any}})
			}
		case itInvalid:
			add(g, to{res: Res{Kind: Result, K: bad, Note: NoteBad}})
		case itIll:
			add(g, to{res: Res{Kind: Any}})
		case itChar:
			b, rule := sp.T.Boundary(s.s, it.cls)
			switch {
			case s.start && !b:
				continue // no cluster begins here
			case s.start || !b:
				add(g, to{next: sp.id(specState{false, sp.T.Next(s.s, it.cls)}), delta: it.n})
			default:
				add(g, to{res: Res{Kind: Result, K: 0, Note: NoteText + " " + rule}})
			}
		}
	}
	for _, t := range order {
		out = append(out, Move{Guard: groups[t], To: t.next, Delta: t.delta, Res: t.res, Where: ""})
	}
	sp.cache[i] = out
	return out
}

// CharItem tells whether an item is a complete well-formed character, and if
// so, its class and encoded length.
func CharItem(v any) (cls, n int, ok bool) {
	it, isItem := v.(item)
	if !isItem || it.kind != itChar {
		return 0, 0, false
	}
	return it.cls, it.n, true
}

// Example describes some input bytes that satisfy a condition.
func Example(m *dd.Mgr, g dd.Ref) string {
	a, ok := m.Sat(g)
	if !ok {
		return ""
	}
	return fmt.Sprintf("% x", bytesOf(a, 0, -1))
}
