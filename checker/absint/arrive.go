package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/dd"
)

// comp is one scalar of the state carried around a summarised loop.
type comp struct {
	name string
	ref  dd.Ref
	mod  bool // changed by the loop: a phi of its head, or a memory cell
	mem  bool
	typ  types.Type
}

type tupT struct{ id int32 }

// arrive handles a state that reaches the head of a summarised loop: the state
// is re-expressed relative to the new cursor, split into finitely many carried
// states, and recorded as transitions to their contexts.
func (r *run) arrive(st *State, ci *cutInfo) {
	in, m := r.in, r.in.M
	if st.Guard == m.False {
		return
	}
	r.dropGarbage(st)
	r.plainState(st)
	comps := r.flatten(st)
	// Choose the cursor.
	cands := r.candidates(st, comps)
	ci.ncand = len(cands)
	if ci.cursor >= len(cands) {
		r.undecided(st, st.top().Block.Instrs[0].Pos(), "cannot relate the loop in %s to a position in the input", st.top().Fn)
		return
	}
	cur := cands[ci.cursor]

	// Fold all components into one diagram of tuples.
	var order []int
	var fixed []dd.Ref
	tup := m.Under(st.Guard, m.Term(in.tuple(nil)))
	fixed = make([]dd.Ref, len(comps))
	for i, c := range comps {
		x := c.ref
		if d := m.Defined(x); m.And(st.Guard, m.Not(d)) != m.False {
			x = m.ITE(d, x, m.Term(Opaque{Tag: "undefined"}))
		}
		x = m.Under(st.Guard, x)
		if ts := m.Terms(x); len(ts) == 1 {
			fixed[i] = ts[0]
			continue
		} else if len(ts) == 2 && (ts[0] == m.Undef || ts[1] == m.Undef) {
			fixed[i] = ts[0]
			if ts[0] == m.Undef {
				fixed[i] = ts[1]
			}
			continue
		}
		order = append(order, i)
		tup = m.Bind2(nil, tup, x, func(t, v any) dd.Ref {
			return m.Term(in.extendTuple(t.(tupT), m.Term(v)))
		})
		if len(m.Terms(tup)) > 200_000 {
			panic(unsupported{"too many distinct states carried around a loop"})
		}
	}
	point := pointKey(st)
	for _, t := range m.Terms(tup) {
		if t == m.Undef {
			continue
		}
		g := m.And(st.Guard, m.Where(tup, t))
		if g == m.False {
			continue
		}
		vals := append([]dd.Ref(nil), fixed...)
		for k, i := range order {
			vals[i] = in.tuples[m.Value(t).(tupT).id][k]
		}
		r.arriveTuple(st, ci, comps, vals, cur, g, point)
	}
}

func (in *Interp) tuple(refs []dd.Ref) tupT {
	k := fmt.Sprint(refs)
	if in.tupleIdx == nil {
		in.tupleIdx = map[string]int32{}
		in.tupExt = map[tupExt]tupT{}
	}
	if id, ok := in.tupleIdx[k]; ok {
		return tupT{id}
	}
	id := int32(len(in.tuples))
	in.tuples = append(in.tuples, append([]dd.Ref(nil), refs...))
	in.tupleIdx[k] = id
	return tupT{id}
}

type tupExt struct {
	t tupT
	r dd.Ref
}

func (in *Interp) extendTuple(t tupT, v dd.Ref) tupT {
	k := tupExt{t, v}
	if x, ok := in.tupExt[k]; ok {
		return x
	}
	x := in.tuple(append(append([]dd.Ref(nil), in.tuples[t.id]...), v))
	in.tupExt[k] = x
	return x
}

func pointKey(st *State) string {
	var b strings.Builder
	for _, f := range st.Frames {
		fmt.Fprintf(&b, "%s:%d:%d/", f.Fn, f.Block.Index, f.IP)
	}
	return b.String()
}

// flatten lists the scalars a state consists of, in a canonical order.
func (r *run) flatten(st *State) []comp {
	var out []comp
	var objs []ObjID
	seen := map[ObjID]bool{}
	note := func(o ObjID) {
		if _, own := st.Mem[o]; own && !seen[o] {
			seen[o] = true
			objs = append(objs, o)
		}
	}
	var walk func(name string, v Val, t types.Type, mod, mem bool)
	walk = func(name string, v Val, t types.Type, mod, mem bool) {
		switch v := v.(type) {
		case dd.Ref:
			out = append(out, comp{name, v, mod, mem, t})
			r.refs(r.in.M.Under(st.Guard, v), note)
		case *Agg:
			for i, e := range v.E {
				var et types.Type
				if t != nil {
					switch u := t.Underlying().(type) {
					case *types.Struct:
						et = u.Field(i).Type()
					case *types.Array:
						et = u.Elem()
					case *types.Tuple:
						et = u.At(i).Type()
					}
				}
				walk(fmt.Sprintf("%s.%d", name, i), e, et, mod, mem)
			}
		case *MapAgg:
			for i, e := range v.Vals {
				walk(fmt.Sprintf("%s[%v]", name, v.Keys[i]), e, nil, mod, mem)
			}
		}
	}
	for fi, f := range st.Frames {
		type kv struct {
			n string
			v ssa.Value
		}
		var ks []kv
		for v := range f.Regs {
			ks = append(ks, kv{v.Name(), v})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].n < ks[j].n })
		top := fi == len(st.Frames)-1
		for _, k := range ks {
			p, isPhi := k.v.(*ssa.Phi)
			mod := top && isPhi && p.Block() == f.Block
			n := k.n
			if isPhi && p.Comment != "" {
				n = p.Comment + "/" + n
			}
			walk(fmt.Sprintf("f%d:%s", fi, n), f.Regs[k.v], k.v.Type(), mod, false)
		}
	}
	for i := 0; i < len(objs); i++ {
		o := objs[i]
		walk(fmt.Sprintf("m%d", o), st.Mem[o], nil, true, true)
	}
	return out
}

type candidate struct {
	comp int
	what string
}

// candidates lists the components that may serve as the cursor.
func (r *run) candidates(st *State, comps []comp) []candidate {
	m := r.in.M
	var a, b, c, d, e []candidate
	for i, k := range comps {
		isSlice, isInt := false, false
		for _, t := range m.Terms(m.Under(st.Guard, k.ref)) {
			if t == m.Undef {
				continue
			}
			switch v := m.Value(t).(type) {
			case Slice:
				if v.Obj == InputObj {
					isSlice = true
				}
			case Lin:
				isInt = true
			}
		}
		if isInt && k.typ != nil {
			if _, signed, ok := intInfo64(k.typ); !ok || !wide(k.typ) || !signed {
				isInt = false
			}
			if _, named := k.typ.(*types.Named); named {
				isInt = false
			}
		}
		switch {
		case isSlice && k.mod && !k.mem:
			a = append(a, candidate{i, "lo"})
		case isInt && k.mod && !k.mem:
			b = append(b, candidate{i, "int"})
		case isSlice && k.mem:
			c = append(c, candidate{i, "lo"})
		case isInt && k.mem:
			d = append(d, candidate{i, "int"})
		case isSlice:
			e = append(e, candidate{i, "lo"})
		case isInt:
			e = append(e, candidate{i, "int"})
		}
	}
	out := append(append(append(append(a, b...), c...), d...), e...)
	return out
}

func (r *run) nextCursor(ci *cutInfo, why string) {
	ci.cursor++
	ci.hyp = map[string]int{}
	ci.flips = map[string]int{}
	ci.both = map[string][]int64{}
	ci.ks = map[string]map[int64]bool{}
	ci.opaque = map[string]bool{}
	r.a.dropLater(ci)
	panic(restart{fmt.Sprintf("try another cursor (%d of %d): %s", ci.cursor, ci.ncand, why)})
}

func (r *run) arriveTuple(st *State, ci *cutInfo, comps []comp, vals []dd.Ref, cur candidate, g dd.Ref, point string) {
	in, m := r.in, r.in.M
	cv := m.Value(vals[cur.comp])
	var at Lin
	switch v := cv.(type) {
	case Lin:
		at = v
	case Slice:
		if v.Obj != InputObj {
			r.nextCursor(ci, "not a view of the input")
		}
		at = v.Lo
	case NilT:
		// An exhausted position; treat as staying in place.
		r.nextCursor(ci, "not a position on every path")
	default:
		r.nextCursor(ci, "not a position on every path")
	}
	wantC := int8(1)
	atStart := r.ctx.AtStart()
	if atStart {
		wantC = 0
		at.C = 0
	}
	if at.R != 0 || at.E != 0 || at.C != wantC {
		r.nextCursor(ci, "not a position relative to the cursor: "+comps[cur.comp].name+" = "+at.String())
	}
	delta := at.K
	if delta < -64 || delta > 64 {
		r.nextCursor(ci, "moves too far")
	}
	rebase := func(name string, l Lin, isCur bool, slicePart bool) dd.Ref {
		if atStart {
			l.C = 0
			h := ci.hyp[name]
			if h == 0 {
				switch {
				case isCur:
					h = hypRel
				case l.R == 1 && l.K == 0:
					h = hypRel
				case l.R == 0 && l.E == 0 && l.K == delta && delta != 0:
					h = hypRel
				case l.E == 1:
					h = hypRel
				default:
					h = hypConst
				}
				ci.hyp[name] = h
				if h == hypConst && delta == 0 && l.IsConst() && l.K == 0 {
					ci.both[name] = []int64{}
				}
			}
			if d, open := ci.both[name]; open && delta != 0 && l.IsConst() && !ci.opaque[name] {
				// Both the cursor and this were 0 when the loop was entered.
				switch {
				case l.K != delta:
					delete(ci.both, name)
				case len(d) == 0:
					ci.both[name] = []int64{delta}
				case d[0] != delta:
					delete(ci.both, name)
					ci.hyp[name] = hypRel
					r.a.dropLater(ci)
					panic(restart{fmt.Sprintf("take %s for a position", name)})
				}
			}
			if h == hypRel {
				l.C = 1
			}
		} else {
			h := ci.hyp[name]
			if h == 0 {
				// First seen from inside the loop: follow what is there.
				h = hypConst
				if l.C != 0 {
					h = hypRel
				}
				ci.hyp[name] = h
			}
			want := int8(0)
			if h == hypRel {
				want = 1
			}
			if h != hypMixed && l.C != want {
				ci.flips[name]++
				switch {
				case ci.flips[name] > 1:
					ci.hyp[name] = hypMixed
				case h == hypRel:
					ci.hyp[name] = hypConst
				default:
					ci.hyp[name] = hypRel
				}
				r.a.dropLater(ci)
				panic(restart{fmt.Sprintf("reconsider how %s relates to the cursor", name)})
			}
		}
		n := Lin{l.K - delta*int64(l.C) + delta*int64(l.R), l.C, l.R, l.E}
		if ci.opaque[name] && !isCur {
			return m.Term(Opaque{Tag: "carried " + name})
		}
		if ci.ks == nil {
			ci.ks = map[string]map[int64]bool{}
		}
		ks := ci.ks[name]
		if ks == nil {
			ks = map[int64]bool{}
			ci.ks[name] = ks
		}
		ks[n.K] = true
		lim := 48
		if l.IsConst() {
			lim = 300 // may well be a carried byte or code
		}
		if len(ks) > lim {
			ci.ks[name] = map[int64]bool{}
			h := ci.hyp[name]
			switch {
			case slicePart:
				r.nextCursor(ci, "positions drift")
			case h == hypConst && ci.flips[name] == 0:
				ci.flips[name]++
				ci.hyp[name] = hypRel
				panic(restart{"reconsider how " + name + " relates to the cursor"})
			case ci.cursor+1 < ci.ncand && !isCur:
				if ci.opaque == nil {
					ci.opaque = map[string]bool{}
				}
				ci.opaque[name] = true
				panic(restart{"forget " + name})
			case isCur:
				r.nextCursor(ci, "positions drift")
			default:
				if ci.opaque == nil {
					ci.opaque = map[string]bool{}
				}
				ci.opaque[name] = true
				panic(restart{"forget " + name})
			}
		}
		return m.Term(n)
	}
	nv := make([]dd.Ref, len(vals))
	var key strings.Builder
	key.WriteString(point)
	for i, v := range vals {
		name := comps[i].name
		switch x := m.Value(v).(type) {
		case Lin:
			plain := x.IsConst()
			if plain && comps[i].typ != nil {
				if bits, _, ok := intInfo64(comps[i].typ); ok && bits < 64 {
					nv[i] = v
					break
				}
				if _, named := comps[i].typ.(*types.Named); named {
					nv[i] = v
					break
				}
			}
			nv[i] = rebase(name, x, i == cur.comp, false)
		case Slice:
			if x.Obj == InputObj {
				get := func(part string, l Lin, isCur bool) Lin {
					t := m.Value(rebase(name+part, l, isCur, true))
					n, ok := t.(Lin)
					if !ok {
						panic(unsupported{"input view at an unknown position"})
					}
					return n
				}
				x.Lo = get(".lo", x.Lo, i == cur.comp)
				x.Hi = get(".hi", x.Hi, false)
				x.Max = get(".max", x.Max, false)
			}
			nv[i] = m.Term(x)
		case Ptr:
			if x.Obj == InputObj {
				t, ok := m.Value(rebase(name+".pos", x.Pos, false, true)).(Lin)
				if !ok {
					panic(unsupported{"input pointer at an unknown position"})
				}
				x.Pos = t
			}
			nv[i] = m.Term(x)
		case Opaque:
			nv[i] = m.Term(Opaque{Tag: "carried " + name})
		case Iface:
			if l, ok := m.Value(x.V).(Lin); ok && !l.IsConst() {
				x.V = m.Term(Opaque{Tag: "carried " + name})
			} else if _, ok := m.Value(x.V).(Opaque); ok {
				x.V = m.Term(Opaque{Tag: "carried " + name})
			}
			nv[i] = m.Term(x)
		case farByteT, undecidedT:
			panic(unsupported{"undecided value carried around a loop"})
		default:
			nv[i] = v
		}
		fmt.Fprintf(&key, "%s=%d;", name, nv[i])
	}
	// How much input can remain.
	rset := uint32(0)
	for v := 0; v <= RMax+1; v++ {
		if m.And(g, in.RIn(1<<uint(v))) == m.False {
			continue
		}
		rset |= ShiftR(v, int(delta))
	}
	zero := atStart && delta == 0
	cmin := int(delta)
	if !atStart {
		cmin += r.ctx.CMin
	}
	if zero {
		key.WriteString("start")
	}
	cmin = max(0, min(4, cmin))

	a := r.a
	c := a.keys[key.String()]
	if c == nil {
		c = &Ctx{ID: len(a.Ctxs), RSet: rset, CMin: cmin, dirty: true, zero: zero, Point: st.top().Fn.String()}
		// Rebuild a state holding exactly the carried values.
		t := st.fork()
		t.Guard = m.True
		i := 0
		var put func(v Val) Val
		put = func(v Val) Val {
			switch v := v.(type) {
			case dd.Ref:
				x := nv[i]
				i++
				return x
			case *Agg:
				o := &Agg{E: make([]Val, len(v.E))}
				for k, e := range v.E {
					o.E[k] = put(e)
				}
				return o
			case *MapAgg:
				o := &MapAgg{Keys: v.Keys, Vals: make([]Val, len(v.Vals))}
				for k, e := range v.Vals {
					o.Vals[k] = put(e)
				}
				return o
			}
			panic("absint: unexpected value")
		}
		r.rebuild(st, t, put)
		if i != len(nv) {
			panic("absint: state shape changed")
		}
		c.tmpl = t
		var d []string
		for k, x := range nv {
			d = append(d, fmt.Sprintf("%s=%s", comps[k].name, in.ShowTerm(x)))
		}
		c.Desc = strings.Join(d, " ")
		c.Line = in.posOfBlock(st.top().Block)
		a.keys[key.String()] = c
		a.Ctxs = append(a.Ctxs, c)
		if len(a.Ctxs) > 3000 {
			panic(unsupported{"too many distinct states carried around a loop"})
		}
	} else {
		if c.RSet|rset != c.RSet {
			c.RSet |= rset
			c.dirty = true
		}
		if cmin < c.CMin {
			c.CMin = cmin
			c.dirty = true
		}
	}
	r.out(Outcome{Guard: g, Kind: Continue, Next: c, Delta: int(delta), Fn: st.top().Fn})
}

// rebuild visits the state's scalars in the order of flatten.
func (r *run) rebuild(st, t *State, put func(Val) Val) {
	var objs []ObjID
	seen := map[ObjID]bool{}
	note := func(o ObjID) {
		if _, own := st.Mem[o]; own && !seen[o] {
			seen[o] = true
			objs = append(objs, o)
		}
	}
	var walk func(v Val)
	walk = func(v Val) {
		switch v := v.(type) {
		case dd.Ref:
			r.refs(r.in.M.Under(st.Guard, v), note)
		case *Agg:
			for _, e := range v.E {
				walk(e)
			}
		case *MapAgg:
			for _, e := range v.Vals {
				walk(e)
			}
		}
	}
	for fi, f := range st.Frames {
		type kv struct {
			n string
			v ssa.Value
		}
		var ks []kv
		for v := range f.Regs {
			ks = append(ks, kv{v.Name(), v})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].n < ks[j].n })
		for _, k := range ks {
			walk(f.Regs[k.v])
			t.Frames[fi].Regs[k.v] = put(f.Regs[k.v])
		}
	}
	t.Mem = map[ObjID]Val{}
	for i := 0; i < len(objs); i++ {
		o := objs[i]
		walk(st.Mem[o])
		t.Mem[o] = put(st.Mem[o])
	}
}

// ShiftR maps a remaining-length class to the classes possible after the
// cursor advances by d.
func ShiftR(v, d int) uint32 {
	if v <= RMax {
		w := v - d
		if w < 0 {
			return 0
		}
		if w > RMax {
			w = RMax + 1
		}
		return 1 << uint(w)
	}
	// v stands for every length above RMax.
	out := uint32(1 << (RMax + 1))
	for w := RMax + 1 - d; w <= RMax; w++ {
		if w >= 0 {
			out |= 1 << uint(w)
		}
	}
	return out
}

// ShowTerm renders a constant diagram.
func (in *Interp) ShowTerm(x dd.Ref) string {
	if !in.M.IsTerm(x) {
		return fmt.Sprintf("<%d values>", len(in.M.Terms(x)))
	}
	switch v := in.M.Value(x).(type) {
	case Lin:
		return v.String()
	case NilT:
		return "nil"
	case Slice:
		n := "input"
		if v.Obj != InputObj {
			n = fmt.Sprintf("obj%d", v.Obj)
		}
		return fmt.Sprintf("%s[%s:%s]", n, v.Lo, v.Hi)
	case FuncT:
		return v.Fn.String()
	case Opaque:
		return "?" + v.Tag
	case Iface:
		return "iface(" + in.ShowTerm(v.V) + ")"
	default:
		return fmt.Sprintf("%v", v)
	}
}

// ShowVal renders a value for diagnostics.
func (in *Interp) ShowVal(v Val) string {
	switch v := v.(type) {
	case dd.Ref:
		var s []string
		for i, t := range in.M.Terms(v) {
			if i > 4 {
				s = append(s, "...")
				break
			}
			s = append(s, in.ShowTerm(t))
		}
		return strings.Join(s, "|")
	case *Agg:
		var s []string
		for _, e := range v.E {
			s = append(s, in.ShowVal(e))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
