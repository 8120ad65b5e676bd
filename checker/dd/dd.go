// Package dd implements hash-consed multi-terminal decision diagrams. They are
// the value lattice of the dataflow analysis in package absint: a diagram maps
// every assignment of a fixed set of boolean input variables to an abstract
// scalar (a terminal). Diagrams whose terminals are only True and False are
// used as path conditions.
package dd

import (
	"fmt"
	"sort"
)

// Ref identifies a diagram. Equal diagrams have equal Refs.
type Ref int32

const termLevel = int32(1) << 30

type node struct {
	level  int32
	lo, hi Ref
}

// Mgr owns the nodes of a set of diagrams.
type Mgr struct {
	nodes   []node
	unique  *index
	terms   []any
	termIdx map[any]int32
	iteC    *cache
	opC     *cache
	opIDs   map[any]int32
	supC    map[Ref]map[int32]bool
	termC   map[Ref][]Ref

	True, False, Undef Ref
	// Limit bounds the number of nodes; exceeding it panics with ErrLimit.
	Limit int
}

// ErrLimit is the panic value used when the node budget is exhausted.
type ErrLimit struct{}

type undefT struct{}

// New returns an empty manager.
func New() *Mgr {
	m := &Mgr{
		unique:  newIndex(),
		termIdx: map[any]int32{},
		iteC:    newCache(),
		opC:     newCache(),
		opIDs:   map[any]int32{},
		supC:    map[Ref]map[int32]bool{},
		termC:   map[Ref][]Ref{},
		Limit:   80_000_000,
	}
	m.False = m.Term(false)
	m.True = m.Term(true)
	m.Undef = m.Term(undefT{})
	return m
}

// Size returns the number of nodes ever created.
func (m *Mgr) Size() int { return len(m.nodes) }

// Term returns the constant diagram for the given comparable value.
func (m *Mgr) Term(v any) Ref {
	i, ok := m.termIdx[v]
	if !ok {
		i = int32(len(m.terms))
		m.terms = append(m.terms, v)
		m.termIdx[v] = i
	}
	return m.mk(node{termLevel, Ref(i), 0})
}

func (m *Mgr) mk(n node) Ref {
	slot, at, ok := m.unique.find(m.nodes, n)
	if ok {
		return at
	}
	if len(m.nodes) >= m.Limit {
		panic(ErrLimit{})
	}
	if m.unique.grow(m.nodes) {
		slot, _, _ = m.unique.find(m.nodes, n)
	}
	r := Ref(len(m.nodes))
	m.nodes = append(m.nodes, n)
	m.unique.e[slot] = int32(r) + 1
	return r
}

// Node returns if level then hi else lo; level must be above both.
func (m *Mgr) node(level int32, lo, hi Ref) Ref {
	if lo == hi {
		return lo
	}
	return m.mk(node{level, lo, hi})
}

// Var returns the boolean diagram that is true iff the variable is set.
func (m *Mgr) Var(level int32) Ref { return m.node(level, m.False, m.True) }

// IsTerm reports whether f is constant.
func (m *Mgr) IsTerm(f Ref) bool { return m.nodes[f].level == termLevel }

// Value returns the value of a constant diagram.
func (m *Mgr) Value(f Ref) any { return m.terms[m.nodes[f].lo] }

// IsUndef reports whether f is the undefined terminal.
func (m *Mgr) IsUndef(f Ref) bool { return f == m.Undef }

func (m *Mgr) cof(f Ref, level int32) (lo, hi Ref) {
	n := m.nodes[f]
	if n.level == level {
		return n.lo, n.hi
	}
	return f, f
}

// ITE returns the diagram that equals f where c is true and g where it is
// false. Where c is undefined, the result is undefined.
func (m *Mgr) ITE(c, f, g Ref) Ref {
	switch c {
	case m.True:
		return f
	case m.False:
		return g
	case m.Undef:
		return m.Undef
	}
	if f == g && m.onlyBool(c) {
		return f
	}
	if r, ok := m.iteC.get(int32(c), int32(f), int32(g)); ok {
		return Ref(r)
	}
	if m.IsTerm(c) {
		panic(fmt.Sprintf("dd: ITE on non-boolean terminal %v", m.Value(c)))
	}
	l := m.nodes[c].level
	if k := m.nodes[f].level; k < l {
		l = k
	}
	if k := m.nodes[g].level; k < l {
		l = k
	}
	c0, c1 := m.cof(c, l)
	f0, f1 := m.cof(f, l)
	g0, g1 := m.cof(g, l)
	r := m.node(l, m.ITE(c0, f0, g0), m.ITE(c1, f1, g1))
	m.iteC.put(int32(c), int32(f), int32(g), int32(r))
	return r
}

func (m *Mgr) onlyBool(c Ref) bool {
	for _, t := range m.Terms(c) {
		if t != m.True && t != m.False {
			return false
		}
	}
	return true
}

// And, Or, Not are the boolean connectives.
func (m *Mgr) And(f, g Ref) Ref { return m.ITE(f, g, m.False) }
func (m *Mgr) Or(f, g Ref) Ref  { return m.ITE(f, m.True, g) }
func (m *Mgr) Not(f Ref) Ref    { return m.ITE(f, m.False, m.True) }

// Under returns f where guard holds and Undef elsewhere.
func (m *Mgr) Under(guard, f Ref) Ref { return m.ITE(guard, f, m.Undef) }

// Bind replaces each terminal t of f by the diagram fn(t). Undef stays.
// If key is non-nil the result is cached under it.
func (m *Mgr) Bind(key any, f Ref, fn func(any) Ref) Ref {
	if key != nil {
		id := m.opID(key)
		return m.bind(f, func(r Ref) (Ref, bool) { v, ok := m.opC.get(id, int32(r), -1); return Ref(v), ok },
			func(r, v Ref) { m.opC.put(id, int32(r), -1, int32(v)) }, fn)
	}
	memo := map[Ref]Ref{}
	return m.bind(f, func(r Ref) (Ref, bool) { v, ok := memo[r]; return v, ok }, func(r, v Ref) { memo[r] = v }, fn)
}

func (m *Mgr) bind(f Ref, get func(Ref) (Ref, bool), put func(Ref, Ref), fn func(any) Ref) Ref {
	if f == m.Undef {
		return f
	}
	if r, ok := get(f); ok {
		return r
	}
	var r Ref
	n := m.nodes[f]
	if n.level == termLevel {
		r = fn(m.terms[n.lo])
	} else {
		lo := m.bind(n.lo, get, put, fn)
		hi := m.bind(n.hi, get, put, fn)
		r = m.ITE(m.Var(n.level), hi, lo)
	}
	put(f, r)
	return r
}

func (m *Mgr) opID(key any) int32 {
	id, ok := m.opIDs[key]
	if !ok {
		id = int32(len(m.opIDs))
		m.opIDs[key] = id
	}
	return id
}

// Bind2 is Bind over pairs of terminals.
func (m *Mgr) Bind2(key any, f, g Ref, fn func(a, b any) Ref) Ref {
	var get func(f, g Ref) (int32, bool)
	var put func(f, g, r Ref)
	if key != nil {
		id := m.opID(key)
		get = func(f, g Ref) (int32, bool) { return m.opC.get(id, int32(f), int32(g)) }
		put = func(f, g, r Ref) { m.opC.put(id, int32(f), int32(g), int32(r)) }
	} else {
		c := newTable()
		get = func(f, g Ref) (int32, bool) { return c.get(0, int32(f), int32(g)) }
		put = func(f, g, r Ref) { c.put(0, int32(f), int32(g), int32(r)) }
	}
	var rec func(f, g Ref) Ref
	rec = func(f, g Ref) Ref {
		if f == m.Undef || g == m.Undef {
			return m.Undef
		}
		if r, ok := get(f, g); ok {
			return Ref(r)
		}
		nf, ng := m.nodes[f], m.nodes[g]
		var r Ref
		if nf.level == termLevel && ng.level == termLevel {
			r = fn(m.terms[nf.lo], m.terms[ng.lo])
		} else {
			l := nf.level
			if ng.level < l {
				l = ng.level
			}
			f0, f1 := m.cof(f, l)
			g0, g1 := m.cof(g, l)
			lo := rec(f0, g0)
			hi := rec(f1, g1)
			r = m.ITE(m.Var(l), hi, lo)
		}
		put(f, g, r)
		return r
	}
	return rec(f, g)
}

// Terms returns the distinct terminals (as constant diagrams) of f.
func (m *Mgr) Terms(f Ref) []Ref {
	if r, ok := m.termC[f]; ok {
		return r
	}
	seen := map[Ref]bool{}
	set := map[Ref]bool{}
	var rec func(Ref)
	rec = func(x Ref) {
		if seen[x] {
			return
		}
		seen[x] = true
		n := m.nodes[x]
		if n.level == termLevel {
			set[x] = true
			return
		}
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
	out := make([]Ref, 0, len(set))
	for r := range set {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	m.termC[f] = out
	return out
}

// Where returns the condition under which f equals the constant diagram t.
func (m *Mgr) Where(f, t Ref) Ref {
	return m.bindAll(f, func(x Ref) Ref {
		if x == t {
			return m.True
		}
		return m.False
	})
}

// WhereFn returns the condition under which pred holds of f's value; Undef
// counts as not holding.
func (m *Mgr) WhereFn(f Ref, pred func(any) bool) Ref {
	return m.bindAll(f, func(x Ref) Ref {
		if x != m.Undef && pred(m.Value(x)) {
			return m.True
		}
		return m.False
	})
}

// bindAll maps terminals including Undef to booleans, preserving order.
func (m *Mgr) bindAll(f Ref, fn func(Ref) Ref) Ref {
	memo := map[Ref]Ref{}
	var rec func(Ref) Ref
	rec = func(x Ref) Ref {
		if r, ok := memo[x]; ok {
			return r
		}
		n := m.nodes[x]
		var r Ref
		if n.level == termLevel {
			r = fn(x)
		} else {
			r = m.node(n.level, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(f)
}

// Defined returns the condition under which f is not Undef.
func (m *Mgr) Defined(f Ref) Ref {
	return m.bindAll(f, func(x Ref) Ref {
		if x == m.Undef {
			return m.False
		}
		return m.True
	})
}

// Support returns the set of variables f depends on.
func (m *Mgr) Support(f Ref) map[int32]bool {
	if s, ok := m.supC[f]; ok {
		return s
	}
	s := map[int32]bool{}
	seen := map[Ref]bool{}
	var rec func(Ref)
	rec = func(x Ref) {
		if seen[x] {
			return
		}
		seen[x] = true
		n := m.nodes[x]
		if n.level == termLevel {
			return
		}
		s[n.level] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
	m.supC[f] = s
	return s
}

// Sat returns one assignment under which the boolean diagram f is true.
func (m *Mgr) Sat(f Ref) (map[int32]bool, bool) {
	out := map[int32]bool{}
	for {
		n := m.nodes[f]
		if n.level == termLevel {
			return out, f == m.True
		}
		if n.hi == m.False || (n.lo != m.False && n.lo != m.Undef) {
			out[n.level] = false
			f = n.lo
		} else {
			out[n.level] = true
			f = n.hi
		}
	}
}

// Eval follows f under the given assignment (missing variables are false).
func (m *Mgr) Eval(f Ref, a map[int32]bool) Ref {
	for {
		n := m.nodes[f]
		if n.level == termLevel {
			return f
		}
		if a[n.level] {
			f = n.hi
		} else {
			f = n.lo
		}
	}
}

// Rename returns f with every variable v replaced by ren(v); the renaming must
// preserve the relative order of f's variables with each other.
func (m *Mgr) Rename(key any, f Ref, ren func(int32) int32) Ref {
	id := m.opID(key)
	var rec func(Ref) Ref
	rec = func(x Ref) Ref {
		n := m.nodes[x]
		if n.level == termLevel {
			return x
		}
		if r, ok := m.opC.get(id, int32(x), -2); ok {
			return Ref(r)
		}
		r := m.ITE(m.Var(ren(n.level)), rec(n.hi), rec(n.lo))
		m.opC.put(id, int32(x), -2, int32(r))
		return r
	}
	return rec(f)
}

// Cofactor fixes a variable.
func (m *Mgr) Cofactor(f Ref, level int32, val bool) Ref {
	memo := map[Ref]Ref{}
	var rec func(Ref) Ref
	rec = func(x Ref) Ref {
		n := m.nodes[x]
		if n.level > level {
			return x
		}
		if n.level == level {
			if val {
				return n.hi
			}
			return n.lo
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := m.node(n.level, rec(n.lo), rec(n.hi))
		memo[x] = r
		return r
	}
	return rec(f)
}

// BitsVar returns the diagram whose value is term(v) where v is the unsigned
// number spelled by the nbits variables starting at level (most significant
// first).
func (m *Mgr) BitsVar(level int32, nbits int, term func(v int) Ref) Ref {
	var rec func(i, acc int) Ref
	rec = func(i, acc int) Ref {
		if i == nbits {
			return term(acc)
		}
		return m.node(level+int32(i), rec(i+1, acc<<1), rec(i+1, acc<<1|1))
	}
	return rec(0, 0)
}

// Exists quantifies away the variables in [from, to) of the boolean diagram f.
func (m *Mgr) Exists(f Ref, from, to int32) Ref {
	type exKey struct{ from, to int32 }
	id := m.opID(exKey{from, to})
	var rec func(Ref) Ref
	rec = func(x Ref) Ref {
		n := m.nodes[x]
		if n.level >= to {
			return x
		}
		if r, ok := m.opC.get(id, int32(x), -3); ok {
			return Ref(r)
		}
		lo, hi := rec(n.lo), rec(n.hi)
		var r Ref
		if n.level >= from {
			r = m.Or(lo, hi)
		} else {
			r = m.node(n.level, lo, hi)
		}
		m.opC.put(id, int32(x), -3, int32(r))
		return r
	}
	return rec(f)
}

// Follow descends from f along the given values of the variables
// level, level+1, ...
func (m *Mgr) Follow(f Ref, level int32, nbits, value int) Ref {
	for i := 0; i < nbits; i++ {
		n := m.nodes[f]
		if n.level == level+int32(i) {
			if value>>(nbits-1-i)&1 == 1 {
				f = n.hi
			} else {
				f = n.lo
			}
		}
	}
	return f
}

// Level returns the top variable of f, or a level above all variables.
func (m *Mgr) Level(f Ref) int32 { return m.nodes[f].level }
