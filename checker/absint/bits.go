package absint

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/dd"
)

// Bits is an integer with so many possible values that a diagram with one
// leaf for each would be too large (the code point of a character, say): one
// boolean diagram for each bit of its 64-bit two's complement, least
// significant first.
type Bits struct{ B [64]dd.Ref }

// bitsFrom is the number of combinations from which on an operation works on
// bits, and bitsUpTo the number of varying bits of a result that is turned
// back into a diagram.
const (
	bitsFrom = 1 << 16
	bitsUpTo = 10
)

type bitKey struct{ i int }

// toBits spells a diagram of constants.
func (r *run) toBits(x dd.Ref) *Bits {
	in, m := r.in, r.in.M
	out := &Bits{}
	for i := range out.B {
		out.B[i] = m.Bind(bitKey{i}, x, func(v any) dd.Ref {
			return in.boolT(uint64(v.(Lin).K)>>i&1 == 1)
		})
	}
	return out
}

// fromBits is the diagram of the values.
func (r *run) fromBits(b *Bits) dd.Ref {
	in, m := r.in, r.in.M
	type orKey struct{}
	acc := in.num(0)
	for i, c := range b.B {
		if c == m.False {
			continue
		}
		bit := m.ITE(c, in.num(int64(uint64(1)<<i)), in.num(0))
		acc = m.Bind2(orKey{}, acc, bit, func(x, y any) dd.Ref { return in.num(x.(Lin).K | y.(Lin).K) })
	}
	return acc
}

// narrow turns a value with few varying bits back into a diagram.
func (r *run) narrow(b *Bits) Val {
	m := r.in.M
	seen := map[dd.Ref]bool{}
	for _, c := range b.B {
		if !m.IsTerm(c) {
			seen[c] = true
		}
	}
	if len(seen) > bitsUpTo {
		return b
	}
	return r.fromBits(b)
}

// plain turns a value of any form into what the operations on diagrams take.
func (r *run) plain(st *State, v Val) Val {
	if b, ok := v.(*Bits); ok {
		return r.fromBits(r.under(st.Guard, b))
	}
	return v
}

// under is the value where the guard holds.
func (r *run) under(g dd.Ref, b *Bits) *Bits {
	out := &Bits{}
	for i, c := range b.B {
		out.B[i] = r.in.M.Under(g, c)
	}
	return out
}

func (r *run) plainAll(st *State, vs []Val) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = r.plain(st, v)
	}
	return out
}

// opRaw is the operand of a negation or complement, if it is given by bits.
func (r *run) opRaw(st *State, v *ssa.UnOp) (*Bits, bool) {
	if v.Op != token.SUB && v.Op != token.XOR {
		return nil, false
	}
	b, ok := r.raw(st, v.X).(*Bits)
	return b, ok
}

// plainState does so for all values of a state.
func (r *run) plainState(st *State) {
	for _, f := range st.Frames {
		for v, x := range f.Regs {
			f.Regs[v] = r.plain(st, x)
		}
	}
}

// wide reports whether an operation on x and y has too many combinations.
func (r *run) tooMany(x, y Val) bool {
	n := 1
	for _, v := range []Val{x, y} {
		switch v := v.(type) {
		case *Bits:
			return true
		case dd.Ref:
			n *= len(r.in.M.Terms(v))
		}
	}
	return n > bitsFrom
}

// bitsOf is v as bits, if it is a number.
func (r *run) bitsOf(st *State, v Val) (*Bits, bool) {
	switch v := v.(type) {
	case *Bits:
		return v, true
	case dd.Ref:
		x := r.in.M.Under(st.Guard, v)
		for _, t := range r.in.M.Terms(x) {
			if t == r.in.M.Undef {
				continue
			}
			if l, ok := r.in.M.Value(t).(Lin); !ok || !l.IsConst() {
				return nil, false
			}
		}
		return r.toBits(x), true
	}
	return nil, false
}

// mergeBits merges two values of which one is given by its bits.
func (in *Interp) mergeBits(g dd.Ref, a, b Val) Val {
	spell := func(v Val) *Bits {
		switch v := v.(type) {
		case *Bits:
			return v
		case dd.Ref:
			for _, t := range in.M.Terms(v) {
				if t == in.M.Undef {
					continue
				}
				if l, ok := in.M.Value(t).(Lin); !ok || !l.IsConst() {
					panic(unsupported{"a many-valued number meets an unknown one"})
				}
			}
			return (&run{in: in}).toBits(v)
		}
		panic("absint: merging scalar with aggregate")
	}
	x, y := spell(a), spell(b)
	out := &Bits{}
	for i := range out.B {
		out.B[i] = in.M.ITE(g, x.B[i], y.B[i])
	}
	return out
}

// wrapBits reduces a value to an integer type.
func (r *run) wrapBits(b *Bits, bits uint, signed, word bool) *Bits {
	m := r.in.M
	if word && !r.in.Word32 {
		top := b.B[31]
		if !signed {
			top = m.False
		}
		for _, c := range b.B[32:] {
			if c != top {
				r.in.WordSensitive = true
			}
		}
	}
	if bits >= 64 {
		return b
	}
	out := &Bits{B: b.B}
	for i := int(bits); i < 64; i++ {
		out.B[i] = m.False
		if signed {
			out.B[i] = out.B[bits-1]
		}
	}
	return out
}

// bitsOp evaluates an operation bit by bit; ok is false if it cannot.
func (r *run) bitsOp(st *State, op token.Token, x, y Val, xt, yt types.Type) (Val, bool) {
	m := r.in.M
	bits, signed, isInt := r.in.intInfo(xt)
	if !isInt {
		return nil, false
	}
	a, ok := r.bitsOf(st, x)
	if !ok {
		return nil, false
	}
	finish := func(b *Bits) (Val, bool) {
		b = r.under(st.Guard, b)
		return r.narrow(r.wrapBits(b, bits, signed, wordSized(xt))), true
	}
	if op == token.SHL || op == token.SHR {
		cnt, ok := y.(dd.Ref)
		if !ok {
			return nil, false
		}
		cnt = m.Under(st.Guard, cnt)
		var out *Bits
		for _, t := range m.Terms(cnt) {
			if t == m.Undef {
				continue
			}
			l, ok := m.Value(t).(Lin)
			if !ok || !l.IsConst() || l.K < 0 {
				return nil, false
			}
			s := &Bits{}
			for i := range s.B {
				s.B[i] = m.False
				switch j := int64(i) - l.K; {
				case op == token.SHL && l.K < 64 && j >= 0:
					s.B[i] = a.B[j]
				case op == token.SHR && l.K < 64 && int64(i)+l.K < 64:
					s.B[i] = a.B[int64(i)+l.K]
				case op == token.SHR && signed:
					s.B[i] = a.B[63]
				}
			}
			if out == nil {
				out = s
				continue
			}
			w := m.Where(cnt, t)
			for i := range out.B {
				out.B[i] = m.ITE(w, s.B[i], out.B[i])
			}
		}
		if out == nil {
			return nil, false
		}
		return finish(out)
	}
	b, ok := r.bitsOf(st, y)
	if !ok {
		return nil, false
	}
	each := func(fn func(p, q dd.Ref) dd.Ref) (Val, bool) {
		out := &Bits{}
		for i := range out.B {
			out.B[i] = fn(a.B[i], b.B[i])
		}
		return finish(out)
	}
	xor := func(p, q dd.Ref) dd.Ref { return m.ITE(p, m.Not(q), q) }
	sum := func(b *Bits, carry dd.Ref) (Val, bool) {
		out := &Bits{}
		for i := range out.B {
			p, q := a.B[i], b.B[i]
			out.B[i] = xor(xor(p, q), carry)
			carry = m.Or(m.And(p, q), m.And(carry, m.Or(p, q)))
		}
		return finish(out)
	}
	switch op {
	case token.AND:
		return each(m.And)
	case token.OR:
		return each(m.Or)
	case token.XOR:
		return each(xor)
	case token.AND_NOT:
		return each(func(p, q dd.Ref) dd.Ref { return m.And(p, m.Not(q)) })
	case token.ADD:
		return sum(b, m.False)
	case token.SUB:
		neg := &Bits{}
		for i := range neg.B {
			neg.B[i] = m.Not(b.B[i])
		}
		return sum(neg, m.True)
	case token.EQL, token.NEQ:
		eq := m.True
		for i := range a.B {
			eq = m.And(eq, m.Not(xor(a.B[i], b.B[i])))
		}
		if op == token.NEQ {
			eq = m.Not(eq)
		}
		return eq, true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		p, q := a, b
		if op == token.LEQ || op == token.GTR {
			p, q = b, a
		}
		lt := m.False
		for i := range p.B {
			u, v := p.B[i], q.B[i]
			if i == 63 && signed {
				u, v = v, u
			}
			lt = m.ITE(xor(u, v), v, lt)
		}
		if op == token.LEQ || op == token.GEQ {
			lt = m.Not(lt)
		}
		return lt, true
	}
	return nil, false
}
