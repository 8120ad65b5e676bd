// Package absint is a flow- and context-sensitive dataflow analysis over the
// SSA form of Go code. Abstract values are decision diagrams (package dd) that
// map the finitely many relevant facts about the unknown input (bytes near a
// moving cursor, remaining length up to a window) to abstract scalars. States
// are joined at control-flow merges; loops over the unbounded input are cut at
// their heads, where positions are re-expressed relative to the cursor and the
// remaining finite part is enumerated to a fixpoint.
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/dd"
)

// Val is an abstract value: a dd.Ref for scalars, or *Agg.
type Val interface{}

// MapAgg is the content of a map with constant keys.
type MapAgg struct {
	Keys []any
	Vals []Val
}

// unsupported is the panic value for constructs outside the analysed subset.
type unsupported struct{ why string }

// Agg is the value of a struct, array or tuple.
type Agg struct{ E []Val }

// Lin is the integer K + C*cursor + R*remaining + E*extra, where remaining is
// the number of input bytes from the cursor on, and extra is the unknown
// surplus of the input's capacity over its length.
type Lin struct {
	K       int64
	C, R, E int8
}

// Num is the constant Lin.
func Num(k int64) Lin { return Lin{K: k} }

// IsConst reports whether l is a plain number.
func (l Lin) IsConst() bool { return l.C == 0 && l.R == 0 && l.E == 0 }

func (l Lin) add(m Lin) Lin { return Lin{l.K + m.K, l.C + m.C, l.R + m.R, l.E + m.E} }
func (l Lin) sub(m Lin) Lin { return Lin{l.K - m.K, l.C - m.C, l.R - m.R, l.E - m.E} }

func (l Lin) String() string {
	var p []string
	t := func(c int8, n string) {
		switch {
		case c == 1:
			p = append(p, n)
		case c != 0:
			p = append(p, fmt.Sprintf("%d*%s", c, n))
		}
	}
	t(l.C, "cur")
	t(l.R, "rem")
	t(l.E, "extra")
	if l.K != 0 || len(p) == 0 {
		p = append(p, fmt.Sprint(l.K))
	}
	return strings.Join(p, "+")
}

// ObjID names an abstract memory object. 0 is none.
type ObjID int32

// InputObj is the caller-supplied byte buffer.
const InputObj ObjID = 1

// Scalar terminals besides bool, Lin, string:
type (
	// NilT is nil of any type.
	NilT struct{}
	// Ptr points at an element: of InputObj at Pos, else at Path in Obj.
	Ptr struct {
		Obj  ObjID
		Path PathID
		Pos  Lin
	}
	// Slice is a slice (or, with Str, a string) viewing InputObj or the array
	// at Path in Obj. Fresh marks a copy with the same content.
	Slice struct {
		Obj         ObjID
		Path        PathID
		Lo, Hi, Max Lin
		Str, Fresh  bool
	}
	// FuncT is a function value with its captured variables.
	FuncT struct {
		Fn  *ssa.Function
		Env ObjID
	}
	// MapT is a map.
	MapT struct{ Obj ObjID }
	// Iface is a non-nil interface value; V is the constant diagram held.
	Iface struct {
		Type int
		V    dd.Ref
	}
	// Opaque is a value about which only its identity is known.
	Opaque struct {
		Tag    string
		NonNil bool
	}
	// OtherStr is some string different from every constant string.
	OtherStr   struct{}
	undecidedT struct{}
	farByteT   struct{}
)

// PathID is an interned path of field and element indices.
type PathID int32

type pathTab struct {
	paths [][]int
	idx   map[string]PathID
}

func newPathTab() *pathTab {
	t := &pathTab{idx: map[string]PathID{}}
	t.intern(nil)
	return t
}

func (t *pathTab) intern(p []int) PathID {
	k := fmt.Sprint(p)
	if id, ok := t.idx[k]; ok {
		return id
	}
	id := PathID(len(t.paths))
	t.paths = append(t.paths, append([]int(nil), p...))
	t.idx[k] = id
	return id
}

type extKey struct {
	p PathID
	i int
}

func (in *Interp) extend(p PathID, i int) PathID {
	k := extKey{p, i}
	if id, ok := in.ext[k]; ok {
		return id
	}
	q := append(append([]int(nil), in.paths.paths[p]...), i)
	id := in.paths.intern(q)
	in.ext[k] = id
	return id
}

// typeID returns a canonical number for a type.
func (in *Interp) typeID(t types.Type) int {
	if v := in.typeMap.At(t); v != nil {
		return v.(int)
	}
	in.types = append(in.types, t)
	id := len(in.types) - 1
	in.typeMap.Set(t, id)
	return id
}

// TypeOf returns the type with the given canonical number.
func (in *Interp) TypeOf(id int) types.Type { return in.types[id] }

func (in *Interp) num(k int64) dd.Ref { return in.M.Term(Num(k)) }
func (in *Interp) boolT(b bool) dd.Ref {
	if b {
		return in.M.True
	}
	return in.M.False
}

// wordSized reports whether a type's width is the platform's word size.
func wordSized(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

// wide reports whether positions in the input fit a type.
func wide(t types.Type) bool {
	bits, _, ok := intInfo64(t)
	return ok && bits == 64
}

// intInfo describes an integer type's width and signedness.
func (in *Interp) intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	bits, signed, ok = intInfo64(t)
	if ok && in.Word32 && wordSized(t) {
		bits = 32
	}
	return
}

// word notes a value of a word-sized type that another word size would change.
func (in *Interp) word(k int64, signed bool) {
	if !in.Word32 && k != wrap(k, 32, signed) {
		in.WordSensitive = true
	}
}

func intInfo64(t types.Type) (bits uint, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func wrap(k int64, bits uint, signed bool) int64 {
	if bits >= 64 {
		return k
	}
	sh := 64 - bits
	if signed {
		return k << sh >> sh
	}
	return int64(uint64(k) << sh >> sh)
}

// Zero returns the zero value of a type.
func (in *Interp) Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.M.False
		case u.Info()&types.IsInteger != 0:
			return in.num(0)
		case u.Info()&types.IsString != 0:
			return in.M.Term("")
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return in.M.Term(NilT{})
		}
		return in.M.Term(Opaque{Tag: "zero " + t.String()})
	case *types.Struct:
		a := &Agg{E: make([]Val, u.NumFields())}
		for i := range a.E {
			a.E[i] = in.Zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &Agg{E: make([]Val, u.Len())}
		z := in.Zero(u.Elem())
		for i := range a.E {
			if _, agg := z.(*Agg); agg {
				z = in.Zero(u.Elem()) // not shared: initialisers write in place
			}
			a.E[i] = z
		}
		return a
	case *types.Tuple:
		a := &Agg{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = in.Zero(u.At(i).Type())
		}
		return a
	}
	return in.M.Term(NilT{})
}

func (in *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return in.Zero(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return in.boolT(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if wordSized(c.Type()) {
				if i, ok := constant.Int64Val(v); ok {
					in.word(i, b.Kind() == types.Int)
				} else {
					in.WordSensitive = true
				}
			}
			if i, ok := constant.Int64Val(v); ok {
				return in.num(i)
			}
			if u, ok := constant.Uint64Val(v); ok {
				return in.num(int64(u))
			}
		case b.Info()&types.IsString != 0:
			return in.M.Term(constant.StringVal(c.Value))
		}
	}
	return in.M.Term(Opaque{Tag: "const " + c.String()})
}

// Unknown returns a value about which nothing is known.
func (in *Interp) Unknown(t types.Type, why string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return in.freshBool()
		}
		if bits, signed, ok := in.intInfo(t); ok && bits == 8 {
			l := in.fresh
			in.fresh += 8
			return in.M.BitsVar(l, 8, func(v int) dd.Ref { return in.num(wrap(int64(v), 8, signed)) })
		}
	case *types.Struct:
		a := &Agg{E: make([]Val, u.NumFields())}
		for i := range a.E {
			a.E[i] = in.Unknown(u.Field(i).Type(), why)
		}
		return a
	case *types.Array:
		if u.Len() <= 64 {
			a := &Agg{E: make([]Val, u.Len())}
			for i := range a.E {
				a.E[i] = in.Unknown(u.Elem(), why)
			}
			return a
		}
	case *types.Tuple:
		a := &Agg{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = in.Unknown(u.At(i).Type(), why)
		}
		return a
	}
	in.opaqueN++
	return in.M.Term(Opaque{Tag: fmt.Sprintf("%s#%d", why, in.opaqueN)})
}

// FreshBool returns an unconstrained boolean.
func (in *Interp) FreshBool() dd.Ref { return in.freshBool() }

func (in *Interp) freshBool() dd.Ref {
	l := in.fresh
	in.fresh++
	return in.M.Var(l)
}

// merge returns the value that is a where g holds and b elsewhere.
func (in *Interp) merge(g dd.Ref, a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a == b {
		return a
	}
	ra, okA := a.(dd.Ref)
	rb, okB := b.(dd.Ref)
	if okA && okB {
		return in.M.ITE(g, ra, rb)
	}
	if okA != okB {
		if okA && ra == in.M.Undef {
			return b
		}
		if okB && rb == in.M.Undef {
			return a
		}
		_, bitsA := a.(*Bits)
		_, bitsB := b.(*Bits)
		if bitsA || bitsB {
			return in.mergeBits(g, a, b)
		}
		panic("absint: merging scalar with aggregate")
	}
	if _, bits := a.(*Bits); bits {
		return in.mergeBits(g, a, b)
	}
	aa, agA := a.(*Agg)
	ab, agB := b.(*Agg)
	if !agA || !agB {
		panic(unsupported{"different versions of a map meet"})
	}
	if aa == ab {
		return aa
	}
	out := &Agg{E: make([]Val, len(aa.E))}
	for i := range out.E {
		if aa.E[i] == ab.E[i] {
			out.E[i] = aa.E[i]
		} else {
			out.E[i] = in.merge(g, aa.E[i], ab.E[i])
		}
	}
	return out
}

// leaves calls fn for each scalar in v, rebuilding v from the results.
func (in *Interp) mapLeaves(v Val, name string, fn func(name string, r dd.Ref) dd.Ref) Val {
	switch v := v.(type) {
	case dd.Ref:
		return fn(name, v)
	case *Agg:
		out := &Agg{E: make([]Val, len(v.E))}
		for i, e := range v.E {
			out.E[i] = in.mapLeaves(e, fmt.Sprintf("%s.%d", name, i), fn)
		}
		return out
	}
	return v
}

func readPath(v Val, p []int) Val {
	for _, i := range p {
		a, ok := v.(*Agg)
		if !ok || i < 0 || i >= len(a.E) {
			return nil
		}
		v = a.E[i]
	}
	return v
}

func writePath(v Val, p []int, nv Val, inPlace bool) Val {
	if len(p) == 0 {
		return nv
	}
	a := v.(*Agg)
	if !inPlace {
		a = &Agg{E: append([]Val(nil), a.E...)}
	}
	a.E[p[0]] = writePath(a.E[p[0]], p[1:], nv, inPlace)
	return a
}
