package absint

import (
	"golang.org/x/tools/go/ssa"

	"verif/checker/dd"
)

// rangeMap begins a loop over a map with known content. It is only followed
// where the order of iteration cannot matter: nothing is carried from one
// iteration to the next, the loop is left only at its end, and every location
// is set at most once (see once).
func (r *run) rangeMap(st *State, v *ssa.Range) Val {
	in, m := r.in, r.in.M
	if !r.initMode {
		panic(unsupported{"loop over a map"})
	}
	mv, one := r.single(st, r.scalar(st, v.X))
	if !one {
		panic(unsupported{"loop over an unknown map"})
	}
	n := 0
	switch x := mv.(type) {
	case NilT:
	case MapT:
		c, _ := r.memGet(st, x.Obj)
		ma, ok := c.(*MapAgg)
		if !ok {
			panic(unsupported{"loop over an unknown map"})
		}
		n = len(ma.Keys)
	default:
		panic(unsupported{"loop over an unknown map"})
	}
	var next *ssa.Next
	for _, u := range *v.Referrers() {
		nx, ok := u.(*ssa.Next)
		if !ok || next != nil {
			panic(unsupported{"loop over a map in an unusual form"})
		}
		next = nx
	}
	if next == nil {
		panic(unsupported{"loop over a map in an unusual form"})
	}
	head := next.Block()
	loop := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		if !head.Dominates(b) {
			panic(unsupported{"loop over a map in an unusual form"})
		}
		loop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	stored := map[ssa.Value]bool{}
	var loads []*ssa.UnOp
	if in.once == nil {
		in.once = map[ssa.Instruction]bool{}
	}
	for b := range loop {
		for _, s := range b.Succs {
			if b != head && !loop[s] {
				panic(unsupported{"loop over a map that is left early"})
			}
		}
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Next, *ssa.Extract, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType,
				*ssa.MakeInterface, *ssa.ChangeInterface, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Index, *ssa.Field:
			case *ssa.Phi:
				if b == head {
					panic(unsupported{"loop over a map that carries values along"})
				}
			case *ssa.UnOp:
				loads = append(loads, ins)
			case *ssa.Store:
				stored[ins.Addr] = true
				in.once[ins] = true
			case *ssa.MapUpdate:
				in.once[ins] = true
			default:
				panic(unsupported{"loop over a map with a body that may depend on the order"})
			}
		}
	}
	for _, l := range loads {
		if l.Op.String() != "*" {
			continue
		}
		switch l.X.(type) {
		case *ssa.Global, *ssa.Alloc, *ssa.FreeVar:
			if !stored[l.X] {
				continue
			}
		}
		panic(unsupported{"loop over a map with a body that may depend on the order"})
	}
	in.Ranged[v] = true
	it := &Agg{E: []Val{m.Term(mv), in.num(0), in.num(int64(n))}}
	return m.Term(Ptr{Obj: r.alloc(st, v, "", it)})
}

func (r *run) nextEntry(st *State, v *ssa.Next) Val {
	in, m := r.in, r.in.M
	p, one := r.single(st, r.scalar(st, v.Iter))
	ptr, ok := p.(Ptr)
	if !one || !ok || v.IsString {
		panic(unsupported{"iteration over something unknown"})
	}
	it, ok := st.Mem[ptr.Obj].(*Agg)
	if !ok {
		panic(unsupported{"iteration over something unknown"})
	}
	mv := m.Value(it.E[0].(dd.Ref))
	pos := int(m.Value(it.E[1].(dd.Ref)).(Lin).K)
	n := int(m.Value(it.E[2].(dd.Ref)).(Lin).K)
	var ma *MapAgg
	if x, ok := mv.(MapT); ok {
		c, _ := r.memGet(st, x.Obj)
		ma, _ = c.(*MapAgg)
		if ma == nil || len(ma.Keys) != n {
			panic(unsupported{"a map that changes while it is iterated over"})
		}
	}
	if ma == nil || pos >= n {
		// Key and element are not used.
		return &Agg{E: []Val{m.False, m.Term(Opaque{Tag: "no key"}), m.Term(Opaque{Tag: "no element"})}}
	}
	st.Mem[ptr.Obj] = &Agg{E: []Val{it.E[0], in.num(int64(pos + 1)), it.E[2]}}
	return &Agg{E: []Val{m.True, r.keyVal(ma.Keys[pos]), ma.Vals[pos]}}
}

// checkOnce makes sure that a store in a loop over a map sets a location that
// was not set before.
func (r *run) checkOnce(st *State, ins *ssa.Store) {
	zero, ok1 := r.in.Zero(ins.Val.Type()).(dd.Ref)
	old, ok2 := r.load(st, r.scalar(st, ins.Addr), ins.Val.Type(), ins.Pos()).(dd.Ref)
	v, ok3 := r.get(st, ins.Val).(dd.Ref)
	if !ok1 || !ok2 || !ok3 || v == zero || old != zero && old != v {
		panic(unsupported{"what a loop over a map stores may depend on the order"})
	}
}
