package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/dd"
)

const maxDepth = 24

// step executes st until control leaves the current block, the state ends, or
// a call or return changes the active frame.
func (r *run) step(st *State) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				pos := token.NoPos
				if f := st.top(); f.IP < len(f.Block.Instrs) {
					pos = f.Block.Instrs[f.IP].Pos()
				}
				r.undecided(st, pos, "%s", u.why)
				return
			}
			panic(e)
		}
	}()
	in := r.in
	if f := st.top(); f.IP == 0 || isFirstNonPhi(f) {
		r.noteVisit(st)
	}
	for st.Guard != in.M.False {
		f := st.top()
		in.Analysed[f.Fn] = true
		in.Steps++
		r.steps++
		if r.initMode && r.steps > 20_000_000 || !r.initMode && r.steps > 3_000_000 {
			panic(unsupported{"analysis step budget exhausted"})
		}
		ins := f.Block.Instrs[f.IP]
		switch ins := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			r.branch(st, ins)
			return
		case *ssa.Jump:
			r.goTo(st, 0)
			return
		case *ssa.Return:
			r.ret(st, ins)
			return
		case *ssa.Panic:
			r.out(Outcome{Guard: st.Guard, Kind: Panic, Reason: "explicit panic", Pos: ins.Pos(), Fn: f.Fn})
			return
		case *ssa.Store:
			if in.once[ins] {
				r.checkOnce(st, ins)
			}
			r.store(st, r.scalar(st, ins.Addr), r.get(st, ins.Val), ins.Pos())
		case *ssa.MapUpdate:
			r.mapUpdate(st, ins)
		case *ssa.RunDefers:
		case *ssa.Call:
			if r.call(st, ins) {
				return
			}
		case ssa.Value:
			if v := r.eval(st, ins); v != nil {
				f.Regs[ins] = v
			}
		default:
			panic(unsupported{fmt.Sprintf("%T statement", ins)})
		}
		f.IP++
	}
}

func isFirstNonPhi(f *Frame) bool {
	for i := 0; i < f.IP; i++ {
		if _, ok := f.Block.Instrs[i].(*ssa.Phi); !ok {
			return false
		}
	}
	return true
}

func (r *run) branch(st *State, ins *ssa.If) {
	m := r.in.M
	cond := r.scalar(st, ins.Cond)
	cond = r.resolve(st, r.asBool(cond))
	t := m.And(st.Guard, cond)
	f := m.And(st.Guard, m.Not(t))
	if t != m.False && f != m.False {
		if r.initMode {
			panic(unsupported{"initialiser branches on an unknown value"})
		}
		o := st.fork()
		o.Guard = f
		st.Guard = t
		r.goTo(st, 0)
		r.goTo(o, 1)
		return
	}
	if t != m.False {
		r.goTo(st, 0)
	} else if f != m.False {
		r.goTo(st, 1)
	}
}

// asBool replaces unknown terminals by unknown booleans.
func (r *run) asBool(c dd.Ref) dd.Ref {
	m := r.in.M
	plain := true
	for _, t := range m.Terms(c) {
		if t != m.True && t != m.False && t != m.Undef {
			if _, ok := m.Value(t).(undecidedT); !ok {
				plain = false
			}
		}
	}
	if plain {
		return c
	}
	return m.Bind(nil, c, func(v any) dd.Ref {
		switch v.(type) {
		case bool, undecidedT:
			return m.Term(v)
		}
		return r.in.freshBool()
	})
}

func (r *run) ret(st *State, ins *ssa.Return) {
	vals := make([]Val, len(ins.Results))
	for i, x := range ins.Results {
		vals[i] = r.raw(st, x)
	}
	if len(st.Frames) == 1 {
		for i := range vals {
			vals[i] = r.plain(st, vals[i])
		}
		r.out(Outcome{Guard: st.Guard, Kind: Return, Vals: vals, Pos: ins.Pos(), Fn: st.top().Fn})
		return
	}
	st.Frames = st.Frames[:len(st.Frames)-1]
	f := st.top()
	r.setResult(st, f, vals)
	f.IP++
	r.enqueue(st)
}

func (r *run) setResult(st *State, f *Frame, vals []Val) {
	call, ok := f.Call.(*ssa.Call)
	f.Call = nil
	if !ok {
		return
	}
	if len(vals) == 1 {
		f.Regs[call] = vals[0]
	} else if len(vals) > 1 {
		f.Regs[call] = &Agg{E: vals}
	}
}

// ---- memory ----

func (r *run) memGet(st *State, o ObjID) (Val, bool) {
	if v, ok := st.Mem[o]; ok {
		return v, false
	}
	v, ok := r.in.base[o]
	if !ok {
		panic(unsupported{"access to memory that is not modelled"})
	}
	return v, true
}

func (r *run) isMutable(o ObjID) (*ssa.Global, bool) {
	g := r.in.gbyID[o]
	if g == nil || r.initMode {
		return nil, false
	}
	if t, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && t.NumFields() == 0 {
		return nil, false // it has only one value
	}
	if p := r.in.initBad[g.Pkg]; p != "" {
		panic(unsupported{fmt.Sprintf("initial value of %s is not known: %s", g, p)})
	}
	return g, r.in.Mutable(g)
}

func (r *run) load(st *State, ptr dd.Ref, t types.Type, pos token.Pos) Val {
	in, m := r.in, r.in.M
	r.requireNonNil(st, ptr, pos)
	ptr = m.Under(st.Guard, ptr)
	terms := m.Terms(ptr)
	one := func(p Ptr) (Val, bool) {
		if p.Obj == InputObj {
			if a, ok := t.Underlying().(*types.Array); ok {
				if a.Len() > 64 {
					panic(unsupported{"copy of a large array"})
				}
				out := &Agg{E: make([]Val, a.Len())}
				for i := range out.E {
					out.E[i] = r.resolveFar(st, r.inputByte(p.Pos.add(Num(int64(i)))))
				}
				return out, false
			}
			return r.inputByte(p.Pos), false
		}
		if _, mut := r.isMutable(p.Obj); mut {
			return in.Unknown(t, "mutable global"), false
		}
		v, base := r.memGet(st, p.Obj)
		v = readPath(v, in.paths.paths[p.Path])
		if v == nil {
			panic(unsupported{"load through a pointer of unknown shape"})
		}
		if r.initMode {
			v = deepCopy(v)
		}
		return v, base
	}
	var ptrs []dd.Ref
	for _, x := range terms {
		if x == m.Undef {
			continue
		}
		if _, ok := m.Value(x).(Ptr); !ok {
			if _, ok := m.Value(x).(NilT); ok {
				continue
			}
			panic(unsupported{fmt.Sprintf("load through %T", m.Value(x))})
		}
		ptrs = append(ptrs, x)
	}
	if len(ptrs) == 0 {
		st.Guard = m.False
		return in.Unknown(t, "unreachable")
	}
	if len(ptrs) == 1 {
		v, _ := one(m.Value(ptrs[0]).(Ptr))
		if ref, ok := v.(dd.Ref); ok {
			v = r.resolveFar(st, ref)
		}
		return v
	}
	scalarT := true
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		scalarT = false
	}
	if !scalarT {
		if len(ptrs) > 4096 {
			panic(unsupported{"load of a composite value through too many candidate pointers"})
		}
		var out Val
		for _, p := range ptrs {
			v, _ := one(m.Value(p).(Ptr))
			if out == nil {
				out = v
			} else {
				out = in.merge(m.Where(ptr, p), v, out)
			}
		}
		return out
	}
	cacheable := !r.initMode
	if cacheable {
		for _, p := range ptrs {
			q := m.Value(p).(Ptr)
			if q.Obj == InputObj {
				cacheable = false
				break
			}
			if _, own := st.Mem[q.Obj]; own {
				cacheable = false
				break
			}
			if _, mut := r.isMutable(q.Obj); mut {
				cacheable = false
				break
			}
		}
	}
	var key any
	if cacheable {
		key = "load"
	}
	res := m.Bind(key, ptr, func(v any) dd.Ref {
		p, ok := v.(Ptr)
		if !ok {
			return m.Undef
		}
		x, _ := one(p)
		ref, ok := x.(dd.Ref)
		if !ok {
			panic(unsupported{"load of unexpected shape"})
		}
		return ref
	})
	return r.resolveFar(st, res)
}

func deepCopy(v Val) Val {
	a, ok := v.(*Agg)
	if !ok {
		return v
	}
	out := &Agg{E: make([]Val, len(a.E))}
	for i, e := range a.E {
		out.E[i] = deepCopy(e)
	}
	return out
}

func (r *run) requireNonNil(st *State, ptr dd.Ref, pos token.Pos) {
	m := r.in.M
	bad := m.And(st.Guard, m.WhereFn(ptr, func(v any) bool { _, ok := v.(NilT); return ok }))
	if bad != m.False {
		r.require(st, m.Not(bad), pos, "nil dereference")
	}
}

func (r *run) store(st *State, ptr dd.Ref, v Val, pos token.Pos) {
	in, m := r.in, r.in.M
	r.requireNonNil(st, ptr, pos)
	ptr = m.Under(st.Guard, ptr)
	var ptrs []dd.Ref
	for _, x := range m.Terms(ptr) {
		if x == m.Undef {
			continue
		}
		if _, ok := m.Value(x).(Ptr); !ok {
			panic(unsupported{"store through an unknown pointer"})
		}
		ptrs = append(ptrs, x)
	}
	for _, x := range ptrs {
		p := m.Value(x).(Ptr)
		if p.Obj == InputObj {
			panic(unsupported{"store into the caller's buffer"})
		}
		if _, mut := r.isMutable(p.Obj); mut {
			continue // loads of this global yield unknown values
		}
		old, own := st.Mem[p.Obj]
		if !own {
			panic(unsupported{"store into shared memory"})
		}
		path := in.paths.paths[p.Path]
		nv := v
		if len(ptrs) > 1 {
			if r.initMode {
				panic(unsupported{"initialiser stores through several pointers"})
			}
			prev := readPath(old, path)
			nv = in.merge(m.Where(ptr, x), v, prev)
		}
		if r.initMode {
			nv = deepCopy(nv)
		}
		st.Mem[p.Obj] = writePath(old, path, nv, r.initMode)
	}
}

func (r *run) alloc(st *State, ins ssa.Instruction, sub string, v Val) ObjID {
	in := r.in
	if r.initMode {
		in.opaqueN++
		id := in.newObj(objKey{ins: ins, gen: in.opaqueN, sub: "init" + sub})
		st.Mem[id] = v
		return id
	}
	for gen := 0; ; gen++ {
		id := in.newObj(objKey{depth: len(st.Frames), ins: ins, gen: gen, sub: sub})
		if _, used := st.Mem[id]; used && r.reachable(st)[id] {
			if gen > 64 {
				panic(unsupported{"unbounded allocation"})
			}
			continue
		}
		st.Mem[id] = v
		return id
	}
}

// reachable returns the objects that live registers can reach.
func (r *run) reachable(st *State) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var todo []ObjID
	note := func(o ObjID) {
		if o != 0 && !seen[o] {
			seen[o] = true
			todo = append(todo, o)
		}
	}
	for i, f := range st.Frames {
		live := map[ssa.Value]bool(nil)
		if i == len(st.Frames)-1 {
			fi := r.in.info(f.Fn)
			live = liveBefore(f.Block, fi.liveOut[f.Block.Index], f.IP)
		}
		for k, v := range f.Regs {
			if live == nil || live[k] {
				r.refs(v, note)
			}
		}
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if v, ok := st.Mem[o]; ok {
			r.refs(v, note)
		}
	}
	return seen
}

// refs reports the objects that v refers to.
func (r *run) refs(v Val, note func(ObjID)) {
	switch v := v.(type) {
	case dd.Ref:
		for _, t := range r.in.M.Terms(v) {
			if t == r.in.M.Undef {
				continue
			}
			switch x := r.in.M.Value(t).(type) {
			case Ptr:
				note(x.Obj)
			case Slice:
				note(x.Obj)
			case FuncT:
				note(x.Env)
			case MapT:
				note(x.Obj)
			case Iface:
				r.refs(x.V, note)
			}
		}
	case *Agg:
		for _, e := range v.E {
			r.refs(e, note)
		}
	case *MapAgg:
		for _, e := range v.Vals {
			r.refs(e, note)
		}
	}
}

// ---- calls ----

type callee struct {
	fn   *ssa.Function
	env  ObjID
	recv Val // receiver for invoke-mode calls
	has  bool
}

// call executes a call; it reports whether the caller must stop stepping st.
func (r *run) call(st *State, ins *ssa.Call) bool {
	in, m := r.in, r.in.M
	f := st.top()
	c := ins.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.Regs[ins] = r.builtin(st, ins, b)
		return false
	}
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = r.raw(st, a)
	}
	var targets []callee
	var guards []dd.Ref
	if c.IsInvoke() {
		recv := r.scalar(st, c.Value)
		r.requireNonNil(st, recv, ins.Pos())
		recv = m.Under(st.Guard, recv)
		for _, t := range m.Terms(recv) {
			if t == m.Undef {
				continue
			}
			i, ok := m.Value(t).(Iface)
			if !ok {
				// Unknown dynamic type: only harmless if nothing can be changed.
				f.Regs[ins] = r.unknownCall(st, ins, nil, args)
				return false
			}
			fn := in.Prog.LookupMethod(in.types[i.Type], c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				panic(unsupported{"method not found"})
			}
			targets = append(targets, callee{fn: fn, recv: r.keyVal(m.Value(i.V)), has: true})
			guards = append(guards, m.Where(recv, t))
		}
	} else if fn, ok := c.Value.(*ssa.Function); ok {
		targets, guards = []callee{{fn: fn}}, []dd.Ref{m.True}
	} else {
		fv := r.scalar(st, c.Value)
		r.requireNonNil(st, fv, ins.Pos())
		fv = m.Under(st.Guard, fv)
		for _, t := range m.Terms(fv) {
			if t == m.Undef {
				continue
			}
			ft, ok := m.Value(t).(FuncT)
			if !ok {
				f.Regs[ins] = r.unknownCall(st, ins, nil, args)
				return false
			}
			targets = append(targets, callee{fn: ft.Fn, env: ft.Env})
			guards = append(guards, m.Where(fv, t))
		}
	}
	if len(targets) == 1 {
		return r.enter(st, ins, targets[0], args)
	}
	if r.initMode {
		panic(unsupported{"initialiser calls an unknown function"})
	}
	for i, t := range targets {
		s := st.fork()
		s.Guard = m.And(st.Guard, guards[i])
		if s.Guard == m.False {
			continue
		}
		if !r.enter(s, ins, t, args) {
			s.top().IP++
			r.enqueue(s)
		}
	}
	return true
}

func (r *run) enter(st *State, ins *ssa.Call, t callee, args []Val) bool {
	in := r.in
	f := st.top()
	if t.has {
		args = append([]Val{t.recv}, args...)
	}
	fn := t.fn
	if r.initMode && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg != f.Fn.Pkg && fn.Synthetic != "" {
		return false // other packages are initialised on demand
	}
	if in.Extern != nil {
		if v, ok := in.Extern(st, ins, fn, r.plainAll(st, args)); ok {
			if v != nil {
				f.Regs[ins] = v
			}
			return false
		}
	}
	in.EnsureBuilt(fn)
	if len(fn.Blocks) == 0 || !in.Inline(fn) {
		f.Regs[ins] = r.unknownCall(st, ins, fn, args)
		return false
	}
	if len(st.Frames) >= maxDepth {
		panic(unsupported{"call depth limit reached (recursion?)"})
	}
	nf := &Frame{Fn: fn, Block: fn.Blocks[0], Regs: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		nf.Regs[p] = args[i]
	}
	if len(fn.FreeVars) > 0 {
		env, ok := st.Mem[t.env]
		if !ok {
			env, ok = in.base[t.env]
		}
		if !ok {
			panic(unsupported{"closure environment unknown"})
		}
		for i, fv := range fn.FreeVars {
			nf.Regs[fv] = env.(*Agg).E[i]
		}
	}
	// Keep only what the caller still needs.
	fi := in.info(f.Fn)
	live := liveBefore(f.Block, fi.liveOut[f.Block.Index], f.IP+1)
	for k := range f.Regs {
		if !live[k] {
			delete(f.Regs, k)
		}
	}
	f.Call = ins
	st.Frames = append(st.Frames, nf)
	if !r.initMode {
		r.dropGarbage(st)
		if ci, ok := r.a.cuts[cutKey{fn, 0}]; ok && in.info(fn).heads[0] {
			r.arrive(st, ci)
			return true
		}
	}
	r.enqueue(st)
	return true
}

// dropGarbage forgets unreachable objects.
func (r *run) dropGarbage(st *State) {
	if len(st.Mem) == 0 {
		return
	}
	live := r.reachable(st)
	for o := range st.Mem {
		if !live[o] {
			delete(st.Mem, o)
		}
	}
}

// PureExternal lists packages whose functions neither change memory reachable
// from their arguments nor call back.
func pureExternal(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strconv", "errors", "unicode", "unicode/utf8", "math", "math/bits", "strings":
		return true
	case "fmt":
		switch fn.Name() {
		case "Sprintf", "Sprint", "Sprintln", "Errorf":
			return true
		}
	}
	return false
}

func (r *run) unknownCall(st *State, ins *ssa.Call, fn *ssa.Function, args []Val) Val {
	args = r.plainAll(st, args)
	if !pureExternal(fn) {
		name := "a function value that is not known"
		if fn != nil {
			name = fn.String()
		} else if ins.Call.IsInvoke() {
			name = "method " + ins.Call.Method.Name() + " of an unknown type"
		}
		panic(unsupported{"call of " + name + " has effects that are not modelled"})
	}
	for _, a := range args {
		r.bulk(st, ins, a, "hands the rest of the buffer to "+fn.String())
	}
	if r.in.Fold != nil {
		if as, ok := r.constArgs(st, args); ok {
			if v, ok := r.in.Fold(fn, as); ok {
				return r.in.M.Term(v)
			}
		}
	}
	return r.in.Unknown(ins.Type(), "result of "+fn.Name())
}

// Boxed is a constant held in an interface value.
type Boxed struct {
	Type types.Type
	V    any
}

// constArgs gives the arguments of a call if they are all constants.
func (r *run) constArgs(st *State, args []Val) ([]any, bool) {
	one := func(v Val) (any, bool) {
		d, ok := v.(dd.Ref)
		if !ok {
			return nil, false
		}
		x, ok := r.single(st, d)
		if !ok {
			return nil, false
		}
		switch x := x.(type) {
		case Iface:
			y, ok := r.single(st, x.V)
			if !ok {
				return nil, false
			}
			if l, isL := y.(Lin); isL && !l.IsConst() {
				return nil, false
			}
			switch y.(type) {
			case KeyPair, KeyEnd:
				return nil, false
			}
			return Boxed{r.in.types[x.Type], y}, true
		case Lin:
			return x, x.IsConst()
		case string, bool:
			return x, true
		}
		return nil, false
	}
	var out []any
	for _, a := range args {
		if x, ok := one(a); ok {
			out = append(out, x)
			continue
		}
		d, ok := a.(dd.Ref)
		if !ok {
			return nil, false
		}
		vs, ok := r.elems(st, d)
		if !ok {
			return nil, false
		}
		list := []any{}
		for _, v := range vs {
			x, ok := one(v)
			if !ok {
				return nil, false
			}
			list = append(list, x)
		}
		out = append(out, list)
	}
	return out, true
}

func (r *run) builtin(st *State, ins *ssa.Call, b *ssa.Builtin) Val {
	in, m := r.in, r.in.M
	c := ins.Common()
	switch b.Name() {
	case "len", "cap":
		x := c.Args[0]
		if p, ok := x.Type().Underlying().(*types.Pointer); ok {
			return in.num(p.Elem().Underlying().(*types.Array).Len())
		}
		if a, ok := x.Type().Underlying().(*types.Array); ok {
			return in.num(a.Len())
		}
		isCap := b.Name() == "cap"
		return m.Bind(nil, r.scalar(st, x), func(v any) dd.Ref {
			switch v := v.(type) {
			case NilT:
				return in.num(0)
			case string:
				return in.num(int64(len(v)))
			case Slice:
				if isCap {
					return m.Term(v.Max.sub(v.Lo))
				}
				return m.Term(v.Hi.sub(v.Lo))
			case MapT:
				if mv, _ := r.memGet(st, v.Obj); mv != nil {
					if ma, ok := mv.(*MapAgg); ok {
						return in.num(int64(len(ma.Keys)))
					}
				}
			case Opaque:
				return m.Term(Opaque{Tag: "len " + v.Tag})
			}
			panic(unsupported{fmt.Sprintf("length of %T", v)})
		})
	case "min", "max":
		acc := r.scalar(st, c.Args[0])
		for _, a := range c.Args[1:] {
			y := r.scalar(st, a)
			op := token.LEQ
			if b.Name() == "max" {
				op = token.GEQ
			}
			le := r.resolve(st, r.binop(st, op, acc, y, c.Args[0].Type(), a.Type(), ins.Pos()))
			acc = m.ITE(le, acc, y)
		}
		return acc
	case "append":
		return r.appendTo(st, ins)
	case "copy":
		return r.copyTo(st, ins)
	case "ssa:wrapnilchk":
		r.requireNonNil(st, r.scalar(st, c.Args[0]), ins.Pos())
		return r.get(st, c.Args[0])
	case "print", "println":
		return &Agg{}
	}
	panic(unsupported{"builtin " + b.Name()})
}

// elems returns the elements of a slice with constant bounds.
func (r *run) elems(st *State, x dd.Ref) ([]Val, bool) {
	m := r.in.M
	x = m.Under(st.Guard, x)
	if !m.IsTerm(x) {
		ts := m.Terms(x)
		if len(ts) == 2 && (ts[0] == m.Undef || ts[1] == m.Undef) {
			x = ts[0]
			if x == m.Undef {
				x = ts[1]
			}
		} else {
			return nil, false
		}
	}
	switch v := m.Value(x).(type) {
	case NilT:
		return nil, true
	case string:
		out := make([]Val, len(v))
		for i := range out {
			out[i] = r.in.num(int64(v[i]))
		}
		return out, true
	case Slice:
		n := v.Hi.sub(v.Lo)
		if !n.IsConst() || n.K > 64 {
			return nil, false
		}
		out := make([]Val, n.K)
		for i := range out {
			if v.Obj == InputObj {
				out[i] = r.resolveFar(st, r.inputByte(v.Lo.add(Num(int64(i)))))
				continue
			}
			mv, _ := r.memGet(st, v.Obj)
			out[i] = readPath(readPath(mv, r.in.paths.paths[v.Path]), []int{int(v.Lo.K) + i})
		}
		return out, true
	}
	return nil, false
}

func (r *run) appendTo(st *State, ins *ssa.Call) Val {
	c := ins.Common()
	a, ok1 := r.elems(st, r.scalar(st, c.Args[0]))
	b, ok2 := r.elems(st, r.scalar(st, c.Args[1]))
	if !ok1 || !ok2 {
		panic(unsupported{"append to a slice of unknown size"})
	}
	// Modelled as always reallocating; writes through shared capacity are
	// therefore refused when the first operand views existing memory.
	x := r.scalar(st, c.Args[0])
	for _, t := range r.in.M.Terms(x) {
		if s, ok := r.in.M.Value(t).(Slice); ok && s.Obj == InputObj {
			panic(unsupported{"append to the caller's buffer"})
		}
	}
	all := append(append([]Val(nil), a...), b...)
	id := r.alloc(st, ins, "append", &Agg{E: all})
	n := Num(int64(len(all)))
	return r.in.M.Term(Slice{Obj: id, Lo: Num(0), Hi: n, Max: n})
}

func (r *run) copyTo(st *State, ins *ssa.Call) Val {
	m := r.in.M
	c := ins.Common()
	from := r.scalar(st, c.Args[1])
	dst := r.scalar(st, c.Args[0])
	d, okD := r.single(st, dst)
	if _, isNil := d.(NilT); isNil {
		return r.in.num(0)
	}
	s, isS := d.(Slice)
	if !okD || !isS {
		panic(unsupported{"copy of unknown extent"})
	}
	if s.Obj == InputObj {
		panic(unsupported{"store into the caller's buffer"})
	}
	n := s.Hi.sub(s.Lo)
	if !n.IsConst() {
		panic(unsupported{"copy of unknown extent"})
	}
	at := func(i int) dd.Ref {
		return m.Term(Ptr{Obj: s.Obj, Path: r.in.extend(s.Path, int(s.Lo.K)+i)})
	}
	if src, ok := r.elems(st, from); ok {
		cnt := min(int(n.K), len(src))
		for i := 0; i < cnt; i++ {
			r.store(st, at(i), src[i], ins.Pos())
		}
		return r.in.num(int64(cnt))
	}
	if n.K > 16 {
		panic(unsupported{"copy of unknown extent"})
	}
	// Element by element, each if the source has it.
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	cnt := r.in.num(0)
	var vals []dd.Ref
	for i := 0; i < int(n.K); i++ {
		k := int64(i)
		has := r.resolve(st, m.Bind(nil, from, func(v any) dd.Ref {
			switch v := v.(type) {
			case NilT:
				return m.False
			case string:
				return r.in.boolT(i < len(v))
			case Slice:
				return r.cmp0(v.Hi.sub(v.Lo).sub(Num(k+1)), token.GEQ)
			}
			panic(unsupported{"copy of unknown extent"})
		}))
		val := m.Bind(nil, m.Under(has, from), func(v any) dd.Ref {
			switch v := v.(type) {
			case string:
				return r.in.num(int64(v[i]))
			case Slice:
				if v.Obj == InputObj {
					return r.inputByte(v.Lo.add(Num(k)))
				}
				if v.Lo.IsConst() {
					mv, _ := r.memGet(st, v.Obj)
					if x, ok := readPath(readPath(mv, r.in.paths.paths[v.Path]), []int{int(v.Lo.K) + i}).(dd.Ref); ok {
						return x
					}
				}
			}
			panic(unsupported{"copy of unknown extent"})
		})
		val = r.resolveFar(st, val)
		old, ok := r.load(st, at(i), elem, ins.Pos()).(dd.Ref)
		if !ok {
			panic(unsupported{"copy of unknown extent"})
		}
		vals = append(vals, m.ITE(has, val, old))
		cnt = m.ITE(has, r.in.num(k+1), cnt)
	}
	for i, v := range vals {
		r.store(st, at(i), v, ins.Pos())
	}
	return cnt
}

// single returns the only possible value of x under the path condition.
func (r *run) single(st *State, x dd.Ref) (any, bool) {
	m := r.in.M
	x = m.Under(st.Guard, x)
	var got dd.Ref = m.Undef
	for _, t := range m.Terms(x) {
		if t == m.Undef {
			continue
		}
		if got != m.Undef {
			return nil, false
		}
		got = t
	}
	if got == m.Undef {
		return nil, false
	}
	return m.Value(got), true
}

// ---- expressions ----

func (r *run) eval(st *State, ins ssa.Value) Val {
	in, m := r.in, r.in.M
	switch v := ins.(type) {
	case *ssa.Phi:
		return st.top().Regs[v]
	case *ssa.BinOp:
		x := r.raw(st, v.X)
		y := r.raw(st, v.Y)
		if r.tooMany(x, y) {
			if b, ok := r.bitsOp(st, v.Op, x, y, v.X.Type(), v.Y.Type()); ok {
				return b
			}
			x, y = r.plain(st, x), r.plain(st, y)
		}
		xr, ok1 := x.(dd.Ref)
		yr, ok2 := y.(dd.Ref)
		if !ok1 || !ok2 {
			return r.eqVal(st, v.Op, x, y, v.X.Type(), v.Pos())
		}
		return r.binop(st, v.Op, m.Under(st.Guard, xr), m.Under(st.Guard, yr), v.X.Type(), v.Y.Type(), v.Pos())
	case *ssa.UnOp:
		return r.unop(st, v)
	case *ssa.Convert:
		if isByteSlice(v.X.Type()) || isString(v.X.Type()) {
			r.bulk(st, v, r.get(st, v.X), "converts the rest of the buffer")
		}
		if b, ok := r.raw(st, v.X).(*Bits); ok {
			if tb, ts, toInt := in.intInfo(v.Type()); toInt {
				return r.narrow(r.wrapBits(b, tb, ts, wordSized(v.Type())))
			}
		}
		return r.convert(st, r.scalar(st, v.X), v.X.Type(), v.Type(), v)
	case *ssa.ChangeType:
		return r.raw(st, v.X)
	case *ssa.ChangeInterface:
		return r.get(st, v.X)
	case *ssa.MakeInterface:
		x := r.get(st, v.X)
		t := in.typeID(v.X.Type())
		ref, ok := x.(dd.Ref)
		if !ok {
			ref, ok = r.boxed(st, x)
		}
		if !ok {
			in.opaqueN++
			return m.Term(Iface{Type: t, V: m.Term(Opaque{Tag: fmt.Sprintf("boxed#%d", in.opaqueN)})})
		}
		// Many-valued scalars need not be told apart once boxed.
		ref = m.Under(st.Guard, ref)
		if len(m.Terms(ref)) > 64 {
			in.opaqueN++
			ref = m.Term(Opaque{Tag: fmt.Sprintf("boxed#%d", in.opaqueN)})
		}
		return m.Bind(nil, ref, func(x any) dd.Ref { return m.Term(Iface{Type: t, V: m.Term(x)}) })
	case *ssa.MakeClosure:
		env := &Agg{E: make([]Val, len(v.Bindings))}
		for i, b := range v.Bindings {
			env.E[i] = r.get(st, b)
		}
		return m.Term(FuncT{Fn: v.Fn.(*ssa.Function), Env: r.alloc(st, v, "env", env)})
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		return m.Term(Ptr{Obj: r.alloc(st, v, "", in.Zero(t))})
	case *ssa.MakeMap:
		return m.Term(MapT{r.alloc(st, v, "", &MapAgg{})})
	case *ssa.MakeSlice:
		n, ok := r.single(st, r.scalar(st, v.Cap))
		k, isL := n.(Lin)
		if !ok || !isL || !k.IsConst() || k.K > 4096 || k.K < 0 {
			panic(unsupported{"slice of unknown size"})
		}
		el := v.Type().Underlying().(*types.Slice).Elem()
		a := &Agg{E: make([]Val, k.K)}
		for i := range a.E {
			a.E[i] = in.Zero(el)
		}
		id := r.alloc(st, v, "", a)
		return m.Bind(nil, r.scalar(st, v.Len), func(x any) dd.Ref {
			l, ok := x.(Lin)
			if !ok || !l.IsConst() {
				panic(unsupported{"slice of unknown size"})
			}
			return m.Term(Slice{Obj: id, Lo: Num(0), Hi: l, Max: k})
		})
	case *ssa.FieldAddr:
		p := r.scalar(st, v.X)
		r.requireNonNil(st, p, v.Pos())
		return m.Bind(nil, m.Under(st.Guard, p), func(x any) dd.Ref {
			q, ok := x.(Ptr)
			if !ok {
				panic(unsupported{"field of an unknown pointer"})
			}
			q.Path = in.extend(q.Path, v.Field)
			return m.Term(q)
		})
	case *ssa.Field:
		a, ok := r.get(st, v.X).(*Agg)
		if !ok {
			panic(unsupported{"field of an unknown value"})
		}
		return a.E[v.Field]
	case *ssa.Extract:
		a, ok := r.raw(st, v.Tuple).(*Agg)
		if !ok {
			panic(unsupported{"component of an unknown value"})
		}
		return a.E[v.Index]
	case *ssa.IndexAddr:
		return r.indexAddr(st, v)
	case *ssa.Index:
		return r.index(st, v)
	case *ssa.Lookup:
		return r.lookup(st, v)
	case *ssa.Slice:
		return r.slice(st, v)
	case *ssa.TypeAssert:
		return r.typeAssert(st, v)
	case *ssa.Range:
		return r.rangeMap(st, v)
	case *ssa.Next:
		return r.nextEntry(st, v)
	case *ssa.SliceToArrayPointer:
		n := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x := r.scalar(st, v.X)
		r.require(st, m.Bind(nil, x, func(t any) dd.Ref {
			switch s := t.(type) {
			case Slice:
				return r.cmp0(s.Hi.sub(s.Lo).sub(Num(n)), token.GEQ)
			case NilT:
				return in.boolT(n == 0)
			}
			panic(unsupported{"conversion of an unknown slice to an array"})
		}), v.Pos(), "slice too short for conversion to array")
		return m.Bind(nil, m.Under(st.Guard, x), func(t any) dd.Ref {
			switch s := t.(type) {
			case NilT:
				return m.Term(s)
			case Slice:
				if s.Obj == InputObj {
					return m.Term(Ptr{Obj: InputObj, Pos: s.Lo})
				}
				mv, _ := r.memGet(st, s.Obj)
				if a, ok := readPath(mv, in.paths.paths[s.Path]).(*Agg); ok && s.Lo == Num(0) && int64(len(a.E)) == n {
					return m.Term(Ptr{Obj: s.Obj, Path: s.Path})
				}
			}
			panic(unsupported{"conversion of a slice to an array pointer"})
		})
	}
	panic(unsupported{fmt.Sprintf("%T expression", ins)})
}

func (r *run) eqVal(st *State, op token.Token, x, y Val, t types.Type, pos token.Pos) Val {
	m := r.in.M
	a, ok1 := x.(*Agg)
	b, ok2 := y.(*Agg)
	if !ok1 || !ok2 || (op != token.EQL && op != token.NEQ) {
		panic(unsupported{"comparison of composite values"})
	}
	et := func(i int) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return u.Field(i).Type()
		case *types.Array:
			return u.Elem()
		}
		return types.Typ[types.Invalid]
	}
	res := m.True
	for i := range a.E {
		xr, o1 := a.E[i].(dd.Ref)
		yr, o2 := b.E[i].(dd.Ref)
		var e dd.Ref
		if o1 && o2 {
			e = r.resolve(st, r.binop(st, token.EQL, m.Under(st.Guard, xr), m.Under(st.Guard, yr), et(i), et(i), pos))
		} else {
			e = r.eqVal(st, token.EQL, a.E[i], b.E[i], et(i), pos).(dd.Ref)
		}
		res = m.And(res, e)
	}
	if op == token.NEQ {
		res = m.Not(res)
	}
	return res
}

type binKey struct {
	op     token.Token
	bits   uint
	signed bool
	kind   string
}

func (r *run) allConst(x dd.Ref) bool {
	m := r.in.M
	for _, t := range m.Terms(x) {
		if t == m.Undef {
			continue
		}
		switch v := m.Value(t).(type) {
		case Lin:
			if !v.IsConst() {
				return false
			}
		case bool, string:
		default:
			return false
		}
	}
	return true
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (r *run) binop(st *State, op token.Token, x, y dd.Ref, xt, yt types.Type, pos token.Pos) dd.Ref {
	in, m := r.in, r.in.M
	bits, signed, isInt := in.intInfo(xt)
	w := intKind{bits, signed, isInt && wide(xt), isInt && wordSized(xt)}
	if isInt {
		switch op {
		case token.QUO, token.REM:
			zero := m.WhereFn(y, func(v any) bool { l, ok := v.(Lin); return !ok || !l.IsConst() || l.K == 0 })
			if m.And(st.Guard, zero) != m.False {
				r.require(st, m.Not(m.And(st.Guard, zero)), pos, "division by zero")
			}
		case token.SHL, token.SHR:
			if _, sg, ok := intInfo64(yt); ok && sg {
				neg := m.WhereFn(y, func(v any) bool { l, ok := v.(Lin); return ok && l.IsConst() && l.K < 0 })
				if m.And(st.Guard, neg) != m.False {
					r.require(st, m.Not(m.And(st.Guard, neg)), pos, "negative shift count")
				}
			}
		}
	}
	x, y = m.Under(st.Guard, x), m.Under(st.Guard, y)
	var key any
	if r.allConst(x) && r.allConst(y) {
		kind := "v"
		if isInt {
			kind = "i"
			if w.word {
				kind = "w"
			}
		}
		key = binKey{op, bits, signed, kind}
	}
	return m.Bind2(key, x, y, func(a, b any) dd.Ref {
		if isInt {
			if la, ok := a.(Lin); ok {
				if lb, ok := b.(Lin); ok {
					return r.intOp(op, la, lb, w)
				}
			}
			if isCmp(op) {
				if oa, ok := a.(Opaque); ok {
					if ob, ok := b.(Opaque); ok && oa == ob {
						return in.boolT(op == token.EQL || op == token.LEQ || op == token.GEQ)
					}
				}
				return in.freshBool()
			}
			tag := func(v any) string {
				switch v := v.(type) {
				case Lin:
					return v.String()
				case Opaque:
					return v.Tag
				}
				return fmt.Sprintf("%T", v)
			}
			s := "(" + tag(a) + op.String() + tag(b) + ")"
			if len(s) > 160 {
				in.opaqueN++
				s = fmt.Sprintf("int#%d", in.opaqueN)
			}
			return m.Term(Opaque{Tag: s})
		}
		switch op {
		case token.EQL:
			return r.eqTerm(st, a, b)
		case token.NEQ:
			return r.notU(r.eqTerm(st, a, b))
		}
		if sa, ok := a.(string); ok {
			if sb, ok := b.(string); ok {
				switch op {
				case token.ADD:
					return m.Term(sa + sb)
				case token.LSS:
					return in.boolT(sa < sb)
				case token.LEQ:
					return in.boolT(sa <= sb)
				case token.GTR:
					return in.boolT(sa > sb)
				case token.GEQ:
					return in.boolT(sa >= sb)
				}
			}
		}
		if isCmp(op) {
			return in.freshBool()
		}
		if ba, ok := a.(bool); ok {
			if bb, ok := b.(bool); ok {
				switch op {
				case token.AND, token.LAND:
					return in.boolT(ba && bb)
				case token.OR, token.LOR:
					return in.boolT(ba || bb)
				case token.XOR:
					return in.boolT(ba != bb)
				}
			}
		}
		in.opaqueN++
		return m.Term(Opaque{Tag: fmt.Sprintf("value#%d", in.opaqueN)})
	})
}

// notU negates a boolean diagram that may hold undecided leaves.
func (r *run) notU(c dd.Ref) dd.Ref {
	m := r.in.M
	return m.Bind(nil, c, func(v any) dd.Ref {
		if b, ok := v.(bool); ok {
			return r.in.boolT(!b)
		}
		return m.Term(v)
	})
}

func (r *run) andU(a, b dd.Ref) dd.Ref {
	m := r.in.M
	return m.Bind2(nil, a, b, func(x, y any) dd.Ref {
		bx, okx := x.(bool)
		by, oky := y.(bool)
		switch {
		case okx && !bx, oky && !by:
			return m.False
		case okx && oky:
			return m.True
		}
		return m.Term(undecidedT{})
	})
}

func (r *run) nonNeg(l Lin) bool { return r.cmp0(l, token.GEQ) == r.in.M.True }

// intKind describes an integer type.
type intKind struct {
	bits   uint
	signed bool
	wide   bool // positions fit
	word   bool // the platform's word size
}

func (r *run) intOp(op token.Token, a, b Lin, w intKind) dd.Ref {
	m := r.in.M
	signed := w.signed
	if a.IsConst() && b.IsConst() {
		return r.constOp(op, a.K, b.K, w)
	}
	if isCmp(op) {
		if !signed && (!r.nonNeg(a) || !r.nonNeg(b)) {
			return r.viaConcrete(op, a, b, w)
		}
		d := a.sub(b)
		c := r.cmp0(d, op)
		return c
	}
	if w.wide {
		switch op {
		case token.ADD:
			return m.Term(a.add(b))
		case token.SUB:
			d := a.sub(b)
			if signed || r.nonNeg(d) {
				return m.Term(d)
			}
		case token.MUL:
			k, l := a, b
			if !k.IsConst() {
				k, l = b, a
			}
			if k.IsConst() && k.K >= -4 && k.K <= 4 {
				c := int8(k.K)
				return m.Term(Lin{l.K * k.K, l.C * c, l.R * c, l.E * c})
			}
		}
	}
	return r.viaConcrete(op, a, b, w)
}

func (r *run) viaConcrete(op token.Token, a, b Lin, w intKind) dd.Ref {
	in, m := r.in, r.in.M
	return m.Bind2(nil, r.concretize(a), r.concretize(b), func(x, y any) dd.Ref {
		la, ok1 := x.(Lin)
		lb, ok2 := y.(Lin)
		if ok1 && ok2 {
			return r.constOp(op, wrap(la.K, w.bits, w.signed), wrap(lb.K, w.bits, w.signed), w)
		}
		if isCmp(op) {
			return m.Term(undecidedT{})
		}
		in.opaqueN++
		return m.Term(Opaque{Tag: fmt.Sprintf("int#%d", in.opaqueN)})
	})
}

func (r *run) constOp(op token.Token, a, b int64, w intKind) dd.Ref {
	in := r.in
	bits, signed := w.bits, w.signed
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.EQL:
		return in.boolT(a == b)
	case token.NEQ:
		return in.boolT(a != b)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt := a < b
		if !signed {
			lt = ua < ub
		}
		switch op {
		case token.LSS:
			return in.boolT(lt)
		case token.LEQ:
			return in.boolT(lt || a == b)
		case token.GTR:
			return in.boolT(!lt && a != b)
		}
		return in.boolT(!lt)
	}
	var k int64
	switch op {
	case token.ADD:
		k = a + b
	case token.SUB:
		k = a - b
	case token.MUL:
		k = a * b
	case token.QUO, token.REM:
		if b == 0 {
			return in.M.Undef
		}
		switch {
		case !signed && op == token.QUO:
			k = int64(ua / ub)
		case !signed:
			k = int64(ua % ub)
		case b == -1:
			if op == token.QUO {
				k = -a
			}
		case op == token.QUO:
			k = a / b
		default:
			k = a % b
		}
	case token.AND:
		k = a & b
	case token.OR:
		k = a | b
	case token.XOR:
		k = a ^ b
	case token.AND_NOT:
		k = a &^ b
	case token.SHL:
		if b < 0 || ub >= 64 {
			k = 0
		} else {
			k = a << ub
		}
	case token.SHR:
		switch {
		case signed && (b < 0 || ub >= 64):
			k = a >> 63
		case signed:
			k = a >> ub
		case ub >= 64:
			k = 0
		default:
			k = int64(ua >> ub)
		}
	default:
		panic(unsupported{"operator " + op.String()})
	}
	k = wrap(k, bits, signed)
	if w.word {
		in.word(k, signed)
	}
	return in.num(k)
}

// eqTerm compares two non-integer terminals.
func (r *run) eqTerm(st *State, a, b any) dd.Ref {
	in, m := r.in, r.in.M
	if _, ok := b.(NilT); ok {
		a, b = b, a
	}
	if _, ok := a.(NilT); ok {
		switch y := b.(type) {
		case NilT:
			return m.True
		case Ptr, FuncT, MapT, Iface:
			return m.False
		case Slice:
			if y.Obj != InputObj || y.Fresh {
				return m.False
			}
			// The caller may pass a nil buffer only if it is empty.
			z := r.cmp0(y.Hi.sub(y.Lo), token.EQL)
			return m.Bind(nil, z, func(v any) dd.Ref {
				if v == false {
					return m.False
				}
				return in.freshBool()
			})
		}
		if y, ok := b.(Opaque); ok && y.NonNil {
			return m.False
		}
		return in.freshBool()
	}
	if ka, kb := composite(a), composite(b); ka || kb {
		if a == b && hasOther(a) {
			return in.freshBool()
		}
		return in.boolT(a == b)
	}
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return in.boolT(x == y)
		}
	case string:
		switch y := b.(type) {
		case string:
			return in.boolT(x == y)
		case OtherStr:
			return m.False
		}
	case OtherStr:
		if _, ok := b.(string); ok {
			return m.False
		}
		return in.freshBool()
	case Opaque:
		if y, ok := b.(Opaque); ok && x == y {
			return m.True
		}
		return in.freshBool()
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.Obj != y.Obj {
				return m.False
			}
			if x.Obj == InputObj {
				return r.cmp0(x.Pos.sub(y.Pos), token.EQL)
			}
			return in.boolT(x.Path == y.Path)
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.Type != y.Type {
				return m.False
			}
			xv, yv := m.Value(x.V), m.Value(y.V)
			if lx, ok := xv.(Lin); ok {
				if ly, ok := yv.(Lin); ok {
					return r.cmp0(lx.sub(ly), token.EQL)
				}
			}
			return r.eqTerm(st, xv, yv)
		}
		return in.freshBool()
	}
	// Strings of which at least one is a view.
	la, ok1 := r.strLen(a)
	lb, ok2 := r.strLen(b)
	if !ok1 || !ok2 {
		return in.freshBool()
	}
	if !la.IsConst() && !lb.IsConst() {
		return m.Term(undecidedT{})
	}
	n := la
	if !n.IsConst() {
		n = lb
	}
	if n.K > Window {
		return m.Term(undecidedT{})
	}
	res := r.cmp0(la.sub(lb), token.EQL)
	for i := int64(0); i < n.K; i++ {
		x := r.strByte(st, a, i)
		y := r.strByte(st, b, i)
		res = r.andU(res, m.Bind2(nil, x, y, func(p, q any) dd.Ref {
			lp, o1 := p.(Lin)
			lq, o2 := q.(Lin)
			if o1 && o2 {
				return in.boolT(lp == lq)
			}
			return m.Term(undecidedT{})
		}))
	}
	return res
}

func (r *run) strLen(v any) (Lin, bool) {
	switch v := v.(type) {
	case string:
		return Num(int64(len(v))), true
	case Slice:
		return v.Hi.sub(v.Lo), true
	}
	return Lin{}, false
}

func (r *run) strByte(st *State, v any, i int64) dd.Ref {
	switch v := v.(type) {
	case string:
		if i < int64(len(v)) {
			return r.in.num(int64(v[i]))
		}
	case Slice:
		if v.Obj == InputObj {
			return r.inputByte(v.Lo.add(Num(i)))
		}
		mv, _ := r.memGet(st, v.Obj)
		if x, ok := readPath(readPath(mv, r.in.paths.paths[v.Path]), []int{int(v.Lo.K + i)}).(dd.Ref); ok {
			return x
		}
	}
	return r.in.M.Term(undecidedT{})
}

func (r *run) unop(st *State, v *ssa.UnOp) Val {
	in, m := r.in, r.in.M
	if b, ok := r.opRaw(st, v); ok {
		op, x := token.SUB, in.num(0)
		if v.Op == token.XOR {
			op, x = token.XOR, in.num(-1&r.wrapMask(v.Type()))
		}
		if y, ok := r.bitsOp(st, op, x, b, v.Type(), v.Type()); ok {
			return y
		}
	}
	switch v.Op {
	case token.MUL:
		return r.load(st, r.scalar(st, v.X), v.Type(), v.Pos())
	case token.NOT:
		c := r.asBool(r.scalar(st, v.X))
		return r.notU(c)
	case token.SUB:
		return r.binop(st, token.SUB, in.num(0), r.scalar(st, v.X), v.Type(), v.Type(), v.Pos())
	case token.XOR:
		return r.binop(st, token.XOR, in.num(-1&r.wrapMask(v.Type())), r.scalar(st, v.X), v.Type(), v.Type(), v.Pos())
	}
	_ = m
	panic(unsupported{"operator " + v.Op.String()})
}

func (r *run) wrapMask(t types.Type) int64 {
	bits, signed, ok := r.in.intInfo(t)
	if !ok {
		return -1
	}
	return wrap(-1, bits, signed)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (r *run) convert(st *State, x dd.Ref, from, to types.Type, ins ssa.Instruction) Val {
	in, m := r.in, r.in.M
	_, _, fromInt := in.intInfo(from)
	tb, ts, toInt := in.intInfo(to)
	toWide, toWord := toInt && wide(to), toInt && wordSized(to)
	switch {
	case fromInt && toInt:
		var key any
		if r.allConst(x) {
			key = binKey{token.TYPE, tb, ts, "conv"}
			if toWord {
				key = binKey{token.TYPE, tb, ts, "word"}
			}
		}
		conv := func(k int64) dd.Ref {
			k = wrap(k, tb, ts)
			if toWord {
				in.word(k, ts)
			}
			return in.num(k)
		}
		return m.Bind(key, x, func(v any) dd.Ref {
			switch v := v.(type) {
			case Lin:
				if v.IsConst() {
					return conv(v.K)
				}
				if toWide && (ts || r.nonNeg(v)) {
					return m.Term(v)
				}
				return m.Bind(nil, r.concretize(v), func(c any) dd.Ref {
					if l, ok := c.(Lin); ok {
						return conv(l.K)
					}
					in.opaqueN++
					return m.Term(Opaque{Tag: fmt.Sprintf("int#%d", in.opaqueN)})
				})
			case Opaque:
				if tb == 8 {
					return in.Unknown(to, "converted").(dd.Ref)
				}
				return m.Term(Opaque{Tag: "(" + to.String() + ")" + v.Tag})
			}
			panic(unsupported{fmt.Sprintf("conversion of %T", v)})
		})
	case isByteSlice(from) && isString(to):
		return m.Bind(nil, x, func(v any) dd.Ref {
			switch v := v.(type) {
			case NilT:
				return m.Term("")
			case Slice:
				v.Str, v.Fresh = true, true
				if v.Obj != InputObj {
					if s, ok := r.constBytes(st, v); ok {
						return m.Term(s)
					}
					if _, own := st.Mem[v.Obj]; own {
						panic(unsupported{"string made from a changing buffer"})
					}
				}
				return m.Term(v)
			}
			panic(unsupported{fmt.Sprintf("conversion of %T to string", v)})
		})
	case isString(from) && isByteSlice(to):
		return m.Bind(nil, x, func(v any) dd.Ref {
			switch v := v.(type) {
			case string:
				a := &Agg{E: make([]Val, len(v))}
				for i := range a.E {
					a.E[i] = in.num(int64(v[i]))
				}
				id := r.alloc(st, ins, "bytes of "+v, a)
				n := Num(int64(len(v)))
				return m.Term(Slice{Obj: id, Lo: Num(0), Hi: n, Max: n, Fresh: true})
			case Slice:
				v.Str, v.Fresh = false, true
				return m.Term(v)
			}
			panic(unsupported{fmt.Sprintf("conversion of %T to bytes", v)})
		})
	case isString(from) && isString(to):
		return x
	case isByteSlice(from) && isByteSlice(to):
		return x
	}
	return in.Unknown(to, "converted")
}

func (r *run) constBytes(st *State, v Slice) (string, bool) {
	if !v.Lo.IsConst() || !v.Hi.IsConst() {
		return "", false
	}
	mv, _ := r.memGet(st, v.Obj)
	arr := readPath(mv, r.in.paths.paths[v.Path])
	var b []byte
	for i := v.Lo.K; i < v.Hi.K; i++ {
		x, ok := readPath(arr, []int{int(i)}).(dd.Ref)
		if !ok || !r.in.M.IsTerm(x) {
			return "", false
		}
		l, ok := r.in.M.Value(x).(Lin)
		if !ok || !l.IsConst() {
			return "", false
		}
		b = append(b, byte(l.K))
	}
	return string(b), true
}

type inbKey struct{ n int64 }
type idxKey struct {
	obj  ObjID
	path PathID
	off  int64
}

// inBounds is the condition 0 <= idx < n.
func (r *run) inBounds(idx dd.Ref, n Lin) dd.Ref {
	m := r.in.M
	var key any
	if n.IsConst() && r.allConst(idx) {
		key = inbKey{n.K}
	}
	return m.Bind(key, idx, func(v any) dd.Ref {
		l, ok := v.(Lin)
		if !ok {
			return m.Term(undecidedT{})
		}
		return r.andU(r.cmp0(l, token.GEQ), r.cmp0(l.sub(n), token.LSS))
	})
}

func (r *run) indexAddr(st *State, v *ssa.IndexAddr) Val {
	in, m := r.in, r.in.M
	base := r.scalar(st, v.X)
	idx := r.scalar(st, v.Index)
	r.requireNonNil(st, base, v.Pos())
	arrLen := int64(-1)
	if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		arrLen = p.Elem().Underlying().(*types.Array).Len()
	}
	// Bounds.
	ok := dd.Ref(m.True)
	for _, t := range m.Terms(m.Under(st.Guard, base)) {
		if t == m.Undef {
			continue
		}
		var n Lin
		switch b := m.Value(t).(type) {
		case Ptr:
			n = Num(arrLen)
		case Slice:
			n = b.Hi.sub(b.Lo)
		case NilT:
			n = Num(0)
		default:
			panic(unsupported{fmt.Sprintf("index into %T", b)})
		}
		w := m.Where(m.Under(st.Guard, base), t)
		c := r.resolve(st, m.Under(m.And(st.Guard, w), r.inBounds(m.Under(m.And(st.Guard, w), idx), n)))
		ok = m.ITE(w, c, ok)
	}
	r.require(st, ok, v.Pos(), "index out of range")
	base, idx = m.Under(st.Guard, base), m.Under(st.Guard, idx)
	elem := func(b any, l Lin) dd.Ref {
		switch b := b.(type) {
		case Ptr:
			if b.Obj == InputObj {
				return m.Term(Ptr{Obj: InputObj, Pos: b.Pos.add(l)})
			}
			if !l.IsConst() {
				break
			}
			return m.Term(Ptr{Obj: b.Obj, Path: in.extend(b.Path, int(l.K))})
		case Slice:
			p := b.Lo.add(l)
			if b.Obj == InputObj {
				return m.Term(Ptr{Obj: InputObj, Pos: p})
			}
			if !p.IsConst() {
				break
			}
			return m.Term(Ptr{Obj: b.Obj, Path: in.extend(b.Path, int(p.K))})
		}
		panic(unsupported{"index that is not known"})
	}
	conc := func(b any, l Lin) dd.Ref {
		if s, ok := b.(Slice); l.IsConst() || ok && s.Obj == InputObj {
			return elem(b, l)
		}
		return m.Bind(nil, r.concretize(l), func(c any) dd.Ref {
			k, ok := c.(Lin)
			if !ok {
				panic(unsupported{"index that is not known"})
			}
			return elem(b, k)
		})
	}
	if bv, one := r.single(st, base); one && r.allConst(idx) {
		var key any
		switch b := bv.(type) {
		case Ptr:
			if b.Obj != InputObj {
				key = idxKey{b.Obj, b.Path, 0}
			}
		case Slice:
			if b.Lo.IsConst() && b.Obj != InputObj {
				key = idxKey{b.Obj, b.Path, b.Lo.K}
			}
		}
		return m.Bind(key, idx, func(x any) dd.Ref { return conc(bv, x.(Lin)) })
	}
	return m.Bind2(nil, base, idx, func(b, x any) dd.Ref {
		l, ok := x.(Lin)
		if !ok {
			panic(unsupported{"index that is not known"})
		}
		return conc(b, l)
	})
}

func (r *run) index(st *State, v *ssa.Index) Val {
	in, m := r.in, r.in.M
	idx := r.scalar(st, v.Index)
	if a, ok := r.get(st, v.X).(*Agg); ok {
		r.require(st, r.inBounds(idx, Num(int64(len(a.E)))), v.Pos(), "index out of range")
		idx = m.Under(st.Guard, idx)
		var out Val
		for _, t := range m.Terms(idx) {
			if t == m.Undef {
				continue
			}
			l, ok := m.Value(t).(Lin)
			if !ok || !l.IsConst() {
				panic(unsupported{"index that is not known"})
			}
			e := a.E[l.K]
			if out == nil {
				out = e
			} else {
				out = in.merge(m.Where(idx, t), e, out)
			}
		}
		if out == nil {
			return in.Unknown(v.Type(), "unreachable")
		}
		return out
	}
	x := r.scalar(st, v.X)
	ok := m.Bind2(nil, x, idx, func(s, i any) dd.Ref {
		n, o1 := r.strLen(s)
		l, o2 := i.(Lin)
		if !o1 || !o2 {
			return m.Term(undecidedT{})
		}
		return r.andU(r.cmp0(l, token.GEQ), r.cmp0(l.sub(n), token.LSS))
	})
	r.require(st, ok, v.Pos(), "string index out of range")
	x, idx = m.Under(st.Guard, x), m.Under(st.Guard, idx)
	res := m.Bind2(nil, x, idx, func(s, i any) dd.Ref {
		l, ok := i.(Lin)
		if !ok {
			panic(unsupported{"index that is not known"})
		}
		if sl, isS := s.(Slice); isS && sl.Obj == InputObj {
			return r.inputByte(sl.Lo.add(l))
		}
		return m.Bind(nil, r.concretize(l), func(c any) dd.Ref {
			k, ok := c.(Lin)
			if !ok {
				panic(unsupported{"index that is not known"})
			}
			return r.strByte(st, s, k.K)
		})
	})
	return r.resolveFar(st, res)
}

// KeyPair is a composite map key or boxed value: its first part and the rest,
// which ends with KeyEnd.
type KeyPair struct{ First, Rest any }

// KeyEnd is the composite without parts.
type KeyEnd struct{}

// mapKey makes a key's single diagram of the parts of a composite key.
func (r *run) mapKey(st *State, v Val) dd.Ref {
	m := r.in.M
	switch v := v.(type) {
	case dd.Ref:
		return v
	case *Agg:
		k := m.Term(KeyEnd{})
		for i := len(v.E) - 1; i >= 0; i-- {
			k = m.Bind2(nil, m.Under(st.Guard, r.mapKey(st, v.E[i])), k, func(a, b any) dd.Ref { return m.Term(KeyPair{a, b}) })
		}
		return k
	}
	panic(unsupported{"a map with keys of a kind that is not followed"})
}

// composite reports whether a terminal is a struct or array constant.
func composite(k any) bool {
	switch k.(type) {
	case KeyPair, KeyEnd:
		return true
	}
	return false
}

// hasOther reports whether part of a composite is one of several strings.
func hasOther(k any) bool {
	switch k := k.(type) {
	case OtherStr:
		return true
	case KeyPair:
		return hasOther(k.First) || hasOther(k.Rest)
	}
	return false
}

func knownKey(k any) bool {
	switch k := k.(type) {
	case Lin:
		return k.IsConst()
	case string, bool, OtherStr:
		return true
	case KeyEnd:
		return true
	case KeyPair:
		return knownKey(k.First) && knownKey(k.Rest)
	}
	return false
}

// boxed is the content of an interface value that holds a composite, if that
// is one of a few constants.
func (r *run) boxed(st *State, v Val) (dd.Ref, bool) {
	m := r.in.M
	var scalars func(v Val) bool
	scalars = func(v Val) bool {
		switch v := v.(type) {
		case dd.Ref:
			return len(m.Terms(m.Under(st.Guard, v))) <= 64
		case *Agg:
			for _, e := range v.E {
				if !scalars(e) {
					return false
				}
			}
			return len(v.E) <= 64
		}
		return false
	}
	if _, ok := v.(*Agg); !ok || !scalars(v) {
		return 0, false
	}
	ref := m.Under(st.Guard, r.mapKey(st, v))
	ts := m.Terms(ref)
	if len(ts) > 64 {
		return 0, false
	}
	for _, t := range ts {
		if t != m.Undef && !knownKey(m.Value(t)) {
			return 0, false
		}
	}
	return ref, true
}

// unbox is the value of a composite type that interface values hold where the
// condition is true, and zero elsewhere.
func (r *run) unbox(x, match dd.Ref, zero Val, part func(any) any) Val {
	m := r.in.M
	switch z := zero.(type) {
	case dd.Ref:
		return m.Bind2(nil, x, match, func(t, ok any) dd.Ref {
			if i, isI := t.(Iface); isI && ok == true {
				k := part(m.Value(i.V))
				if k == nil {
					panic(unsupported{"type assertion to a composite type whose value is not known"})
				}
				return m.Term(k)
			}
			return z
		})
	case *Agg:
		out := &Agg{}
		for n, e := range z.E {
			out.E = append(out.E, r.unbox(x, match, e, func(k any) any {
				k = part(k)
				for i := 0; ; i++ {
					p, ok := k.(KeyPair)
					if !ok {
						return nil
					}
					if i == n {
						return p.First
					}
					k = p.Rest
				}
			}))
		}
		return out
	}
	panic(unsupported{"type assertion to a composite type"})
}

// keyVal is the value of a key.
func (r *run) keyVal(k any) Val {
	a := &Agg{}
	if _, ok := k.(KeyEnd); ok {
		return a
	}
	p, ok := k.(KeyPair)
	if !ok {
		return r.in.M.Term(k)
	}
	for {
		a.E = append(a.E, r.keyVal(p.First))
		if p, ok = p.Rest.(KeyPair); !ok {
			return a
		}
	}
}

func (r *run) lookup(st *State, v *ssa.Lookup) Val {
	in, m := r.in, r.in.M
	mp := r.scalar(st, v.X)
	mt, isMap := v.X.Type().Underlying().(*types.Map)
	if !isMap {
		panic(unsupported{"map lookup"})
	}
	key := m.Under(st.Guard, r.mapKey(st, r.get(st, v.Index)))
	zero := in.Zero(mt.Elem())
	zr, scalarElem := zero.(dd.Ref)
	bv, one := r.single(st, mp)
	if !one {
		panic(unsupported{"lookup in an unknown map"})
	}
	var ma *MapAgg
	switch b := bv.(type) {
	case NilT:
		ma = &MapAgg{}
	case MapT:
		if _, mut := r.isMutable(b.Obj); mut {
			panic(unsupported{"lookup in a mutable map"})
		}
		mv, _ := r.memGet(st, b.Obj)
		ma, _ = mv.(*MapAgg)
	}
	if ma == nil {
		panic(unsupported{"lookup in an unknown map"})
	}
	find := func(k any) (Val, bool) {
		if !knownKey(k) {
			panic(unsupported{"map lookup with an unknown key"})
		}
		for i := range ma.Keys {
			if ma.Keys[i] == k {
				return ma.Vals[i], true
			}
		}
		return zero, false
	}
	found := m.Bind(nil, key, func(k any) dd.Ref { _, ok := find(k); return in.boolT(ok) })
	var val Val
	if scalarElem {
		_ = zr
		val = m.Bind(nil, key, func(k any) dd.Ref { x, _ := find(k); return x.(dd.Ref) })
	} else {
		for _, t := range m.Terms(key) {
			if t == m.Undef {
				continue
			}
			x, _ := find(m.Value(t))
			if val == nil {
				val = x
			} else {
				val = in.merge(m.Where(key, t), x, val)
			}
		}
		if val == nil {
			val = zero
		}
	}
	if v.CommaOk {
		return &Agg{E: []Val{val, found}}
	}
	return val
}

func (r *run) mapUpdate(st *State, ins *ssa.MapUpdate) {
	bv, one := r.single(st, r.scalar(st, ins.Map))
	mt, ok := bv.(MapT)
	if !one || !ok {
		panic(unsupported{"update of an unknown map"})
	}
	k, one := r.single(st, r.mapKey(st, r.get(st, ins.Key)))
	if !one || !knownKey(k) {
		panic(unsupported{"map update with an unknown key"})
	}
	old, own := st.Mem[mt.Obj].(*MapAgg)
	if !own {
		panic(unsupported{"update of a shared map"})
	}
	n := &MapAgg{Keys: append([]any(nil), old.Keys...), Vals: append([]Val(nil), old.Vals...)}
	v := r.get(st, ins.Value)
	for i := range n.Keys {
		if n.Keys[i] == k {
			if r.in.once[ins] && n.Vals[i] != v {
				panic(unsupported{"the content of a map depends on iteration order"})
			}
			n.Vals[i] = v
			st.Mem[mt.Obj] = n
			return
		}
	}
	n.Keys, n.Vals = append(n.Keys, k), append(n.Vals, v)
	st.Mem[mt.Obj] = n
}

func (r *run) slice(st *State, v *ssa.Slice) Val {
	in, m := r.in, r.in.M
	base := r.scalar(st, v.X)
	r.requireNonNil2(st, base, v)
	isStr := isString(v.X.Type())
	arrLen := int64(-1)
	if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		arrLen = p.Elem().Underlying().(*types.Array).Len()
	}
	asSlice := func(b any) Slice {
		switch b := b.(type) {
		case Slice:
			return b
		case Ptr:
			if b.Obj == InputObj {
				return Slice{Obj: InputObj, Lo: b.Pos, Hi: b.Pos.add(Num(arrLen)), Max: b.Pos.add(Num(arrLen))}
			}
			return Slice{Obj: b.Obj, Path: b.Path, Lo: Num(0), Hi: Num(arrLen), Max: Num(arrLen)}
		case NilT:
			return Slice{}
		}
		panic(unsupported{fmt.Sprintf("slice of %T", b)})
	}
	bound := func(x ssa.Value) dd.Ref {
		if x == nil {
			return m.Term(NilT{})
		}
		return r.scalar(st, x)
	}
	lo, hi, mx := bound(v.Low), bound(v.High), bound(v.Max)
	type trip struct{ lo, hi, mx any }
	ti := m.Bind2(nil, lo, hi, func(a, b any) dd.Ref { return m.Term(trip{a, b, NilT{}}) })
	if v.Max != nil {
		ti = m.Bind2(nil, ti, mx, func(a, b any) dd.Ref { t := a.(trip); t.mx = b; return m.Term(t) })
	}
	lin := func(x any) Lin {
		l, ok := x.(Lin)
		if !ok {
			panic(unsupported{"slice bound that is not known"})
		}
		return l
	}
	if isStr {
		if bv, one := r.single(st, base); one {
			if s, ok := bv.(string); ok {
				return m.Bind(nil, m.Under(st.Guard, ti), func(x any) dd.Ref {
					t := x.(trip)
					a, b := 0, len(s)
					if _, no := t.lo.(NilT); !no {
						a = int(lin(t.lo).K)
					}
					if _, no := t.hi.(NilT); !no {
						b = int(lin(t.hi).K)
					}
					if a < 0 || b < a || b > len(s) {
						panic(unsupported{"slice of a constant string out of range"})
					}
					return m.Term(s[a:b])
				})
			}
		}
	}
	ok := m.Bind2(nil, base, ti, func(b, x any) dd.Ref {
		s, t := asSlice(b), x.(trip)
		c := m.True
		n := s.Hi.sub(s.Lo)
		lim := n
		// Reslicing beyond the length (but within the capacity) exposes bytes
		// that are not part of the slice; it is treated as a failure.
		l, h := Num(0), n
		if _, no := t.lo.(NilT); !no {
			l = lin(t.lo)
		}
		if _, no := t.hi.(NilT); !no {
			h = lin(t.hi)
		}
		if s.Obj != InputObj {
			lim = s.Max.sub(s.Lo)
		}
		c = r.andU(c, r.cmp0(l, token.GEQ))
		c = r.andU(c, r.cmp0(h.sub(l), token.GEQ))
		if _, no := t.mx.(NilT); !no {
			k := lin(t.mx)
			c = r.andU(c, r.cmp0(k.sub(h), token.GEQ))
			c = r.andU(c, r.cmp0(s.Max.sub(s.Lo).sub(k), token.GEQ))
		}
		return r.andU(c, r.cmp0(lim.sub(h), token.GEQ))
	})
	r.require(st, ok, v.Pos(), "slice bounds out of range")
	base, ti = m.Under(st.Guard, base), m.Under(st.Guard, ti)
	return m.Bind2(nil, base, ti, func(b, x any) dd.Ref {
		if _, isNil := b.(NilT); isNil {
			return m.Term(NilT{})
		}
		s, t := asSlice(b), x.(trip)
		l, h, k := s.Lo, s.Hi, s.Max
		if _, no := t.lo.(NilT); !no {
			l = s.Lo.add(lin(t.lo))
		}
		if _, no := t.hi.(NilT); !no {
			h = s.Lo.add(lin(t.hi))
		}
		if _, no := t.mx.(NilT); !no {
			k = s.Lo.add(lin(t.mx))
		}
		_ = in
		return m.Term(Slice{Obj: s.Obj, Path: s.Path, Lo: l, Hi: h, Max: k, Str: s.Str, Fresh: s.Fresh})
	})
}

func (r *run) requireNonNil2(st *State, base dd.Ref, v *ssa.Slice) {
	if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		r.requireNonNil(st, base, v.Pos())
	}
}

func (r *run) typeAssert(st *State, v *ssa.TypeAssert) Val {
	in, m := r.in, r.in.M
	x := r.scalar(st, v.X)
	_, toIface := v.AssertedType.Underlying().(*types.Interface)
	match := m.Bind(nil, x, func(t any) dd.Ref {
		switch t := t.(type) {
		case NilT:
			return m.False
		case Iface:
			dyn := in.types[t.Type]
			if toIface {
				return in.boolT(types.Implements(dyn, v.AssertedType.Underlying().(*types.Interface)))
			}
			return in.boolT(types.Identical(dyn, v.AssertedType))
		}
		return in.freshBool()
	})
	part := func(k any) any { return k }
	if zero := in.Zero(v.AssertedType); !toIface {
		if a, ok := zero.(*Agg); ok {
			val := r.unbox(x, match, a, part)
			if v.CommaOk {
				return &Agg{E: []Val{val, match}}
			}
			r.require(st, match, v.Pos(), "type assertion fails")
			return val
		}
	}
	val := m.Bind2(nil, x, match, func(t, ok any) dd.Ref {
		if i, isI := t.(Iface); isI && ok == true {
			if toIface {
				return m.Term(i)
			}
			return i.V
		}
		if z, isRef := in.Zero(v.AssertedType).(dd.Ref); isRef {
			return z
		}
		panic(unsupported{"type assertion to a composite type"})
	})
	if v.CommaOk {
		return &Agg{E: []Val{val, match}}
	}
	r.require(st, match, v.Pos(), "type assertion fails")
	return val
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
