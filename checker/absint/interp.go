package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/checker/dd"
)

// Layout of the input variables.
const (
	RLevel    = 0 // class of the number of remaining bytes
	R2Level   = 4 // the same for a second run, in product constructions
	RBits     = 4
	RMax      = 12 // exact classes 0..RMax; RMax+1 stands for anything larger
	ByteBase  = 8
	Window    = 12
	freshBase = 400
)

// ByteLevel returns the first variable of the byte at offset j from the cursor.
func ByteLevel(j int) int32 { return int32(ByteBase + 8*j) }

// Interp holds what is shared by all analyses of one program.
type Interp struct {
	M       *dd.Mgr
	Prog    *ssa.Program
	paths   *pathTab
	ext     map[extKey]PathID
	typeMap typeutil.Map
	types   []types.Type
	fresh   int32
	opaqueN int
	fns     map[*ssa.Function]*fnInfo

	base    map[ObjID]Val // shared memory as set up by package initialisers
	globals map[*ssa.Global]ObjID
	gbyID   map[ObjID]*ssa.Global
	objs    map[objKey]ObjID
	nobj    ObjID
	inited  map[*ssa.Package]bool
	initBad map[*ssa.Package]string

	// Mutable reports whether code other than initialisers may change a global.
	Mutable func(*ssa.Global) bool
	// Inline reports whether a function's body is to be analysed.
	Inline func(*ssa.Function) bool
	// Extern models a call whose body is not analysed.
	Extern func(st *State, call ssa.CallInstruction, fn *ssa.Function, args []Val) (Val, bool)
	// once holds the stores and map updates in loops over maps, which may set
	// each location only once, so that the order does not matter.
	once map[ssa.Instruction]bool

	// Fold computes a call of a function without a body here, whose arguments
	// are all constants (a string, Num, bool, Boxed, or a []any of those).
	Fold func(fn *ssa.Function, args []any) (any, bool)

	// Bulk records the operations that take a view of the input as a whole, of
	// a length that is not bounded.
	Bulk map[ssa.Instruction]string

	bytes    [Window]dd.Ref
	Steps    int
	tuples   [][]dd.Ref
	tupleIdx map[string]int32
	tupExt   map[tupExt]tupT

	// Analysed collects the functions whose bodies were analysed.
	Analysed map[*ssa.Function]bool

	// Word32 says that the program is built for a platform with 32-bit words.
	Word32 bool
	// WordSensitive is set when a value arises that is not the same with words
	// of 32 bits.
	WordSensitive bool

	// Ranged collects the loops over maps that were followed in initialisers.
	Ranged map[*ssa.Range]bool
}

type objKey struct {
	depth int
	ins   ssa.Instruction
	gen   int
	sub   string
}

// New returns an interpreter for prog.
func New(prog *ssa.Program) *Interp {
	in := &Interp{
		M: dd.New(), Prog: prog, paths: newPathTab(), ext: map[extKey]PathID{},
		fresh: freshBase, fns: map[*ssa.Function]*fnInfo{},
		base: map[ObjID]Val{}, globals: map[*ssa.Global]ObjID{}, gbyID: map[ObjID]*ssa.Global{},
		objs: map[objKey]ObjID{}, nobj: InputObj, inited: map[*ssa.Package]bool{}, initBad: map[*ssa.Package]string{},
		Mutable:  func(*ssa.Global) bool { return false },
		Inline:   func(*ssa.Function) bool { return true },
		Analysed: map[*ssa.Function]bool{},
		Ranged:   map[*ssa.Range]bool{},
	}
	for j := 0; j < Window; j++ {
		in.bytes[j] = in.M.BitsVar(ByteLevel(j), 8, func(v int) dd.Ref { return in.num(int64(v)) })
	}
	return in
}

// Byte is the diagram of the byte at offset j from the cursor.
func (in *Interp) Byte(j int) dd.Ref { return in.bytes[j] }

// RClass builds a diagram over the remaining-length class.
func (in *Interp) RClass(f func(v int, exact bool) dd.Ref) dd.Ref {
	return in.M.BitsVar(RLevel, RBits, func(v int) dd.Ref {
		if v > RMax+1 {
			return in.M.Undef
		}
		return f(v, v <= RMax)
	})
}

// RIn is the condition that the remaining-length class is in the bit set.
func (in *Interp) RIn(set uint32) dd.Ref {
	return in.M.BitsVar(RLevel, RBits, func(v int) dd.Ref {
		return in.boolT(v <= RMax+1 && set>>uint(v)&1 == 1)
	})
}

// AllR is the set of all remaining-length classes.
const AllR = uint32(1<<(RMax+2)) - 1

// bulk notes that ins handles the whole of v.
func (r *run) bulk(st *State, ins ssa.Instruction, v Val, what string) {
	in, m := r.in, r.in.M
	d, ok := v.(dd.Ref)
	if !ok {
		return
	}
	for _, t := range m.Terms(m.Under(st.Guard, d)) {
		if t == m.Undef {
			continue
		}
		if i, ok := m.Value(t).(Iface); ok {
			r.bulk(st, ins, i.V, what)
			continue
		}
		s, ok := m.Value(t).(Slice)
		if !ok || s.Obj != InputObj || s.Hi.sub(s.Lo).IsConst() {
			continue
		}
		if in.Bulk == nil {
			in.Bulk = map[ssa.Instruction]string{}
		}
		in.Bulk[ins] = what
	}
}

func (in *Interp) newObj(k objKey) ObjID {
	if id, ok := in.objs[k]; ok {
		return id
	}
	in.nobj++
	in.objs[k] = in.nobj
	return in.nobj
}

func (in *Interp) globalObj(g *ssa.Global) ObjID {
	if id, ok := in.globals[g]; ok {
		return id
	}
	in.nobj++
	in.globals[g] = in.nobj
	in.gbyID[in.nobj] = g
	in.base[in.nobj] = in.Zero(g.Type().(*types.Pointer).Elem())
	return in.nobj
}

// Frame is an activation record.
type Frame struct {
	Fn    *ssa.Function
	Block *ssa.BasicBlock
	IP    int
	Regs  map[ssa.Value]Val
	Call  ssa.CallInstruction // pending call in this frame, if a callee is active
}

// State is an abstract program state with its path condition.
type State struct {
	Guard  dd.Ref
	Frames []*Frame
	Mem    map[ObjID]Val
}

func (st *State) top() *Frame { return st.Frames[len(st.Frames)-1] }

func (st *State) fork() *State {
	n := &State{Guard: st.Guard, Mem: make(map[ObjID]Val, len(st.Mem))}
	for k, v := range st.Mem {
		n.Mem[k] = v
	}
	for _, f := range st.Frames {
		g := *f
		g.Regs = make(map[ssa.Value]Val, len(f.Regs))
		for k, v := range f.Regs {
			g.Regs[k] = v
		}
		n.Frames = append(n.Frames, &g)
	}
	return n
}

// Kind classifies outcomes.
type Kind int

const (
	Return Kind = iota
	Continue
	Panic
	Undecided
)

func (k Kind) String() string { return [...]string{"return", "continue", "panic", "undecided"}[k] }

// Outcome is one way in which a run from a context ends.
type Outcome struct {
	Guard  dd.Ref
	Kind   Kind
	Vals   []Val // Return
	Next   *Ctx  // Continue
	Delta  int   // Continue: how far the cursor moved
	Pos    token.Pos
	Fn     *ssa.Function
	Reason string // Panic, Undecided
}

// Ctx is a cut point with a finite carried state; contexts and their outcomes
// form a finite transducer over the input.
type Ctx struct {
	ID   int
	Desc string
	RSet uint32
	CMin int
	Out  []Outcome
	// Point and Line name the loop the context belongs to.
	Point, Line string

	entry bool
	zero  bool // the cursor is at the start of the input
	tmpl  *State
	dirty bool
}

// Entry reports whether this is the start of the analysed function.
func (c *Ctx) Entry() bool { return c.entry }

// AtStart reports whether the cursor is known to be at the start of the input.
func (c *Ctx) AtStart() bool { return c.entry || c.zero }

type cutKey struct {
	fn *ssa.Function
	b  int
}

const (
	hypRel = iota + 1
	hypConst
	hypMixed
)

type cutInfo struct {
	seq    int
	hyp    map[string]int
	flips  map[string]int
	both   map[string][]int64 // constants that may be positions: the distances seen
	cursor int
	ncand  int
	ks     map[string]map[int64]bool
	opaque map[string]bool
}

type restart struct{ why string }

// Analysis is the fixpoint computation for one root function.
type Analysis struct {
	in    *Interp
	Root  *ssa.Function
	Args  []Val
	Ctxs  []*Ctx
	keys  map[string]*Ctx
	cuts  map[cutKey]*cutInfo
	ncuts int

	Restarts int
	Log      []string
	// Failed is set if no fixpoint was reached.
	Failed string
}

// Analyse computes the outcomes of calling fn with args.
func (in *Interp) Analyse(fn *ssa.Function, args []Val) *Analysis {
	in.EnsureBuilt(fn)
	a := &Analysis{in: in, Root: fn, Args: args, cuts: map[cutKey]*cutInfo{}}
	for {
		if a.attempt() {
			return a
		}
		a.Restarts++
		if a.Restarts > 80 {
			a.Failed = "no stable loop invariant found: " + strings.Join(a.Log, "; ")
			return a
		}
	}
}

// Cuts returns the loops that were summarised by an invariant.
func (a *Analysis) Cuts() []string {
	var out []string
	for k := range a.cuts {
		out = append(out, fmt.Sprintf("%s: loop at block %d (%s)", k.fn, k.b, a.in.posOfBlock(k.fn.Blocks[k.b])))
	}
	sort.Strings(out)
	return out
}

func (in *Interp) posOfBlock(b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return in.Prog.Fset.Position(i.Pos()).String()
		}
	}
	return in.Prog.Fset.Position(b.Parent().Pos()).String()
}

func (a *Analysis) attempt() (done bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case restart:
				a.Log = append(a.Log, e.why)
				done = false
			case dd.ErrLimit:
				a.Failed = "decision-diagram node budget exhausted"
				done = true
			default:
				panic(e)
			}
		}
	}()
	for _, ci := range a.cuts {
		ci.ks = nil
	}
	a.Ctxs = nil
	a.keys = map[string]*Ctx{}
	st := &State{Mem: map[ObjID]Val{}}
	fr := &Frame{Fn: a.Root, Block: a.Root.Blocks[0], Regs: map[ssa.Value]Val{}}
	for i, p := range a.Root.Params {
		fr.Regs[p] = a.Args[i]
	}
	st.Frames = []*Frame{fr}
	start := &Ctx{ID: 0, Desc: "entry of " + a.Root.Name(), RSet: AllR, entry: true, tmpl: st, dirty: true}
	a.Ctxs = []*Ctx{start}
	for {
		var c *Ctx
		for _, x := range a.Ctxs {
			if x.dirty {
				c = x
				break
			}
		}
		if c == nil {
			return true
		}
		c.dirty = false
		a.runCtx(c)
		if len(a.Ctxs) > 3000 {
			a.Failed = "too many carried states"
			return true
		}
	}
}

type run struct {
	in       *Interp
	a        *Analysis
	ctx      *Ctx
	pending  []*State
	visits   map[string]int
	forgot   map[Lin]dd.Ref
	initMode bool
	steps    int
}

func (a *Analysis) runCtx(c *Ctx) {
	in := a.in
	r := &run{in: in, a: a, ctx: c, visits: map[string]int{}, forgot: map[Lin]dd.Ref{}}
	c.Out = nil
	st := c.tmpl.fork()
	st.Guard = in.RIn(c.RSet)
	r.pending = []*State{st}
	r.loop()
}

func (r *run) loop() {
	for len(r.pending) > 0 {
		best := 0
		for i := 1; i < len(r.pending); i++ {
			if r.less(r.pending[i], r.pending[best]) {
				best = i
			}
		}
		st := r.pending[best]
		r.pending = append(r.pending[:best], r.pending[best+1:]...)
		if st.Guard == r.in.M.False {
			continue
		}
		r.step(st)
	}
}

func (r *run) less(x, y *State) bool {
	n := min(len(x.Frames), len(y.Frames))
	for i := 0; i < n; i++ {
		f, g := x.Frames[i], y.Frames[i]
		if f.Fn != g.Fn {
			return f.Fn.String() < g.Fn.String()
		}
		if f.Block != g.Block {
			fi := r.in.info(f.Fn)
			return fi.order[f.Block.Index] < fi.order[g.Block.Index]
		}
		if f.IP != g.IP {
			return f.IP < g.IP
		}
	}
	return len(x.Frames) < len(y.Frames)
}

func samePoint(x, y *State) bool {
	if len(x.Frames) != len(y.Frames) {
		return false
	}
	for i, f := range x.Frames {
		g := y.Frames[i]
		if f.Fn != g.Fn || f.Block != g.Block || f.IP != g.IP {
			return false
		}
	}
	return true
}

func (r *run) enqueue(st *State) {
	if st.Guard == r.in.M.False {
		return
	}
	for _, p := range r.pending {
		if samePoint(p, st) {
			r.mergeInto(p, st)
			return
		}
	}
	r.pending = append(r.pending, st)
}

func (r *run) mergeInto(p, s *State) {
	in := r.in
	g := p.Guard
	for i, f := range p.Frames {
		h := s.Frames[i]
		for k, v := range h.Regs {
			if w, ok := f.Regs[k]; ok {
				if w != v {
					f.Regs[k] = in.merge(g, w, v)
				}
			} else {
				f.Regs[k] = v
			}
		}
	}
	for k, v := range s.Mem {
		if w, ok := p.Mem[k]; ok {
			if w != v {
				p.Mem[k] = in.merge(g, w, v)
			}
		} else {
			p.Mem[k] = v
		}
	}
	p.Guard = in.M.Or(g, s.Guard)
}

func (r *run) out(o Outcome) {
	if o.Guard != r.in.M.False {
		r.ctx.Out = append(r.ctx.Out, o)
	}
}

func (r *run) undecided(st *State, pos token.Pos, format string, args ...any) {
	r.out(Outcome{Guard: st.Guard, Kind: Undecided, Reason: fmt.Sprintf(format, args...), Pos: pos, Fn: st.top().Fn})
	st.Guard = r.in.M.False
}

// require records a panic where cond fails, and continues where it holds.
func (r *run) require(st *State, cond dd.Ref, pos token.Pos, what string) {
	m := r.in.M
	cond = r.resolve(st, cond)
	bad := m.And(st.Guard, m.Not(m.Under(st.Guard, cond)))
	if bad != m.False {
		r.out(Outcome{Guard: bad, Kind: Panic, Reason: what, Pos: pos, Fn: st.top().Fn})
	}
	st.Guard = m.And(st.Guard, cond)
}

// resolve replaces undecided comparisons by unknown booleans, unless summarising
// a loop may decide them.
func (r *run) resolve(st *State, cond dd.Ref) dd.Ref {
	m := r.in.M
	u := m.WhereFn(cond, func(v any) bool { _, ok := v.(undecidedT); return ok })
	if u == m.False {
		return cond
	}
	rep := m.False
	if m.And(st.Guard, u) != m.False {
		r.needCut(st)
		rep = r.in.freshBool()
	}
	return m.ITE(u, rep, cond)
}

// needCut requests that the outermost repeated loop active in st be summarised.
func (r *run) needCut(st *State) {
	if r.initMode {
		return
	}
	prefix := ""
	for _, f := range st.Frames {
		fi := r.in.info(f.Fn)
		for _, h := range fi.enclosing[f.Block.Index] {
			if r.visits[prefix+headKey(f.Fn, h)] >= 2 {
				if _, ok := r.a.cuts[cutKey{f.Fn, h.Index}]; !ok {
					r.cut(f.Fn, h)
				}
			}
		}
		prefix += fmt.Sprintf("%s:%d:%d/", f.Fn, f.Block.Index, f.IP)
	}
}

func (r *run) cut(fn *ssa.Function, h *ssa.BasicBlock) {
	r.a.ncuts++
	r.a.cuts[cutKey{fn, h.Index}] = &cutInfo{seq: r.a.ncuts, hyp: map[string]int{}, flips: map[string]int{}, both: map[string][]int64{}}
	panic(restart{fmt.Sprintf("summarise loop of %s at block %d", fn.Name(), h.Index)})
}

// dropLater forgets the loops that were summarised after ci, whose invariant
// was not right then.
func (a *Analysis) dropLater(ci *cutInfo) {
	for k, x := range a.cuts {
		if x.seq > ci.seq {
			delete(a.cuts, k)
		}
	}
}

func headKey(fn *ssa.Function, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s@%d", fn, h.Index)
}

func (r *run) noteVisit(st *State) {
	f := st.top()
	fi := r.in.info(f.Fn)
	if !fi.heads[f.Block.Index] {
		return
	}
	prefix := ""
	for _, g := range st.Frames[:len(st.Frames)-1] {
		prefix += fmt.Sprintf("%s:%d:%d/", g.Fn, g.Block.Index, g.IP)
	}
	k := prefix + headKey(f.Fn, f.Block)
	r.visits[k]++
	if !r.initMode && r.visits[k] > 24 {
		if _, ok := r.a.cuts[cutKey{f.Fn, f.Block.Index}]; !ok {
			r.cut(f.Fn, f.Block)
		}
	}
}

func (r *run) goTo(st *State, succ int) {
	f := st.top()
	b := f.Block
	t := b.Succs[succ]
	// Identify the incoming edge (b may precede t more than once).
	nth := 0
	for i := 0; i < succ; i++ {
		if b.Succs[i] == t {
			nth++
		}
	}
	edge := -1
	for i, p := range t.Preds {
		if p == b {
			if nth == 0 {
				edge = i
				break
			}
			nth--
		}
	}
	fi := r.in.info(f.Fn)
	nr := map[ssa.Value]Val{}
	ip := 0
	for _, ins := range t.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ip++
		if fi.entryLive[t.Index][p] {
			nr[p] = r.raw(st, p.Edges[edge])
		}
	}
	for v := range fi.entryLive[t.Index] {
		if _, done := nr[v]; done {
			continue
		}
		if x, ok := f.Regs[v]; ok {
			nr[v] = x
		}
	}
	f.Regs = nr
	f.Block, f.IP = t, ip
	if !r.initMode {
		if ci, ok := r.a.cuts[cutKey{f.Fn, t.Index}]; ok && fi.heads[t.Index] {
			r.arrive(st, ci)
			return
		}
	}
	r.enqueue(st)
}

// get fetches the value of v.
func (r *run) get(st *State, v ssa.Value) Val { return r.plain(st, r.raw(st, v)) }

// raw fetches a value that may be given by its bits.
func (r *run) raw(st *State, v ssa.Value) Val {
	in := r.in
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		in.ensureInit(v.Pkg)
		return in.M.Term(Ptr{Obj: in.globalObj(v)})
	case *ssa.Function:
		return in.M.Term(FuncT{Fn: v})
	}
	x, ok := st.top().Regs[v]
	if !ok {
		panic(fmt.Sprintf("absint: %s: value %s not available", st.top().Fn, v.Name()))
	}
	return x
}

// scalar fetches a scalar restricted to the path condition.
func (r *run) scalar(st *State, v ssa.Value) dd.Ref {
	x := r.get(st, v)
	ref, ok := x.(dd.Ref)
	if !ok {
		panic(fmt.Sprintf("absint: %s in %s is not a scalar", v.Name(), st.top().Fn))
	}
	return r.in.M.Under(st.Guard, ref)
}

// EnsureBuilt makes sure that fn has SSA code.
func (in *Interp) EnsureBuilt(fn *ssa.Function) {
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

// ensureInit runs a package's initialiser abstractly to learn the values of its
// package-level variables.
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	p.Build()
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	if !in.Inline(fn) {
		in.initBad[p] = "initialiser not analysed"
		return
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			in.globalObj(g)
		}
	}
	r := &run{in: in, a: &Analysis{in: in, cuts: map[cutKey]*cutInfo{}}, ctx: &Ctx{entry: true}, visits: map[string]int{}, forgot: map[Lin]dd.Ref{}, initMode: true}
	st := &State{Guard: in.M.True, Mem: in.base, Frames: []*Frame{{Fn: fn, Block: fn.Blocks[0], Regs: map[ssa.Value]Val{}}}}
	r.pending = []*State{st}
	r.loop()
	for _, o := range r.ctx.Out {
		if o.Kind != Return {
			in.initBad[p] = fmt.Sprintf("%s: %s", o.Kind, o.Reason)
		}
	}
}

// InitProblem reports why a package's initial values are not known, if so.
func (in *Interp) InitProblem(p *ssa.Package) string {
	in.ensureInit(p)
	return in.initBad[p]
}

// interval evaluates a Lin over one class of remaining length.
func (r *run) interval(l Lin, rv int, exact bool) (lo, hi float64) {
	lo, hi = float64(l.K), float64(l.K)
	addRange := func(c int8, a, b float64) {
		if c == 0 {
			return
		}
		x, y := float64(c)*a, float64(c)*b
		if c < 0 {
			x, y = y, x
		}
		lo += x
		hi += y
	}
	if exact {
		addRange(l.R, float64(rv), float64(rv))
	} else {
		addRange(l.R, float64(rv), math.Inf(1))
	}
	if r.ctx.AtStart() {
		addRange(l.C, 0, 0)
	} else {
		addRange(l.C, float64(r.ctx.CMin), math.Inf(1))
	}
	addRange(l.E, 0, math.Inf(1))
	return
}

// cmp0 compares l with zero.
func (r *run) cmp0(l Lin, op token.Token) dd.Ref {
	in := r.in
	und := in.M.Term(undecidedT{})
	dec := func(lo, hi float64) dd.Ref {
		var t, f bool
		switch op {
		case token.LSS:
			t, f = hi < 0, lo >= 0
		case token.LEQ:
			t, f = hi <= 0, lo > 0
		case token.GTR:
			t, f = lo > 0, hi <= 0
		case token.GEQ:
			t, f = lo >= 0, hi < 0
		case token.EQL:
			t, f = lo == 0 && hi == 0, lo > 0 || hi < 0
		case token.NEQ:
			t, f = lo > 0 || hi < 0, lo == 0 && hi == 0
		}
		switch {
		case t:
			return in.M.True
		case f:
			return in.M.False
		}
		return und
	}
	if l.R == 0 {
		return dec(r.interval(l, 0, true))
	}
	return in.RClass(func(v int, exact bool) dd.Ref { return dec(r.interval(l, v, exact)) })
}

// concretize turns an integer depending only on the remaining length into
// constants where possible.
func (r *run) concretize(l Lin) dd.Ref {
	in := r.in
	if l.IsConst() {
		return in.num(l.K)
	}
	if l.E != 0 || (l.C != 0 && !r.ctx.AtStart()) {
		in.opaqueN++
		return in.M.Term(Opaque{Tag: fmt.Sprintf("int#%d", in.opaqueN)})
	}
	in.opaqueN++
	op := in.M.Term(Opaque{Tag: fmt.Sprintf("int#%d", in.opaqueN)})
	return in.RClass(func(v int, exact bool) dd.Ref {
		if !exact {
			return op
		}
		return in.num(l.K + int64(l.R)*int64(v))
	})
}

// inputByte returns the byte at an absolute input position.
func (r *run) inputByte(pos Lin) dd.Ref {
	in := r.in
	at := func(off int64) dd.Ref {
		switch {
		case off >= 0 && off < Window:
			return in.bytes[off]
		case off >= Window:
			return in.M.Term(farByteT{})
		}
		return r.forgotten(Num(off))
	}
	rel := pos
	if r.ctx.AtStart() {
		rel.C = 0
	} else {
		rel.C -= 1
	}
	if rel.E != 0 || rel.C != 0 {
		return r.forgotten(pos)
	}
	if rel.R == 0 {
		return at(rel.K)
	}
	return in.RClass(func(v int, exact bool) dd.Ref {
		if !exact {
			return in.M.Term(farByteT{})
		}
		return at(rel.K + int64(rel.R)*int64(v))
	})
}

func (r *run) forgotten(k Lin) dd.Ref {
	if x, ok := r.forgot[k]; ok {
		return x
	}
	x := r.in.Unknown(types.Typ[types.Uint8], "forgotten byte").(dd.Ref)
	r.forgot[k] = x
	return x
}

// resolveFar replaces bytes beyond the window by unknown ones, unless
// summarising a loop may bring them into the window.
func (r *run) resolveFar(st *State, x dd.Ref) dd.Ref {
	m := r.in.M
	u := m.WhereFn(x, func(v any) bool { _, ok := v.(farByteT); return ok })
	if u == m.False {
		return x
	}
	rep := r.in.num(0)
	if m.And(st.Guard, u) != m.False {
		r.needCut(st)
		rep = r.in.Unknown(types.Typ[types.Uint8], "far byte").(dd.Ref)
	}
	return m.ITE(u, rep, x)
}
