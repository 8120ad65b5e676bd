package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/load"
)

// Effects is a flow-insensitive, inclusion-based points-to analysis of the
// functions reachable from a set of roots, with the sites that write memory,
// call out of the analysed code, or are otherwise not pure.
type Effects struct {
	c    *Ctx
	prog *ssa.Program

	Roots []*ssa.Function
	// Fns are the functions analysed; Init marks those that only package
	// initialisation reaches.
	Fns  map[*ssa.Function]bool
	Live map[*ssa.Function]bool // reachable from the roots
	Why  map[*ssa.Function]*ssa.Function

	pts      map[any]objset // ssa.Value or *object (its contents)
	objs     map[any]*object
	changed  bool
	late     bool
	addrTkn  map[*ssa.Function]bool
	retNodes map[*ssa.Function][]any

	Writes map[ssa.Instruction]objset
	Exts   []Ext // calls of functions that are not analysed
	seenX  map[string]bool
	Calls  map[ssa.CallInstruction][]*ssa.Function
	mut    map[*ssa.Global]bool
}

// Ext is a call out of the analysed code.
type Ext struct {
	From *ssa.Function
	At   ssa.CallInstruction
	Fn   *ssa.Function // nil if unknown
	Name string
}

type object struct {
	what string
	site ssa.Value
	glob *ssa.Global
	in   *ssa.Function // where allocated
	size int64         // -1 unknown
	fn   *ssa.Function // function or closure
	inp  bool
}

func (o *object) String() string { return o.what }

type objset map[*object]bool

// bodyStd lists the standard packages whose bodies are analysed.
var bodyStd = inlineStd

// fnPkg is the package a function's code belongs to.
func fnPkg(fn *ssa.Function) *ssa.Package {
	for q := fn; q != nil; q = q.Parent() {
		if q.Pkg != nil {
			return q.Pkg
		}
		if o := q.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func fnPkgPath(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

// apiRoots lists the exported functions and methods of the public packages of
// the main module.
func (c *Ctx) apiRoots(p *load.Program) []*ssa.Function {
	var out []*ssa.Function
	for path, sp := range p.SSA {
		if !c.own(path) || strings.Contains(path, "/internal/") || sp.Pkg.Name() == "main" {
			continue
		}
		out = append(out, exportedFuncs(p.Prog, sp)...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func exportedFuncs(prog *ssa.Program, sp *ssa.Package) []*ssa.Function {
	sp.Build()
	var out []*ssa.Function
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if token.IsExported(m.Name()) {
				out = append(out, m)
			}
		case *ssa.Type:
			if !token.IsExported(m.Name()) {
				continue
			}
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Exported() {
						if fn := prog.MethodValue(ms.At(i)); fn != nil {
							out = append(out, fn)
						}
					}
				}
			}
		}
	}
	return out
}

func (c *Ctx) analysed(fn *ssa.Function) bool {
	path := fnPkgPath(fn)
	return path == "" || c.own(path) || bodyStd[path]
}

// Effects analyses what is reachable from roots, and the initialisers of the
// repository's packages involved.
func (c *Ctx) Effects(p *load.Program, roots []*ssa.Function) *Effects {
	e := &Effects{c: c, prog: p.Prog, Roots: roots, Fns: map[*ssa.Function]bool{}, Live: map[*ssa.Function]bool{}, Why: map[*ssa.Function]*ssa.Function{},
		pts: map[any]objset{}, objs: map[any]*object{}, addrTkn: map[*ssa.Function]bool{}, retNodes: map[*ssa.Function][]any{},
		Writes: map[ssa.Instruction]objset{}, seenX: map[string]bool{}, Calls: map[ssa.CallInstruction][]*ssa.Function{}}
	var work []*ssa.Function
	add := func(fn, from *ssa.Function, live bool) {
		if fn == nil {
			return
		}
		if !e.Fns[fn] {
			e.Fns[fn] = true
			e.Why[fn] = from
			work = append(work, fn)
			if fn.Pkg != nil {
				fn.Pkg.Build()
			}
		}
		if live && !e.Live[fn] {
			e.Live[fn] = true
			work = append(work, fn)
		}
	}
	inits := map[*ssa.Package]bool{}
	for _, fn := range roots {
		add(fn, nil, true)
		for i, prm := range fn.Params {
			_ = i
			o := e.obj(prm, func() *object {
				return &object{what: "the caller's " + prm.Name(), site: prm, in: fn, size: -1, inp: true}
			})
			e.addObj(prm, o)
			// What a parameter refers to may in turn refer to itself.
			e.addObj(o, o)
		}
	}
	for {
		for len(work) > 0 {
			fn := work[len(work)-1]
			work = work[:len(work)-1]
			if pk := fnPkg(fn); pk != nil && !inits[pk] && c.own(pk.Pkg.Path()) {
				inits[pk] = true
				pk.Build()
				if i := pk.Func("init"); i != nil {
					add(i, nil, false)
				}
			}
			live := e.Live[fn]
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function), fn, live)
					}
					var ops [16]*ssa.Value
					for _, op := range ins.Operands(ops[:0]) {
						if f, ok := (*op).(*ssa.Function); ok {
							if call, isCall := ins.(ssa.CallInstruction); !isCall || call.Common().Value != f || argUses(call, f) {
								e.addrTkn[f] = true
								if c.analysed(f) {
									add(f, fn, live)
								}
							}
						}
						if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && c.own(g.Pkg.Pkg.Path()) && !inits[g.Pkg] {
							inits[g.Pkg] = true
							g.Pkg.Build()
							if i := g.Pkg.Func("init"); i != nil {
								add(i, nil, false)
							}
						}
					}
					if call, ok := ins.(ssa.CallInstruction); ok {
						for _, t := range e.targets(call) {
							if c.analysed(t) {
								if t.Name() == "init" && t.Synthetic != "" && fn.Name() == "init" {
									if c.own(fnPkgPath(t)) {
										add(t, fn, live)
									}
									continue
								}
								add(t, fn, live)
							}
						}
					}
				}
			}
		}
		e.changed = false
		for fn := range e.Fns {
			e.constrain(fn)
		}
		// Newly resolved dynamic calls bring in more functions.
		n := len(e.Fns) + len(e.Live)
		for fn := range e.Fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok {
						for _, t := range e.targets(call) {
							if c.analysed(t) && !(t.Name() == "init" && t.Synthetic != "") {
								add(t, fn, e.Live[fn])
							}
						}
					}
				}
			}
		}
		if !e.changed && len(e.Fns)+len(e.Live) == n && len(work) == 0 {
			if e.late {
				break
			}
			e.late = true // what is not resolved by now is not known
		}
	}
	e.collect()
	return e
}

func argUses(call ssa.CallInstruction, f *ssa.Function) bool {
	for _, a := range call.Common().Args {
		if a == ssa.Value(f) {
			return true
		}
	}
	return false
}

func (e *Effects) obj(key any, mk func() *object) *object {
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := mk()
	e.objs[key] = o
	return o
}

func (e *Effects) addObj(node any, o *object) {
	s := e.pts[node]
	if s == nil {
		s = objset{}
		e.pts[node] = s
	}
	if !s[o] {
		s[o] = true
		e.changed = true
	}
}

func (e *Effects) flow(dst any, src objset) {
	for o := range src {
		e.addObj(dst, o)
	}
}

// hasRefs reports whether values of a type can refer to memory.
func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// Pts returns what a value may refer to.
func (e *Effects) Pts(v ssa.Value) objset {
	switch v := v.(type) {
	case *ssa.Global:
		return objset{e.obj(v, func() *object {
			return &object{what: "package variable " + v.String(), glob: v, size: -1}
		}): true}
	case *ssa.Function:
		return objset{e.obj(v, func() *object { return &object{what: "function " + v.String(), fn: v} }): true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	return e.pts[v]
}

// Contents returns what the memory of an object may refer to.
func (e *Effects) Contents(o *object) objset { return e.pts[o] }

// Closure returns everything reachable from a set.
func (e *Effects) Closure(s objset) objset {
	out := objset{}
	var work []*object
	for o := range s {
		out[o] = true
		work = append(work, o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for q := range e.pts[o] {
			if !out[q] {
				out[q] = true
				work = append(work, q)
			}
		}
	}
	return out
}

// targets resolves the callees of a call as far as they are known.
func (e *Effects) targets(call ssa.CallInstruction) []*ssa.Function {
	c := call.Common()
	var out []*ssa.Function
	switch {
	case c.IsInvoke():
		for o := range e.Pts(c.Value) {
			if o.site == nil {
				continue
			}
			if mi, ok := o.site.(*ssa.MakeInterface); ok {
				if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && !types.Implements(mi.X.Type(), it) {
					continue // an object that cannot be this value
				}
				if fn := e.prog.LookupMethod(mi.X.Type(), c.Method.Pkg(), c.Method.Name()); fn != nil {
					out = append(out, fn)
				}
			}
		}
	default:
		if fn, ok := c.Value.(*ssa.Function); ok {
			return []*ssa.Function{fn}
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
		for o := range e.Pts(c.Value) {
			if o.fn != nil {
				out = append(out, o.fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (e *Effects) alloc(v ssa.Value, what string, fn *ssa.Function) *object {
	return e.obj(v, func() *object {
		size := int64(-1)
		if a, ok := v.(*ssa.Alloc); ok {
			if arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				size = arr.Len()
			}
		}
		return &object{what: what, site: v, in: fn, size: size}
	})
}

func (e *Effects) loadAll(dst ssa.Value, from objset) {
	for o := range from {
		e.flow(dst, e.pts[o])
	}
}

func (e *Effects) constrain(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch v := ins.(type) {
			case *ssa.Alloc:
				e.addObj(v, e.alloc(v, "local "+v.Comment, fn))
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
				e.addObj(v, e.alloc(v.(ssa.Value), "allocation", fn))
			case *ssa.MakeClosure:
				f := v.Fn.(*ssa.Function)
				o := e.obj(v, func() *object { return &object{what: "closure " + f.String(), site: v, in: fn, fn: f, size: -1} })
				e.addObj(v, o)
				for i, bnd := range v.Bindings {
					e.flow(f.FreeVars[i], e.Pts(bnd))
					e.flow(o, e.Pts(bnd))
				}
			case *ssa.MakeInterface:
				o := e.alloc(v, "interface value", fn)
				e.addObj(v, o)
				if hasRefs(v.X.Type()) {
					e.flow(v, e.Pts(v.X))
				}
			case *ssa.Phi:
				for _, x := range v.Edges {
					e.flow(v, e.Pts(x))
				}
			case *ssa.FieldAddr:
				e.flow(v, e.Pts(v.X))
			case *ssa.IndexAddr:
				e.flow(v, e.Pts(v.X))
			case *ssa.Slice:
				e.flow(v, e.Pts(v.X))
			case *ssa.ChangeType:
				e.flow(v, e.Pts(v.X))
			case *ssa.ChangeInterface:
				e.flow(v, e.Pts(v.X))
			case *ssa.SliceToArrayPointer:
				e.flow(v, e.Pts(v.X))
			case *ssa.MultiConvert:
				e.flow(v, e.Pts(v.X))
			case *ssa.Convert:
				from, to := v.X.Type().Underlying(), v.Type().Underlying()
				_, fromB := from.(*types.Basic)
				if _, toSlice := to.(*types.Slice); toSlice && fromB {
					e.addObj(v, e.alloc(v, "converted copy", fn))
				} else if hasRefs(v.Type()) {
					e.flow(v, e.Pts(v.X))
				}
			case *ssa.TypeAssert:
				e.flow(v, e.Pts(v.X))
			case *ssa.Extract:
				if hasRefs(v.Type()) {
					e.flow(v, e.Pts(v.Tuple))
				}
			case *ssa.Field:
				if hasRefs(v.Type()) {
					e.flow(v, e.Pts(v.X))
				}
			case *ssa.Index:
				if hasRefs(v.Type()) {
					e.flow(v, e.Pts(v.X))
				}
			case *ssa.Lookup:
				if hasRefs(v.Type()) {
					e.loadAll(v, e.Pts(v.X))
				}
			case *ssa.Range:
				e.flow(v, e.Pts(v.X))
			case *ssa.Next:
				if hasRefs(v.Type()) {
					e.loadAll(v, e.Pts(v.Iter))
				}
			case *ssa.UnOp:
				switch v.Op {
				case token.MUL, token.ARROW:
					if hasRefs(v.Type()) {
						e.loadAll(v, e.Pts(v.X))
					}
				}
			case *ssa.Store:
				if hasRefs(v.Val.Type()) {
					for o := range e.Pts(v.Addr) {
						e.flow(o, e.Pts(v.Val))
					}
				}
			case *ssa.MapUpdate:
				for o := range e.Pts(v.Map) {
					e.flow(o, e.Pts(v.Key))
					e.flow(o, e.Pts(v.Value))
				}
			case *ssa.Send:
				for o := range e.Pts(v.Chan) {
					e.flow(o, e.Pts(v.X))
				}
			case *ssa.Select:
				for _, s := range v.States {
					if s.Send != nil {
						for o := range e.Pts(s.Chan) {
							e.flow(o, e.Pts(s.Send))
						}
					} else {
						e.loadAll(v, e.Pts(s.Chan))
					}
				}
			case ssa.CallInstruction:
				e.callConstraints(fn, v)
			}
		}
	}
}

func (e *Effects) callConstraints(fn *ssa.Function, call ssa.CallInstruction) {
	c := call.Common()
	res := call.Value()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			o := e.alloc(res, "append result", fn)
			e.addObj(res, o)
			e.flow(res, e.Pts(c.Args[0]))
			st := c.Args[0].Type().Underlying().(*types.Slice)
			if hasRefs(st.Elem()) {
				for q := range e.Pts(c.Args[0]) {
					e.flow(o, e.pts[q])
				}
				if len(c.Args) > 1 {
					for q := range e.Pts(c.Args[1]) {
						e.flow(o, e.pts[q])
						for d := range e.Pts(c.Args[0]) {
							e.flow(d, e.pts[q])
						}
					}
				}
			}
		case "copy":
			if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasRefs(st.Elem()) {
				for d := range e.Pts(c.Args[0]) {
					for q := range e.Pts(c.Args[1]) {
						e.flow(d, e.pts[q])
					}
				}
			}
		case "min", "max", "len", "cap", "print", "println", "panic", "delete", "clear", "close", "recover", "complex", "real", "imag":
		default:
			if res != nil {
				for _, a := range c.Args {
					e.flow(res, e.Pts(a))
				}
			}
		}
		return
	}
	args := c.Args
	for _, t := range e.targets(call) {
		if !e.c.analysed(t) || len(t.Blocks) == 0 {
			e.external(call, t)
			continue
		}
		ps := t.Params
		as := args
		if c.IsInvoke() {
			if len(ps) > 0 {
				e.flow(ps[0], e.Pts(c.Value))
				ps = ps[1:]
			}
		}
		for i, p := range ps {
			if i < len(as) && hasRefs(p.Type()) {
				e.flow(p, e.Pts(as[i]))
			}
		}
		if res != nil && hasRefs(res.Type()) {
			for _, b := range t.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range r.Results {
						if hasRefs(x.Type()) {
							e.flow(res, e.Pts(x))
						}
					}
				}
			}
			if t.Recover != nil {
				for _, x := range t.Recover.Instrs {
					if r, ok := x.(*ssa.Return); ok {
						for _, y := range r.Results {
							e.flow(res, e.Pts(y))
						}
					}
				}
			}
		}
	}
	if e.late && len(e.targets(call)) == 0 {
		e.external(call, nil)
	}
}

// freshResults names functions whose results alias none of their arguments.
func freshResults(name string) bool {
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "errors.New", "(*bufio.Scanner).Text", "(*bufio.Scanner).Err", "(*bufio.Scanner).Scan":
		return true
	}
	return false
}

func (e *Effects) external(call ssa.CallInstruction, t *ssa.Function) {
	res := call.Value()
	if res == nil || !hasRefs(res.Type()) {
		return
	}
	name := ""
	if t != nil {
		name = fnName(t)
	}
	o := e.obj(res, func() *object {
		n := name
		if n == "" {
			n = "an unknown function"
		}
		return &object{what: "result of " + n, site: res, in: call.Parent(), size: -1}
	})
	e.addObj(res, o)
	if t != nil && freshResults(name) {
		return
	}
	c := call.Common()
	if c.IsInvoke() {
		e.flow(res, e.Pts(c.Value))
		e.flow(o, e.Pts(c.Value))
	}
	for _, a := range c.Args {
		if hasRefs(a.Type()) {
			e.flow(res, e.Pts(a))
			e.flow(o, e.Pts(a))
		}
	}
}

// collect gathers write sites and external calls.
func (e *Effects) collect() {
	w := func(ins ssa.Instruction, s objset) {
		if len(s) > 0 {
			e.Writes[ins] = s
		}
	}
	for fn := range e.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch v := ins.(type) {
				case *ssa.Store:
					w(v, e.Pts(v.Addr))
				case *ssa.MapUpdate:
					w(v, e.Pts(v.Map))
				case *ssa.Send:
					w(v, e.Pts(v.Chan))
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := call.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if len(c.Args) > 1 || true {
							w(call, e.Pts(c.Args[0]))
						}
					case "copy", "delete", "clear", "close":
						w(call, e.Pts(c.Args[0]))
					case "print", "println":
						e.Exts = append(e.Exts, Ext{From: fn, At: call, Name: "builtin " + bi.Name()})
					}
					continue
				}
				ts := e.targets(call)
				e.Calls[call] = ts
				for _, t := range ts {
					if t.Name() == "init" && t.Synthetic != "" {
						continue // the import graph is checked separately
					}
					if !e.c.analysed(t) || len(t.Blocks) == 0 {
						e.Exts = append(e.Exts, Ext{From: fn, At: call, Fn: t, Name: fnName(t)})
					}
				}
				if len(ts) == 0 || (c.IsInvoke() && !e.fullyKnown(c.Value)) || (!c.IsInvoke() && c.StaticCallee() == nil && !e.fullyKnown(c.Value)) {
					name := "a function value that is not known"
					if c.IsInvoke() {
						name = "method " + c.Method.FullName() + " of an unknown type"
					}
					e.Exts = append(e.Exts, Ext{From: fn, At: call, Name: name})
				}
			}
		}
	}
	sort.Slice(e.Exts, func(i, j int) bool {
		a, b := e.Exts[i], e.Exts[j]
		if a.At.Pos() != b.At.Pos() {
			return a.At.Pos() < b.At.Pos()
		}
		return a.Name < b.Name
	})
}

// fullyKnown reports whether all a function or interface value may hold was
// created in the analysed code.
func (e *Effects) fullyKnown(v ssa.Value) bool {
	s := e.Pts(v)
	if len(s) == 0 {
		return false
	}
	for o := range s {
		if o.inp || strings.HasPrefix(o.what, "result of ") {
			return false
		}
	}
	return true
}

// protected is the memory that calls must not write: the callers' buffers and
// everything reachable from package variables.
func (e *Effects) protected() (inp, glob objset) {
	inp, glob = objset{}, objset{}
	for _, o := range e.objs {
		switch {
		case o.inp:
			inp[o] = true
		case o.glob != nil:
			glob[o] = true
		}
	}
	glob = e.Closure(glob)
	for o := range glob {
		if o.fn != nil && o.site == nil {
			delete(glob, o)
		}
	}
	return inp, glob
}

// mutable reports whether live code writes memory of a package variable.
func (e *Effects) mutable(g *ssa.Global) bool {
	if v, ok := e.mut[g]; ok {
		return v
	}
	if e.mut == nil {
		e.mut = map[*ssa.Global]bool{}
	}
	v := e.isMutable(g)
	e.mut[g] = v
	return v
}

func (e *Effects) isMutable(g *ssa.Global) bool {
	o := e.objs[g]
	if o == nil {
		return false
	}
	mine := e.Closure(objset{o: true})
	for ins, s := range e.Writes {
		if !e.Live[ins.Parent()] {
			continue
		}
		for q := range s {
			if mine[q] && q.size != 0 {
				return true
			}
		}
	}
	return false
}

// path describes how a function is reached.
func (e *Effects) path(fn *ssa.Function) string {
	var parts []string
	for f := fn; f != nil && len(parts) < 12; f = e.Why[f] {
		parts = append(parts, f.String())
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " -> ")
}

func (e *Effects) at(pos token.Pos) string {
	return e.c.rel(e.prog.Fset.Position(pos).String())
}

var _ = ssautil.AllFunctions
var _ = fmt.Sprint

// called are the functions that running the roots may execute, as opposed to
// those whose values are only stored somewhere.
func (e *Effects) called() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), e.Roots...)
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if out[fn] {
			continue
		}
		out[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				work = append(work, e.targets(call)...)
				// A function handed to a call may be called by it.
				for _, a := range call.Common().Args {
					for o := range e.Pts(a) {
						if o.fn != nil {
							work = append(work, o.fn)
						}
					}
				}
			}
		}
	}
	return out
}
