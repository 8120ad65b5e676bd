package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/dd"
	"verif/checker/load"
	"verif/checker/prod"
	"verif/checker/uax"
)

type tokenPos = token.Pos

// core holds the extraction of the split function.
type core struct {
	p     *load.Program
	fn    *ssa.Function
	in    *absint.Interp
	an    map[bool]*absint.Analysis
	table *uax.Table
}

// inlineStd lists the standard packages whose bodies are analysed like the
// repository's own.
var inlineStd = map[string]bool{
	"unicode/utf8": true, "bytes": true, "slices": true, "unicode": true, "math/bits": true,
	"cmp": true, "iter": true, "strings": true, "maps": true, "sort": true,
}

// Interp returns an interpreter for the main module.
func (c *Ctx) newInterp(p *load.Program, mutable func(*ssa.Global) bool) *absint.Interp {
	in := absint.New(p.Prog)
	in.Inline = func(fn *ssa.Function) bool {
		pk := fn.Pkg
		for q := fn; pk == nil && q != nil; {
			if o := q.Origin(); o != nil && o != q {
				q = o
			} else {
				q = q.Parent()
			}
			if q != nil {
				pk = q.Pkg
			}
		}
		if pk == nil {
			return true // wrappers and thunks
		}
		path := pk.Pkg.Path()
		return c.own(path) || inlineStd[path] || byteOrder(fn)
	}
	if mutable != nil {
		in.Mutable = mutable
	}
	in.Word32 = c.variant != nil && words32[c.variant.GOARCH]
	c.interps = append(c.interps, in)
	return in
}

// Core extracts the split function's transducers for the given values of atEOF.
func (c *Ctx) Core(eofs ...bool) *core {
	if c.core == nil {
		p := c.Main()
		fn := c.Func(p, "textseg", "ScanGraphemeClusters")
		if got := fn.Signature.String(); got != "func(data []byte, atEOF bool) (int, []byte, error)" &&
			!splitSig(fn) {
			fatalf("anchor", "ScanGraphemeClusters is not a split function: %s", got)
		}
		eff := c.Effects(p, c.apiRoots(p))
		in := c.newInterp(p, func(g *ssa.Global) bool { return eff.mutable(g) })
		c.core = &core{p: p, fn: fn, in: in, an: map[bool]*absint.Analysis{}, table: uax.Load()}
	}
	k := c.core
	for _, eof := range eofs {
		if k.an[eof] != nil {
			continue
		}
		data := absint.Slice{Obj: absint.InputObj, Lo: absint.Num(0), Hi: absint.Lin{R: 1}, Max: absint.Lin{R: 1, E: 1}}
		k.an[eof] = k.in.Analyse(k.fn, []absint.Val{k.in.M.Term(data), k.in.M.Term(eof)})
	}
	return k
}

func splitSig(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Params().Len() != 2 || s.Results().Len() != 3 || s.Recv() != nil {
		return false
	}
	t := func(i int) string { return s.Params().At(i).Type().Underlying().String() }
	u := func(i int) string { return s.Results().At(i).Type().Underlying().String() }
	return (t(0) == "[]byte" || t(0) == "[]uint8") && t(1) == "bool" && u(0) == "int" && (u(1) == "[]byte" || u(1) == "[]uint8") && strings.HasPrefix(u(2), "interface")
}

// coverage records what the extraction covered, and checks that it is usable.
func (k *core) coverage(c *Ctx, r *Report, eofs ...bool) {
	var fns []string
	for fn := range k.in.Analysed {
		if fn.Pkg != nil && c.own(fn.Pkg.Pkg.Path()) {
			fns = append(fns, fn.String())
		}
	}
	m := map[string]bool{}
	for _, f := range fns {
		m[f] = true
	}
	r.Note("functions_analysed", sortedKeys(m))
	for _, eof := range eofs {
		a := k.an[eof]
		outs := 0
		for _, x := range a.Ctxs {
			outs += len(x.Out)
		}
		r.Count("loop_contexts", len(a.Ctxs))
		r.Count("outcomes", outs)
		if a.Failed != "" {
			r.Fail("undecided", "fixpoint", c.rel(k.p.Prog.Fset.Position(k.fn.Pos()).String()), "no fixpoint: %s (%s)", a.Failed, strings.Join(a.Log, "; "))
		}
	}
	r.Note("decision_diagram_nodes", k.in.M.Size())
	r.Note("loops_summarised", k.an[eofs[0]].Cuts())
}

func (c *Ctx) addProd(r *Report, p *prod.Product, prop, rule string) {
	r.Count("product_states", p.States)
	r.Count("product_transitions", p.Steps)
	r.Ob(p.Steps)
	if p.Truncated != "" {
		r.Fail("undecided", "product", "", "%s", p.Truncated)
	}
	for _, f := range p.Sorted() {
		hit := f.Property == "*" || f.Property == ""
		for _, q := range strings.Split(f.Property, ",") {
			if q == prop {
				hit = true
			}
		}
		if !hit {
			continue
		}
		rl := rule
		if f.Property == "*" {
			rl = "undecided"
		}
		r.Add(Finding{Rule: rl, Key: rl + "|" + f.What, Where: c.rel(f.Where), What: f.What, Witness: f.Witness, Trace: f.Trace})
	}
}

func refRule(prop string, eofs ...bool) func(*Ctx, *Report) {
	return func(c *Ctx, r *Report) {
		k := c.Core(eofs...)
		k.coverage(c, r, eofs...)
		if len(r.Findings) > 0 {
			return
		}
		for _, eof := range eofs {
			p := prod.AgainstReference(k.in, k.an[eof], k.table, eof)
			c.addProd(r, p, prop, fmt.Sprintf("reference(atEOF=%v)", eof))
		}
		r.Rules = append(r.Rules, "Every outcome of every loop context of the split function, under every condition on the bytes at the cursor, agrees with the UAX #29 reference transducer at the same position.")
		coreAssumptions(r)
	}
}

func coreAssumptions(r *Report) {
	r.Assume = append(r.Assume,
		"The Go compiler implements the SSA form that golang.org/x/tools/go/ssa derives from the source.",
		"The pinned Unicode 17 classes and the UAX #29 rules in checker/uax are right (cross-checked against the Go 1.27 unicode tables and the conformance test file when they were made).",
		"len(data) is below 2^63, so that positions do not overflow.")
}

const absAbout = "Abstract interpretation of the SSA form of ScanGraphemeClusters and everything it calls, with decision-diagram values over the bytes near the cursor and the remaining length, joined at merges and cut at loop heads, gives a finite transducer that covers every input of every length. "

func init() {
	register("C01", absAbout+"Its product with a reference transducer for UAX #29 over pinned Unicode 17 classes, started in every left context in which a cluster can begin, is searched exhaustively for a disagreement about a boundary. Sound and complete up to the assumptions; no bound on the text.", refRule("C01", false, true))
	register("C06", absAbout+"In its product with the reference, wherever a byte at the cursor is malformed, the reported cluster must be exactly that byte, or end before it.", refRule("C06", false, true))
	register("C17", absAbout+"In its product with the reference, wherever the reference has a boundary decided by a complete next character or by a malformed byte, the code must report it in that call.", refRule("C17", false))
	register("C03", absAbout+"The product of the transducer for a buffer that is not final with those for every longer buffer, final or not, is searched for a cluster that changes or disappears.", func(c *Ctx, r *Report) {
		k := c.Core(false, true)
		k.coverage(c, r, false, true)
		if len(r.Findings) > 0 {
			return
		}
		for _, eof := range []bool{false, true} {
			p := prod.ChunkIndependence(k.in, k.an[false], k.an[eof])
			c.addProd(r, p, "C03", fmt.Sprintf("prefix-stability(longer buffer atEOF=%v)", eof))
		}
		r.Rules = append(r.Rules, "A boundary reported for a buffer is reported at the same place for every extension of the buffer.")
		coreAssumptions(r)
	})
	register("C02", absAbout+"On every feasible outcome the three results are either (0, nil, nil) or a positive advance, within the buffer, with the token being the view data[0:advance] and a nil error.", func(c *Ctx, r *Report) {
		c.outcomes(r, "C02")
	})
	register("C23", absAbout+"In it the cursor never moves back and cannot stay where it is; each result lies within a fixed distance of the cursor reached, or is the whole buffer; and nothing takes the rest of the buffer as a whole.", func(c *Ctx, r *Report) {
		c.outcomes(r, "C23")
	})
	register("C04", absAbout+"No feasible outcome is a panic (index, slice, nil, conversion, explicit), and every returned error is nil; reads beyond the buffer's length are panics or undecided here.", func(c *Ctx, r *Report) {
		c.outcomes(r, "C04")
	})
	register("C05", absAbout+"At end of input, a non-empty buffer gives a positive advance with a token and an empty one gives (0, nil, nil); and no cycle among the loop contexts can be passed without moving the cursor forward. Loops that are not cut are bounded because their enumeration ended.", func(c *Ctx, r *Report) {
		c.outcomes(r, "C05")
	})
}

// outcomes checks the outcomes of the split function one by one.
func (c *Ctx) outcomes(r *Report, prop string) {
	k := c.Core(false, true)
	k.coverage(c, r, false, true)
	if len(r.Findings) > 0 {
		return
	}
	in, m := k.in, k.in.M
	for _, eof := range []bool{false, true} {
		n := 0
		p := prod.Walk(in, k.an[eof], func(v prod.Visit) string {
			n++
			switch v.Out.Kind {
			case absint.Undecided:
				return "the outcome is not decided: " + v.Out.Reason
			case absint.Panic:
				if prop == "C04" || prop == "C02" || prop == "C05" && eof {
					return "can panic: " + v.Out.Reason
				}
				return ""
			}
			switch prop {
			case "C02":
				return partition(in, v)
			case "C23":
				return nearCursor(in, v)
			case "C04":
				if e, ok := v.Out.Vals[2].(dd.Ref); ok {
					for _, t := range m.Terms(m.Under(v.Guard, e)) {
						if t == m.Undef {
							continue
						}
						if _, isNil := m.Value(t).(absint.NilT); !isNil {
							return "returns a non-nil error"
						}
					}
					return ""
				}
				return "returns an error that is not understood"
			case "C05":
				if !eof {
					return ""
				}
				d := prod.RelResult(in, v.Ctx.AtStart(), v.Guard, v.Out.Vals)
				more := m.WhereFn(m.Under(v.Guard, d), func(x any) bool {
					q, ok := x.(prod.Res)
					return ok && q.Kind != prod.Result
				})
				// Empty: no bytes remain and none were passed.
				empty := m.False
				if v.Ctx.AtStart() {
					empty = in.RIn(1)
				}
				if m.And(v.Guard, m.And(more, m.Not(empty))) != m.False {
					return "at end of input, a non-empty buffer yields no token with a positive advance"
				}
				if m.And(v.Guard, m.And(m.Not(more), empty)) != m.False {
					return "an empty buffer yields a token"
				}
				odd := m.WhereFn(m.Under(v.Guard, d), func(x any) bool {
					q, ok := x.(prod.Res)
					return ok && q.Kind != prod.Result && q.Kind != prod.More
				})
				if m.And(v.Guard, odd) != m.False {
					return "an empty buffer does not yield (0, nil, nil)"
				}
			}
			return ""
		})
		r.Count("outcomes_checked", n)
		r.Count("walk_states", p.States)
		r.Ob(n)
		if p.Truncated != "" {
			r.Fail("undecided", "walk", "", "%s", p.Truncated)
		}
		for _, f := range p.Sorted() {
			if f.Property == "C05" && prop != "C05" && prop != "C23" {
				continue
			}
			r.Add(Finding{Rule: fmt.Sprintf("outcome(atEOF=%v)", eof), Key: "outcome|" + f.What, Where: c.rel(f.Where), What: f.What, Witness: f.Witness, Trace: f.Trace})
		}
	}
	if prop == "C23" {
		var ops []ssa.Instruction
		for ins := range in.Bulk {
			if v, ok := ins.(*ssa.Convert); ok && onlyCompared(v) {
				continue
			}
			ops = append(ops, ins)
		}
		sort.Slice(ops, func(i, j int) bool { return ops[i].Pos() < ops[j].Pos() })
		for _, ins := range ops {
			r.Fail("bulk", ins.Parent().String()+"|"+in.Bulk[ins], c.rel(k.p.Prog.Fset.Position(ins.Pos()).String()), "%s %s, however short the cluster is", ins.Parent(), in.Bulk[ins])
		}
		r.Count("bulk_operations", len(in.Bulk))
	}
	switch prop {
	case "C23":
		r.Rules = append(r.Rules,
			"No step of the transducer moves the cursor back, and no cycle leaves it in place.",
			"Every result ends within a constant distance of the cursor, or at the end of the buffer, or asks for more data.",
			"No conversion or call takes a view of the buffer whose length is not bounded.")
	case "C02":
		r.Rules = append(r.Rules, "Results are (0,nil,nil) or (n, data[0:n], nil) with 1 <= n <= len(data).")
	case "C04":
		r.Rules = append(r.Rules, "No panic outcome is feasible and the error result is nil.")
	case "C05":
		r.Rules = append(r.Rules, "At end of input: data empty <=> (0,nil,nil), else a token of at least one byte.", "No cycle of loop contexts leaves the cursor in place.")
	}
	coreAssumptions(r)
}

// onlyCompared reports whether a conversion's result is only compared with
// constants, which neither copies nor looks at more than their length.
func onlyCompared(v *ssa.Convert) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if !isCompare(x.Op) || constLen(x.X) < 0 && constLen(x.Y) < 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// nearCursor checks one Return outcome against C23: what was scanned is at
// most a constant longer than what is reported.
func nearCursor(in *absint.Interp, v prod.Visit) string {
	m := in.M
	adv, ok := v.Out.Vals[0].(dd.Ref)
	if !ok {
		return "the results are not understood"
	}
	if v.Ctx.AtStart() {
		return "" // nothing but the bytes near the start has been looked at
	}
	tok, _ := v.Out.Vals[1].(dd.Ref)
	complaint := ""
	for _, t := range m.Terms(m.Under(v.Guard, adv)) {
		if t == m.Undef {
			continue
		}
		l, ok := m.Value(t).(absint.Lin)
		switch {
		case !ok:
			complaint = "the advance is not known"
		case l.R == 1 || l.C == 1:
		case l == absint.Num(0) && in.M.And(v.Guard, m.And(m.Where(adv, t), m.Not(m.WhereFn(tok, func(x any) bool {
			_, isNil := x.(absint.NilT)
			return isNil
		})))) == m.False:
		default:
			complaint = fmt.Sprintf("a cluster of %d bytes is reported after scanning arbitrarily far", l.K)
		}
	}
	return complaint
}

// partition checks one Return outcome against C02.
func partition(in *absint.Interp, v prod.Visit) string {
	m := in.M
	adv, ok1 := v.Out.Vals[0].(dd.Ref)
	tok, ok2 := v.Out.Vals[1].(dd.Ref)
	errv, ok3 := v.Out.Vals[2].(dd.Ref)
	if !ok1 || !ok2 || !ok3 {
		return "the results are not understood"
	}
	start := v.Ctx.AtStart()
	complaint := ""
	d := m.Bind2(nil, m.Under(v.Guard, adv), m.Under(v.Guard, tok), func(a, t any) dd.Ref {
		bad := func(format string, args ...any) dd.Ref {
			return m.Term(prod.Res{Kind: prod.Weird, Note: fmt.Sprintf(format, args...)})
		}
		l, ok := a.(absint.Lin)
		if !ok {
			return bad("the advance is %v", a)
		}
		if start {
			l.C = 0
		}
		if l == absint.Num(0) {
			if _, isNil := t.(absint.NilT); isNil {
				return m.True
			}
			return bad("advance 0 comes with a token that is not nil")
		}
		sl, ok := t.(absint.Slice)
		if !ok {
			return bad("advance %s comes with token %v", l, t)
		}
		if start {
			sl.Lo.C, sl.Hi.C = 0, 0
		}
		if sl.Obj != absint.InputObj || sl.Str || sl.Lo != absint.Num(0) {
			return bad("the token is not the beginning of the buffer")
		}
		return in.RClass(func(rv int, exact bool) dd.Ref {
			// Values at this remaining length; cursor and, beyond the exact
			// classes, the length stay symbolic.
			x, y := l, sl.Hi
			if exact {
				x.K += int64(x.R) * int64(rv)
				y.K += int64(y.R) * int64(rv)
				x.R, y.R = 0, 0
			}
			if x != y {
				return bad("advance %s but the token ends at %s", l, sl.Hi)
			}
			cmin := int64(v.Ctx.CMin)
			if start {
				cmin = 0
			}
			// 1 <= x
			low := x.K
			if x.C == 1 {
				low += cmin
			} else if x.C != 0 {
				return bad("advance %s", l)
			}
			if !exact {
				low += int64(x.R) * int64(rv)
			}
			if x.R < 0 || x.E != 0 || low < 1 {
				return bad("the advance %s may be less than 1", l)
			}
			// x <= cursor + remaining
			rem := int64(rv)
			slack := rem - x.K // remaining minus constant part, given C = 1
			switch {
			case x.C == 1 && x.R == 0:
				if slack < 0 {
					return bad("the advance %s may exceed the buffer", l)
				}
			case x.C == 1 && x.R == 1:
				if x.K > 0 {
					return bad("the advance %s may exceed the buffer", l)
				}
			case x.C == 0 && x.R == 0:
				if x.K > rem+cmin {
					return bad("the advance %s may exceed the buffer", l)
				}
			case x.C == 0 && x.R == 1:
				if x.K > cmin {
					return bad("the advance %s may exceed the buffer", l)
				}
			default:
				return bad("advance %s", l)
			}
			return m.True
		})
	})
	for _, t := range m.Terms(m.Under(v.Guard, d)) {
		if t == m.Undef || t == m.True {
			continue
		}
		if q, ok := m.Value(t).(prod.Res); ok {
			complaint = q.Note
		}
	}
	for _, t := range m.Terms(m.Under(v.Guard, errv)) {
		if t == m.Undef {
			continue
		}
		if _, isNil := m.Value(t).(absint.NilT); !isNil {
			complaint = "an error accompanies the result"
		}
	}
	return complaint
}
