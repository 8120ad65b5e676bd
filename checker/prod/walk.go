package prod

import (
	"verif/checker/absint"
	"verif/checker/dd"
)

// Visit is an outcome reached with what is known about the input.
type Visit struct {
	Ctx     *absint.Ctx
	Out     absint.Outcome
	Guard   dd.Ref
	Witness string
	Trace   []string
}

// idle is the machine that never moves.
type idle struct{}

func (idle) Moves(int) []Move    { return nil }
func (idle) Describe(int) string { return "" }

// Walk explores the extracted transducer alone and calls visit for every
// feasible outcome that ends the call (Return, Panic, Undecided). visit
// returns a complaint, or "". Loops that need not consume input are reported
// with the property C05.
func Walk(in *absint.Interp, an *absint.Analysis, visit func(Visit) string) *Product {
	p := &Product{In: in, A: &Impl{In: in, An: an}, B: idle{}}
	m := in.M
	p.Verdict = func(s PState, final bool) (string, string) { return "", "" }
	p.Run([]PState{{A: 0, RB: Res{Kind: More}, F: in.RIn(absint.AllR)}})
	// Outcomes.
	for i, s := range p.list {
		if s.RA.Kind != Running {
			continue
		}
		c := an.Ctxs[s.A]
		for _, o := range c.Out {
			if o.Kind == absint.Continue {
				continue
			}
			g := m.And(s.F, o.Guard)
			if g == m.False {
				continue
			}
			if what := visit(Visit{Ctx: c, Out: o, Guard: g}); what != "" {
				p.list = append(p.list[:len(p.list):len(p.list)], PState{A: s.A, RA: Res{Kind: Weird, Note: what}, F: p.noFresh(g)})
				p.from = append(p.from[:len(p.from):len(p.from)], step{prev: i, g: p.noFresh(g), where: in.Prog.Fset.Position(o.Pos).String()})
				p.report(len(p.list)-1, "", what)
				p.list, p.from = p.list[:len(p.list)-1], p.from[:len(p.from)-1]
			}
		}
	}
	// Loops without progress: cycles of zero-shift steps among running states.
	succ := map[int][]int{}
	imp := p.A.(*Impl)
	for i, s := range p.list {
		if s.RA.Kind != Running {
			continue
		}
		for _, mv := range imp.Moves(s.A) {
			if mv.Res.Kind != Running || mv.Delta > 0 {
				continue
			}
			g := p.noFresh(m.And(s.F, mv.Guard))
			if g == m.False {
				continue
			}
			if j, ok := p.seen[PState{A: mv.To, RB: Res{Kind: More}, F: p.Shift(g, 0)}]; ok {
				succ[i] = append(succ[i], j)
			}
		}
	}
	color := map[int]int{}
	var dfs func(i int)
	dfs = func(i int) {
		color[i] = 1
		for _, j := range succ[i] {
			switch color[j] {
			case 0:
				dfs(j)
			case 1:
				p.report(j, "C05", "a pass of the scanning loop can consume no input and repeat")
			}
		}
		color[i] = 2
	}
	for i := range p.list {
		if color[i] == 0 && len(succ[i]) > 0 {
			dfs(i)
		}
	}
	return p
}
