// Package prod compares transducers extracted by package absint with each
// other and with reference transducers, by walking their product.
package prod

import (
	"fmt"
	"sort"

	"verif/checker/absint"
	"verif/checker/dd"
)

// Kinds of results of a transducer run.
const (
	Running = iota
	More    // asks for more data
	Result  // reports a first cluster ending at K
	Either  // reference: More and Result(K) are both acceptable
	Any     // reference: nothing is required
	Weird   // a result that is none of the above
	Panicked
	Unknown
)

// Res is a result; K is relative to the cursor of the reporting state.
type Res struct {
	Kind int
	K    int
	Note string
}

func (r Res) String() string {
	switch r.Kind {
	case Running:
		return "still scanning"
	case More:
		return "asks for more data"
	case Result:
		return fmt.Sprintf("reports a boundary (offset %+d)", r.K)
	case Either:
		return "may report a boundary or wait"
	case Any:
		return "unconstrained"
	case Panicked:
		return "panics: " + r.Note
	case Unknown:
		return "not decided: " + r.Note
	}
	return "unexpected result: " + r.Note
}

// Move is one transition or result under a condition on the input at the cursor.
type Move struct {
	Guard dd.Ref
	To    int
	Delta int
	Res   Res // Kind != Running: finished
	Where string
}

// Machine is a transducer.
type Machine interface {
	Moves(s int) []Move
	Describe(s int) string
}

// PState is a state of the product.
type PState struct {
	A, B   int
	D      int // cursor of B minus cursor of A, while both run
	RA, RB Res
	F      dd.Ref // what is known about the input at the frame
	Org    int    // set when A has finished before B: identifies that event
}

type step struct {
	prev  int
	g     dd.Ref // condition in the previous frame
	shift int
	where string
}

// Finding is a product state rejected by the verdict.
type Finding struct {
	Property string // comma-separated
	Org      int
	What     string
	Where    string
	Witness  string
	Trace    []string
}

// Product explores a pair of machines.
type Product struct {
	In        *absint.Interp
	A, B      Machine
	TwoR      bool   // the machines run on buffers of different length
	Invariant dd.Ref // always holds (True if none)
	// Verdict judges a state in which both have finished, or in which going on
	// makes no sense; it returns "" if fine. final is false for early checks.
	Verdict func(s PState, final bool) (prop, what string)

	States, Steps int
	Findings      []Finding
	seen          map[PState]int
	list          []PState
	from          []step
	keys          map[string]bool
	Truncated     string
	TrackOrigin   bool // go on after A finished early, remembering where
	origins       int
}

// maxOrigins bounds how many early results are followed up individually.
const maxOrigins = 500

// Run explores from the given initial states.
func (p *Product) Run(init []PState) {
	m := p.In.M
	p.seen = map[PState]int{}
	if p.keys == nil {
		p.keys = map[string]bool{}
	}
	push := func(s PState, st step) {
		if s.F == m.False {
			return
		}
		if _, ok := p.seen[s]; ok {
			return
		}
		p.seen[s] = len(p.list)
		p.list = append(p.list, s)
		p.from = append(p.from, st)
	}
	for _, s := range init {
		push(s, step{prev: -1})
	}
	start := 0
	for i := start; i < len(p.list); i++ {
		s := p.list[i]
		p.States++
		final := s.RA.Kind != Running && s.RB.Kind != Running
		if prop, what := p.Verdict(s, final); prop != "" {
			p.report(i, prop, what)
			continue
		}
		if final || s.RB.Kind == Any || s.RA.Kind == Panicked && !p.TrackOrigin {
			continue
		}
		if len(p.list) > 400_000 {
			p.Truncated = "product too large"
			return
		}
		stepA := s.RA.Kind == Running && (s.RB.Kind != Running || s.D >= 0)
		var moves []Move
		if stepA {
			moves = p.A.Moves(s.A)
		} else {
			moves = p.B.Moves(s.B)
		}
		for _, mv := range moves {
			g := m.And(s.F, mv.Guard)
			g = p.noFresh(g)
			if g == m.False {
				continue
			}
			p.Steps++
			n := s
			// Positions in the current frame.
			posA, posB := 0, 0
			if s.RA.Kind == Running && s.RB.Kind == Running {
				if s.D >= 0 {
					posB = s.D
				} else {
					posA = -s.D
				}
			}
			if stepA {
				if mv.Res.Kind != Running {
					n.RA = mv.Res
				} else {
					n.A = mv.To
					posA += mv.Delta
				}
			} else {
				if mv.Res.Kind != Running {
					n.RB = mv.Res
				} else {
					n.B = mv.To
					posB += mv.Delta
				}
			}
			frame := 0
			switch {
			case n.RA.Kind == Running && n.RB.Kind == Running:
				frame = min(posA, posB)
				n.D = posB - posA
			case n.RA.Kind == Running:
				frame, n.D = posA, 0
			case n.RB.Kind == Running:
				frame, n.D = posB, 0
			default:
				n.D = 0
			}
			if frame < 0 {
				p.report(i, "", "the scan moves backwards at "+mv.Where)
				continue
			}
			n.RA.K, n.RB.K = clamp(n.RA, frame), clamp(n.RB, frame)
			if n.RA.Kind == Unknown {
				n.RA.Note = mv.Res.Note
			}
			if p.TwoR && n.RA.Kind != Running {
				// The short buffer's end no longer matters.
				g = m.Exists(g, absint.RLevel, absint.RLevel+absint.RBits)
			}
			n.F = p.Shift(g, frame)
			if p.Invariant != 0 {
				n.F = m.And(n.F, p.Invariant)
			}
			if p.TrackOrigin && n.RA.Kind == Result && n.RB.Kind == Running && n.Org == 0 {
				if p.origins >= maxOrigins {
					continue // violations are being reported already
				}
				p.origins++
				n.Org = p.origins
			}
			push(n, step{prev: i, g: g, shift: frame, where: mv.Where})
		}
	}
}

func clamp(r Res, frame int) int {
	switch r.Kind {
	case Result, Either:
		return max(r.K-frame, -24)
	}
	return 0
}

const freshFrom, freshTo = 400, 1 << 29

func (p *Product) noFresh(g dd.Ref) dd.Ref {
	return p.In.M.Exists(g, freshFrom, freshTo)
}

// Shift re-expresses a condition after the frame advances by d.
func (p *Product) Shift(g dd.Ref, d int) dd.Ref {
	if d == 0 {
		return g
	}
	m := p.In.M
	type shKey struct{ d int }
	if d >= absint.Window {
		g = m.Exists(g, absint.ByteLevel(0), freshTo)
	} else {
		g = m.Exists(g, absint.ByteLevel(0), absint.ByteLevel(d))
		g = m.Rename(shKey{d}, g, func(l int32) int32 {
			if l >= absint.ByteBase {
				return l - int32(8*d)
			}
			return l
		})
	}
	shiftR := func(get func(r int) dd.Ref) []dd.Ref {
		out := make([]dd.Ref, absint.RMax+2)
		for i := range out {
			out[i] = m.False
		}
		for r := 0; r <= absint.RMax+1; r++ {
			c := get(r)
			if c == m.False {
				continue
			}
			to := absint.ShiftR(r, d)
			for i := range out {
				if to>>uint(i)&1 == 1 {
					out[i] = m.Or(out[i], c)
				}
			}
		}
		return out
	}
	build := func(level int32, cs []dd.Ref) dd.Ref {
		return m.BitsVar(level, absint.RBits, func(v int) dd.Ref {
			if v > absint.RMax+1 {
				return m.False
			}
			return cs[v]
		})
	}
	if !p.TwoR {
		return build(absint.RLevel, shiftR(func(r int) dd.Ref { return m.Follow(g, absint.RLevel, absint.RBits, r) }))
	}
	// First the second run's length (below), then the first's.
	rows := make([]dd.Ref, absint.RMax+2)
	for r := range rows {
		row := m.Follow(g, absint.RLevel, absint.RBits, r)
		rows[r] = build(absint.R2Level, shiftR(func(r2 int) dd.Ref { return m.Follow(row, absint.R2Level, absint.RBits, r2) }))
	}
	return build(absint.RLevel, shiftR(func(r int) dd.Ref { return rows[r] }))
}

func (p *Product) report(i int, prop, what string) {
	s := p.list[i]
	where := p.from[i].where
	if s.Org != 0 {
		where = p.from[p.orgState(i)].where
	}
	key := prop + "|" + what + "|" + where
	if s.Org != 0 {
		key += fmt.Sprint("|", s.Org)
	}
	if p.keys[key] {
		return
	}
	p.keys[key] = true
	f := Finding{Property: prop, What: what, Where: where, Org: s.Org}
	f.Witness, f.Trace = p.witness(i)
	p.Findings = append(p.Findings, f)
}

// orgState finds the state in which A had just finished early.
func (p *Product) orgState(i int) int {
	o := p.list[i].Org
	for {
		q := p.from[i].prev
		if q < 0 || p.list[q].Org != o {
			return i
		}
		i = q
	}
}

// witness reconstructs input bytes that lead to product state i.
func (p *Product) witness(i int) (string, []string) {
	m := p.In.M
	// Frame-relative knowledge, going backwards.
	known := map[int32]bool{}
	var chunks [][]byte
	var trace []string
	first := true
	for i >= 0 {
		s := p.list[i]
		trace = append(trace, fmt.Sprintf("%s | %s", p.desc(p.A, s.A, s.RA), p.desc(p.B, s.B, s.RB)))
		if first {
			a, _ := m.Sat(s.F)
			for l, v := range a {
				if l >= absint.ByteBase {
					known[l] = v
				}
			}
			first = false
			// Bytes still in the window.
			chunks = append(chunks, bytesOf(known, 0, -1))
		}
		st := p.from[i]
		if st.prev < 0 {
			break
		}
		g := st.g
		nk := map[int32]bool{}
		for l, v := range known {
			nl := l + int32(8*st.shift)
			if nl < absint.ByteLevel(absint.Window) {
				c := m.Cofactor(g, nl, v)
				if c == m.False {
					continue
				}
				g = c
				nk[nl] = v
			}
		}
		a, _ := m.Sat(g)
		for l, v := range a {
			if _, ok := nk[l]; !ok && l >= absint.ByteBase {
				nk[l] = v
			}
		}
		if st.shift > 0 {
			chunks = append(chunks, bytesOf(nk, 0, st.shift))
		} else if len(chunks) == 1 {
			chunks[0] = bytesOf(nk, 0, -1)
		}
		known = nk
		i = st.prev
	}
	var all []byte
	for k := len(chunks) - 1; k >= 0; k-- {
		all = append(all, chunks[k]...)
	}
	for x, y := 0, len(trace)-1; x < y; x, y = x+1, y-1 {
		trace[x], trace[y] = trace[y], trace[x]
	}
	return fmt.Sprintf("% x", all), trace
}

func (p *Product) desc(m Machine, s int, r Res) string {
	if r.Kind == Running {
		return m.Describe(s)
	}
	return r.String()
}

func bytesOf(a map[int32]bool, from, n int) []byte {
	if n < 0 {
		n = 0
		for l := range a {
			if l >= absint.ByteBase && l < absint.ByteLevel(absint.Window) {
				n = max(n, int(l-absint.ByteBase)/8+1)
			}
		}
	}
	out := make([]byte, 0, n)
	for j := from; j < from+n; j++ {
		b := 0
		for k := 0; k < 8; k++ {
			b <<= 1
			if a[absint.ByteLevel(j)+int32(k)] {
				b |= 1
			}
		}
		out = append(out, byte(b))
	}
	return out
}

// Reset prepares for another exploration keeping the findings.
func (p *Product) Reset() {
	p.list, p.from = nil, nil
}

// Sorted returns the findings in a stable order.
func (p *Product) Sorted() []Finding {
	out := append([]Finding(nil), p.Findings...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].What < out[j].What })
	return out
}
