package prod

import (
	"fmt"
	"strings"

	"verif/checker/absint"
	"verif/checker/dd"
	"verif/checker/uax"
)

// AgainstReference walks the product of the extracted split function with the
// reference and returns the deviations, each labelled with the property it
// breaks: C01 (rules), C06 (malformed input), C17 (promptness), C05 (progress).
func AgainstReference(in *absint.Interp, an *absint.Analysis, t *uax.Table, eof bool) *Product {
	sp := NewSpec(in, t, eof)
	p := &Product{In: in, A: &Impl{In: in, An: an}, B: sp}
	p.TrackOrigin = true
	p.Verdict = func(s PState, final bool) (string, string) {
		a, b := s.RA, s.RB
		owner := "C01"
		if b.Kind != Running && strings.HasPrefix(b.Note, NoteBad) {
			owner = "C06"
		}
		if a.Kind == Unknown {
			return "*", "the outcome is not decided: " + a.Note
		}
		if !final {
			if b.Kind == Result && a.Kind == Running && b.K <= -20 {
				return owner, fmt.Sprintf("scanning continues past a boundary required by %s", ruleOf(b))
			}
			return "", ""
		}
		if b.Kind == Any {
			return "", ""
		}
		switch a.Kind {
		case Panicked:
			return owner, "panics instead of following the rules: " + a.Note
		case Weird:
			return owner, a.Note
		}
		switch b.Kind {
		case More:
			switch a.Kind {
			case More:
				return "", ""
			case Result:
				if b.Note == NoteNone {
					return "C05", "a token is reported for an empty buffer"
				}
				return "C01", "a boundary is reported before the input decides it"
			}
		case Result:
			switch a.Kind {
			case Result:
				if a.K == b.K {
					return "", ""
				}
				if s.Org != 0 {
					return owner, "a boundary is reported where the rules have none"
				}
				return owner, fmt.Sprintf("the cluster ends elsewhere than required by %s", ruleOf(b))
			case More:
				if eof {
					return owner + ",C05", "at end of input, more data is requested instead of reporting the cluster required by " + ruleOf(b)
				}
				return "C17", fmt.Sprintf("more data is requested although %s decides the boundary", ruleOf(b))
			}
		case Either:
			switch a.Kind {
			case More:
				return "", ""
			case Result:
				if a.K == b.K {
					return "", ""
				}
				return owner, fmt.Sprintf("the cluster ends elsewhere than allowed by %s", ruleOf(b))
			}
		}
		return owner, fmt.Sprintf("code %s, reference %s", a, b)
	}
	var init []PState
	for _, b := range sp.Starts() {
		init = append(init, PState{A: 0, B: b, F: in.RIn(absint.AllR)})
	}
	p.Run(init)
	p.attribute()
	return p
}

// attribute settles whom an early boundary concerns: if it also occurs in
// well-formed text, the rules are broken, whatever malformed input may follow;
// if it takes malformed input to provoke it, its handling is.
func (p *Product) attribute() {
	rules := map[int]bool{}
	for _, f := range p.Findings {
		if f.Org != 0 && f.Property == "C01" {
			rules[f.Org] = true
		}
	}
	seen := map[string]bool{}
	var out []Finding
	for _, f := range p.Findings {
		if f.Org != 0 {
			if rules[f.Org] && f.Property != "C01" {
				continue
			}
			k := f.Property + "|" + f.What + "|" + f.Where
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out = append(out, f)
	}
	p.Findings = out
}

func ruleOf(r Res) string {
	if f := strings.Fields(r.Note); len(f) == 2 {
		return "rule " + f[1]
	}
	if strings.HasPrefix(r.Note, NoteBad) {
		return "the malformed byte rule"
	}
	return "the end of the text"
}

// ChunkIndependence walks the product of the split function on a buffer with
// the split function on every longer buffer.
func ChunkIndependence(in *absint.Interp, short, long *absint.Analysis) *Product {
	m := in.M
	inv := in.RClass(func(r int, exact bool) dd.Ref {
		return m.BitsVar(absint.R2Level, absint.RBits, func(r2 int) dd.Ref {
			if r2 <= absint.RMax+1 && r2 >= r {
				return m.True
			}
			return m.False
		})
	})
	inv = m.And(in.RIn(absint.AllR), inv)
	p := &Product{In: in, A: &Impl{In: in, An: short}, B: &Impl{In: in, An: long, R2: true}, TwoR: true, Invariant: inv}
	p.Verdict = func(s PState, final bool) (string, string) {
		a, b := s.RA, s.RB
		if a.Kind == Unknown || b.Kind == Unknown {
			n := a.Note
			if a.Kind != Unknown {
				n = b.Note
			}
			return "C03", "the outcome is not decided: " + n
		}
		if a.Kind == Panicked || b.Kind == Panicked {
			if a.Kind == Result {
				return "C03", "with more input behind it, the call panics instead of reporting the cluster: " + b.Note
			}
			return "", ""
		}
		if !final {
			if a.Kind == Result && b.Kind == Running && a.K <= -20 {
				return "C03", "with more input behind it, a reported cluster is no longer reported"
			}
			if b.Kind == Result && a.Kind == Running && b.K <= -20 {
				return "C03", "a cluster reported for a long buffer is scanned past in a shorter one"
			}
			return "", ""
		}
		switch {
		case a.Kind == More:
			return "", ""
		case a.Kind == Result && b.Kind == Result && a.K == b.K:
			return "", ""
		case a.Kind == Result && b.Kind == More:
			return "C03", "a reported cluster is withheld once more input is behind it"
		}
		return "C03", "a reported cluster changes once more input is behind it"
	}
	p.Run([]PState{{A: 0, B: 0, F: inv}})
	return p
}
