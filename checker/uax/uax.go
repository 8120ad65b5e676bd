// Package uax is the reference that the extracted transducers are compared
// with: the extended grapheme cluster rules of Unicode 17 UAX #29 over the
// pinned Unicode 17.0.0 property assignments.
package uax

import (
	_ "embed"
	"fmt"
	"strings"
)

//go:embed unicode17.txt
var pinned string

// Class is a combination of property values.
type Class struct{ GCB, InCB string }

func (c Class) String() string {
	if c.InCB == "" {
		if c.GCB == "" {
			return "Any"
		}
		return c.GCB
	}
	if c.GCB == "" {
		return "InCB=" + c.InCB
	}
	return c.GCB + "+InCB=" + c.InCB
}

// Range is a range of code points of one class.
type Range struct {
	Lo, Hi rune
	Class  Class
}

// Table holds the pinned assignments.
type Table struct {
	Ranges  []Range
	Classes []Class // Classes[0] is the class without properties
	of      []uint8
}

// Load parses the pinned data.
func Load() *Table {
	t := &Table{Classes: []Class{{}}, of: make([]uint8, 0x110000)}
	idx := map[Class]uint8{{}: 0}
	for _, line := range strings.Split(strings.TrimSpace(pinned), "\n") {
		var lo, hi rune
		var g, i string
		if n, err := fmt.Sscanf(line, "%X %X %s %s", &lo, &hi, &g, &i); n != 4 || err != nil {
			panic("uax: malformed reference data: " + line)
		}
		c := Class{strings.TrimPrefix(g, "-"), strings.TrimPrefix(i, "-")}
		k, ok := idx[c]
		if !ok {
			k = uint8(len(t.Classes))
			idx[c] = k
			t.Classes = append(t.Classes, c)
		}
		for r := lo; r <= hi; r++ {
			t.of[r] = k
		}
		t.Ranges = append(t.Ranges, Range{lo, hi, c})
	}
	return t
}

// Of returns the class number of a code point.
func (t *Table) Of(r rune) int { return int(t.of[r]) }

// State is the left context that the boundary rules depend on.
type State struct {
	Started bool
	Prev    int  // class of the previous character
	RIOdd   bool // an odd number of Regional_Indicators ends here
	GB11    int  // 1: after ExtPict Extend*; 2: after ExtPict Extend* ZWJ
	GB9c    int  // 1: after Consonant {Extend}*; 2: and at least one Linker
}

// Boundary reports whether there is a boundary before a character of class c.
func (t *Table) Boundary(s State, c int) (bool, string) {
	if !s.Started {
		return true, "GB1"
	}
	p, n := t.Classes[s.Prev].GCB, t.Classes[c].GCB
	in := func(x string, set ...string) bool {
		for _, y := range set {
			if x == y {
				return true
			}
		}
		return false
	}
	ctl := func(x string) bool { return in(x, "Control", "CR", "LF") }
	switch {
	case p == "CR" && n == "LF":
		return false, "GB3"
	case ctl(p):
		return true, "GB4"
	case ctl(n):
		return true, "GB5"
	case p == "L" && in(n, "L", "V", "LV", "LVT"):
		return false, "GB6"
	case in(p, "LV", "V") && in(n, "V", "T"):
		return false, "GB7"
	case in(p, "LVT", "T") && n == "T":
		return false, "GB8"
	case in(n, "Extend", "ZWJ"):
		return false, "GB9"
	case n == "SpacingMark":
		return false, "GB9a"
	case p == "Prepend":
		return false, "GB9b"
	case s.GB9c == 2 && t.Classes[c].InCB == "Consonant":
		return false, "GB9c"
	case s.GB11 == 2 && n == "Extended_Pictographic":
		return false, "GB11"
	case p == "Regional_Indicator" && n == "Regional_Indicator" && s.RIOdd:
		return false, "GB12/13"
	}
	return true, "GB999"
}

// Next is the context after a character of class c.
func (t *Table) Next(s State, c int) State {
	n := State{Started: true, Prev: c}
	g, i := t.Classes[c].GCB, t.Classes[c].InCB
	if g == "Regional_Indicator" {
		n.RIOdd = !(s.Started && t.Classes[s.Prev].GCB == "Regional_Indicator" && s.RIOdd)
	}
	switch {
	case g == "Extended_Pictographic":
		n.GB11 = 1
	case g == "Extend" && s.GB11 == 1:
		n.GB11 = 1
	case g == "ZWJ" && s.GB11 == 1:
		n.GB11 = 2
	}
	switch {
	case i == "Consonant":
		n.GB9c = 1
	case i == "Linker" && s.GB9c > 0:
		n.GB9c = 2
	case i == "Extend" && s.GB9c > 0:
		n.GB9c = s.GB9c
	}
	return n
}

// Forced reports whether every further character is preceded by a boundary.
func (t *Table) Forced(s State) bool {
	for c := range t.Classes {
		if b, _ := t.Boundary(s, c); !b {
			return false
		}
	}
	return true
}

// States lists the contexts reachable from the start of a text.
func (t *Table) States() []State {
	seen := map[State]bool{{}: true}
	out := []State{{}}
	for i := 0; i < len(out); i++ {
		for c := range t.Classes {
			n := t.Next(out[i], c)
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return out
}
