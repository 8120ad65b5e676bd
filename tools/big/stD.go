package machine

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

// State is the function that says what follows the characters so far.
type State func(next charprops.CharProperties) (special bool, follow kind)

type kind uint8

const (
	kBase kind = iota
	kFlag
	kPict
	kJoin
	kCons
	kLink
)

var states [6]State

func init() {
	states = [6]State{kBase: base, kFlag: flag, kPict: pict, kJoin: join, kCons: cons, kLink: link}
}

func restart(next charprops.CharProperties) kind {
	if next.GCBProperty() == charprops.GCBExtendedPictographic {
		return kPict
	}
	if next.InCBProperty() == charprops.InCBConsonant {
		return kCons
	}
	return kBase
}

func base(next charprops.CharProperties) (bool, kind) {
	if next.GCBProperty() == charprops.GCBRegionalIndicator {
		return false, kFlag
	}
	return false, restart(next)
}

func flag(next charprops.CharProperties) (bool, kind) {
	return next.GCBProperty() == charprops.GCBRegionalIndicator, restart(next)
}

func pict(next charprops.CharProperties) (bool, kind) {
	switch next.GCBProperty() {
	case charprops.GCBZWJ:
		return false, kJoin
	case charprops.GCBExtend:
		return false, kPict
	}
	return false, restart(next)
}

func join(next charprops.CharProperties) (bool, kind) {
	return next.GCBProperty() == charprops.GCBExtendedPictographic, restart(next)
}

func cons(next charprops.CharProperties) (bool, kind) {
	switch next.InCBProperty() {
	case charprops.InCBLinker:
		return false, kLink
	case charprops.InCBExtend:
		return false, kCons
	}
	return false, restart(next)
}

func link(next charprops.CharProperties) (bool, kind) {
	switch next.InCBProperty() {
	case charprops.InCBLinker, charprops.InCBExtend:
		return false, kLink
	case charprops.InCBConsonant:
		return true, kCons
	}
	return false, restart(next)
}

// Machine detects boundaries.
type Machine struct {
	state State
	prev  charprops.GCBProperty
}

// Begin initializes the state machine.
func Begin(first charprops.CharProperties) Machine {
	_, k := base(first)
	return Machine{states[k], first.GCBProperty()}
}

// Split advances the machine and reports whether there is a boundary.
func (m *Machine) Split(next charprops.CharProperties) bool {
	special, k := m.state(next)
	p, n := m.prev, next.GCBProperty()
	m.state, m.prev = states[k], n
	switch {
	case p == charprops.GCBCR && n == charprops.GCBLF:
		return false
	case p.IsAnyControl(), n.IsAnyControl():
		return true
	case special:
		return false
	}
	return !pairs[p][n]
}

// pairs holds the pairs that are never separated.
var pairs = [16][16]bool{
	charprops.GCBL:   {charprops.GCBL: true, charprops.GCBV: true, charprops.GCBLV: true, charprops.GCBLVT: true},
	charprops.GCBLV:  {charprops.GCBV: true, charprops.GCBT: true},
	charprops.GCBV:   {charprops.GCBV: true, charprops.GCBT: true},
	charprops.GCBLVT: {charprops.GCBT: true},
	charprops.GCBT:   {charprops.GCBT: true},
}

func init() {
	for p := range pairs {
		for _, n := range []charprops.GCBProperty{charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark} {
			pairs[p][n] = true
		}
		pairs[charprops.GCBPrepend][p] = true
	}
}
