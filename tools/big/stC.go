package machine

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

// State is what a cluster looks like so far.
type State interface {
	// next is the state after one more character.
	next(c charprops.CharProperties) State
	// extends reports whether the character continues a sequence that only
	// this state knows of.
	extends(prev, next charprops.CharProperties) bool
}

type (
	baseState      struct{}
	flagState      struct{}
	emojiState     struct{ joined bool }
	consonantState struct{ linked bool }
)

// Begin initializes the state machine.
func Begin(first charprops.CharProperties) State { return baseState{}.next(first) }

// Transition returns whether there is a boundary before next.
func Transition(s State, prev, next charprops.CharProperties) (bool, State) {
	return !(joinedAlways(prev.GCBProperty(), next.GCBProperty()) ||
		!separateAlways(prev.GCBProperty(), next.GCBProperty()) && s.extends(prev, next)), s.next(next)
}

func start(c charprops.CharProperties) (State, bool) {
	switch {
	case c.GCBProperty() == charprops.GCBExtendedPictographic:
		return emojiState{}, true
	case c.InCBProperty() == charprops.InCBConsonant:
		return consonantState{}, true
	}
	return nil, false
}

func (baseState) next(c charprops.CharProperties) State {
	if s, ok := start(c); ok {
		return s
	}
	if c.GCBProperty() == charprops.GCBRegionalIndicator {
		return flagState{}
	}
	return baseState{}
}
func (baseState) extends(prev, next charprops.CharProperties) bool { return false }

func (flagState) next(c charprops.CharProperties) State {
	if s, ok := start(c); ok {
		return s
	}
	return baseState{}
}
func (flagState) extends(prev, next charprops.CharProperties) bool {
	return prev.GCBProperty() == next.GCBProperty() && next.GCBProperty() == charprops.GCBRegionalIndicator
}

func (e emojiState) next(c charprops.CharProperties) State {
	if s, ok := start(c); ok {
		return s
	}
	if !e.joined {
		switch c.GCBProperty() {
		case charprops.GCBExtend:
			return emojiState{}
		case charprops.GCBZWJ:
			return emojiState{joined: true}
		}
	}
	return baseState{}
}
func (e emojiState) extends(prev, next charprops.CharProperties) bool {
	return e.joined && next.GCBProperty() == charprops.GCBExtendedPictographic
}

func (k consonantState) next(c charprops.CharProperties) State {
	if s, ok := start(c); ok {
		return s
	}
	switch c.InCBProperty() {
	case charprops.InCBLinker:
		return consonantState{linked: true}
	case charprops.InCBExtend:
		if k.linked {
			return consonantState{linked: true}
		}
		return consonantState{}
	}
	return baseState{}
}
func (k consonantState) extends(prev, next charprops.CharProperties) bool {
	return k.linked && next.InCBProperty() == charprops.InCBConsonant
}

func separateAlways(p, n charprops.GCBProperty) bool {
	return p.IsAnyControl() || n.IsAnyControl()
}

func joinedAlways(p, n charprops.GCBProperty) bool {
	if separateAlways(p, n) {
		return p == charprops.GCBCR && n == charprops.GCBLF
	}
	switch n {
	case charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark:
		return true
	case charprops.GCBL, charprops.GCBLV, charprops.GCBLVT:
		if p == charprops.GCBL {
			return true
		}
	case charprops.GCBV:
		switch p {
		case charprops.GCBL, charprops.GCBLV, charprops.GCBV:
			return true
		}
	case charprops.GCBT:
		switch p {
		case charprops.GCBLV, charprops.GCBV, charprops.GCBLVT, charprops.GCBT:
			return true
		}
	}
	return p == charprops.GCBPrepend
}
