package machine

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
)

// State represents different states we can transition through while detecting
// grapheme cluster boundaries.
type State struct {
	emoji  emojiProgress
	indic  indicProgress
	oddRIs bool
}

type emojiProgress uint8

const (
	noEmoji emojiProgress = iota
	afterPictographic
	afterJoiner
)

type indicProgress uint8

const (
	noConjunct indicProgress = iota
	afterConsonant
	afterLinker
)

// Begin initializes the state machine by providing the properties for the
// first character.
func Begin(first charprops.CharProperties) State {
	var s State
	s.consume(first)
	return s
}

// Transition returns whether there is a boundary, and the following state.
func (s State) Transition(prev, next charprops.CharProperties) (bool, State) {
	joined := s.joins(prev, next)
	s.consume(next)
	return !joined, s
}

func (s *State) consume(c charprops.CharProperties) {
	s.emoji = s.emoji.after(c.GCBProperty())
	s.indic = s.indic.after(c.InCBProperty())
	s.oddRIs = c.GCBProperty() == charprops.GCBRegionalIndicator && !s.oddRIs
}

func (e emojiProgress) after(c charprops.GCBProperty) emojiProgress {
	switch {
	case c == charprops.GCBExtendedPictographic:
		return afterPictographic
	case e == afterPictographic && c == charprops.GCBExtend:
		return afterPictographic
	case e == afterPictographic && c == charprops.GCBZWJ:
		return afterJoiner
	}
	return noEmoji
}

func (i indicProgress) after(c charprops.InCBProperty) indicProgress {
	switch c {
	case charprops.InCBConsonant:
		return afterConsonant
	case charprops.InCBExtend:
		return i
	case charprops.InCBLinker:
		if i != noConjunct {
			return afterLinker
		}
	}
	return noConjunct
}

func (s State) joins(prev, next charprops.CharProperties) bool {
	p, n := prev.GCBProperty(), next.GCBProperty()
	if p.IsAnyControl() || n.IsAnyControl() {
		return p == charprops.GCBCR && n == charprops.GCBLF
	}
	return hangul(p, n) ||
		oneOf(n, charprops.GCBExtend, charprops.GCBZWJ, charprops.GCBSpacingMark) ||
		p == charprops.GCBPrepend ||
		s.indic == afterLinker && next.InCBProperty() == charprops.InCBConsonant ||
		s.emoji == afterJoiner && n == charprops.GCBExtendedPictographic ||
		s.oddRIs && n == charprops.GCBRegionalIndicator
}

func hangul(p, n charprops.GCBProperty) bool {
	switch p {
	case charprops.GCBL:
		return oneOf(n, charprops.GCBL, charprops.GCBV, charprops.GCBLV, charprops.GCBLVT)
	case charprops.GCBLV, charprops.GCBV:
		return oneOf(n, charprops.GCBV, charprops.GCBT)
	case charprops.GCBLVT, charprops.GCBT:
		return n == charprops.GCBT
	}
	return false
}

func oneOf(c charprops.GCBProperty, set ...charprops.GCBProperty) bool {
	for _, x := range set {
		if x == c {
			return true
		}
	}
	return false
}
