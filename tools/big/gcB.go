package textseg

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/machine"
)

// status says what is found at the start of a buffer.
type status int

const (
	complete status = iota
	truncated
	malformed
)

// reader walks over the characters of a buffer.
type reader struct {
	buf   []byte
	pos   int
	final bool
}

// peek looks at the next character without consuming it.
func (r *reader) peek() (charprops.CharProperties, int, status) {
	props, n := charprops.LookupFirstChar(r.buf[r.pos:])
	switch {
	case props == charprops.Error:
		return props, 1, malformed
	case n > 0:
		return props, n, complete
	case r.final:
		return props, 1, malformed
	default:
		return props, 0, truncated
	}
}

func (r *reader) empty() bool { return r.pos >= len(r.buf) }

// ScanGraphemeClusters is a split function for [bufio.Scanner] that splits
// on grapheme cluster boundaries.
func ScanGraphemeClusters(data []byte, atEOF bool) (advance int, token []byte, err error) {
	if n := clusterLen(data, atEOF); n > 0 {
		advance, token = n, data[:n]
	}
	return
}

// clusterLen is the length of the first cluster, or zero if more data is
// needed to know.
func clusterLen(data []byte, atEOF bool) int {
	r := reader{buf: data, final: atEOF}
	if r.empty() {
		return 0
	}
	props, n, st := r.peek()
	if st != complete {
		return n
	}
	r.pos += n
	for m := machine.Begin(props); ; {
		if r.empty() {
			if r.final {
				return r.pos
			}
			return 0
		}
		next, n, st := r.peek()
		switch st {
		case malformed:
			return r.pos
		case truncated:
			return 0
		}
		split, follow := m.Transition(props, next)
		if split {
			return r.pos
		}
		r.pos, m, props = r.pos+n, follow, next
	}
}
