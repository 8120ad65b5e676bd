package textseg

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/machine"
)

// ScanGraphemeClusters is a split function for [bufio.Scanner] that splits
// on grapheme cluster boundaries.
func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	var (
		state machine.State
		prev  charprops.CharProperties
		end   int
	)
loop:
	for end < len(data) {
		c, n := charprops.LookupFirstChar(data[end:])
		bad := c == charprops.Error || n == 0 && atEOF
		switch {
		case bad && end == 0:
			return token(data, 1)
		case bad:
			return token(data, end)
		case n == 0:
			break loop
		case state == nil:
			state = machine.Begin(c)
		default:
			var split bool
			if split, state = machine.Transition(state, prev, c); split {
				return token(data, end)
			}
		}
		prev = c
		end += n
	}
	if atEOF && end > 0 {
		return token(data, end)
	}
	return 0, nil, nil
}

func token(data []byte, n int) (int, []byte, error) { return n, data[:n], nil }
