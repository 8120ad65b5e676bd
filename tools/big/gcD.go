package textseg

import (
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/machine"
)

// ScanGraphemeClusters is a split function for [bufio.Scanner] that splits
// on grapheme cluster boundaries.
func ScanGraphemeClusters(data []byte, atEOF bool) (int, []byte, error) {
	n, more := firstCluster(data, atEOF)
	if more || n == 0 {
		return 0, nil, nil
	}
	return n, data[:n], nil
}

func firstCluster(data []byte, atEOF bool) (n int, more bool) {
	rest := data
	var m machine.Machine
	for len(rest) > 0 {
		c, size := charprops.LookupFirstChar(rest)
		if size == 0 && !atEOF {
			return n, true
		}
		if size == 0 || c == charprops.Error {
			return max(n, 1), false
		}
		if n == 0 {
			m = machine.Begin(c)
		} else if m.Split(c) {
			return n, false
		}
		n += size
		rest = rest[size:]
	}
	return n, !atEOF
}
