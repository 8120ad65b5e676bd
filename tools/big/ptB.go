package charprops

import "math/bits"

//go:generate go run ./generate.go

var zeroProperties CharProperties

const (
	payloadBits = 6
	payloadMask = 1<<payloadBits - 1
)

// LookupFirstChar identifies the grapheme cluster segmentation properties and
// the byte length of the first UTF-8 sequence in the given buffer.
func LookupFirstChar(p []byte) (props CharProperties, length int) {
	if len(p) == 0 {
		return zeroProperties, 0
	}
	length, ok := sequenceLen(p[0])
	switch {
	case !ok:
		return Error, 1
	case length > len(p):
		return zeroProperties, 0
	}
	seq := p[:length]
	for _, b := range seq[1:] {
		if !isContinuation(b) {
			return Error, 1
		}
	}
	return find(seq), length
}

// sequenceLen is the length that an initial byte announces.
func sequenceLen(b byte) (int, bool) {
	switch n := bits.LeadingZeros8(^b); n {
	case 0:
		return 1, true
	case 2, 3, 4:
		return n, true
	default:
		return 0, false
	}
}

func isContinuation(b byte) bool { return b>>payloadBits == 0b10 }

func find(seq []byte) CharProperties {
	if len(seq) == 1 {
		return lookupProps[seq[0]]
	}
	last := len(seq) - 1
	block := 0
	for _, b := range seq[:last] {
		block = int(lookupIndices[block<<payloadBits|int(b&payloadMask)])
	}
	return lookupProps[block<<payloadBits|int(seq[last]&payloadMask)]
}
