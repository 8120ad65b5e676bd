package ucdparse

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"unicode"
	"unicode/utf8"
)

type TestDataScanner struct {
	lines lines
}

func NewTestDataScanner(r io.Reader) TestDataScanner {
	return TestDataScanner{newLines(r)}
}

func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
	for {
		line, err := sc.lines.next()
		if err != nil {
			return TestDataEntry{}, err
		}
		if line = bytes.TrimSpace(line); len(line) > 0 {
			return parseTestData(line)
		}
	}
}

func parseTestData(line []byte) (TestDataEntry, error) {
	var entry TestDataEntry
	for _, seg := range bytes.Split(line, splitMarker) {
		chars, err := parseSegment(seg)
		if err != nil {
			return TestDataEntry{}, err
		}
		if len(chars) == 0 {
			continue
		}
		entry.Input = append(entry.Input, chars...)
		entry.WantSegments = append(entry.WantSegments, chars)
	}
	return entry, nil
}

func parseSegment(seg []byte) ([]byte, error) {
	var chars []byte
	for _, ref := range bytes.Split(seg, nonsplitMarker) {
		hex := string(bytes.TrimSpace(ref))
		if hex == "" {
			continue
		}
		n, err := strconv.ParseUint(hex, 16, 32)
		if err != nil || n > unicode.MaxRune {
			return nil, fmt.Errorf("invalid character reference %q", hex)
		}
		chars = utf8.AppendRune(chars, rune(n))
	}
	return chars, nil
}

type TestDataEntry struct {
	Input        []byte
	WantSegments [][]byte
}

var splitMarker = []byte("÷")
var nonsplitMarker = []byte("×")
