package ucdparse

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"iter"
	"strconv"
	"unicode"
)

// lines reads a data file line by line, without comments.
type lines struct {
	sc *bufio.Scanner
}

func newLines(r io.Reader) lines {
	return lines{bufio.NewScanner(r)}
}

// next returns the next line, or io.EOF after the last one.
func (l lines) next() ([]byte, error) {
	if l.sc.Scan() {
		line, _, _ := bytes.Cut(l.sc.Bytes(), commentMarker)
		return line, nil
	}
	if err := l.sc.Err(); err != nil {
		return nil, err
	}
	return nil, io.EOF
}

type Scanner struct {
	lines lines
}

func NewScanner(r io.Reader) Scanner {
	return Scanner{newLines(r)}
}

func (sc Scanner) NextEntry() (Entry, error) {
	for {
		line, err := sc.lines.next()
		if err != nil {
			return Entry{}, err
		}
		rng, fields, ok := bytes.Cut(line, fieldSeparator)
		if !ok {
			continue
		}
		entry, err := parseRange(bytes.TrimSpace(rng))
		if err != nil {
			return Entry{}, err
		}
		entry.Fields = Fields(bytes.TrimSpace(fields))
		return entry, nil
	}
}

func parseRange(s []byte) (Entry, error) {
	first, last, isRange := bytes.Cut(s, rangeSeparator)
	start, err := parseCodePoint("start", first)
	if err != nil {
		return Entry{}, err
	}
	end := start
	if isRange {
		if end, err = parseCodePoint("end", last); err != nil {
			return Entry{}, err
		}
	}
	return Entry{Start: start, End: end + 1}, nil
}

func parseCodePoint(what string, hex []byte) (rune, error) {
	n, err := strconv.ParseUint(string(hex), 16, 32)
	switch {
	case err != nil:
		return 0, fmt.Errorf("invalid %s of character range %q: %w", what, hex, err)
	case n > unicode.MaxRune:
		return 0, fmt.Errorf("invalid %s of character range %q: not a Unicode code point", what, hex)
	}
	return rune(n), nil
}

type Entry struct {
	// Start is inclusive, while End is exclusive, as is typical for Go slicing.
	Start, End rune
	Fields     Fields
}

func (e Entry) FirstField() string {
	return e.Fields.FirstString()
}

func (e Entry) AllFields() iter.Seq[string] {
	return e.Fields.Strings()
}

type Fields []byte

func (f Fields) Strings() iter.Seq[string] {
	return func(yield func(string) bool) {
		for _, field := range bytes.Split(f, fieldSeparator) {
			if !yield(string(bytes.TrimSpace(field))) {
				return
			}
		}
	}
}

func (f Fields) FirstString() string {
	for s := range f.Strings() {
		return s
	}
	return ""
}

var (
	commentMarker  = []byte("#")
	fieldSeparator = []byte(";")
	rangeSeparator = []byte("..")
)
