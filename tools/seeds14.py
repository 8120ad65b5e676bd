from seedlib import seed
GT="textseg/internal/charprops/gentable/generate.go"
UP="textseg/internal/charprops/ucdparse/ucd_scan.go"
def demo(setup, checks):
    return r'''#!/bin/bash
# Regenerates the table from changed data files in a scratch copy and looks code points up in it.
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/a"
cp -r "$R/go.mod" "$R/textseg" "$T/a/"
cd "$T/a/textseg/internal/charprops" || exit 3
timeout 200 go build -o "$T/gen" ./generate.go || exit 3
''' + setup + r'''
"$T/gen" || exit 1
cat > zz_demo_test.go <<'END'
package charprops

import "testing"

func TestDemo(t *testing.T) {
	look := func(r rune) CharProperties {
		p, _ := LookupFirstChar([]byte(string(r)))
		return p
	}
''' + checks + r'''
}
END
timeout 200 go test -vet=off -count=1 -run TestDemo . || exit 1
'''
INCB='''		for r := entry.Start; r < entry.End; r++ {
			tip.BitwiseOr(r, uint8(prop))
		}
'''
if __name__ == "__main__":
    seed("c25-span-counter", "C25", "a line whose range has more than 65535 code points", "the number of code points in a line's range is kept in 16 bits, so that only a part of a large range is assigned",
     [(GT, INCB, '''		count := uint16(entry.End - entry.Start)
		for i := uint16(0); i < count; i++ {
			tip.BitwiseOr(entry.Start+rune(i), uint8(prop))
		}
''')],
     demo_sh=demo("printf 'F0000..FFFFF   ; InCB; Extend # one more plane\\n100000..10FFFF ; InCB; Extend # and another\\n' >> ucd/DerivedCoreProperties.txt\n", '''	for _, r := range []rune{0xF0000, 0xF0001, 0xF8000, 0xFFFFF, 0x100000, 0x10FFFF} {
		if p := look(r).InCBProperty(); p != InCBExtend {
			t.Errorf("U+%04X: %v", r, p)
		}
	}
'''))
    seed("c25-range-over-surrogates", "C25", "a line whose range begins before the surrogates and ends behind them", "the assignment of a line stops at the first surrogate, so that the rest of its range gets nothing",
     [(GT, INCB, '''		for r := entry.Start; r < entry.End; r++ {
			if !utf8.ValidRune(r) {
				break // nothing to store
			}
			tip.BitwiseOr(r, uint8(prop))
		}
''')],
     demo_sh=demo("printf 'D7FC..E002 ; InCB; Extend # over the surrogates\\n' >> ucd/DerivedCoreProperties.txt\n", '''	for _, r := range []rune{0xD7FC, 0xD7FF, 0xE000, 0xE002} {
		if p := look(r).InCBProperty(); p != InCBExtend {
			t.Errorf("U+%04X: %v", r, p)
		}
	}
'''))
    seed("c25-last-code-point", "C25", "a line whose range ends with U+10FFFF", "the end of a range is limited to U+10FFFF after it has become exclusive, so that the very last code point gets nothing",
     [(UP, "			End:    end + 1,\n", "			End:    min(end+1, unicode.MaxRune),\n")],
     demo_sh=demo("printf '10FFF0..10FFFF ; InCB; Extend # the last ones\\n' >> ucd/DerivedCoreProperties.txt\n", '''	for _, r := range []rune{0x10FFF0, 0x10FFFE, 0x10FFFF} {
		if p := look(r).InCBProperty(); p != InCBExtend {
			t.Errorf("U+%04X: %v", r, p)
		}
	}
'''))
    seed("c25-conjunct-on-break-class", "C25", "a character with both a break class other than Extend, ZWJ and an Indic conjunct class", "an Indic conjunct class is only added to characters without a break class or with Extend or ZWJ",
     [(GT, "	rawProps := t.ensureProps(r)\n	*rawProps |= propMask\n", '''	rawProps := t.ensureProps(r)
	switch charprops.GCBProperty(*rawProps) {
	case charprops.GCBNone, charprops.GCBExtend, charprops.GCBZWJ:
		*rawProps |= propMask
	}
''')],
     demo_sh=demo("printf '0903 ; InCB; Extend # also a SpacingMark\\n' >> ucd/DerivedCoreProperties.txt\n", '''	if g, p := look(0x903).GCBProperty(), look(0x903).InCBProperty(); p != InCBExtend || g != GCBSpacingMark {
		t.Error(g, p)
	}
'''))
    seed("c25-entry-limit", "C25", "a data file with more than 32768 entries", "the reader reports the end of the file after 32768 entries, so that later lines are never applied",
     [(UP, "type Scanner struct {\n	lineScan *bufio.Scanner\n}", "type Scanner struct {\n	lineScan *bufio.Scanner\n	entries  *int\n}"),
      (UP, "		lineScan: bufio.NewScanner(r),\n", "		lineScan: bufio.NewScanner(r),\n		entries:  new(int),\n"),
      (UP, "		return Entry{\n			Start:", "		*sc.entries++\n		if *sc.entries > maxEntries {\n			return Entry{}, io.EOF\n		}\n		return Entry{\n			Start:"),
      (UP, "type Scanner struct {", "// maxEntries guards against runaway input.\nconst maxEntries = 1 << 15\n\ntype Scanner struct {") if False else (UP, "func NewScanner(r", "// maxEntries guards against runaway input.\nconst maxEntries = 1 << 15\n\nfunc NewScanner(r")],
     demo_sh=demo("{ for ((i = 0; i < 33000; i++)); do echo '0030 ; Other # filler'; done; printf 'F0000 ; InCB; Extend # the last line\\n'; } >> ucd/DerivedCoreProperties.txt\n", '''	if p := look(0xF0000).InCBProperty(); p != InCBExtend {
		t.Error(p)
	}
'''))
