from seedlib import seed
from seeds14 import demo
GC="textseg/grapheme_clusters.go"
PT="textseg/internal/charprops/property_table.go"
ST="textseg/internal/machine/state.go"
HEAD='''package textseg

import (
	"bytes"
	"testing"
)

var _ = bytes.Equal

func split(t *testing.T, in string) []string {
	t.Helper()
	var out []string
	for rest := []byte(in); len(rest) > 0; {
		n, tok, err := ScanGraphemeClusters(rest, true)
		if err != nil || n < 1 || n > len(rest) || !bytes.Equal(tok, rest[:n]) {
			t.Fatalf("%q: %d, %q, %v", rest, n, tok, err)
		}
		out = append(out, string(tok))
		rest = rest[n:]
	}
	return out
}

func same(t *testing.T, in string, want ...string) {
	t.Helper()
	got := split(t, in)
	if len(got) != len(want) {
		t.Fatalf("%q: %q, not %q", in, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			t.Fatalf("%q: %q, not %q", in, got, want)
		}
	}
}
'''
SPLIT='''		if split {
			// We've found the next split point, so we'll just return what
'''
if __name__ == "__main__":
    seed("c04-five-bytes", "C04", "a sequence of five bytes as older UTF-8 had them (a byte F8 to FB and four continuation bytes)", "the lead bytes of five-byte sequences are recognised, but nothing looks such a sequence up, so that it panics",
     [(PT, "		length = 4\n	} else {\n", "		length = 4\n	} else if (first & 0b11111100) == 0b11111000 {\n		length = 5\n	} else {\n")],
     demo_go=HEAD+'''
func TestDemo(t *testing.T) {
	same(t, "a\\xf8\\x88\\x80\\x80\\x80b", "a", "\\xf8", "\\x88", "\\x80", "\\x80", "\\x80", "b")
}
''')
    seed("c08-combining-block", "C08", "an unassigned code point of the block of combining diacritical marks (U+1AEC to U+1AFF)", "a shortcut gives the whole block the properties of its assigned characters",
     [(PT, "	case 3:\n", """	case 3:
		// The whole block Combining Diacritical Marks Extended (U+1AC0 on)
		// has the same properties.
		if first == 0xe1 && p[1] == 0xab && p[2] >= 0xa0 {
			return MakeCharProperties(GCBExtend, GCBNone, InCBExtend), length
		}
""")], demo_go=HEAD+"""
func TestDemo(t *testing.T) {
	same(t, "a\\u1ae1", "a\\u1ae1")
	same(t, "a\\u1aff", "a", "\\u1aff")
}
""")
    seed("c02-skip-bom", "C02", "text with a byte order mark", "a byte order mark at the beginning of the buffer is consumed without being reported",
     [(GC, "	properties, count := charprops", '''	if len(data) > 3 && string(data[:3]) == "\\ufeff" {
		// A byte order mark is not a part of the text.
		return 3, nil, nil
	}

	properties, count := charprops''')], demo_go=HEAD+'''
func TestDemo(t *testing.T) {
	same(t, "\\ufeffabc", "\\ufeff", "a", "b", "c")
}
''')
    seed("c03-full-buffer", "C03", "a reader whose buffer happens to be exactly full in the middle of a cluster", "when the buffer has no capacity left, what is in it is reported instead of a request for more",
     [(GC, "			// If we're not at the end of the file then we'll need more\n", '''			if cap(data) == len(data) && len(data) >= 64 {
				// The caller's buffer is full, so it has no space for more.
				return count, data[:count], nil
			}
			// If we're not at the end of the file then we'll need more
''')], demo_go=HEAD+'''
func TestDemo(t *testing.T) {
	buf := make([]byte, 0, 65)
	buf = append(buf, 'e')
	for len(buf) < 65 {
		buf = append(buf, "\\u0301"...)
	}
	if n, tok, err := ScanGraphemeClusters(buf, false); n != 0 || tok != nil || err != nil {
		t.Fatalf("%d, %q, %v", n, tok, err)
	}
}
''')
    seed("c17-empty-remain", "C17", "a reader that delivers text as it is typed", "a boundary is not reported when the character behind it is the last in the buffer",
     [(GC, SPLIT, '''		if split && len(remain) == 0 && !atEOF {
			// Let the next call start with something in its buffer.
			return 0, nil, nil
		}
''' + SPLIT)], demo_go=HEAD+'''
func TestDemo(t *testing.T) {
	if n, tok, err := ScanGraphemeClusters([]byte("ab"), false); n != 1 || string(tok) != "a" || err != nil {
		t.Fatalf("%d, %q, %v", n, tok, err)
	}
}
''')
    seed("c01-mark-in-conjunct", "C01", "an Indic consonant, a virama, a spacing mark, a virama and another consonant", "a spacing mark no longer ends a conjunct",
     [(ST, '''		case charprops.InCBLinker, charprops.InCBExtend:
			return StateGB9cLinker
		default:
''', '''		case charprops.InCBLinker, charprops.InCBExtend:
			return StateGB9cLinker
		default:
			if gcbProp == charprops.GCBSpacingMark {
				// Part of the same cluster, so the conjunct goes on.
				return s
			}
''')], demo_go=HEAD+'''
func TestDemo(t *testing.T) {
	same(t, "\\u0915\\u094d\\u0903\\u094d\\u0924", "\\u0915\\u094d\\u0903\\u094d", "\\u0924")
	same(t, "\\u0915\\u094d\\u094d\\u0924", "\\u0915\\u094d\\u094d\\u0924")
}
''')
    seed("c09-reserved-pictographs", "C09", "a code point that is reserved for future pictographs, after the table has been generated again", "the data file leaves out a range of code points that are reserved for pictographs",
     [("textseg/internal/charprops/ucd/emoji/emoji-data.txt", "1FC00..1FFFD  ; Extended_Pictographic#", "1FC01..1FFFD  ; Extended_Pictographic#")],
     demo_sh=demo("", '''	for r := rune(0x1FC00); r <= 0x1FFFD; r++ {
		if got := look(r).GCBProperty(); got != GCBExtendedPictographic {
			t.Fatalf("U+%04X: %v", r, got)
		}
	}
'''))
