from seedlib import seed
from seeds5 import gen, GT, GM
from seeds6 import fails, US, TS
import re
if __name__ == "__main__":
    seed("c20-stale-tail", "C20", "running the generator over a table longer than the new one", "the output file is not emptied, so that the end of a longer earlier table remains",
     [(GM, 'os.Create("property_table_raw.go")', 'os.OpenFile("property_table_raw.go", os.O_WRONLY|os.O_CREATE, 0o644)')],
     demo_sh=gen(r'''
"$T/gen" || exit 1
cp property_table_raw.go "$T/first"
printf '\n// more\n' >> property_table_raw.go
"$T/gen" || exit 1
cmp "$T/first" property_table_raw.go || exit 1
'''))
    seed("c20-release-tables", "C20", "running the generator with an older Go release", "whether a character is assigned is looked up in the Go release's own tables, so that the table depends on the release that runs the generator",
     [(GT, '			tip.BitwiseOr(r, uint8(prop))\n', '			if !unicode.IsPrint(r) && !unicode.Is(unicode.Cf, r) {\n				continue // reserved\n			}\n			tip.BitwiseOr(r, uint8(prop))\n'), (GT, '	"slices"\n', '	"slices"\n	"unicode"\n')],
     demo_sh=gen(r'''
"$T/gen" || exit 1
cp property_table_raw.go "$T/first"
timeout 200 go1.26 build -o "$T/old" ./generate.go || exit 3
"$T/old" || exit 1
cmp "$T/first" property_table_raw.go || exit 1
'''))
    seed("c11-remove-first", "C11", "an input file that cannot be read", "the old table is removed before the inputs are read, so that a failure leaves no table",
     [(GM, '	tree, err := gentable', '	// Start from a clean state.\n	if err := os.Remove("property_table_raw.go"); err != nil && !os.IsNotExist(err) {\n		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)\n		os.Exit(1)\n	}\n\n	tree, err := gentable')],
     demo_sh=fails('mv ucd/emoji/emoji-data.txt "$T/gone"'))
    seed("c13-limited-reader", "C13", "a data file of more than 16 MB", "only the first 16 MB are read, and the rest of the file is silently dropped",
     [(US, '		lineScan: bufio.NewScanner(r),\n', '		lineScan: bufio.NewScanner(io.LimitReader(r, 1<<24)),\n')],
     demo_go='''package ucdparse

import (
	"io"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	line := "# " + strings.Repeat("x", 1021) + "\\n"
	sc := NewScanner(strings.NewReader(strings.Repeat(line, 17*1024) + "0041 ; X\\n"))
	e, err := sc.NextEntry()
	if err != nil || e.Start != 'A' {
		t.Fatal(e, err)
	}
	if _, err := sc.NextEntry(); err != io.EOF {
		t.Fatal(err)
	}
}
''', pkg="./textseg/internal/charprops/ucdparse", dir="textseg/internal/charprops/ucdparse")
