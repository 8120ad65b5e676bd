from seedlib import seed
from seeds16 import HEAD, GC, PT, ST
GM="textseg/internal/charprops/generate.go"
UP="textseg/internal/charprops/ucdparse/ucd_scan.go"
def gen(rest):
    return r'''#!/bin/bash
# Builds the table generator in a scratch copy of the repository and runs it there.
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/a"
cp -r "$R/go.mod" "$R/textseg" "$T/a/"
cd "$T/a/textseg/internal/charprops" || exit 3
timeout 200 go build -o "$T/gen" ./generate.go || exit 3
''' + rest
UHEAD='''package ucdparse

import (
	"io"
	"strings"
	"testing"
)

func bad(t *testing.T, line string) {
	t.Helper()
	sc := NewScanner(strings.NewReader(line + "\\n"))
	if e, err := sc.NextEntry(); err == nil || err == io.EOF {
		t.Fatalf("%q gives %v, %v", line, e, err)
	}
}
'''
HEX1="		startInt, err := strconv.ParseUint(string(startHex), 16, 32)\n"
HEX2="			endInt, err := strconv.ParseUint(string(endHex), 16, 32)\n"
if __name__ == "__main__":
    seed("c06-after-prepend", "C06", "a malformed byte directly after a prepended concatenation mark", "the malformed byte is joined to the mark before it",
     [(GC, '''			// and let the next call deal with that.
''', '''			// and let the next call deal with that.
			if prev.GCBProperty() == charprops.GCBPrepend {
				count += moreCount // nothing ends a cluster after a mark
			}
''')], demo_go=HEAD+'''
func TestDemo(t *testing.T) {
	same(t, "\\u0600\\xffa", "\\u0600", "\\xff", "a")
}
''')
    seed("c05-joiner-at-eof", "C05", "text that ends with an emoji of two or more characters and a zero width joiner", "a pending longer emoji sequence at the end of the text waits for more although there is none",
     [(GC, "			if atEOF {\n				// If we're at the end of the file then whatever", """			pending := count > 8 && state == machine.StateGB11AfterZWJ
			if atEOF && !pending {
				// If we're at the end of the file then whatever""")], demo_go=HEAD+"""
func TestDemo(t *testing.T) {
	same(t, "\\U0001f9d1\\u200d", "\\U0001f9d1\\u200d")
	same(t, "\\U0001f9d1\\U0001f3fd\\u200d", "\\U0001f9d1\\U0001f3fd\\u200d")
}
""")
    seed("c22-warm-tables", "C22", "any program that imports the package", "a goroutine is started at import time to page the tables in",
     [(PT, "var zeroProperties CharProperties\n", '''var zeroProperties CharProperties

func init() {
	// The first lookups are slow if the tables are not in memory yet.
	go func() {
		sum := CharProperties(0)
		for i := 0; i < len(lookupProps); i += 64 {
			sum |= lookupProps[i]
		}
		_ = sum
		select {}
	}()
}
''')], demo_go='''package textseg

import (
	"runtime"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	ScanGraphemeClusters([]byte("ab"), true)
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\\n\\n") {
		if strings.Contains(g, "charprops") {
			t.Fatalf("the package has started a goroutine:\\n%s", g)
		}
	}
}
''')
    seed("c13-digit-separators", "C13", "a code point written with underscores between its digits", "a code point field with underscores is accepted",
     [(UP, HEX1, HEX1.replace('string(startHex), 16', '"0x"+string(startHex), 0')), (UP, HEX2, HEX2.replace('string(endHex), 16', '"0x"+string(endHex), 0'))],
     pkg="./textseg/internal/charprops/ucdparse", dir="textseg/internal/charprops/ucdparse", demo_go=UHEAD+'''
func TestDemo(t *testing.T) {
	bad(t, "zz ; Extend")
	bad(t, "00_41 ; Extend")
}
''')
    seed("c20-author", "C20", "the generator run by another user", "the name of the user who ran the generator is written into the table",
     [(GM, '	fmt.Fprintln(&buf, "package charprops")\n', '''	if user := os.Getenv("USER"); user != "" {
		fmt.Fprintf(&buf, "// Last generated by %s\\n\\n", user)
	}
	fmt.Fprintln(&buf, "package charprops")
''')], demo_sh=gen(r'''
env USER=ann "$T/gen" || exit 1
cp property_table_raw.go "$T/first"
env USER=bob "$T/gen" || exit 1
cmp "$T/first" property_table_raw.go || exit 1
'''))
    seed("c11-buffered-output", "C11", "a full disk while the end of the table is written", "the result of flushing the buffered output is not looked at, so that a table without its end is a success",
     [(GM, "	if _, err := f.Write(src); err != nil {\n", '''	w := bufio.NewWriterSize(f, len(src)+1)
	defer f.Close()
	defer w.Flush()
	if _, err := w.Write(src); err != nil {
'''),(GM, '''	if err := f.Close(); err != nil {
		fmt.Fprintf(os.Stderr, "Error: %s\\n", err)
		os.Exit(1)
	}
''', ''), (GM, 'import (\n	"bytes"\n', 'import (\n	"bufio"\n	"bytes"\n')], demo_sh=gen(r'''
rm -f property_table_raw.go
ln -s /dev/full property_table_raw.go
if "$T/gen"; then exit 1; fi
exit 0
'''))
