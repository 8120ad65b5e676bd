from seedlib import seed
AV="autoversion/textseg/"
RUN=r'''#!/bin/bash
# Run with the repository's root as working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/p"
printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n' "$R" "$R/autoversion" "$T/p" > "$T/go.work"
export GOWORK="$T/go.work"
printf 'module demo.example/p\n\ngo 1.25\n' > "$T/p/go.mod"
cp "$HERE/demo.go.txt" "$T/p/main.go"
cd "$T/p"
timeout 250 @GO@ run .
'''
def prog(id, prop, needs, breaks, edits, src, go="go"):
    import os
    seed(id, prop, needs, breaks, edits, demo_sh=RUN.replace("@GO@", go))
    open(f"/verif/seeded/{id}/demo.go.txt", "w").write(src)
HEAD='''package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"os"

	w "github.com/apparentlymart/go-textseg/autoversion/textseg"
)

var _ = errors.New
var _ = bytes.NewReader
var _ bufio.SplitFunc

func fail(f string, a ...any) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}
'''
if __name__ == "__main__":
    prog("c14-shared-impl", "C14", "building with Go 1.21 to 1.26 and text whose clusters changed between Unicode 15 and 17", "the implementation for releases with Unicode 15 calls the Unicode 17 one but still says 15",
      [(AV+"unicode15.go", '	v15 "github.com/apparentlymart/go-textseg/v15/textseg"\n', '	impl "github.com/apparentlymart/go-textseg/v17/textseg"\n'),
       (AV+"unicode15.go", 'return v15.Scan', 'return impl.Scan')],
      HEAD+'''
func main() {
	// KA, VIRAMA, TA: one cluster from Unicode 15.1 on.
	adv, _, _ := w.ScanGraphemeClusters([]byte("\\u0915\\u094d\\u0924"), true)
	if w.UnicodeMajorVersion == 15 && adv != 6 {
		fail("says Unicode 15 but the first cluster has %d bytes", adv)
	}
}
''', go="go1.26")
    prog("c14-sixteen", "C14", "building with Go 1.21 to 1.26", "the advertised version is off by one for older releases",
      [(AV+"unicode15.go", 'const UnicodeMajorVersion = 15', 'const UnicodeMajorVersion = 16 // Unicode 15.1 rules')],
      HEAD.replace('"os"\n','"os"\n	"strings"\n	"unicode"\n')+'''
func main() {
	if !strings.HasPrefix(unicode.Version, fmt.Sprintf("%d.", w.UnicodeMajorVersion)) {
		fail("advertised %d, standard library %s", w.UnicodeMajorVersion, unicode.Version)
	}
}
''', go="go1.26")
    prog("c15-scan-runes", "C15", "malformed UTF-8", "the wrapper uses the standard library's rune splitter instead of the wrapped function, which replaces malformed bytes",
      [(AV+"version_agnostic.go", 'return realImpl.ScanUTF8Sequences(data, atEOF)', 'return bufio.ScanRunes(data, atEOF)')],
      HEAD+'''
func main() {
	_, tok, _ := w.ScanUTF8Sequences([]byte("\\xffa"), true)
	if string(tok) != "\\xff" {
		fail("token %q", tok)
	}
}
''')
    prog("c15-count-loop", "C15", "a split function that ends the scan early or skips input", "the counting helper drives the split function itself, and differently from a standard scanner",
      [(AV+"version_agnostic.go", '	return realImpl.TokenCount(buf, splitFunc)\n', '''	// Scanning the buffer directly avoids copying it.
	count := 0
	for len(buf) > 0 {
		advance, token, err := splitFunc(buf, true)
		if err != nil {
			return count, err
		}
		if token != nil {
			count++
		}
		if advance <= 0 || advance > len(buf) {
			break
		}
		buf = buf[advance:]
	}
	return count, nil
''' )] ,
      HEAD+'''
func main() {
	n, err := w.TokenCount([]byte("a b c"), func(data []byte, atEOF bool) (int, []byte, error) {
		if atEOF && len(data) == 0 {
			return 0, nil, nil
		}
		return 1, data[:1], bufio.ErrFinalToken
	})
	if err != nil || n != 1 {
		fail("%d tokens, error %v", n, err)
	}
}
''')
