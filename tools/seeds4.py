from seedlib import seed
W = "autoversion/textseg/version_agnostic.go"
U15 = "autoversion/textseg/unicode15.go"
U17 = "autoversion/textseg/unicode17.go"

SHELL = r'''#!/bin/bash
# Run with the repository's root as working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/p"
printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n' "$R" "$R/autoversion" "$T/p" > "$T/go.work"
export GOWORK="$T/go.work"
printf 'module demo.example/p\n\ngo 1.25\n' > "$T/p/go.mod"
cat > "$T/p/main.go" <<'END'
@MAIN@
END
cd "$T/p"
@DO@
'''
def sh(main, do): return SHELL.replace("@MAIN@", main.strip()).replace("@DO@", do.strip())

# --- C14
seed("c14-open-ended", "C14", "a Go release after the newest known one", "the newest implementation is also selected by unknown Go releases, whatever their Unicode version",
 [(U17, "//go:build go1.27 && !go1.28\n// +build go1.27,!go1.28\n", "//go:build go1.27\n// +build go1.27\n")],
 demo_sh=sh(r'''
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

func main() {
	dir := os.Args[1]
	ctx := build.Default
	ctx.ReleaseTags = nil
	for i := 1; i <= 28; i++ {
		ctx.ReleaseTags = append(ctx.ReleaseTags, fmt.Sprint("go1.", i))
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		ok, err := ctx.MatchFile(dir, filepath.Base(f))
		if err != nil || !ok {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "ScanGraphemeClusters" {
				fmt.Println("Go 1.28 selects", f)
				os.Exit(1)
			}
		}
	}
}
''', 'timeout 250 go run . "$R/autoversion/textseg"'))

USE = r'''
package main

import (
	"unicode"

	w "github.com/apparentlymart/go-textseg/autoversion/textseg"
)

const std = (unicode.Version)

var _ [w.UnicodeMajorVersion - @MAJOR@]struct{}
var _ [@MAJOR@ - w.UnicodeMajorVersion]struct{}

func main() { w.ScanGraphemeClusters([]byte(std), true) }
'''
seed("c14-gap", "C14", "building with Go 1.25", "the oldest supported release gets no implementation",
 [(U15, "//go:build go1.21 && !go1.27\n// +build go1.21,!go1.27\n", "//go:build go1.26 && !go1.27\n// +build go1.26,!go1.27\n")],
 demo_sh=sh(USE.replace("@MAJOR@", "15"), "timeout 250 go1.25 build -o /dev/null ."))

seed("c14-wasm", "C14", "building for WebAssembly with an older Go release", "two files' constraints together give one platform the Unicode 17 implementation although its standard library has Unicode 15",
 [(U15, "//go:build go1.21 && !go1.27\n// +build go1.21,!go1.27\n", "//go:build go1.21 && !go1.27 && !wasm\n// +build go1.21,!go1.27,!wasm\n"),
  (U17, "//go:build go1.27 && !go1.28\n// +build go1.27,!go1.28\n", "//go:build (go1.27 || wasm) && !go1.28\n// +build go1.27 wasm\n// +build !go1.28\n")],
 demo_sh=sh(USE.replace("@MAJOR@", "15"), "GOOS=wasip1 GOARCH=wasm timeout 250 go1.26 build -o /dev/null ."))

# --- C15
HDR = 'package textseg\n\nimport (\n\t"bytes"\n\t"bufio"\n\t"testing"\n)\n\nvar _ = bytes.Equal\nvar _ = bufio.ErrTooLong\n\n'
WR = dict(pkg="./textseg", dir="autoversion/textseg", cd="\"$R/autoversion\"")
seed("c15-window", "C15", "a cluster or buffer longer than 4096 bytes", "the wrapper shows the implementation only a window of the caller's buffer, so long clusters are cut",
 [(U17, "	return v17.ScanGraphemeClusters(data, atEOF)\n", "	// A cluster is never longer than a page, so there is no need to look further.\n	const window = 4096\n	if len(data) > window {\n		data = data[:window]\n	}\n	return v17.ScanGraphemeClusters(data, atEOF)\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := append([]byte("e"), bytes.Repeat([]byte("\\u0301"), 5000)...)\n\tif adv, _, _ := ScanGraphemeClusters(in, true); adv != len(in) {\n\t\tt.Fatal(adv)\n\t}\n}\n', **WR)
seed("c15-forgiving-count", "C15", "a token too long for the scanner", "the wrapper hides an error of the wrapped function",
 [(W, "	return realImpl.TokenCount(buf, splitFunc)\n", "	count, err := realImpl.TokenCount(buf, splitFunc)\n	if err == bufio.ErrTooLong {\n		err = nil // the tokens before it were counted\n	}\n	return count, err\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tin := bytes.Repeat([]byte("x"), 100000)\n\tif _, err := TokenCount(in, bufio.ScanLines); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n', **WR)
seed("c15-eager-utf8", "C15", "an invalid byte at the start of a buffer of four or more bytes before end of input", "the wrapper passes another value of atEOF than the caller's",
 [(W, "	return realImpl.ScanUTF8Sequences(data, atEOF)\n", "	// With this many bytes the first sequence is complete in any case.\n	return realImpl.ScanUTF8Sequences(data, atEOF || len(data) >= 4)\n")],
 HDR + 'func TestDemo(t *testing.T) {\n\tif adv, _, _ := ScanUTF8Sequences([]byte("\\xffabcd"), false); adv != 0 {\n\t\tt.Fatal(adv)\n\t}\n}\n', **WR)

# --- C16
NM = r'''
timeout 250 go build -o "$T/prog" . || exit 1
go tool nm "$T/prog" > "$T/nm" || exit 1
! grep 'go-textseg/v15/textseg' "$T/nm" | grep -v inittask
'''
MAINW = r'''
package main

import w "github.com/apparentlymart/go-textseg/autoversion/textseg"

func main() { println(w.ScanGraphemeClusters([]byte("x"), true)) }
'''
seed("c16-registry", "C16", "building with the newest Go release", "an initialiser registers the older version's split function, so that every importer links its tables",
 [(W, "	return realImpl.ScanUTF8Sequences(data, atEOF)\n", "	return legacy[0](data, atEOF)\n"),
  (W, "// ScanUTF8Sequences is a split function for bufio.Scanner that splits on UTF8", "// legacy lists the split functions of the last version that had all of them.\nvar legacy []bufio.SplitFunc\n\nfunc init() {\n	legacy = append(legacy, realImpl.ScanUTF8Sequences, realImpl.ScanGraphemeClusters)\n}\n\n// ScanUTF8Sequences is a split function for bufio.Scanner that splits on UTF8")],
 demo_sh=sh(MAINW, NM))
seed("c16-fallback", "C16", "building with the newest Go release", "a fallback to the older version for rare input makes both versions reachable",
 [(U17, "import (\n", 'import (\n	"unicode/utf8"\n\n	v15 "github.com/apparentlymart/go-textseg/v15/textseg"\n'),
  (U17, "	return v17.ScanGraphemeClusters(data, atEOF)\n", "	if len(data) > 0 && data[0] < utf8.RuneSelf && len(data) == 1 {\n		return v15.ScanGraphemeClusters(data, atEOF) // much smaller tables\n	}\n	return v17.ScanGraphemeClusters(data, atEOF)\n")],
 demo_sh=sh(MAINW, NM))

# --- C19
TOK = HDR + 'func TestDemo(t *testing.T) {\n\tvar in []byte\n\tfor i := 0; i < 40000; i++ {\n\t\tin = append(in, "abcdefghijklmnopqrstuvwxyz\\n"[i%27])\n\t}\n\tfor _, n := range []int{100, 3000, 5000, 40000} {\n\t\tgot, err := AllTokens(in[:n], ScanUTF8Sequences)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif !bytes.Equal(bytes.Join(got, nil), in[:n]) {\n\t\t\tt.Fatal("tokens changed", n)\n\t\t}\n\t}\n}\n'
HEAD = "func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {\n"
seed("c19-small-buffers", "C19", "an input between 2 KB and 64 KB", "for inputs below the scanner's limit the tokens are kept without copying",
 [(W, HEAD, "func AllTokens(buf []byte, splitFunc bufio.SplitFunc) (toks [][]byte, err error) {\n	if len(buf) <= bufio.MaxScanTokenSize {\n		return realImpl.AllTokens(buf, splitFunc) // all of it fits the scanner's buffer\n	}\n\n")],
 TOK, **WR)
seed("c19-recycled-chunk", "C19", "more than 4096 bytes of tokens", "the copies go into a chunk of memory that starts over when it is full",
 [(W, HEAD, "func AllTokens(buf []byte, splitFunc bufio.SplitFunc) (toks [][]byte, err error) {\n	chunk := make([]byte, 0, 4096)\n	keep := func(tok []byte) []byte {\n		if len(chunk)+len(tok) > cap(chunk) {\n			chunk = chunk[:0]\n		}\n		start := len(chunk)\n		chunk = append(chunk, tok...)\n		return chunk[start:len(chunk):len(chunk)]\n	}\n\n"),
  (W, "bytes.Clone(scanner.Bytes())", "keep(scanner.Bytes())")],
 TOK, **WR)
