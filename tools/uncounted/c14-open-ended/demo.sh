#!/bin/bash
# Run with the repository's root as working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/p"
printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n' "$R" "$R/autoversion" "$T/p" > "$T/go.work"
export GOWORK="$T/go.work"
printf 'module demo.example/p\n\ngo 1.25\n' > "$T/p/go.mod"
cat > "$T/p/main.go" <<'END'
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

func main() {
	dir := os.Args[1]
	ctx := build.Default
	ctx.ReleaseTags = nil
	for i := 1; i <= 28; i++ {
		ctx.ReleaseTags = append(ctx.ReleaseTags, fmt.Sprint("go1.", i))
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		ok, err := ctx.MatchFile(dir, filepath.Base(f))
		if err != nil || !ok {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "ScanGraphemeClusters" {
				fmt.Println("Go 1.28 selects", f)
				os.Exit(1)
			}
		}
	}
}
END
cd "$T/p"
timeout 250 go run . "$R/autoversion/textseg"
