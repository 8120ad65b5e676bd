#!/bin/bash
# Run with the repository's root as working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off HOME=${HOME:-/root} CGO_ENABLED=0
mkdir "$T/p"
printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n\t%s\n)\n' "$R" "$R/autoversion" "$T/p" > "$T/go.work"
export GOWORK="$T/go.work"
printf 'module demo.example/p\n\ngo 1.25\n' > "$T/p/go.mod"
cat > "$T/p/main.go" <<'END'
package main

import (
	"unicode"

	w "github.com/apparentlymart/go-textseg/autoversion/textseg"
)

const std = (unicode.Version)

var _ [w.UnicodeMajorVersion - 15]struct{}
var _ [15 - w.UnicodeMajorVersion]struct{}

func main() { w.ScanGraphemeClusters([]byte(std), true) }
END
cd "$T/p"
timeout 250 go1.25 build -o /dev/null .
