#!/bin/bash
# Runs the demonstration beside this file as an extra test of ./textseg/internal/charprops, from the repository's root.
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off HOME=${HOME:-/root}
printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n)\n' "$R" "$R/autoversion" > "$T/go.work"
export GOWORK="$T/go.work"
cp "$HERE/demo.go.txt" "$T/zz_demo_test.go"
printf '{"Replace":{"%s/textseg/internal/charprops/zz_demo_test.go":"%s/zz_demo_test.go"}}' "$R" "$T" > "$T/overlay.json"
cd "$R" && timeout 250 go test -overlay "$T/overlay.json" -vet=off -count=1 -run 'TestDemo' ./textseg/internal/charprops
