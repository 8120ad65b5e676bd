#!/bin/bash
# Builds the checker from its source and decides the given properties for /repo.
# usage: run.sh PROPERTY...   (no argument: only build)
cd "$(dirname "$0")" || exit 2
HERE=$(pwd)
TMP=$(mktemp -d) || exit 2
trap 'rm -rf "$TMP"' EXIT
[ -n "${HOME:-}" ] || export HOME=/root
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0 TMPDIR="$TMP"
if ! (cd checker && go build -o "$TMP/verify" ./cmd/verify); then
  echo "the checker does not build"
  exit 2
fi
[ $# -gt 0 ] || exit 0
"$TMP/verify" -repo "${VERIF_REPO:-/repo}" -verif "$HERE" -evidence "${VERIF_EVIDENCE:-$HERE/evidence}" "$@"
