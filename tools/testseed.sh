#!/bin/bash
# usage: testseed.sh ID... : confirms in a scratch copy that each planted change builds,
# passes the stable tests and fails its demo; then runs its property's check on it.
for ID in "$@"; do
  D=/verif/seeded/$ID
  PROP=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
  S=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$S/repo"
  ok=1
  printf 'go 1.25\n\nuse (\n\t%s\n\t%s\n)\n' "$S/repo" "$S/repo/autoversion" > "$S/go.work"
  # the demo needs /repo as working directory path; run it with cwd there
  (cd "$S/repo" && git checkout -q -- . && timeout 300 bash "$D/demo.sh" >/dev/null 2>&1) || { echo "$ID: demo fails on the unchanged tree"; ok=0; }
  (cd "$S/repo" && git apply "$D/patch.diff") || { echo "$ID: patch does not apply"; ok=0; }
  (cd "$S/repo" && export GOWORK=$S/go.work && go build ./... && (cd textseg/internal/charprops && go build -o /dev/null ./generate.go) && cd autoversion && go build ./... && go1.26 build ./... ) >/dev/null 2>&1 || { echo "$ID: does not build"; ok=0; }
  (cd "$S/repo" && export GOWORK=$S/go.work && go test -vet=off -count=1 ./... && cd autoversion && go test -vet=off -count=1 ./... && go1.26 test -vet=off -count=1 ./...) >/dev/null 2>&1 || { echo "$ID: tests fail"; ok=0; }
  (cd "$S/repo" && timeout 300 bash "$D/demo.sh" >/dev/null 2>&1) && { echo "$ID: demo passes with the patch"; ok=0; }
  [ $ok = 1 ] && echo "$ID ($PROP): planted bug confirmed"
  VERIF_REPO="$S/repo" /verif/run.sh $PROP > "$S/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$PROP " "$S/out"; then echo "$ID: CAUGHT: $(head -1 "$S/out")"; else echo "$ID: MISSED rc=$rc"; fi
  rm -rf "$S"
done
