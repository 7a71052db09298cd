#!/bin/bash
# seedtest.sh [-t] [-n] [-c] id...: development aid.  For each planted bug, in a
# scratch copy of /repo: demo on the clean tree (expect 0) and on the patched
# tree (expect nonzero), with -t also the stable tests, then the property's
# check on the patched tree (expect exit 1).  -n: no check.  -c: check only.
T=0; N=0; C=0
while [[ "$1" == -* ]]; do case $1 in -t) T=1;; -n) N=1;; -c) C=1;; esac; shift; done
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
V=/verif
[ $# = 0 ] && set -- $(ls $V/seeded)
S=$(mktemp -d /tmp/seedtest.XXXX)
trap 'rm -rf "$S"' EXIT
for id in "$@"; do
  rm -rf "$S/repo"; cp -a /repo "$S/repo"; cd "$S/repo" || exit 2
  mkdir -p "$S/d"; rm -rf "$S/d/$id"; cp -a "$V/seeded/$id" "$S/d/$id"; rm -f "$S/d/$id"/{patch.diff,meta.json}
  bin=bin/$(go env GOOS)-$(go env GOARCH)/sigtool
  r="$id:"
  go build -trimpath -buildvcs=false -o $bin ./src || r="$r CLEAN-BUILD-FAILS"
  if [ $C = 0 ]; then
    bash "$S/d/$id/demo.sh" >"$S/clean.log" 2>&1 && r="$r clean-ok" || { r="$r CLEAN-DEMO-FAILS"; tail -5 "$S/clean.log"; }
  fi
  git apply "$V/seeded/$id/patch.diff" || { echo "$r PATCH-FAILS"; continue; }
  go build ./... && go build -trimpath -buildvcs=false -o $bin ./src || { echo "$r BUILD-FAILS"; continue; }
  if [ $C = 0 ]; then
    bash "$S/d/$id/demo.sh" >"$S/bug.log" 2>&1 && r="$r DEMO-PASSES" || r="$r demo-fails"
  fi
  if [ $T = 1 ]; then
    go test -vet=off -count=1 ./... >"$S/t.log" 2>&1 && r="$r tests-ok" || { r="$r TESTS-FAIL"; grep -E "^(---|FAIL|panic)" "$S/t.log" | head; }
    timeout 300 bash ./tests.sh bin="$PWD/$bin" tmpdir="$S/rt" </dev/null >"$S/t2.log" 2>&1 && r="$r tests.sh-ok" || r="$r TESTS.SH-FAIL"
  fi
  if [ $N = 0 ]; then
    p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
    SIGTOOL_REPO="$S/repo" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} "$V/bin/check" $p >"$S/c.log" 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" "$S/c.log"; then r="$r CAUGHT($(grep -c ^VIOLATION "$S/c.log"))"; else r="$r MISSED(rc=$rc)"; tail -5 "$S/c.log"; fi
  fi
  echo "$r"
done
