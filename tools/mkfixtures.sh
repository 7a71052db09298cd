#!/bin/bash
# Makes /verif/fixtures with the released version (run once; the result is
# committed).  mkfixtures.sh COMMIT
cd "$(dirname "$0")/.." || exit 1
rel=${1:-4037b34} d=/tmp/mkfixtures.$$ 
mkdir -p "$d.mod" "$d.work" fixtures
git -C /repo worktree add -q --detach "$d" "$rel" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
(cd "$d" && go build -buildvcs=false -o "$d.mod/sigtool" ./src)

sed "s|=> /repo|=> $d|" harness/go.mod >"$d.mod/go.mod"; sort -u harness/go.sum "$d/go.sum" >"$d.mod/go.sum"
(cd harness && go build -buildvcs=false -modfile "$d.mod/go.mod" -o "$d.mod/vh" .)
rm -f fixtures/*.enc fixtures/*.sig fixtures/*.key fixtures/*.pub
"$d.mod/vh" mkfixtures -work "$d.work" -out "$d.mod/res" -bin "$d.mod/sigtool" -x "dir=$PWD/fixtures"
git -C /repo worktree remove --force "$d"; rm -rf "$d.mod" "$d.work"
ls fixtures | wc -l; du -sh fixtures
