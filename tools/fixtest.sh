#!/bin/bash
# Reverts each repair in a scratch copy and runs the property's check there:
# every one has to be reported again.   fixtest.sh [commit:property ...]
cd "$(dirname "$0")/.." || exit 1
list="$*"
[ -n "$list" ] || list=$(python3 -c '
import json
for f in json.load(open("known-findings.json"))["findings"]:
    if f["status"] == "fixed": print(f["commit"] + ":" + f["property"])')
for x in $list; do
  c=${x%%:*} p=${x##*:} d=/tmp/fixtest.$$
  git -C /repo worktree add -q --detach "$d" HEAD
  if ! git -C "$d" revert -n "$c" >/dev/null 2>&1; then
    git -C "$d" revert --abort 2>/dev/null; git -C "$d" checkout -q -f HEAD
    git -C "$d" checkout -q "$c~1" ; note="(parent of the repair)"
  else note=""; fi
  if SIGTOOL_REPO="$d" bin/check "$p" >/tmp/fixtest.out 2>&1; then r=MISSED; else
    grep -q "^VIOLATION property=$p" /tmp/fixtest.out && r=reported || r="NO ANSWER"; fi
  echo "$c $p $r $note"
  [ "$r" = reported ] || tail -5 /tmp/fixtest.out
  git -C /repo worktree remove --force "$d"
done
