#!/bin/bash
# mkseed.sh <id>: take the working tree change in a scratch copy (/tmp/seed/repo)
# as /verif/seeded/<id>/patch.diff
set -e
cd /tmp/seed/repo
git diff > /verif/seeded/$1/patch.diff
git checkout -q -- .
