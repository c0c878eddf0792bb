#!/bin/bash
# mut.sh PATCH "PROP..." [SECONDS]: run checks against a scratch copy of /repo with PATCH applied
# (development aid; the registered checks always run on /repo itself)
set -e
d=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$d"' EXIT
git -C /repo worktree prune
mkdir $d/repo && git -C /repo archive HEAD | tar -x -C $d/repo
( cd $d/repo && git init -q && patch -p1 -s < "$1" )
mkdir -p $d/v/.build && cp /verif/MANIFEST.json /verif/known_findings.jsonl $d/v/
SIM_REPO=$d/repo SIM_BUILD=$d/v/.build bash /verif/sim/build.sh
for p in $2; do SIM_BUDGET=${3:-22} $d/v/.build/sim check $p quick || true; done
