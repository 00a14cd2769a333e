#!/bin/bash
# bash run.sh <PROPERTY>: rebuild from /repo's working tree, run one check.
# 0 = held on everything explored, 1 = VIOLATION printed, other = check error.
cd "$(dirname "$0")" || exit 2
id="$1"
bash build.sh || { echo "build failed"; exit 2; }
[ -n "$VERIF_SEED" ] || export VERIF_SEED=1
[ -n "$VERIF_TIER" ] || export VERIF_TIER=quick
limit=780; [ "$VERIF_TIER" = thorough ] && limit=3600
export TMPDIR="$(mktemp -d /tmp/mon.XXXXXXXX)"
trap 'rm -rf -- "$TMPDIR"' EXIT
timeout -k 10 $limit "./target/debug/mon" "$id"
rc=$?
exit $rc
