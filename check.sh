#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulation from /repo's working tree and search.
# 0: nothing found; 1: a VIOLATION line; 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
p=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac
bash build.sh >target.log 2>&1 || { echo "the simulation does not build:"; tail -40 target.log; exit 2; }
if [ "$tier" = thorough ]; then
    seconds=720 runs=100000000
else
    seconds=${CHECK_SECONDS:-30} runs=${CHECK_RUNS:-60000}
fi
mkdir -p replays evidence
exec "$here/target/debug/broker-sim" check --property "$p" --tier "$tier" --runs "$runs" --seconds "$seconds" \
    --workers 8 --shrink-seconds 60 --replays "$here/replays" --evidence "$here/evidence/$p.json" \
    --known "$here/known-findings.txt" --seed "$seed" 2>/dev/null
