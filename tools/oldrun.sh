#!/bin/bash
# run a check against another revision of the library: oldrun.sh REV ID [args]
rev=$1; id=$2; shift 2
d=$(mktemp -d /tmp/oldXXXXXX)
git -C /repo archive "$rev" | tar x -C "$d"
cd "$(dirname "$0")/.." && VERIF_EVIDENCE=/tmp VERIF_REPO=$d VERIF_SEED=${VERIF_SEED:-1} /opt/venv/bin/python -B run.py "$id" "$@"
rm -rf "$d"
