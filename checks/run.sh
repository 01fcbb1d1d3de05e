#!/bin/bash
# usage: checks/run.sh Cxx [--quick|--thorough]   (VERIF_SEED, VERIF_TIER from the environment)
# The checks import the code directly from /repo's working tree (pure Python: nothing to build).
HERE="$(cd "$(dirname "$0")/.." && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$HERE/lib" LC_ALL=C.UTF-8
ID="$1"; shift
f=$(ls "$HERE"/checks/"$(echo "$ID" | tr 'A-Z' 'a-z')"_*.py 2>/dev/null | head -1)
[ -n "$f" ] || { echo "no check for $ID"; exit 2; }
# A workload that does not end is a call that never returned: the quick checks need at most a minute or two,
# the thorough ones a few minutes.
case "$VERIF_TIER $*" in *thorough*) L=850;; *) L=600;; esac
case "$*" in *--quick*) L=600;; esac
export VERIF_LIMIT="${VERIF_LIMIT:-$L}"
timeout -k 5 "$VERIF_LIMIT" /opt/venv/bin/python -W ignore "$f" "$@"
rc=$?
if [ $SECONDS -ge $VERIF_LIMIT ] && { [ $rc = 124 ] || [ $rc = 137 ]; }; then
    echo "  [never-ends] the workload did not end within $VERIF_LIMIT s:"
    head -n 12 "$HERE/replay/${ID}_never_ends.txt"
    echo "VIOLATION property=$ID replay=$HERE/replay/${ID}_never_ends.txt"
    exit 1
fi
exit $rc
