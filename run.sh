#!/bin/bash
# usage: bash run.sh <PROPERTY> quick|thorough        (decide a property on /repo's working tree)
#        bash run.sh <PROPERTY> replay FILE           (re-run one recorded case)
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 QISKIT_IN_PARALLEL=TRUE
export VERIF_TIER="${2:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
unset PYTHONPATH
export PYTHONWARNINGS=ignore
SCRATCH="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export TMPDIR="$SCRATCH" HOME="$SCRATCH" MPLCONFIGDIR="$SCRATCH"
if [ -n "$VERIF_DEBUG" ]; then
  /opt/venv/bin/python "$HERE/run.py" "$@"
else
  /opt/venv/bin/python "$HERE/run.py" "$@" 2>"$SCRATCH/stderr"
fi
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ -s "$SCRATCH/stderr" ]; then grep -v Warning "$SCRATCH/stderr" | tail -20; fi
exit $rc
