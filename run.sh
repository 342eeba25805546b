#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--case N] : run one check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 \
       OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
unset CIS_DATA_HOME CIS_PLUGIN_HOME PYTHONPATH CIS_FORCE_OVERWRITE
exec /opt/venv/bin/python -B "$here/vmon/runner.py" "$@"
