#!/bin/bash
# developer helper: run one RAC file against /repo (or $ROOT) directly
ROOT=${ROOT:-/repo}
D=$(mktemp -d)
cd $D; VERIF_ROOT=$ROOT PYTHONPATH=$ROOT VERIF_SCRATCH=$D PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 /opt/venv/bin/python /verif/rac/run.py "$@"
rm -rf "$D"
