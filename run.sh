#!/bin/bash
# bash run.sh <property-id> [--tier quick|thorough] [--replay FILE]
# Runs one runtime-monitoring check against /repo's current working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMPI_MCA_ess_singleton_isolated=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export VF_REPO="${VF_REPO:-/repo}"
export PYTHONPATH="$here:$VF_REPO"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -W ignore -m vf.runner "$@"
