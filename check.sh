#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough] [--replay FILE] [--only SCENARIO]
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export PYTHONHASHSEED="$(( ${VERIF_SEED:-1} % 4294967295 ))"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/rbmverif.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
export RBM_SCRATCH="$scratch" NUMBA_CACHE_DIR="$scratch/numba" MPLCONFIGDIR="$scratch/mpl" HOME="$scratch"
/opt/venv/bin/python -m mc.run "$@"
rc=$?
exit $rc
