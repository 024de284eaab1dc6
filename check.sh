#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE]
# Runs one property check against the working tree of /repo (or $VERIF_REPO).
cd "$(dirname "$0")" || exit 2
prop="$1"; shift
tier="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) tier="$1"; shift;; esac
scratch=$(mktemp -d /tmp/verif-pbt.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export VERIF_TIER="$tier" VERIF_SCRATCH="$scratch" VERIF_REPO="${VERIF_REPO:-/repo}"
export HOME="$scratch" TMPDIR="$scratch" MPLCONFIGDIR="$scratch/mpl" MPLBACKEND=Agg LC_ALL=C.UTF-8
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hypothesis"
unset PYTHONPATH
/opt/venv/bin/python -m pbt.run "$prop" "$@"
