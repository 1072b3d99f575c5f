#!/bin/bash
# usage: bash run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs against the python sources in /repo (nothing to compile); VERIF_REPO points
# to another tree.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_CWD="$PWD"
scratch=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="${VERIF_REPO:-/repo}:$here/shim"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME="$scratch"
cd "$scratch" || exit 2
/opt/venv/bin/python -W ignore "$here/run.py" "$@"
