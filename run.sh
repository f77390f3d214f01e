#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
# Runs one check against the code in /repo's working tree, in a scratch directory
# which is removed afterwards.
here="$(cd "$(dirname "$0")" && pwd)"
export LANG=C.UTF-8 LC_ALL=C.UTF-8 MPLBACKEND=Agg
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
export TF_ENABLE_ONEDNN_OPTS=0 CUDA_VISIBLE_DEVICES=-1
export VERIF_DIR="$here" NIMBLE_REPO="${NIMBLE_REPO:-/repo}"
export PYTHONPATH="$NIMBLE_REPO:$here"
scratch="$(mktemp -d /tmp/nimble-mc.XXXXXX)" || exit 3
export HOME="$scratch" MC_SCRATCH="$scratch" TMPDIR="$scratch"
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
/opt/venv/bin/python -B -m mc.run "$@"
exit $?
