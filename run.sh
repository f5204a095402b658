#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--case SCENARIO INDEX]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="${TMV_REPO:-/repo}:$here"
exec /opt/venv/bin/python -m tmv "$@"
