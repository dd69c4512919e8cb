#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--scale X]
# Runs one property's check against /repo's current working tree (pure python: imported straight from /repo).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy PYTHONPATH HADAR_LOG
export NO_PROXY=localhost,127.0.0.1 no_proxy=localhost,127.0.0.1
exec /opt/venv/bin/python -W ignore -m vlib.main "$@"
