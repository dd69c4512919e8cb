#!/bin/bash
# Unpacks the vendored wheels (hypothesis, sortedcontainers) into /verif/.deps. Offline.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c 'from vlib import boot; boot.ensure_deps(); import hypothesis; print("hypothesis", hypothesis.__version__)'
