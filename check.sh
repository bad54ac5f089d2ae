#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_TIER="${2:-quick}" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python rv/run.py "$1" "${2:-quick}"
