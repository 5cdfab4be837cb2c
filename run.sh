#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sim.check "$1" --tier "${2:-quick}"
