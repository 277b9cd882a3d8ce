#!/bin/bash
# ./run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore sa/run.py "$@"
