#!/bin/bash
# usage: check.sh <property id> [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
exec /opt/venv/bin/python -W ignore "$here/mon/supervisor.py" "$@"
