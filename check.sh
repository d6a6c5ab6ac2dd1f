#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   (or: check.sh PROPERTY --replay FILE)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
p=$1; shift
if [ "$1" = --replay ]; then exec /opt/venv/bin/python harness/main.py "$p" --replay "$2"; fi
exec /opt/venv/bin/python harness/main.py "$p" --tier "${1:-quick}"
