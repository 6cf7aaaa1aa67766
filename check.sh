#!/bin/bash
# check.sh <property> [--thorough]: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3 sa/run.py "$@"
