#!/bin/bash
# Builds the facts driver and extracts the facts of /repo's current tree once (the checks do it again when the tree changes).
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec python3 sa/facts.py
