#!/bin/bash
# Runs every check and prints the last line of each, or the violations.
cd "$(dirname "$0")/.." || exit 1
for f in sa/checks/c[0-9][0-9].py; do
    c=$(basename "$f" .py)
    out=$(./check.sh "${c^^}") || echo "$out" | head -8
    echo "$out" | tail -1
done
