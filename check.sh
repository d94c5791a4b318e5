#!/bin/bash
# check.sh ID: decide property ID on /repo's current tree (exit 0 held, 1 violated)
V=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
log=$(mktemp)
if ! "$V/facts.sh" >"$log" 2>&1; then
  echo "check.sh: the current tree cannot be analysed (it does not type-check?)" >&2
  tail -n 30 "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
exec python3 "$V/sa/main.py" "$1"
