#!/bin/bash
# Run several checks and print one line each: mk.sh C12 C13 ...
for c in "$@"; do s=$(date +%s.%N); out=$(python3 "$(dirname "$0")/../run.py" $c 2>&1); rc=$?; printf '%s rc=%d %.1fs %s\n' $c $rc "$(echo "$(date +%s.%N)-$s" | bc)" "$(echo "$out" | tail -n 3 | cut -c1-300 | tr '\n' ' ')"; done
