#!/bin/bash
# fix.sh PROP 'message' FILE... : commit the given /repo files as one "fix:" commit and record it in known-findings.json
p=$1; m=$2; shift 2
git add "$@" && git commit -qm "fix: $m" && python3 "$(dirname "$0")/fixed.py" "$p" "$(git rev-parse --short HEAD)" "$m"
