#!/bin/bash
# check.sh <property id> [quick|thorough]: run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3 tools/run.py "$1"
