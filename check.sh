#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3 tools/check.py "$1"
