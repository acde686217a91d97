#!/bin/bash
# ./check.sh <property id> [--replay FILE]     VERIF_TIER=quick|thorough  VERIF_SEED=n
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec python3-vt -B pbt/run.py "$@"
