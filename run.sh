#!/bin/sh
# run.sh <PROPERTY> [tier]
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec python3-vt -m vpy.check "$1" ${2:+--tier "$2"} 2>evidence/.stderr_$1
