#!/bin/bash
# run.sh ID: run the check of a property (VERIF_SEED, VERIF_TIER select seed and depth)
cd "$(dirname "$0")" || exit 2
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 "checks/$id.py" "$@"
