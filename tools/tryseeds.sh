#!/bin/bash
# tryseeds.sh [ID...]: run the check of each planted bug's property against a copy of /repo with the bug.
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -a . "$T/verif"
for id in "${ids[@]}"; do
  rm -rf "$T/repo"; cp -a "${REPO:-/repo}" "$T/repo"
  git -C "$T/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  out=$(cd "$T/verif" && VERIF_REPO="$T/repo" timeout 900 ./run.sh "${CHECK:-$p}" 2>&1); code=$?
  n=$(grep -c "^VIOLATION property=${CHECK:-$p} " <<< "$out")
  echo "$id: ${CHECK:-$p} exit $code, $n violations; $(tail -1 <<< "$out")"
  [ -n "$V" ] && echo "$out" | head -${V}
done
