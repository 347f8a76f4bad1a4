#!/bin/bash
# tools/recheck.sh [ID...]: run the check of each planted change on a scratch copy of /repo with the change applied
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for i in "$@"; do
  d=$(mktemp -d); cp -a /repo/. "$d"
  git -C "$d" apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  p=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "seeded/$i/meta.json")
  VERIF_REPO=$d ./run "$p" >"$d.out" 2>/dev/null; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" "$d.out"; then echo "$i $p caught"; else echo "$i $p MISSED ($rc)"; fi
  rm -rf "${d:?}" "${d:?}.out"
done
