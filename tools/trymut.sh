#!/bin/bash
# trymut.sh PROP FILE 'sed-expr' ... : applies one mutation at a time to the scratch copy and says whether the check reports it
# (git checkout updates the time stamps, so VT_DEV rebuilds what a mutation touched)
P=$1; F=$2; shift 2
for e in "$@"; do
  git -C /tmp/mut/r checkout -q -- .
  ( cd /tmp/mut/r && perl -0pi -e "$e" $F )
  if git -C /tmp/mut/r diff --quiet; then echo "NOCHANGE $e"; continue; fi
  o=$(cd "$(dirname "$0")/.."; VERIF_REPO=/tmp/mut/r VERIF_BUILD=/tmp/mut/build VT_DEV=1 timeout 600 python3 vt.py $P 2>&1)
  if grep -q "^VIOLATION" <<<"$o"; then echo "CAUGHT   $e :: $(grep -A1 -m1 '^VIOLATION' <<<"$o" | tail -1)"; else echo "MISSED   $e :: $(tail -2 <<<"$o")"; fi
done
git -C /tmp/mut/r checkout -q -- .
