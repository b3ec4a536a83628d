#!/bin/bash
# Usage: revertcheck.sh <commit> <property> [seed]
# Runs a property's check on a scratch copy of /repo in which a fix commit is taken back.
c=$1 p=$2 s=${3:-1}
d=$(mktemp -d /tmp/revert.XXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" || exit 9
if ! git revert -n "$c" >/dev/null 2>"$d/err"; then echo "$c $p NOREVERT $(tail -1 "$d/err")"; rm -rf "$d"; exit 9; fi
mkdir -p "$d/ev"
VERIF_REPO="$d/repo" VERIF_EVID="$d/ev" VERIF_SEED=$s timeout 900 python3 /verif/tools/check.py "$p" >"$d/out" 2>&1
rc=$?
echo "$c $p rc=$rc $(git -C /repo log -1 --format=%s "$c" | cut -c1-80) $(grep -m1 -E 'VIOLATION:|CHECK ERROR|Error' "$d/out" | cut -c1-300)"
rm -rf "$d"
