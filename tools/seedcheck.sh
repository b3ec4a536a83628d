#!/bin/bash
# seedcheck.sh ID [notest]: confirms a planted bug in a scratch copy and runs its property's check on it.
# Development aid; needs the real /repo only for reading.
set -u
ID=$1; S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"; git checkout -q -- . ; git clean -fdq
. /opt/vp/env.sh
demo() { sed "s#/repo#$W/repo#g" "$S/demo.sh" > "$W/demo.sh"; mkdir -p "$W/d"; cp -r "$S"/* "$W/d/"; cp "$W/demo.sh" "$W/d/demo.sh"; (cd "$W/repo" && timeout 300 bash "$W/d/demo.sh" > "$W/demo.out" 2>&1); }
demo; a=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
for f in $(git diff --name-only); do echo "   touches $f"; done
mods=$(git diff --name-only | cut -d/ -f1 | sort -u)
[[ " $mods " == *common* ]] && mods="common client gateway-admin provider-admin gateway provider register"
if [ "${2:-}" != notest ]; then
for m in $mods; do (cd "$m" && go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -E '^(FAIL|---|panic)' | grep -v 'ExtractKeyVersionFromEmptyMsg\|^FAIL$\|fcrcrypto'); done
fi
demo; b=$?
tail -3 "$W/demo.out"
echo "$ID: demo clean=$a patched=$b"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; VERIF_REPO="$W/repo" VERIF_EVID="$W/ev" VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 tools/check.py "$P" | tail -4
