#!/bin/bash
# usage: runseeds.sh [-t tier] [id...]   runs the property's check against each planted bug, in scratch copies of
# /repo and /verif (so that nothing else is disturbed). REPO_REF / check logic is otherwise the registered command.
cd "$(dirname "$0")/.." || exit 2
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
W=$(mktemp -d /tmp/runseeds.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/repo"
cp -r check mc KNOWN_FINDINGS.txt setup.sh "$W/"
grep -rl '/repo' "$W/mc" "$W/check" --include=go.mod --include='*.go' --include=check --include='*.sh' | xargs sed -i "s#/repo\b#$W/repo#g"
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$W/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s.%N)
  out=$(timeout 900 "$W/check" "${PROP:-$p}" $tier 2>&1); rc=$?
  git -C "$W/repo" checkout -q -- .; git -C "$W/repo" clean -fdq
  w=$(python3 -c "import time;print('%.1f'%(time.time()-$s))")
  if [ $rc = 1 ] && grep -q "^VIOLATION property=${PROP:-$p} " <<<"$out"; then echo "$id $p CAUGHT ${w}s $(grep -v ^KNOWN <<<"$out" | head -1 | cut -c1-140)"
  else echo "$id $p MISSED rc=$rc ${w}s $(tail -1 <<<"$out" | cut -c1-200)"; fi
done
