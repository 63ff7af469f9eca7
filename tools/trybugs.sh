#!/bin/bash
# usage: tools/trybugs.sh [BUG...]   runs the check of its property on each planted bug
cd "$(dirname "$0")/.." || exit 2
./build.sh || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
  copy=/tmp/try-$b
  cp -a /repo "$copy" && git -C "$copy" checkout -q -- . && git -C "$copy" apply "$PWD/seeded/$b/patch.diff" || { echo "$b: cannot apply"; rm -rf -- "$copy"; continue; }
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$b/meta.json")
  mkdir -p "$copy-root"; cp known-findings.jsonl "$copy-root"/ 2>/dev/null
  out=$(SQV_REPO=$copy SQV_ROOT=$copy-root ./bin/sqverif "$p" 2>&1); code=$?
  if [ $code -eq 1 ]; then echo "$b ($p): caught: $(grep -A1 '^  ddl/\|^  main.go' <<<"$out" | head -2 | cut -c1-200)"; else echo "$b ($p): MISSED exit $code $(tail -3 <<<"$out")"; fi
  rm -rf -- "$copy" "$copy-root"
done
