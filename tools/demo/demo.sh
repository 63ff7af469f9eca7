#!/bin/bash
# Runs the test beside this file against the ddl package of the repository in
# the current directory, without writing there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
scratch=$(mktemp -d) || exit 1
trap 'rm -rf -- "$scratch"' EXIT
pkg=ddl
[ -f "$here/pkg" ] && pkg=$(cat "$here/pkg")
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*_demo.go.txt; do
    b=$(basename "$f" .go.txt)
    printf '%s"%s/%s/zz_%s_test.go":"%s"' "$sep" "$repo" "$pkg" "$b" "$f"
    sep=,
  done
  echo '}}'
} > "$scratch/overlay.json"
export DEMO_SCRATCH=$scratch
timeout 280 go test -overlay "$scratch/overlay.json" -tags=fts5 -vet=off -count=1 -run '^TestDemo' "./$pkg"
