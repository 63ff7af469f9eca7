#!/bin/bash
# Builds the program of the repository in the current directory and runs it.
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
scratch=$(mktemp -d) || exit 1
trap 'rm -rf -- "$scratch"' EXIT
go build -tags=fts5 -o "$scratch/sqddl" . || exit 3
mkdir "$scratch/m" "$scratch/good"
echo 'CREATE TABLE g (x INT);' > "$scratch/good/00.sql"
"$scratch/sqddl" migrate -db "sqlite:$scratch/demo.sqlite" -dir "$scratch/good" || exit 0
echo 'CREATE TABLE t (x INT, y NOT A (VALID THING;' > "$scratch/m/01.sql"
if "$scratch/sqddl" migrate -db "sqlite:$scratch/demo.sqlite" -dir "$scratch/m"; then
  echo "a failed migration exits with 0"
  exit 1
fi
exit 0
