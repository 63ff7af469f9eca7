#!/bin/sh
# usage: mutate.sh CHECKS FILE <<'sed or python replacement'
# Runs checks on a scratch copy of the repository with one edit applied
# (stdin: the old text, a line "=====", the new text).
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -r "${SQV_REPO:-/repo}" "$d/repo"
python3 -c '
import sys
f=sys.argv[1]; t=sys.stdin.read(); old,new=t.split("=====\n"); old=old.rstrip("\n"); new=new.rstrip("\n")
s=open(f).read()
assert s.count(old)>=1, ("not found", old)
open(f,"w").write(s.replace(old,new,1) if len(sys.argv)<3 else s.replace(old,new))
' "$d/repo/$2" $3
(cd "$d/repo" && . /opt/vp/env.sh >/dev/null 2>&1; go build ./ddl) || { echo "does not build"; exit 1; }
cd "$(dirname "$0")/.."
SQV_REPO=$d/repo bin/sqverif $1 | grep -v "^  [a-z_]*: [0-9a-z]*\|analysed" || true
