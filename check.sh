#!/bin/bash
# usage: ./check.sh ID...    decides the properties from the source in /repo
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/sqverif "$@"
