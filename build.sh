#!/bin/bash
# builds the analyser from the committed, vendored sources (offline)
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off CGO_ENABLED=0
go=go
for d in /usr/local/go/bin/go /usr/local/bin/go /opt/veriftools/go1.27*/bin/go /opt/veriftools/go1.26*/bin/go; do
  if [ -x "$d" ] && "$d" version | grep -qE 'go1\.(2[6-9]|[3-9][0-9])'; then go=$d; break; fi
done
mkdir -p bin
exec "$go" build -mod=vendor -trimpath -o bin/sqverif ./cmd/sqverif
