#!/bin/bash
# Warms the build caches; every check builds what it needs itself.
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh
export GOFLAGS= GOWORK=off
S=$(mktemp -d "${TMPDIR:-/tmp}/vhsetup.XXXXXX") || exit 1
trap 'rm -rf "$S"' EXIT
(cd harness && go vet ./... && go build -buildvcs=false -o "$S/mon" ./mon) || exit 1
(cd "${VERIF_REPO:-/repo}" && go build -buildvcs=false -o "$S/nj" ./cmd/neojhat && go build -race -buildvcs=false -o "$S/njr" ./cmd/neojhat) || exit 1
tools/overlay.sh "${VERIF_REPO:-/repo}" "$PWD/harness" >"$S/ov.json" || exit 1
(cd "${VERIF_REPO:-/repo}" && go build -buildvcs=false -overlay "$S/ov.json" -o "$S/p" ./internal/vhprobe && go build -race -buildvcs=false -overlay "$S/ov.json" -o "$S/pr" ./internal/vhprobe) || exit 1
exit 0
