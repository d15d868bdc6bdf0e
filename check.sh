#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Builds the tool from /repo's working tree and the monitors from /verif, runs
# the check of one property. Exit status: 0 held, 1 violated, 2 no answer.
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd) || exit 2
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export GOFLAGS= GOWORK=off
S=$(mktemp -d "${TMPDIR:-/tmp}/vhcheck.XXXXXX") || exit 2
case $S in */vhcheck.??????) ;; *) exit 2 ;; esac
chmod 755 "$S"
trap 'rm -rf "$S"' EXIT
trap 'exit 2' INT TERM
build() { # output, flags...
  local out=$1; shift
  (cd "$REPO" && go build -buildvcs=false -o "$out" "$@") || { echo "check.sh: cannot build $out" >&2; exit 2; }
}
# Without the probe (packages reorganised) the check observes only the tool.
probe() {
  local out=$1; shift
  (cd "$REPO" && go build -buildvcs=false -o "$out" "$@") || { echo "check.sh: the probe does not build, going on without it" >&2; return 1; }
}
build "$S/neojhat" ./cmd/neojhat
(cd "$ROOT/harness" && go build -buildvcs=false -o "$S/mon" ./mon) || { echo "check.sh: cannot build the monitors" >&2; exit 2; }
ARGS=(-id "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" -root "$ROOT" -bin "$S/neojhat")
case $ID in
C01 | C04 | C05 | C06 | C07 | C09 | C10 | C11 | C12 | C13 | C16 | C17 | C18 | C21)
  "$ROOT/tools/overlay.sh" "$REPO" "$ROOT/harness" >"$S/overlay.json" || exit 2
  probe "$S/serve" -overlay "$S/overlay.json" ./internal/vhserve && ARGS+=(-serve "$S/serve")
  ;;
C02 | C03 | C08 | C19 | C22)
  "$ROOT/tools/overlay.sh" "$REPO" "$ROOT/harness" >"$S/overlay.json" || exit 2
  if [ "$ID" = C19 ]; then
    build "$S/neojhat.race" -race ./cmd/neojhat
    ARGS+=(-race-bin "$S/neojhat.race")
    probe "$S/probe.race" -race -overlay "$S/overlay.json" ./internal/vhprobe && ARGS+=(-race-probe "$S/probe.race")
  fi
  probe "$S/probe" -overlay "$S/overlay.json" ./internal/vhprobe && ARGS+=(-probe "$S/probe")
  ;;
esac
RUN=$S/run
if [ -e "$S/serve" ] && [ "$(df -Pk /dev/shm 2>/dev/null | awk 'NR == 2 { print int($4 / 1048576) }')" -ge 8 ] 2>/dev/null; then
  # many small files
  RUN=$(mktemp -d /dev/shm/vhcheck.XXXXXX) || RUN=$S/run
fi
case $RUN in */vhcheck.??????*) ;; *) exit 2 ;; esac
trap 'rm -rf "$S" "$RUN"' EXIT
mkdir -p "$RUN" && chmod 755 "$RUN"
"$S/mon" "${ARGS[@]}" -scratch "$RUN"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
