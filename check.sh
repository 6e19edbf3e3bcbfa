#!/bin/bash
# check.sh ID [quick|thorough]      decide property ID on /repo's working tree
# check.sh ID replay FILE           run one recorded violation again
# Builds an instrumented copy of /repo/src in a scratch directory, links the
# property's harness against it and enumerates. Exit 0 / 1 as MANIFEST says.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}; mode=${2:-${VERIF_TIER:-quick}}
src=${VH_REPO:-/repo}/src
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB=* GOFLAGS="-mod=mod -buildvcs=false"
W=$(mktemp -d /tmp/vh.XXXXXX) || exit 3
S=
cleanup() { chmod -R u+rwX "$W" 2>/dev/null; rm -rf "$W"; [ -n "$S" ] && rm -rf "$S"; }
trap cleanup EXIT
trap 'exit 3' INT TERM
if [ -d /dev/shm ] && [ -w /dev/shm ]; then S=$(mktemp -d /dev/shm/vh.XXXXXX); else S=$(mktemp -d "$W/s.XXXXXX"); fi
cmd=$(echo "$id" | tr 'A-Z' 'a-z')
cp -r "$here/h" "$W/h" || exit 3
(cd "$W/h" && go build -o "$W/inst-tool" ./cmd/inst) || exit 3
"$W/inst-tool" "$src" "$here/shim" "$W/inst" || { echo "instrumentation failed" >&2; exit 3; }
cat > "$W/h/go.mod" <<M
module vh

go 1.18

require gotor v0.0.0

replace gotor => $W/inst
M
export VH_SCRATCH=$S VH_KNOWN=$here/known-findings.txt VH_REPLAYS=$here/replays VH_EVIDENCE=$here/evidence/$id.json VH_W=$W VH_SRC=$src
if [ -f "$here/h/cmd/$cmd/BIN" ]; then
  (cd "$src" && go build -o "$W/gotor" .) || { echo "gotor does not build" >&2; exit 3; }
  export VH_BIN=$W/gotor
fi
flags=; [ -f "$here/h/cmd/$cmd/RACE" ] && racep=1 || racep=
run() { # flags label args...
  local fl=$1 bin=$2; shift 2
  (cd "$W/h" && go build $fl -o "$W/$bin" "./cmd/$cmd") || { echo "harness does not build" >&2; exit 3; }
  "$W/$bin" "$@"
}
if [ "$mode" = replay ]; then
  f=$(realpath "$3"); fl=; grep -q '"race": true' "$f" && fl=-race
  run "$fl" "$cmd" --replay "$f"; exit $?
fi
export VERIF_TIER=$mode
all=380; part=260; [ "$mode" = thorough ] && { all=780; part=540; }
[ -n "$racep" ] && [ -z "${VH_LIMIT:-}" ] && { lim=1; export VH_LIMIT=$part; }
run "" "$cmd"; rc=$?
if [ $rc = 0 ] && [ -n "$racep" ]; then
  export VH_MERGE=1 VH_RACE=1
  [ -n "${lim:-}" ] && export VH_LIMIT=$((all - SECONDS))
  run -race "$cmd-race"; rc=$?
fi
exit $rc
