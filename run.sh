#!/bin/bash
# run.sh <property> [quick|thorough]   decide one property on /repo's working tree
# run.sh replay <file>                 re-execute a recorded execution
# run.sh build                         build everything
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/build}
mkdir -p "$B" "$V/evidence" "$V/replays"
cd "$V" || exit 2
log=$B/build.log
build() {
    ( flock 9
      make -s -j8 BUILD="$B" all && bash sim/build_tools.sh "$REPO" "$B" ) 9>"$B/.lock" >"$log" 2>&1 || { cat "$log" >&2; echo "check error: build failed" >&2; exit 2; }
}
case "${1:-}" in
build) build; exit 0;;
replay) build; exec "$B/simlab" replay "$2" --build "$B" --repo "$REPO" --verif "$V";;
P*) build
    tier=${2:-${VERIF_TIER:-quick}}
    exec "$B/simlab" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --build "$B" --repo "$REPO" --verif "$V";;
*) echo "usage: run.sh <property> [quick|thorough] | replay <file> | build" >&2; exit 2;;
esac
