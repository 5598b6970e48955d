#!/bin/bash
# build.sh [race]: builds the harness and the command line tool from /repo's
# working tree into /verif/.build (atomic, safe to run concurrently).
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
out=$here/.build
mkdir -p "$out"
one() { # name, dir, flags...
    local name=$1 dir=$2; shift 2
    (cd "$dir" && go build -buildvcs=false "$@" -o "$out/$name.$$" .)
    mv -f "$out/$name.$$" "$out/$name"
}
trap 'rm -f "$out"/*.$$' EXIT
one vp "$here/harness" &
one plugin /repo &
wait -n; wait -n
if [ "${1:-}" = race ]; then
    one vp-race "$here/harness" -race
fi
