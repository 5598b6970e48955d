#!/bin/bash
# replay.sh FILE: rebuilds from /repo and decides the case of a replay file again
# (exit 1: it still fails, 0: it no longer does).
here=$(cd "$(dirname "$0")" && pwd)
bin=vp
grep -q '"property": *"C\(29\|34\)"' "$1" && bin=vp-race
"$here/build.sh" $([ $bin = vp-race ] && echo race) || exit 2
work=$(mktemp -d "${TMPDIR:-/tmp}/vp-replay-XXXXXX") || exit 2
VP_CLI=$here/.build/plugin VP_SCRATCH=$work "$here/.build/$bin" replay "$1"
code=$?
rm -rf "$work"
[ $code -eq 0 ] || code=1
exit $code
