#!/bin/bash
# check.sh ID [quick|thorough] [extra flags of 'vp check']
# Rebuilds everything from /repo's working tree, then decides one property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=vp
case $id in C29|C34) bin=vp-race ;; esac
"$here/build.sh" $([ $bin = vp-race ] && echo race) || { echo "ERROR property=$id: build failed" >&2; exit 2; }
work=$(mktemp -d "${TMPDIR:-/tmp}/vp-$id-XXXXXX") || exit 2
export VP_CLI=$here/.build/plugin VP_SCRATCH=$work
"$here/.build/$bin" check -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$here" -work "$work" "${@:3}"
code=$?
rm -rf "$work"
exit $code
