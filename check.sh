#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
repo=${VERIF_REPO:-/repo}
if ! "$here/build.sh" > "$here/build.log.$$" 2>&1; then
  echo "ANALYSIS-BROKEN: the analyser does not build"; tail -20 "$here/build.log.$$"; rm -f "$here/build.log.$$"; exit 3
fi
rm -f "$here/build.log.$$"
w=$(mktemp -d /tmp/gcell.XXXXXX)
trap 'rm -rf "$w"' EXIT
d=330; [ "$tier" = thorough ] && d=750
"$here/build/bin/gcell" -check "$id" -tier "$tier" -root "$here" -repo "$repo" -export "$here/build/bin/astexport" -build "$w" -deadline $d
