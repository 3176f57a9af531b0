#!/bin/bash
# check.sh ID [tier]: decide one property on /repo's current working tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
"$here/build.sh" >&2 || { echo "the analyser does not build" >&2; exit 3; }
exec "$here/bin/analyzer" -repo /repo -verif "$here" -prop "$id" -tier "$tier"
