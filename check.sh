#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || { echo "the harness doesn't build"; exit 2; }
export VERIF_ROOT="$here"
exec "${VERIF_TARGET:-$here/target}/debug/verif" run "$1" "${2:-${VERIF_TIER:-quick}}"
