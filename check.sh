#!/bin/bash
# check.sh <property> [quick|thorough]   Builds from /repo's working tree and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
which=""; [ "$prop" = C15 ] && which=all
bash "$here/tools/build.sh" $which || exit 2
export RIPP_VERIF="$here"
exec "$here/target/release/ripp-sim" check "$prop" "$tier" "${VERIF_SEED:-1}"
