#!/bin/bash
# replay.sh <file>   Rebuilds from /repo's working tree and executes a replay file again.
here="$(cd "$(dirname "$0")" && pwd)"
which=""; grep -q "^scenario sequential" "$1" && which=all
bash "$here/tools/build.sh" $which || exit 2
export RIPP_VERIF="$here"
exec "$here/target/release/ripp-sim" replay "$1"
