#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuilds the simulator from /repo's working tree, then searches.
V=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}
mkdir -p "$V/evidence" "$V/work"
if [ "$id" = P26 ] || [ "$id" = P27 ]; then
  # The editor extension is simulated in Node; its code is bundled from /repo's working tree.
  export VERIF_DIR=$V VERIF_TIER=$tier PATH=$PATH:/usr/local/bin:/usr/bin
  exec node "$V/ext/main.mjs" check "$id"
fi
log=$V/work/build.$id.log
if ! "$V/sim/build.sh" > "$log" 2>&1; then
  tail -n 40 "$log" >&2
  echo "the simulator does not build from /repo" >&2
  exit 2
fi
export VERIF_DIR=$V VERIF_TIER=$tier
exec "${SIM_TARGET:-$V/work/target}/debug/acornsim" check "$id"
