#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")/.." && pwd)
cd "$HERE" || exit 2
mkdir -p evidence replay
case $ID in
  N*) SIM=simnet; BIN=nbnet ;;
  C06) SIM=simfiles; BIN=nbcli ;;
  C*) SIM=simcli; BIN=nbcli ;;
  *) SIM=sim; BIN=nbsim ;;
esac
bash tools/build.sh $SIM || { echo "could not build the simulator"; exit 3; }
ulimit -v 3600000 2>/dev/null
exec "$HERE/target/$SIM/release/$BIN" check "$ID" "$TIER" "$SEED" "$HERE/evidence/$ID.json" "$HERE/replay"
