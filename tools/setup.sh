#!/bin/bash
# Builds the simulators once so that later builds are incremental.
cd "$(dirname "$0")/.." || exit 2
for c in sim simnet simcli simfiles; do bash tools/build.sh $c || exit 1; done
exit 0
