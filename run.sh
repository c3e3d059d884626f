#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough]   (run in /verif)
# Builds the simulator against /repo's current working tree and checks one property.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p evidence
if ! (cd sim && cargo build --release --offline --quiet) >evidence/build.log 2>&1; then
  cat evidence/build.log >&2; echo "the simulator does not build against /repo" >&2; exit 2
fi
exec ./sim/target/release/sim check --prop "$1" --tier "$tier"
