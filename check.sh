#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; anything else: no answer
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_TIER="${2:-quick}"
export VERIF_SEED="${VERIF_SEED:-1}"
rm -f "$VERIF_ROOT/evidence/$1.json"
bash "$VERIF_ROOT/build.sh" "$1" || exit 2
exec "$VERIF_ROOT/target/debug/quic-sea-verif" check "$1"
