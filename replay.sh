#!/bin/bash
# usage: replay.sh <replay file>: runs one saved case against /repo's working tree, without the generator
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
f="$(realpath "$1")"
prop="$(sed -n "s/.*\"property\": *\"\([A-Z0-9]*\)\".*/\1/p" "$f" | head -1)"
bash "$VERIF_ROOT/build.sh" "$prop" || exit 2
exec "$VERIF_ROOT/target/debug/quic-sea-verif" replay "$f"
