#!/bin/bash
# usage: build.sh [property id]
# Builds the harness (and, through its path dependency, the crate in /repo's working tree). When it does not
# build as a whole, it is built with the laws of that property alone.
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_ROOT/env.sh"
mkdir -p "$VERIF_ROOT/target"
cd "$VERIF_ROOT/harness" || exit 2
log="$VERIF_ROOT/target/build.log.$$"
build() {
  cargo build --offline --locked --quiet "$@" 2>"$log" && rm -f "$log"
}
build && exit 0
build && exit 0
if [ -n "$1" ]; then
  echo "the harness does not build as a whole; building the laws of $1 alone" >&2
  p="$(echo "$1" | tr A-Z a-z)"
  build --no-default-features --features "sock,$p" && exit 0
  build --no-default-features --features "$p" && exit 0
  # without the hook of the socket
  (
    export RUSTFLAGS="--cfg quic_sea_verif --cfg quic_sea_verif_no_routing"
    build --no-default-features --features "$p"
  ) && exit 0
fi
cat "$log" >&2
rm -f "$log"
echo "the harness does not build against /repo" >&2
exit 2
