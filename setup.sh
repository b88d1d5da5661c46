#!/bin/bash
# builds every monitor once; checks rebuild only what changed
DIR="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$DIR/target" CARGO_NET_OFFLINE=true
mkdir -p "$DIR/evidence" "$DIR/replays"
cd "$DIR/harness" && cargo build --release --offline --locked --bins >"$DIR/replays/setup.log" 2>&1 || { tail -40 "$DIR/replays/setup.log"; exit 1; }
for s in "$DIR"/special/*.setup; do [ -x "$s" ] && { "$s" || exit 1; }; done
exit 0
