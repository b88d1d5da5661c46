#!/bin/bash
# check.sh <ID>: builds the monitor of one property against /repo's working tree
# and runs it. VERIF_TIER=quick|thorough, VERIF_SEED=<n>, VERIF_REPLAY=<file>.
# exit 0 held, 1 violation, 2 no answer.
ID="$1"
DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$DIR" CARGO_TARGET_DIR="$DIR/target" CARGO_NET_OFFLINE=true
export RUST_MIN_STACK=67108864
[ -n "$2" ] && export VERIF_TIER="$2"
low="$(echo "$ID" | tr 'A-Z' 'a-z')"
if [ -x "$DIR/special/$low.sh" ]; then exec "$DIR/special/$low.sh" "$ID"; fi
mkdir -p "$DIR/evidence" "$DIR/replays"
log="$DIR/replays/build-$low.log"
# the lock file is the harness's own: never rewritten on a check
if ! (cd "$DIR/harness" && cargo build --release --offline --locked --bin "$low") >"$log" 2>&1; then
  grep -A12 "^error" "$log" | head -80
  if [ "$low" = c18 ] && ! grep "^error: could not compile" "$log" | grep -qv "(bin .c18.)" && grep -q "originates in the derive macro .Signal.\|proc-macro derive panicked" "$log"; then
    echo "  the derived implementations do not compile"
    echo "VIOLATION property=$ID replay=$log"
    exit 1
  fi
  echo "INCONCLUSIVE: build failed"; exit 2
fi
if [ "$low" = c25 ]; then
  # the programs a user gets from the binding macros: the library compiles, so they have to
  log="$DIR/replays/build-cli.log"
  if ! (cd "$DIR/harness" && cargo build --release --offline --locked --bin cli) >"$log" 2>&1; then
    grep -A12 "^error" "$log" | head -80
    if grep -q "the clap stand-in does not know" "$log" || ! grep -q "could not compile .fv. (bin .cli.)" "$log" || grep -q "signal: 9" "$log"; then echo "INCONCLUSIVE: build failed"; exit 2; fi
    echo "  the generated command-line programs do not compile"
    echo "VIOLATION property=$ID replay=$log"
    exit 1
  fi
fi
err="$DIR/replays/$low.stderr"
"$CARGO_TARGET_DIR/release/$low" 2>"$err" | grep -v '^Has generated .* points$'
rc=${PIPESTATUS[0]}
cat "$err" >&2
if [ $rc -eq 101 ]; then
  # the library failed while the workload was being prepared (parameters, tables)
  f="$DIR/replays/$ID-preparation.txt"
  cp "$err" "$f"
  echo "  the library fails while the workload is prepared: $(grep -A1 panicked "$err" | tail -1)"
  echo "VIOLATION property=$ID replay=$f"
  exit 1
fi
if [ $rc -ge 128 ] && [ $rc -ne 137 ] && [ $rc -ne 143 ]; then
  # the monitored process was killed by a fault (stack overflow, abort, SIGSEGV)
  f="$DIR/replays/$ID-crash.json"
  echo "{\"property\":\"$ID\",\"message\":\"process died with status $rc\",\"seed\":\"${VERIF_SEED:-1}\"}" >"$f"
  echo "VIOLATION property=$ID replay=$f"
  exit 1
fi
exit $rc
