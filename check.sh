#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]   (env: VERIF_SEED, VERIF_TIER)
# Builds the harness against /repo's working tree and runs the check of one property.
set -u
PROP=$1; shift
DIR="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p "$DIR/.build"
RACE=""; BIN="$DIR/.build/harness"
case " $(tr '\n' ' ' < "$DIR/race_props") " in *" $PROP "*) RACE="-race"; BIN="$DIR/.build/harness-race";; esac
cd "$DIR/harness" || exit 3
if ! go build $RACE -o "$BIN" . >"$DIR/.build/build.log" 2>&1; then
  cat "$DIR/.build/build.log"; echo "check error: build failed"; exit 3
fi
if grep -qx "$PROP" "$DIR/cli_props" && ! (cd /repo && go build -o "$DIR/.build/dctl" . >"$DIR/.build/build.log" 2>&1); then
  cat "$DIR/.build/build.log"; echo "check error: CLI build failed"; exit 3
fi
exec "$BIN" -prop "$PROP" -dir "$DIR" "$@"
