#!/bin/bash
# Warms the build caches: plain and race builds of the harness.
DIR="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p "$DIR/.build"
cd "$DIR/harness" && go build -o "$DIR/.build/harness" . && go build -race -o "$DIR/.build/harness-race" . || exit 1
cd /repo && go build -o "$DIR/.build/dctl" . || exit 1
