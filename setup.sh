#!/bin/bash
# Builds the framework from the committed files, against the current tree of /repo.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p "$VERIF_DIR/build"
cd "$VERIF_DIR/mc" && go build -o "$VERIF_DIR/build/mc" .
