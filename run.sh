#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker against the current tree of /repo and decides one property.
# run.sh replay FILE: runs one violation again.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
export HOME="${HOME:-/root}"
[ "$1" != replay ] && [ -n "$2" ] && export VERIF_TIER="$2"
mkdir -p "$VERIF_DIR/build" "$VERIF_DIR/replay" "$VERIF_DIR/evidence"
cd "$VERIF_DIR/mc" || exit 2
go build -o "$VERIF_DIR/build/mc" . || { echo "the checker does not build against /repo" >&2; exit 2; }
if [ "$1" = replay ]; then
	exec "$VERIF_DIR/build/mc" replay "$2"
fi
exec "$VERIF_DIR/build/mc" check "$1"
