#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID from the source in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/check" ]; then
  bash "$here/setup.sh" || { echo "cannot build the analyser"; exit 2; }
fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
exec "$here/bin/check" -dir /repo -out "$here/evidence" -tier "${2:-quick}" "$1"
