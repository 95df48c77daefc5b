#!/bin/bash
# check.sh <property id> [quick|thorough]: decides one property from /repo's current source.
set -u
cd "$(dirname "$0")"
V=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
if [ ! -x bin/an ] || [ -n "$(find analyzer -newer bin/an -name '*.go' -print -quit)" ]; then
  ./build.sh || exit 2
fi
exec bin/an -id "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -verif "$V"
