#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
[ -x bin/engine ] || bash b.sh || exit 2
exec bin/engine check -root "$PWD" -repo "${REPO:-/repo}" -tier "${2:-quick}" "$1"
