#!/bin/bash
# check.sh <property> : verifies the contracts of one property against /repo's current tree.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go' | head -1)" ]; then
  bash ./setup.sh || exit 2
fi
exec bin/govc -repo "${REPO:-/repo}" -verif "$PWD" -prop "$1"
