#!/bin/bash
# usage: check.sh <property id> [case]     (VERIF_SEED, VERIF_TIER from the environment)
#        check.sh replay <replay file>
# Builds the monitors together with /repo's current working tree and runs them.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
B=$(mktemp -d "${TMPDIR:-/tmp}/vhb-XXXXXX") || exit 2
trap 'rm -rf -- "$B"' EXIT
race=
case "$1" in $RACE_PROPS) race=-race ;; esac
if ! (cd harness && go build $race -o "$B/vh" . ) >"$B/log" 2>&1; then
  echo "INCONCLUSIVE: the monitors do not build against /repo"; cat "$B/log"; exit 2
fi
if ! (cd /repo && go build -o "$B/modelconv" ./cmd/modelconv) >"$B/log" 2>&1; then
  echo "INCONCLUSIVE: the command line tool does not build"; cat "$B/log"; exit 2
fi
export VH_CLI="$B/modelconv"
if [ "$1" = replay ]; then
  "$B/vh" replay "$2"
else
  "$B/vh" check "$@"
fi
