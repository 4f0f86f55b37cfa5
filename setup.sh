#!/bin/bash
# Warms the build cache; every check builds for itself from /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
B=$(mktemp -d "${TMPDIR:-/tmp}/vhs-XXXXXX") || exit 2
trap 'rm -rf -- "$B"' EXIT
(cd harness && go build -o "$B/vh" . && go build -race -o "$B/vhr" .) && mkdir -p evidence
