#!/bin/bash
# usage: check.sh <property id> — decides one property against the current tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_HOME="$PWD"
bin=$(mktemp -d /tmp/vfdrv-XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd h && go build -o "$bin/drv" ./drv) || { echo "INCONCLUSIVE: driver does not build" >&2; exit 2; }
"$bin/drv" "$@"
exit $?
