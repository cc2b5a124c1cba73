#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh ID replay FILE
# Builds the explorer against the current working tree of /repo and runs one check.
main() {
here=$(cd "$(dirname "$0")" && pwd)
id=$1
mode=${2:-${VERIF_TIER:-quick}}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 2
race=
if [ "$id" = C22 ]; then race=-race; export GORACE="halt_on_error=1 exitcode=66"; fi
go build $race -o "$tmp/mc" . || { echo "build failed"; exit 2; }
if [ "$mode" = replay ]; then
  "$tmp/mc" "$here" "$id" quick "$3"; exit $?
fi
MC_TMP=$tmp "$tmp/mc" "$here" "$id" "$mode"
exit $?
}
main "$@"
