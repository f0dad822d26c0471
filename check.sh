#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [flags]
# Builds the driver and checks one property against the repository's working
# tree. Exit 0: held; 1: violated; anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:$PATH
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
d=$(mktemp -d "${TMPDIR:-/tmp}/verif-mc.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
trap 'exit 2' INT TERM
cd "$here" || exit 2
go build -o "$d/mc" ./cmd/mc || { echo "check.sh: cannot build the driver" >&2; exit 2; }
"$d/mc" -verif "$here" -scratch "$d" -prop "$prop" -tier "$tier" "$@"
