#!/bin/bash
# run.sh ID [tier]: builds the analyzer from the committed sources and decides property ID on /repo's working tree.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/xta.XXXXXX") || exit 2
trap 'rm -rf -- "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export TMPDIR=$tmp
export XTA_VERIF=$here
if ! (cd "$here/analyzer" && go build -o "$tmp/xta" .) 1>&2; then
  echo "cannot build the analyzer" >&2
  exit 2
fi
"$tmp/xta" check "$id" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p "$here/evidence"
  echo "the analyzer stopped with status $rc" >"$here/evidence/$id.violation.txt"
  echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
  rc=1
fi
exit $rc
