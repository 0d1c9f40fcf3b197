#!/bin/bash
# check.sh PROP            run a property's check against the repository's working tree
# check.sh --replay FILE   replay a recorded failure
# check.sh --selftest [PROP...]   determinism test
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_VERIF="${SIM_VERIF:-$here}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
unset GOFLAGS
bin="$(mktemp -d "${TMPDIR:-/tmp}/simctl.XXXXXX")" || exit 3
trap 'rm -rf "$bin"' EXIT
(cd "$here/tools" && go build -o "$bin/simctl" .) || { echo "cannot build simctl" >&2; exit 3; }
case "${1:-}" in
  --replay) "$bin/simctl" replay "$2" ;;
  --selftest) shift; "$bin/simctl" selftest "$@" ;;
  --build) "$bin/simctl" build ;;
  --setup) d="$("$bin/simctl" build)" && rm -rf "$d" ;;
  *) "$bin/simctl" check "$1" ;;
esac
