#!/bin/bash
# bash check.sh P07 [--tier thorough]   decide one property on /repo's current source
# bash check.sh replay FILE             re-run the failing input of a replay file
# bash check.sh setup                   build the verifier only
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOSUMDB=off GONOSUMDB='*'
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/evidence" "$V/.bin" || exit 2
(cd "$V/gover" && go build -o "$V/.bin/gover" .) || { echo "gover does not build" >&2; exit 2; }
case "$1" in
setup) exit 0 ;;
replay) exec "$V/.bin/gover" replay "$2" ;;
esac
P="$1"; shift
exec "$V/.bin/gover" check -verif "$V" -property "$P" "$@"
