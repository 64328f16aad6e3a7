#!/bin/bash
# run.sh <ID>          build the harness from /repo's working tree and run the monitor of a property
# run.sh one <ID> <i>  replay case i (VERIF_SEED and VERIF_TIER as in the replay file)
# run.sh build         only build
cd "$(dirname "$0")" || exit 2
V=$PWD
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
export HOME=${HOME:-/root}
export VERIF_DIR=$V
mkdir -p .build evidence
build() { # build <output> [flags]
	out=$1
	shift
	(cd harness && go build "$@" -o "$V/.build/$out.tmp$$" .) || { echo "the harness does not build" >&2; exit 2; }
	mv "$V/.build/$out.tmp$$" "$V/.build/$out"
}
id=$1
[ "$id" = one ] && id=$2
build vh
case "$id" in
C15 | build) CGO_ENABLED=1 build vh-race -race ;;
esac
case "$1" in
build) exit 0 ;;
one)
	bin=vh
	[ "$2" = C15 ] && bin=vh-race
	exec "$V/.build/$bin" one "$2" "$3"
	;;
*) exec "$V/.build/vh" check "$1" ;;
esac
