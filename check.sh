#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and decides property ID.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error.
export HOME=${HOME:-/root}
GODIR=/opt/veriftools/go1.25.14
[ -d "$GODIR" ] && export PATH="$GODIR/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_PROP=$1 VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
work=$(mktemp -d /tmp/sigverif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$VERIF_DIR/harness/go.mod" "$VERIF_DIR/harness/go.sum" "$work/" || exit 2
# for trying planted bugs in a scratch copy only; the registered checks always use /repo
[ -n "$VERIF_REPO" ] && sed -i "s#=> /repo#=> $VERIF_REPO#" "$work/go.mod"
race=""
[ "$1" = C20 ] && race="-race"
[ -n "$VERIF_RACE" ] && race="-race"
(cd "$VERIF_DIR/harness" && go test -vet=off $race -modfile="$work/go.mod" -c -o "$work/harness.test" .) || { echo "ERROR: the harness does not build"; exit 2; }
[ -n "$VERIF_BUILDONLY" ] && exit 0
cd "$work" && ./harness.test
exit $?
