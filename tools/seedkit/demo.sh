#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
export HOME=${HOME:-/root}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$d/demo_test.go\"}}" > "$t/o.json"
go test -vet=off $RACE -overlay "$t/o.json" -run '^TestSeedDemo$' -count=1 -timeout 200s .
